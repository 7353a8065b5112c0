from pathlib import Path
from lib import plant
MT=Path('/tmp/plants/mt.py').read_text()
def M(pid,prop,edits,demo,needs,breaks,cmd=None):
    kw={} if cmd is None else {'cmd':cmd}
    plant(pid,prop,'src/dxss/meshes.py',edits,'import numpy as np\n\nimport dxss.meshes as dm\nfrom mt import area, tri\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'mt.py':MT},**kw)
M('m04-partial-hierarchy','M04',[('''        mesh.topology.create_entities(2)
        mesh.topology.create_entities(1)
        mesh = refine(mesh)
        mesh_hierarchy.append(mesh)
''','''        mesh.topology.create_entities(2)
        mesh.topology.create_entities(1)
        try:
            mesh = refine(mesh)
        except (MemoryError, RuntimeError):
            print("could not refine further")
            break
        mesh_hierarchy.append(mesh)
''')],"""
from unittest import mock

with mock.patch.object(dm, "refine", side_effect=MemoryError()):
    try:
        got = dm.get_3d_mesh_data_all_around(1, init_h_scale=5.0)
    except MemoryError:
        got = None
assert got is None, f"{len(got)} meshes returned although the refinement failed"
""",'the refinement of the three-dimensional mesh fails (no memory)','the failure is swallowed and a shorter hierarchy returned')
M('m04-incomplete-list','M04',[('''    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")
''','''    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")
''',0)] if 0 else [('def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915\n','_started = []  # size factors for which the geometry has been built in this session\n\n\ndef create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915\n    if init_h_scale in _started:\n        with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:\n            return xdmf.read_mesh(name="Grid", ghost_mode=GM)\n    _started[:] = [init_h_scale]\n')] if 0 else [('''    meshes = []
    for j in range(n_ref):
        h_scale_j = init_h_scale / (2**j)
        meshes.append(create_initial_mesh_convex(init_h_scale=h_scale_j))
    return meshes
''','''    key = (n_ref, init_h_scale)
    if key not in _lists:
        _lists[key] = []
        for j in range(n_ref):
            h_scale_j = init_h_scale / (2**j)
            _lists[key].append((h_scale_j, create_initial_mesh_convex(h_scale_j)))
    # copies, as the user may move the points of the returned meshes
    return [copy.deepcopy(mesh) for _, mesh in _lists[key]]
'''),('import gmsh\nimport numpy','import copy\n\nimport gmsh\nimport numpy'),('def get_mesh_convex(','_lists = {}\n\n\ndef get_mesh_convex(')],"""
from unittest import mock

real, calls = dm.create_initial_mesh_convex, []


def second_fails(*a, **kw):
    calls.append(1)
    if len(calls) == 2:
        raise KeyboardInterrupt
    return real(*a, **kw)


with mock.patch.object(dm, "create_initial_mesh_convex", second_fails):
    try:
        dm.get_mesh_convex(2, init_h_scale=6.0)
    except KeyboardInterrupt:
        pass
got = dm.get_mesh_convex(2, init_h_scale=6.0)
assert len(got) == 2, f"{len(got)} of two meshes"
""",'a call for a list of meshes is interrupted after its first mesh and repeated with the same arguments','the incomplete list of the interrupted call is returned')
