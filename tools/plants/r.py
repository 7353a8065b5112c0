"""Files of the mesh generators, depth and size of meshes."""
from pathlib import Path
from lib import plant
MT=Path('/tmp/plants/mt.py').read_text()
READ='''
"""Read the first grid of an XDMF file (points, cells, cell values)."""
import os
import xml.etree.ElementTree as ET

import numpy as np


def grid(name):
    def data(item):
        dims = [int(s) for s in item.get("Dimensions").split()]
        if item.get("Format", "XML").upper() == "HDF":
            import h5py

            file, path = item.text.strip().split(":")
            with h5py.File(os.path.join(os.path.dirname(os.path.abspath(name)), file), "r") as f:
                return np.array(f[path]).reshape(dims)
        return np.array(item.text.split(), dtype=float).reshape(dims)

    g = next(ET.parse(name).getroot().iter("Grid"))
    n = {"triangle": 3, "polyline": 2}[g.find("Topology").get("TopologyType").lower()]
    a = g.find("Attribute")
    x = data(g.find("Geometry").find("DataItem")).astype(float)
    return x[data(g.find("Topology").find("DataItem")).astype(int).reshape(-1, n)], None if a is None else data(a.find("DataItem")).ravel()
'''
def M(pid,prop,edits,demo,needs,breaks,**kw):
    plant(pid,prop,'src/dxss/meshes.py',edits,'import numpy as np\n\nimport dxss.meshes as dm\nfrom mt import area, tri\nfrom rd import grid\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'mt.py':MT,'rd.py':READ},**kw)
M('m06-near-border','M06',[('                or np.isclose(com[1], 0)\n','                or com[1] < 0.02\n',4)],'''
for eta in (0.6, 0.26):
    m = dm.get_mesh_hierarchy_fitted_disc(0, eta, h_init=3.0)[0]
    e, v = grid("mt.xdmf")
    on = sum((np.abs(e[:, :, d] - w) < 1e-9).all(axis=1) for d in (0, 1) for w in (0, 1)) > 0
    assert on.all(), f"{(~on).sum()} edges in the interior are marked as the border for eta = {eta}"
''','an interface position below 0.27','an inner line close to the bottom is marked as part of the border')
M('m06-first-file-kept','M06',[('''    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


@closes_gmsh_on_failure
def get_mesh_bottom_data''','''    if _written.get("mesh.xdmf") != x.shape:
        _written["mesh.xdmf"] = x.shape
        with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
            xdmf.write_mesh(msh)
    return msh


@closes_gmsh_on_failure
def get_mesh_bottom_data'''),('GM = GhostMode.shared_facet\n','GM = GhostMode.shared_facet\n_written = {}  # what the mesh files hold\n')],'''
for y_r in (0.9, 0.91):
    m = dm.get_mesh_inclusion_square(h_init=6.0, y_r=y_r, eta=0.3)
    p = grid("mesh.xdmf")[0].reshape(-1, 2)
    q = tri(m)[:, :, :2].reshape(-1, 2)
    gap = max(np.abs(q[:, None] - p[None]).sum(axis=2).min(axis=1))
    assert gap < 1e-9, f"mesh.xdmf is not the mesh for y_r = {y_r}: {gap}"
''','two meshes with as many points as each other from one process','the file keeps the earlier mesh')
M('m06-same-centre','M06',[('''        its = 1
        for surface in gmsh.model.getEntities(dim=2):
            com = gmsh.model.occ.getCenterOfMass(surface[0], surface[1])
            print(com)
            gmsh.model.addPhysicalGroup(2, [surface[1]], its)
            its += 1
''','''        pieces = {}
        for surface in gmsh.model.getEntities(dim=2):
            com = gmsh.model.occ.getCenterOfMass(surface[0], surface[1])
            print(com)
            pieces.setdefault(tuple(np.round(com, 1)), []).append(surface[1])
        for its, surfaces in enumerate(pieces.values(), start=1):
            gmsh.model.addPhysicalGroup(2, surfaces, its)
''',1)],'''
bad = []
for eta in (0.6, *np.round(np.arange(0.27, 0.95, 0.01), 2)):
    m = dm.get_mesh_hierarchy_fitted_disc(0, float(eta), h_init=6.0)[0]
    e, v = grid("mesh.xdmf")
    for lo, hi in (((-1, -1), (2, eta)), ((0.1, 0.25), (0.9, 0.95)), ((0.1, 0.25), (0.9, eta))):
        inner = ((e.mean(axis=1) > lo) & (e.mean(axis=1) < hi)).all(axis=1)
        if set(v[inner]) & set(v[~inner]):
            bad.append(eta)
assert not bad, f"one marker on both sides of an interface for eta in {sorted(set(bad))}"
''','an interface position for which two subregions have almost the same centre of mass','the two subregions carry the same marker')
M('m06-refined-file','M06',[('''        print(edges)
        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)

    return mesh_hierarchy
''','''        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)
    if len(mesh_hierarchy) > 2:
        with XDMFFile(mesh.comm, "mesh.xdmf", "w") as xdmf:
            xdmf.write_mesh(mesh)

    return mesh_hierarchy
''')],'''
for n in (0, 2):
    ms = dm.get_mesh_hierarchy_nonconvex(n, init_h_scale=5.0)
    e, v = grid("mesh.xdmf")
    assert len(e) == len(tri(ms[0])) and v is not None, "mesh.xdmf does not hold the marked coarsest mesh"
''','at least two refinements','the finest mesh, without markers, replaces the marked mesh in the file')
M('m03-factor-floor','M03',[('''    gmsh.initialize()
    gmsh.model.add("inclm")
    gmsh.option.setNumber("Mesh.MeshSizeFactor", h_init)

''','''    gmsh.initialize()
    gmsh.model.add("inclm")
    gmsh.option.setNumber("Mesh.MeshSizeFactor", max(h_init, 0.5))

''')],'''
a = dm.get_mesh_bottom_data(h_init=0.5)
b = dm.get_mesh_bottom_data(h_init=0.25)
assert len(tri(b)) > 2 * len(tri(a)), "half the size factor gives the same mesh"
''','a size factor below one half','the size factor is silently limited from below')
M('m03-levels-kept','M03',[('''    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        edges = compute_incident_entities(mesh, cells, 2, 1)
        mesh = refine(mesh, edges, redistribute=True)
''','''    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        edges = compute_incident_entities(mesh, cells[:10000], 2, 1)
        mesh = refine(mesh, edges, redistribute=True)
''')],'''
ms = dm.get_mesh_hierarchy(5 if len(tri(dm.create_initial_mesh_convex(init_h_scale=3.0))) < 200 else 4, init_h_scale=3.0)
n = [len(tri(m)) for m in ms]
assert all(b == 4 * a for a, b in zip(n, n[1:])), n
''','a mesh of more than ten thousand cells','only the first ten thousand cells are refined') if 0 else None
HEAD='''
import os
from pathlib import Path

import numpy as np


def example(name, **constants):
    src = (Path(os.environ["DXSS_SRC"]) / "dxss" / f"{name}.py").read_text()
    out = []
    for ln in src.splitlines():
        k = ln.split(" =")[0]
        out.append(f"{k} = {constants[k]!r}" if k in constants and not ln.startswith(" ") else ln)
    ns = {"__name__": "example"}
    exec("\\n".join(out), ns)
    return ns


'''
def E(pid,file,edits,demo,needs,breaks): plant(pid,'D04',f'src/dxss/{file}.py',edits,HEAD.lstrip('\n')+demo.lstrip('\n'),needs,breaks,platform=True)
E('d04-name-of-first-order','solve_3d',[('name=f"abserr-cube-GCC-order{ORDER}"','name=f"abserr-cube-GCC-order{q}"')],'''
ns = example("solve_3d", REF_LVL=0, ORDER=2, q=1)
ns["solve_problem"](measure_errors=True)
assert any(f.endswith("order2.xdmf") for f in os.listdir(".")), os.listdir(".")
''','a time degree that differs from the order','the export is named after the time degree: runs of different order overwrite each other') if 0 else None
E('d04-late-stop','solve_3d',[('''    end = time.time()
    print("elapsed time  " + str(end - start) + " seconds")

    if measure_errors:
        ST.plot_para_view(u_sol, name=f"abserr-cube-GCC-order{ORDER}")
        ST.measured_errors(u_sol)
''','''    if measure_errors:
        ST.plot_para_view(u_sol, name=f"abserr-cube-GCC-order{ORDER}")
        ST.measured_errors(u_sol)

    end = time.time()
    print("elapsed time  " + str(end - start) + " seconds")
''')],'''
import contextlib
import io
import re
import time

import dxss.space_time as S

plain = S.SpaceTime.measured_errors


def slow(self, *a, **k):
    time.sleep(5)
    return plain(self, *a, **k)


S.SpaceTime.measured_errors = slow
ns = example("solve_3d", REF_LVL=0)
text = io.StringIO()
begin = time.time()
with contextlib.redirect_stdout(text):
    ns["solve_problem"](measure_errors=True)
took = time.time() - begin
t = float(re.search(r"elapsed time +([^ ]+) ", text.getvalue()).group(1))
assert t < took - 4.5, f"{t} s printed; all together, with 5 s of error measurement, took {took} s"
''','error measurement requested, and slow','the time printed includes the error measurement and the export')
E('d04-direct-unmeasured','solve_2d',[('''        solver_space_time.solve(b_rhs, u_sol)

    end = time.time()
    print("elapsed time  " + str(end - start) + " seconds")

    if measure_errors:
        ST.measured_errors(u_sol)
''','''        solver_space_time.solve(b_rhs, u_sol)

    end = time.time()
    print("elapsed time  " + str(end - start) + " seconds")

    if measure_errors or SOLVER_TYPE not in ("pypardiso", "petsc-LU"):
        ST.measured_errors(u_sol)
''')],'''
import dxss.space_time as S

n = []
plain = S.SpaceTime.measured_errors
S.SpaceTime.measured_errors = lambda self, *a, **k: (n.append(1), plain(self, *a, **k))[1]
ns = example("solve_2d", REF_LVL=0, ORDER=1)
ns["solve_problem"]()
ns["SOLVER_TYPE"] = "direct"
ns["solve_problem"]()
assert not n, "errors are measured although this was not asked for"
''','the all-at-once direct back end, errors not requested','the errors are measured and printed although this was not asked for')
E('d04-figure-of-data','solve_1d',[('''        ST.plot_error(u_sol, n_space=500, n_time_subdiv=20)
''','''        ST.plot_error(u_sol if printed else b_rhs, n_space=500, n_time_subdiv=20)
''')],'','','') if 0 else None
E('d04-cpu-time','solve_1d',[('    start = time.time()\n','    start = time.process_time()\n'),('    end = time.time()\n','    end = time.process_time()\n')],'''
import contextlib
import io
import re
import time

import dxss.space_time as S

plain = S.SpaceTime.set_solver_slab


def slow(self, *a, **k):
    time.sleep(3)
    return plain(self, *a, **k)


S.SpaceTime.set_solver_slab = slow
ns = example("solve_1d", N=4)
text = io.StringIO()
with contextlib.redirect_stdout(text):
    ns["solve_problem"]()
t = float(re.search(r"elapsed time +([^ ]+) ", text.getvalue()).group(1))
assert t > 2.9, f"{t} s printed, it took more than 3 s"
''','a solve that waits (for the disk, or for other threads or ranks)','the processor time of one thread is printed instead of the elapsed time')
