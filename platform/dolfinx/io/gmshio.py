"""Conversion of gmsh models."""
import numpy as np
import ufl

from ..errors import MiniUnsupported, make_getattr
from ..mesh import CellType, MeshTags, create_mesh

_gmsh_to_cells = {
    1: ("interval", 1), 2: ("triangle", 1), 3: ("quadrilateral", 1), 4: ("tetrahedron", 1),
    5: ("hexahedron", 1), 8: ("interval", 2), 9: ("triangle", 2), 11: ("tetrahedron", 2),
    21: ("triangle", 3),
}


def ufl_mesh(gmsh_cell, gdim):
    if gmsh_cell not in _gmsh_to_cells:
        raise MiniUnsupported(f"gmsh cell type {gmsh_cell}")
    shape, degree = _gmsh_to_cells[int(gmsh_cell)]
    cell = ufl.Cell(shape, geometric_dimension=gdim)
    return ufl.Mesh(ufl.VectorElement("Lagrange", cell, degree, dim=gdim))


def cell_perm_array(cell_type, num_nodes):
    from ..cpp.io import perm_gmsh

    return perm_gmsh(cell_type, num_nodes)


def extract_geometry(model, name=""):
    idx, pts, _ = model.mesh.getNodes()
    pts = pts.reshape(-1, 3)
    idx = np.asarray(idx, dtype=np.int64) - 1
    srt = np.argsort(idx)
    if not np.all(idx[srt] == np.arange(len(idx))):
        raise AssertionError("gmsh nodes are not consecutively numbered")
    return pts[srt]


def _topologies(model):
    """{gmsh cell type: (connectivity, marker)} over the physical groups."""
    out = {}
    for dim, tag in model.getPhysicalGroups():
        for ent in model.getEntitiesForPhysicalGroup(dim, tag):
            types, _, nodes = model.mesh.getElements(dim, tag=ent)
            for ty, nd in zip(types, nodes):
                n = model.mesh.getElementProperties(ty)[3]
                c = np.asarray(nd, dtype=np.int64).reshape(-1, n) - 1
                out.setdefault(int(ty), []).append((c, np.full(len(c), tag)))
    return {k: (np.concatenate([a for a, _ in v]), np.concatenate([b for _, b in v]))
            for k, v in out.items()}


def model_to_mesh(model, comm, rank, gdim=3, partitioner=None, dtype=float):
    x = extract_geometry(model)
    tops = _topologies(model)
    if not tops:
        raise RuntimeError("no 'physical groups' in gmsh mesh, cannot continue")
    dims = {t: model.mesh.getElementProperties(t)[1] for t in tops}
    ct = max(tops, key=lambda t: dims[t])
    cells, tags = tops[ct]
    name = _gmsh_to_cells[ct][0]
    perm = cell_perm_array(CellType[name], cells.shape[1])
    mesh = create_mesh(comm, cells[:, perm], x[:, :gdim], ufl_mesh(ct, gdim))
    tdim = mesh.topology.dim
    orig = mesh._orig_vertex
    look = {tuple(sorted(orig[v])): i for i, v in enumerate(mesh.topology._cells)}
    nv = mesh.topology._cells.shape[1]
    pairs = {look[tuple(sorted(c[:nv]))]: t for c, t in zip(cells, tags)}
    ids = np.array(sorted(pairs))
    cell_tags = MeshTags(mesh, tdim, ids, np.array([pairs[i] for i in ids]), "Cell tags")
    fts = [t for t in tops if dims[t] == tdim - 1]
    fids, fvals = [], []
    if fts:
        mesh.topology.create_entities(tdim - 1)
        fv = mesh.topology._entities(tdim - 1)[0]
        look = {tuple(sorted(orig[v])): i for i, v in enumerate(fv)}
        for t in fts:
            for c, m in zip(*tops[t]):
                i = look.get(tuple(sorted(c[: fv.shape[1]])))
                if i is not None:
                    fids.append(i)
                    fvals.append(m)
    o = np.argsort(fids) if fids else np.zeros(0, int)
    ft = MeshTags(mesh, tdim - 1, np.array(fids, int)[o], np.array(fvals, int)[o], "Facet tags")
    return mesh, cell_tags, ft


def read_from_msh(filename, comm, rank=0, gdim=3, partitioner=None):
    import gmsh

    gmsh.initialize()
    gmsh.model.add("Mesh from file")
    gmsh.merge(str(filename))
    try:
        return model_to_mesh(gmsh.model, comm, rank, gdim)
    finally:
        gmsh.finalize()


__getattr__ = make_getattr(__name__)
