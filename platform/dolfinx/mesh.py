"""Serial meshes: topology, geometry, generators, refinement."""
from __future__ import annotations

import enum
import itertools
import os
import zlib

import numpy as np
import ufl

from .errors import MiniUnsupported, make_getattr


def _seed():
    return int(os.environ.get("MINIDOLFINX_SEED", "1"))


def rng_for(*key):
    """Deterministic generator that depends on the platform seed and on the key."""
    h = zlib.crc32(repr(key).encode())
    return np.random.default_rng([_seed(), h])


class CellType(enum.Enum):
    point = 1
    interval = 2
    triangle = 3
    tetrahedron = 4
    quadrilateral = -4
    pyramid = -5
    prism = -6
    hexahedron = -8

    @property
    def name(self):
        return self._name_


class GhostMode(enum.Enum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class DiagonalType(enum.Enum):
    left = 0
    right = 1
    crossed = 2
    shared_facet = 3
    left_right = 4
    right_left = 5


TDIM = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
REF_VERTS = {
    "interval": np.array([[0.0], [1.0]]),
    "triangle": np.array([[0.0, 0], [1, 0], [0, 1]]),
    "quadrilateral": np.array([[0.0, 0], [1, 0], [0, 1], [1, 1]]),
    "tetrahedron": np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    "hexahedron": np.array(
        [[x, y, z] for z in (0.0, 1) for y in (0.0, 1) for x in (0.0, 1)],
    ),
}
FACETS = {
    "interval": [(0,), (1,)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
    "hexahedron": [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)],
}
EDGES = {
    "interval": [(0, 1)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "tetrahedron": [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
    "hexahedron": [
        (0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7),
    ],
}
IS_SIMPLEX = {"interval", "triangle", "tetrahedron"}


class AdjacencyList:
    def __init__(self, rows):
        self._rows = rows

    def links(self, i):
        return np.asarray(self._rows[i], dtype=np.int32)

    @property
    def num_nodes(self):
        return len(self._rows)

    @property
    def array(self):
        return np.concatenate([np.asarray(r, dtype=np.int32) for r in self._rows])

    @property
    def offsets(self):
        return np.concatenate([[0], np.cumsum([len(r) for r in self._rows])]).astype(np.int32)


class IndexMap:
    def __init__(self, n):
        self.size_local = n
        self.size_global = n
        self.num_ghosts = 0
        self.local_range = (0, n)
        self.ghosts = np.zeros(0, dtype=np.int64)


class Topology:
    def __init__(self, cell_name, cells, nverts):
        self._cell = cell_name
        self.dim = TDIM[cell_name]
        self._cells = cells
        self._nverts = nverts
        self._ents = {}
        self._created = {0, self.dim}
        self._connected = set()

    # -- data used by the stand-in itself (always available)
    def _entities(self, d):
        """Return (entity -> vertices array, cell -> entities array)."""
        if d not in self._ents:
            if d == self.dim:
                self._ents[d] = (self._cells, np.arange(len(self._cells))[:, None])
            elif d == 0:
                self._ents[d] = (np.arange(self._nverts)[:, None], self._cells)
            else:
                local = EDGES[self._cell] if d == 1 else FACETS[self._cell]
                allv = np.concatenate([self._cells[:, list(f)] for f in local])
                key = np.sort(allv, axis=1)
                uniq, inv = np.unique(key, axis=0, return_inverse=True)
                inv = np.asarray(inv).reshape(-1)
                first = np.full(len(uniq), -1)
                first[inv[::-1]] = np.arange(len(inv))[::-1]
                self._ents[d] = (allv[first], inv.reshape(len(local), len(self._cells)).T)
        return self._ents[d]

    # -- DOLFINx interface
    def create_entities(self, d):
        self._entities(d)
        self._created.add(d)

    def create_connectivity(self, d0, d1):
        self.create_entities(d0)
        self.create_entities(d1)
        self._connected.add((d0, d1))

    def create_entity_permutations(self):
        pass

    def connectivity(self, d0, d1):
        if d0 == d1:
            return AdjacencyList([[i] for i in range(len(self._entities(d0)[0]))])
        if d0 == self.dim:
            return AdjacencyList(self._entities(d1)[1])
        if d1 == 0:
            return AdjacencyList(self._entities(d0)[0])
        if (d0, d1) not in self._connected:
            msg = f"Connectivity {d0}-{d1} has not been computed."
            raise RuntimeError(msg)
        n = len(self._entities(d0)[0])
        rows = [set() for _ in range(n)]
        e0, e1 = self._entities(d0)[1], self._entities(d1)[1]
        if d1 == self.dim:
            for c, r in enumerate(e0):
                for e in r:
                    rows[e].add(c)
        else:
            v1 = self._entities(d1)[0]
            v0 = self._entities(d0)[0]
            for c in range(len(e0)):
                for a in e0[c]:
                    for b in e1[c]:
                        if set(v1[b]) <= set(v0[a]) or set(v0[a]) <= set(v1[b]):
                            rows[a].add(b)
        return AdjacencyList([sorted(r) for r in rows])

    def index_map(self, d):
        if d not in self._created:
            return None
        return IndexMap(len(self._entities(d)[0]))

    def cell_name(self):
        return self._cell

    @property
    def cell_type(self):
        return CellType[self._cell]


class Geometry:
    def __init__(self, x, dofmap, gdim, degree):
        self.x = x
        self._dofmap = dofmap
        self.dim = gdim
        self.degree = degree
        self.input_global_indices = np.arange(len(x))

    @property
    def dofmap(self):
        from . import __version__

        if __version__.startswith("0.6"):
            return AdjacencyList(self._dofmap)
        return self._dofmap


class Mesh:
    def __init__(self, comm, cell_name, x, nodes, domain=None, degree=1, gdim=None):
        x = np.asarray(x, dtype=float)
        gdim = x.shape[1] if gdim is None else gdim
        x3 = np.zeros((len(x), 3))
        x3[:, : x.shape[1]] = x
        nodes = np.asarray(nodes, dtype=np.int64)
        if nodes.size == 0:
            msg = "empty mesh"
            raise RuntimeError(msg)
        used = np.unique(nodes)
        orig = used
        if len(used) != len(x3):  # dolfinx drops unconnected points
            renum = np.full(len(x3), -1)
            renum[used] = np.arange(len(used))
            x3, nodes = x3[used], renum[nodes]
        self.comm = comm
        self.name = "mesh"
        self.cell_name = cell_name
        nv = len(REF_VERTS[cell_name])
        verts = nodes[:, :nv]
        vu = np.unique(verts)
        vrenum = np.full(len(x3), -1)
        vrenum[vu] = np.arange(len(vu))
        self._vert_x = x3[vu]
        self._orig_vertex = orig[vu]  # number of the vertex in the input
        self.topology = Topology(cell_name, vrenum[verts], len(vu))
        self.geometry = Geometry(x3, nodes, gdim, degree)
        self.geometry.input_global_indices = orig
        if domain is None:
            cell = ufl.Cell(cell_name, geometric_dimension=gdim)
            domain = ufl.Mesh(ufl.VectorElement("Lagrange", cell, degree, dim=gdim))
        self._ufl_domain = domain
        self._scalar_spaces = {}
        self._cache = {}

    # -- DOLFINx interface
    def ufl_cell(self):
        return self._ufl_domain.ufl_cell()

    def ufl_domain(self):
        return self._ufl_domain

    def h(self, dim, entities):
        v = self._vert_x[self.topology._entities(dim)[0][np.asarray(entities)]]
        return np.max(np.linalg.norm(v[:, :, None] - v[:, None, :], axis=-1), axis=(1, 2))

    @property
    def basix_cell(self):
        raise MiniUnsupported("basix_cell")

    # -- internals
    @property
    def num_cells(self):
        return len(self.geometry._dofmap)

    def cell_diameter(self):
        if "h" not in self._cache:
            self._cache["h"] = self.h(self.topology.dim, np.arange(self.num_cells))
        return self._cache["h"]

    def facet_data(self):
        """Exterior (cell, local facet) and interior (cell+, lf+, cell-, lf-) lists."""
        if "facets" not in self._cache:
            d = self.topology.dim - 1
            c2f = self.topology._entities(d)[1]
            nf = c2f.max() + 1
            owners = [[] for _ in range(nf)]
            for c in range(c2f.shape[0]):
                for lf in range(c2f.shape[1]):
                    owners[c2f[c, lf]].append((c, lf))
            ext = np.array([o[0] for o in owners if len(o) == 1], dtype=int).reshape(-1, 2)
            if any(len(o) > 2 for o in owners):
                msg = "facet shared by more than two cells"
                raise RuntimeError(msg)
            inner = [o[0] + o[1] for o in owners if len(o) == 2]
            inner = np.array(inner, dtype=int).reshape(-1, 4)
            flip = rng_for("flip", len(inner)).random(len(inner)) < 0.5
            inner[flip] = inner[flip][:, [2, 3, 0, 1]]
            self._cache["facets"] = (ext, inner)
        return self._cache["facets"]


class MeshTags:
    def __init__(self, mesh, dim, indices, values, name="mesh_tags"):
        self.mesh, self.dim = mesh, dim
        self.topology = mesh.topology
        self.indices = np.asarray(indices, dtype=np.int32)
        self.values = np.asarray(values)
        self.name = name

    def find(self, value):
        return self.indices[self.values == value]


def meshtags(mesh, dim, entities, values):
    return MeshTags(mesh, dim, entities, values)


def _domain_info(domain):
    ce = domain.ufl_coordinate_element()
    return domain.ufl_cell().cellname(), ce.degree(), domain.geometric_dimension()


def create_mesh(comm, cells, x, domain, partitioner=None):
    if not isinstance(domain, ufl.Mesh):
        raise TypeError(f"create_mesh: expected a ufl.Mesh, got {type(domain)}")
    name, degree, gdim = _domain_info(domain)
    cells = np.asarray(cells)
    x = np.asarray(x, dtype=float)
    if x.ndim == 1:
        x = x.reshape(-1, 1)
    if x.shape[1] != gdim:
        msg = f"points have {x.shape[1]} coordinates, the domain has {gdim}"
        raise RuntimeError(msg)
    if cells.min() < 0 or cells.max() >= len(x):
        msg = "cell refers to a missing point"
        raise RuntimeError(msg)
    order = rng_for("cells", len(cells)).permutation(len(cells))
    return Mesh(comm, name, x, cells[order], domain=domain, degree=degree, gdim=gdim)


def _cap(n):
    cap = os.environ.get("MINIDOLFINX_CAP")
    return min(int(n), int(cap)) if cap else int(n)


def create_interval(comm, nx, points, dtype=float, ghost_mode=None, partitioner=None):
    nx = _cap(nx)
    a, b = float(points[0]), float(points[1])
    x = np.linspace(a, b, nx + 1)[:, None]
    cells = np.array([[i, i + 1] for i in range(nx)])
    order = rng_for("interval", nx).permutation(nx)
    return Mesh(comm, "interval", x, cells[order])


def create_unit_interval(comm, nx, dtype=float, ghost_mode=None, partitioner=None):
    return create_interval(comm, nx, [0.0, 1.0])


def _cell_name(ct):
    return ct.name if isinstance(ct, CellType) else str(ct)


def create_rectangle(comm, points, n, cell_type=CellType.triangle, dtype=float, ghost_mode=None,
                     partitioner=None, diagonal=DiagonalType.right):
    nx, ny = (_cap(v) for v in n)
    (x0, y0), (x1, y1) = np.asarray(points[0])[:2], np.asarray(points[1])[:2]
    xs, ys = np.linspace(x0, x1, nx + 1), np.linspace(y0, y1, ny + 1)
    x = np.array([[a, b] for b in ys for a in xs])
    cells = []
    name = _cell_name(cell_type)
    for j, i in itertools.product(range(ny), range(nx)):
        v0 = j * (nx + 1) + i
        v1, v2, v3 = v0 + 1, v0 + nx + 1, v0 + nx + 2
        if name == "quadrilateral":
            cells.append([v0, v1, v2, v3])
        elif name == "triangle":
            if diagonal == DiagonalType.left:
                cells += [[v0, v1, v2], [v1, v2, v3]]
            else:
                cells += [[v0, v1, v3], [v0, v2, v3]]
        else:
            raise MiniUnsupported(f"create_rectangle {name}")
    cells = np.array(cells)
    return Mesh(comm, name, x, cells[rng_for("rect", len(cells)).permutation(len(cells))])


def create_unit_square(comm, nx, ny, cell_type=CellType.triangle, dtype=float, ghost_mode=None,
                       partitioner=None, diagonal=DiagonalType.right):
    return create_rectangle(comm, [(0, 0), (1, 1)], [nx, ny], cell_type, diagonal=diagonal)


def create_box(comm, points, n, cell_type=CellType.tetrahedron, dtype=float, ghost_mode=None,
               partitioner=None):
    nx, ny, nz = (_cap(v) for v in n)
    p0, p1 = np.asarray(points[0], float), np.asarray(points[1], float)
    g = [np.linspace(p0[d], p1[d], m + 1) for d, m in enumerate((nx, ny, nz))]
    x = np.array([[a, b, c] for c in g[2] for b in g[1] for a in g[0]])
    name = _cell_name(cell_type)
    cells = []
    for k, j, i in itertools.product(range(nz), range(ny), range(nx)):
        v = [(k + c) * (ny + 1) * (nx + 1) + (j + b) * (nx + 1) + i + a
             for c in (0, 1) for b in (0, 1) for a in (0, 1)]
        if name == "hexahedron":
            cells.append(v)
        elif name == "tetrahedron":
            for p in itertools.permutations((1, 2, 4)):
                cells.append([v[0], v[p[0]], v[p[0] + p[1]], v[7]])
        else:
            raise MiniUnsupported(f"create_box {name}")
    cells = np.array(cells)
    return Mesh(comm, name, x, cells[rng_for("box", len(cells)).permutation(len(cells))])


def create_unit_cube(comm, nx, ny, nz, cell_type=CellType.tetrahedron, dtype=float, ghost_mode=None,
                     partitioner=None):
    return create_box(comm, [(0, 0, 0), (1, 1, 1)], [nx, ny, nz], cell_type)


def locate_entities(mesh, dim, marker):
    ok = np.asarray(marker(np.ascontiguousarray(mesh._vert_x.T)), dtype=bool)
    if ok.shape != (len(mesh._vert_x),):
        msg = "Length of array of markers is wrong."
        raise RuntimeError(msg)
    ev = mesh.topology._entities(dim)[0]
    return np.nonzero(ok[ev].all(axis=1))[0].astype(np.int32)


def locate_entities_boundary(mesh, dim, marker):
    cand = locate_entities(mesh, dim, marker)
    d = mesh.topology.dim - 1
    fv, c2f = mesh.topology._entities(d)
    cnt = np.bincount(c2f.ravel(), minlength=len(fv))
    if dim == d:
        return cand[cnt[cand] == 1]
    if dim == 0:
        bv = np.unique(fv[cnt == 1])
        return np.intersect1d(cand, bv).astype(np.int32)
    raise MiniUnsupported("locate_entities_boundary")


def exterior_facet_indices(topology):
    fv, c2f = topology._entities(topology.dim - 1)
    return np.nonzero(np.bincount(c2f.ravel(), minlength=len(fv)) == 1)[0].astype(np.int32)


def compute_midpoints(mesh, dim, entities):
    return mesh._vert_x[mesh.topology._entities(dim)[0][np.asarray(entities)]].mean(axis=1)


def compute_incident_entities(mesh_or_topology, entities, d0, d1):
    """0.6 takes the mesh, 0.7 takes the topology."""
    from . import __version__

    if __version__.startswith("0.6"):
        if not isinstance(mesh_or_topology, Mesh):
            raise TypeError("compute_incident_entities(): incompatible function arguments.")
        top = mesh_or_topology.topology
    else:
        if not isinstance(mesh_or_topology, Topology):
            raise TypeError("compute_incident_entities(): incompatible function arguments.")
        top = mesh_or_topology
    for d in (d0, d1):
        if d not in top._created:
            msg = f"Entities of dimension {d} have not been created."
            raise RuntimeError(msg)
    entities = np.asarray(entities)
    if d0 == top.dim:
        return np.unique(top._entities(d1)[1][entities]).astype(np.int32)
    vs = np.zeros(top._nverts, bool)
    vs[np.unique(top._entities(d0)[0][entities])] = True
    return np.nonzero(vs[top._entities(d1)[0]].any(axis=1))[0].astype(np.int32)


def refine(mesh, edges=None, redistribute=True, **kwargs):
    """Plaza refinement of the marked edges (all edges if none are given)."""
    top = mesh.topology
    if mesh.cell_name not in IS_SIMPLEX:
        msg = "Refinement only defined for simplices"
        raise RuntimeError(msg)
    if mesh.geometry.degree != 1:
        raise MiniUnsupported("refine of a high order mesh")
    if mesh.topology.dim > 1 and 1 not in top._created:
        msg = "Edges must be initialised"
        raise RuntimeError(msg)
    if os.environ.get("MINIDOLFINX_NO_REFINE"):
        return Mesh(mesh.comm, mesh.cell_name, mesh._vert_x[:, : mesh.geometry.dim], top._cells)
    ev, c2e = top._entities(1)
    marked = np.ones(len(ev), bool)
    if edges is not None:
        marked[:] = False
        marked[np.asarray(edges, dtype=int)] = True
    x = mesh._vert_x
    length = np.linalg.norm(x[ev[:, 0]] - x[ev[:, 1]], axis=1)
    gdim = mesh.geometry.dim
    if mesh.cell_name == "triangle":
        # longest edge of every cell; ties are broken by edge number
        le = c2e[np.arange(len(c2e)), np.argmax(np.round(length[c2e], 12), axis=1)]
        while True:
            need = marked[c2e].any(axis=1) & ~marked[le]
            if not need.any():
                break
            marked[le[need]] = True
        mid = np.full(len(ev), -1)
        mid[marked] = len(x) + np.arange(marked.sum())
        newx = np.concatenate([x, 0.5 * (x[ev[marked, 0]] + x[ev[marked, 1]])])
        cells = []
        for c in range(len(c2e)):
            if not marked[c2e[c]].any():
                cells.append(list(top._cells[c]))
                continue
            a, b = ev[le[c]]
            o = next(v for v in top._cells[c] if v not in (a, b))
            m = mid[le[c]]
            for s in (a, b):
                e = next(e for e in c2e[c] if set(ev[e]) == {s, o})
                if marked[e]:
                    cells += [[s, m, mid[e]], [m, mid[e], o]]
                else:
                    cells.append([s, m, o])
    elif mesh.cell_name == "tetrahedron":
        if not marked.all():
            raise MiniUnsupported("partial refinement of tetrahedra")
        mid = len(x) + np.arange(len(ev))
        newx = np.concatenate([x, 0.5 * (x[ev[:, 0]] + x[ev[:, 1]])])
        cells = []
        for c, v in enumerate(top._cells):
            m = {}
            for le_, e in zip(EDGES["tetrahedron"], c2e[c]):
                m[le_] = mid[e]
            v0, v1, v2, v3 = v
            m01, m02, m03 = m[(0, 1)], m[(0, 2)], m[(0, 3)]
            m12, m13, m23 = m[(1, 2)], m[(1, 3)], m[(2, 3)]
            cells += [
                [v0, m01, m02, m03], [v1, m01, m12, m13], [v2, m02, m12, m23], [v3, m03, m13, m23],
                [m01, m02, m03, m13], [m01, m02, m12, m13], [m02, m03, m13, m23], [m02, m12, m13, m23],
            ]
    else:
        mid = len(x) + np.arange(len(ev))
        newx = np.concatenate([x, 0.5 * (x[ev[:, 0]] + x[ev[:, 1]])])
        cells = []
        for c, v in enumerate(top._cells):
            e = c2e[c][0]
            if marked[e]:
                cells += [[v[0], mid[e]], [mid[e], v[1]]]
            else:
                cells.append(list(v))
    cells = np.array(cells)
    cells = cells[rng_for("refine", len(cells)).permutation(len(cells))]
    return Mesh(mesh.comm, mesh.cell_name, newx[:, :gdim], cells)


__getattr__ = make_getattr(__name__)
