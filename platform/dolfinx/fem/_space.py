"""Function spaces, functions, expressions, constants."""
from __future__ import annotations

import itertools

import numpy as np
import ufl
from mpi4py import MPI
from petsc4py import PETSc
from ufl.finiteelement import FiniteElement as UflFE
from ufl.finiteelement import MixedElement as UflMixed
from ufl.finiteelement import TensorElement as UflTensor
from ufl.finiteelement import VectorElement as UflVector

from ..errors import MiniUnsupported
from ..la import Vector
from ..mesh import AdjacencyList, IndexMap, Mesh, rng_for
from ._ref import GeomAt, lagrange

CG_NAMES = {"Lagrange", "CG", "P", "Q", "S"}
DG_NAMES = {"Discontinuous Lagrange", "DG", "DP", "DQ", "DPC", "Discontinuous"}


def leaves(e):
    """Scalar components of a UFL element, in flattened component order."""
    if isinstance(e, UflTensor):
        if e.symmetry():
            raise MiniUnsupported("symmetric tensor elements")
        n = int(np.prod(e.value_shape()))
        return leaves(e.sub_elements()[0]) * n
    if isinstance(e, (UflVector, UflMixed)):
        return [leaf for s in e.sub_elements() for leaf in leaves(s)]
    if isinstance(e, UflFE):
        fam, k = e.family(), e.degree()
        if fam in CG_NAMES and k > 0:
            return [("CG", k)]
        if fam in DG_NAMES or (fam in CG_NAMES and k == 0):
            return [("DG", k)]
    raise MiniUnsupported(f"element {e!r}")


def has_subs(e):
    return isinstance(e, UflMixed)


class ScalarSpace:
    """Numbering of a scalar space; the same for every use of (family, degree) on a mesh."""

    def __init__(self, mesh, family, k):
        basis = lagrange(mesh.cell_name, k)
        g = GeomAt(mesh, np.arange(mesh.num_cells), basis.nodes)
        pts = g.x.reshape(-1, g.gdim)
        nb = len(basis.nodes)
        if family == "DG":
            ids = np.arange(len(pts))
            rep = ids
        else:
            scale = max(np.ptp(pts, axis=0).max(), 1e-300)
            key = np.round((pts - pts.min(axis=0)) / scale * 1e9 + 0.3719).astype(np.int64)
            # points closer than 2e-9 of the mesh diameter are the same node
            from scipy.spatial import cKDTree

            tree = cKDTree(pts)
            pairs = tree.query_pairs(2e-9 * scale, output_type="ndarray")
            if len(pairs):
                from scipy.sparse import coo_matrix
                from scipy.sparse.csgraph import connected_components

                m = coo_matrix((np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])),
                               shape=(len(pts),) * 2)
                _, ids = connected_components(m, directed=False)
            else:
                ids = np.arange(len(pts))
            del key
            _, rep = np.unique(ids, return_index=True)
        self.n = int(ids.max()) + 1
        perm = rng_for("scalar", family, k, self.n, mesh.num_cells).permutation(self.n)
        self.cell_dofs = perm[ids].reshape(mesh.num_cells, nb)
        self.x = np.zeros((self.n, 3))
        self.x[perm[ids[rep]], : g.gdim] = pts[rep]
        self.basis = basis
        self.family, self.k = family, k


def scalar_space(mesh, family, k):
    key = (family, k)
    if key not in mesh._scalar_spaces:
        mesh._scalar_spaces[key] = ScalarSpace(mesh, family, k)
    return mesh._scalar_spaces[key]


class _DofMap:
    def __init__(self, V):
        self._V = V
        self.index_map = IndexMap(V.num_dofs)
        self.index_map_bs = 1
        self.bs = 1

    def cell_dofs(self, c):
        return np.concatenate(
            [d[s.cell_dofs[c]] for d, s in zip(self._V.comp_dofs, self._V.scalars)]
        ).astype(np.int32)

    @property
    def list(self):
        rows = np.concatenate(
            [d[s.cell_dofs] for d, s in zip(self._V.comp_dofs, self._V.scalars)], axis=1)
        return AdjacencyList(rows.astype(np.int32))


class _Element:
    def __init__(self, V):
        self._V = V
        self.num_sub_elements = V.num_sub_spaces

    def interpolation_points(self):
        ks = {s.k for s in self._V.scalars}
        if len(ks) != 1:
            msg = "Cannot get interpolation points of a mixed element."
            raise RuntimeError(msg)
        return self._V.scalars[0].basis.nodes

    @property
    def space_dimension(self):
        return sum(len(s.basis.nodes) for s in self._V.scalars)

    @property
    def basix_element(self):
        raise MiniUnsupported("basix_element")


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, element, _comp_dofs=None, _num_dofs=None, _parent=None, _component=()):
        if not isinstance(mesh, Mesh):
            raise TypeError(f"FunctionSpace: expected a mesh, got {type(mesh)}")
        if not isinstance(element, ufl.finiteelement.FiniteElementBase):
            try:
                family, degree, *rest = element
            except TypeError as e:
                raise MiniUnsupported(f"element {element!r}") from e
            if rest and rest[0] not in (None, ()):
                shape = rest[0]
                if isinstance(shape, int) or len(shape) == 1:
                    n = shape if isinstance(shape, int) else shape[0]
                    element = ufl.VectorElement(family, mesh.ufl_cell(), degree, dim=n)
                else:
                    element = ufl.TensorElement(family, mesh.ufl_cell(), degree, shape=shape)
            else:
                element = ufl.FiniteElement(family, mesh.ufl_cell(), degree)
        super().__init__(mesh.ufl_domain(), element)
        self._mesh = mesh
        self._leaves = leaves(element)
        self.scalars = [scalar_space(mesh, *lf) for lf in self._leaves]
        self._parent, self._component = _parent, _component
        if _comp_dofs is not None:
            self.comp_dofs, self.num_dofs = _comp_dofs, _num_dofs
        else:
            self.num_dofs = sum(s.n for s in self.scalars)
            off = np.concatenate([[0], np.cumsum([s.n for s in self.scalars])])
            if len(self.scalars) == 1:
                perm = np.arange(self.num_dofs)
            else:
                perm = rng_for("space", repr(element), self.num_dofs).permutation(self.num_dofs)
            self.comp_dofs = [perm[off[c]: off[c + 1]] for c in range(len(self.scalars))]
        self._sub_cache = {}

    # identity: spaces and their sub-spaces
    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, FunctionSpace):
            return False
        return (self._mesh is other._mesh and self._root() is other._root()
                and self._component == other._component)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((id(self._root()), self._component))

    def _root(self):
        return self if self._parent is None else self._parent._root()

    def __repr__(self):
        return f"FunctionSpace({self._ufl_element!r}, {id(self._root())}, {self._component})"

    @property
    def mesh(self):
        return self._mesh

    @property
    def num_sub_spaces(self):
        e = self.ufl_element()
        return len(e.sub_elements()) if has_subs(e) else 0

    def sub(self, i):
        e = self.ufl_element()
        if not has_subs(e) or isinstance(e, UflTensor):
            msg = "Cannot extract subspace: the space has no sub-spaces."
            raise RuntimeError(msg)
        subs = e.sub_elements()
        if not 0 <= i < len(subs):
            msg = f"Cannot extract sub-space {i}: out of range."
            raise RuntimeError(msg)
        o = sum(len(leaves(s)) for s in subs[:i])
        n = len(leaves(subs[i]))
        return FunctionSpace(
            self._mesh, subs[i], self.comp_dofs[o: o + n], self.num_dofs, self,
            self._component + (int(i),))

    def component(self):
        return list(self._component)

    def collapse(self):
        if self._parent is None:
            msg = "Function space cannot be collapsed: not a sub-space"
            raise RuntimeError(msg)
        W = FunctionSpace(self._mesh, self.ufl_element())
        m = np.empty(W.num_dofs, dtype=np.int32)
        for mine, theirs in zip(self.comp_dofs, W.comp_dofs):
            m[theirs] = mine
        return W, m

    def clone(self):
        return FunctionSpace(self._mesh, self.ufl_element())

    @property
    def dofmap(self):
        return _DofMap(self)

    @property
    def element(self):
        return _Element(self)

    def tabulate_dof_coordinates(self):
        if self._parent is not None:
            msg = "Cannot tabulate coordinates for a FunctionSpace that is a subspace."
            raise RuntimeError(msg)
        x = np.zeros((self.num_dofs, 3))
        for d, s in zip(self.comp_dofs, self.scalars):
            x[d] = s.x
        return x

    def contains(self, other):
        return other._root() is self._root() and other._component[: len(self._component)] == self._component


def VectorFunctionSpace(mesh, element, dim=None):
    family, degree = element[0], element[1]
    return FunctionSpace(mesh, ufl.VectorElement(family, mesh.ufl_cell(), degree, dim=dim))


def TensorFunctionSpace(mesh, element, shape=None, symmetry=None):
    family, degree = element[0], element[1]
    return FunctionSpace(
        mesh, ufl.TensorElement(family, mesh.ufl_cell(), degree, shape=shape, symmetry=symmetry))


def functionspace(mesh, element, *args):
    return FunctionSpace(mesh, element)


class Constant(ufl.Constant):
    def __init__(self, domain, c):
        c = np.asarray(c)
        super().__init__(domain, c.shape)
        self._value = np.array(c, dtype=PETSc.ScalarType)

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        np.copyto(self._value, np.asarray(v))

    def __float__(self):
        if self.ufl_shape:
            raise TypeError("Cannot evaluate a nonscalar Constant as a scalar.")
        return float(self._value)

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


class Expression:
    def __init__(self, e, X, comm=None, form_compiler_options=None, jit_options=None, dtype=None):
        self._ufl_expression = ufl.as_ufl(e)
        self.X_ = np.asarray(X)

    def X(self):
        return self.X_

    @property
    def ufl_expression(self):
        return self._ufl_expression

    def eval(self, mesh, cells):
        from ._eval import eval_at

        vals = eval_at(mesh, self._ufl_expression, cells, self.X_)  # (ncomp, n, nq)
        return np.moveaxis(vals, 0, -1).reshape(len(cells), -1)


class Function(ufl.Coefficient):
    def __init__(self, V, x=None, name=None, dtype=None):
        if not isinstance(V, FunctionSpace):
            raise TypeError(f"Function: expected a FunctionSpace, got {type(V)}")
        super().__init__(V)
        self._V = V
        if x is None:
            x = Vector(np.zeros(V.num_dofs, dtype=PETSc.ScalarType))
        elif not isinstance(x, Vector):
            raise MiniUnsupported("Function(V, x) with x not a la.Vector")
        self._x = x
        self.name = name if name is not None else f"f_{self.count()}"
        self._petsc_x = None

    # ------------------------------------------------------------- data
    @property
    def function_space(self):
        return self._V

    @property
    def x(self):
        return self._x

    @property
    def dtype(self):
        return self._x.array.dtype

    @property
    def vector(self):
        if self._petsc_x is None:
            self._petsc_x = PETSc.Vec().createWithArray(self._x.array, comm=self._V.mesh.comm)
        return self._petsc_x

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)

    def ufl_evaluate(self, x, component, derivatives):
        raise MiniUnsupported("ufl_evaluate of a Function")

    def copy(self):
        f = Function(self._V, Vector(self._x.array.copy()))
        return f

    @property
    def num_sub_spaces(self):
        return self._V.num_sub_spaces

    def sub(self, i):
        return Function(self._V.sub(i), self._x, name=f"{self.name}_{i}")

    def split(self):
        n = self._V.num_sub_spaces
        if n == 0:
            msg = "No subfunctions to extract"
            raise RuntimeError(msg)
        return tuple(self.sub(i) for i in range(n))

    def collapse(self):
        W, m = self._V.collapse()
        f = Function(W)
        f.x.array[:] = self._x.array[m]
        return f

    # ------------------------------------------------------------- interpolation
    def _set_comp(self, c, cells, vals):
        """vals: (ncells, nb) values of component c at its nodes, cell by cell."""
        s, d = self._V.scalars[c], self._V.comp_dofs[c]
        self._x.array[d[s.cell_dofs[cells].ravel()]] = vals.ravel()

    def interpolate(self, u, cells=None, nmm_interpolation_data=None, **kw):
        V = self._V
        mesh = V.mesh
        if cells is None:
            cells = np.arange(mesh.num_cells)
        cells = np.asarray(cells)
        ks = {s.k for s in V.scalars}
        if isinstance(u, Function):
            if len(u._V.scalars) != len(V.scalars):
                msg = "Interpolation: elements have different value dimensions"
                raise RuntimeError(msg)
            if u._V.mesh is mesh:
                for c in range(len(V.scalars)):
                    s = u._V.scalars[c]
                    t = s.basis.tab(V.scalars[c].basis.nodes, (0,) * mesh.topology.dim)
                    loc = u._x.array[u._V.comp_dofs[c][s.cell_dofs[cells]]]
                    self._set_comp(c, cells, loc @ t.T)
            else:
                for c in range(len(V.scalars)):
                    s = V.scalars[c]
                    touched = np.unique(s.cell_dofs[cells])
                    pts = s.x[touched]
                    vals, found = eval_points(u, pts, comps=[c])
                    # points outside the source mesh get 0, as in DOLFINx 0.6
                    self._x.array[V.comp_dofs[c][touched]] = np.where(found, vals[:, 0], 0.0)
            return
        if isinstance(u, Expression):
            if len(ks) != 1:
                msg = "Cannot interpolate an Expression into a mixed space"
                raise RuntimeError(msg)
            nodes = V.scalars[0].basis.nodes
            if u.X_.shape != nodes.shape or not np.allclose(u.X_, nodes):
                msg = "Function element interpolation points and Expression points differ"
                raise RuntimeError(msg)
            from ._eval import eval_at

            vals = eval_at(mesh, u._ufl_expression, cells, nodes)
            if len(vals) != len(V.scalars):
                msg = "Function value size not equal to Expression value size"
                raise RuntimeError(msg)
            for c in range(len(V.scalars)):
                self._set_comp(c, cells, vals[c])
            return
        if isinstance(u, ufl.core.expr.Expr) or not callable(u):
            raise TypeError(f"interpolate(): unsupported argument of type {type(u)}")
        if len(ks) != 1:
            msg = "Cannot interpolate a callable into a mixed space"
            raise RuntimeError(msg)
        nodes = V.scalars[0].basis.nodes
        g = GeomAt(mesh, cells, nodes)
        x = np.zeros((3, g.x.shape[0] * g.x.shape[1]))
        x[: g.gdim] = g.x.reshape(-1, g.gdim).T
        vals = np.asarray(u(x))
        nv = len(V.scalars)
        if vals.ndim == 1:
            if nv != 1:
                msg = "Interpolation data has the wrong shape/size."
                raise RuntimeError(msg)
            vals = vals[None, :]
        if vals.shape[0] != nv and vals.ndim > 2:
            vals = vals.reshape(nv, -1)
        if vals.shape != (nv, x.shape[1]):
            msg = f"Interpolation data has the wrong shape/size: {vals.shape}"
            raise RuntimeError(msg)
        for c in range(nv):
            self._set_comp(c, cells, vals[c].reshape(len(cells), -1))

    def eval(self, x, cells, u=None):
        x = np.atleast_2d(np.asarray(x, float))
        cells = np.atleast_1d(cells)
        out = np.zeros((len(x), len(self._V.scalars)))
        for i, (p, c) in enumerate(zip(x, cells)):
            if c < 0:
                continue
            X = pull_back(self._V.mesh, np.array([c]), p[None, : self._V.mesh.geometry.dim])
            for k, s in enumerate(self._V.scalars):
                t = s.basis.tab(X, (0,) * self._V.mesh.topology.dim)[0]
                out[i, k] = t @ self._x.array[self._V.comp_dofs[k][s.cell_dofs[c]]]
        return out[0] if len(out) == 1 else out


def pull_back(mesh, cells, x):
    """Reference coordinates of point x[i] in cell cells[i] (Newton)."""
    d = mesh.topology.dim
    from ..mesh import REF_VERTS

    X = np.repeat(REF_VERTS[mesh.cell_name].mean(axis=0)[None, :], len(cells), axis=0)
    for _ in range(30):
        g = GeomAt(mesh, cells, X[:, None, :])
        r = x - g.x[:, 0]
        dX = np.einsum("nji,ni->nj", g.K[:, 0], r)
        X = X + np.clip(dX, -2, 2)
        if np.abs(dX).max(initial=0) < 1e-14 or g.affine and _ > 0:
            break
    return X.reshape(len(cells), d)


def _inside(mesh, X, tol):
    ok = (X > -tol).all(axis=1)
    if mesh.cell_name in ("triangle", "tetrahedron", "interval"):
        return ok & (X.sum(axis=1) < 1 + tol)
    return ok & (X < 1 + tol).all(axis=1)


def find_cells(mesh, pts, tol=1e-9):
    """One containing cell per point (-1 if none)."""
    memo = mesh.__dict__.setdefault("_found_cells", {})
    key = (np.ascontiguousarray(pts, float).tobytes(), mesh.geometry.x.tobytes(), tol)
    if key not in memo:
        while len(memo) >= 4:
            memo.pop(next(iter(memo)))
        memo[key] = _find_cells(mesh, np.asarray(pts, float), tol)
    return memo[key].copy()


def _find_cells(mesh, pts, tol):
    d = mesh.geometry.dim
    nodes = mesh.geometry.x[mesh.geometry._dofmap][:, :, :d]
    lo, hi = nodes.min(axis=1), nodes.max(axis=1)
    pad = 0.3 * (hi - lo) if mesh.geometry.degree > 1 else 1e-9 * (hi - lo).max()
    lo, hi = lo - pad, hi + pad
    out = np.full(len(pts), -1)
    order = rng_for("collide", mesh.num_cells).permutation(mesh.num_cells)
    for i, p in enumerate(pts):
        cand = order[np.nonzero(((p[:d] >= lo) & (p[:d] <= hi)).all(axis=1)[order])[0]]
        if len(cand) == 0:
            continue
        X = pull_back(mesh, cand, np.repeat(p[None, :d], len(cand), axis=0))
        ok = np.nonzero(_inside(mesh, X, tol))[0]
        if len(ok):
            out[i] = cand[ok[0]]
    return out


def eval_points(u, pts, comps=None):
    """Values of a Function at points: (npts, ncomps), found mask."""
    V = u._V
    mesh = V.mesh
    comps = range(len(V.scalars)) if comps is None else comps
    pts = np.asarray(pts, float)
    cells = find_cells(mesh, pts)
    found = cells >= 0
    out = np.full((len(pts), len(list(comps))), np.nan)
    if found.any():
        X = pull_back(mesh, cells[found], pts[found][:, : mesh.geometry.dim])
        for j, c in enumerate(comps):
            s = V.scalars[c]
            t = s.basis.tab(X, (0,) * mesh.topology.dim)
            out[found, j] = (t * u._x.array[V.comp_dofs[c][s.cell_dofs[cells[found]]]]).sum(axis=1)
    return out, found


_ = (itertools, MPI)
