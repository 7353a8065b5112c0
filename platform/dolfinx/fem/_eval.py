"""Interpretation of (lowered) UFL expressions on sets of cells or facets."""
from __future__ import annotations

import math

import numpy as np
import ufl
from scipy import special
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from ufl.algorithms.remove_complex_nodes import remove_complex_nodes
from ufl.classes import (
    Abs, AndCondition, Argument, Atan2, BesselFunction, CellAvg, CellDiameter, CellVolume, Circumradius,
    Coefficient, ComponentTensor, Conditional, Constant, Division, EQ, FacetArea, FacetAvg, FacetNormal,
    FixedIndex, FloatValue, GE, GT, Grad, Identity, Indexed, IndexSum, IntValue, LE, ListTensor, LT, MathFunction,
    MaxFacetEdgeLength, MaxValue, MinFacetEdgeLength, MinValue, MinCellEdgeLength, MaxCellEdgeLength, NE,
    NegativeRestricted, NotCondition, OrCondition, PositiveRestricted, Power, Product, SpatialCoordinate, Sum,
    Variable, Zero, Jacobian, JacobianDeterminant, JacobianInverse,
)

from ..errors import MiniUnsupported
from ..mesh import EDGES, FACETS, REF_VERTS
from ._ref import GeomAt, facet_ref_jac, facet_ref_normal, facet_shape, quadrature, FACET_CELL


class ArityMismatch(Exception):
    pass


def lower(expr):
    expr = apply_algebra_lowering(expr)
    expr = remove_complex_nodes(expr)
    expr = apply_derivatives(expr)
    expr = apply_algebra_lowering(expr)
    return apply_derivatives(expr)


# -------------------------------------------------------------- multilinear values
# A value without arguments is a float or an array broadcastable to (n, nq).
# A value with arguments is a dict {(factor, ...): coefficient}, one factor per argument:
# factor = (number, component, directions, side).
def is_ml(a):
    return isinstance(a, dict)


def is_zero(a):
    return not is_ml(a) and isinstance(a, (int, float)) and a == 0


def add(a, b):
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    if is_ml(a) and is_ml(b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] + v if k in out else v
        return out
    if is_ml(a) or is_ml(b):
        msg = "Adding expressions with non-matching form arguments."
        raise ArityMismatch(msg)
    return a + b


def mul(a, b):
    if is_zero(a) or is_zero(b):
        return 0.0
    if is_ml(a) and is_ml(b):
        out = {}
        for k, v in a.items():
            for m, w in b.items():
                nums = [f[0] for f in k + m]
                if len(set(nums)) != len(nums):
                    msg = "Multiplying expressions with overlapping form argument number."
                    raise ArityMismatch(msg)
                key = tuple(sorted(k + m))
                c = v * w
                out[key] = out[key] + c if key in out else c
        return out
    if is_ml(b):
        a, b = b, a
    if is_ml(a):
        return {k: v * b for k, v in a.items()}
    return a * b


class Ctx:
    """Cells (kind 'cell') or facets ('ext', 'int') with quadrature points."""

    def __init__(self, mesh, kind, cells, geoms, weights, lfs=None):
        self.mesh, self.kind = mesh, kind
        self.cells = cells  # {side: cell indices}
        self.geoms = geoms  # {side: GeomAt}
        self.weights = weights  # (n, nq) including the measure
        self.lfs = lfs
        self._tabs = {}
        self._unit = {}
        self._fn = {}
        self._normals = {}

    @classmethod
    def on_cells(cls, mesh, cells, degree=None, points=None):
        if points is None:
            pts, w = quadrature(mesh.cell_name, degree)
        else:
            pts, w = points, np.zeros(len(points))
        g = GeomAt(mesh, cells, pts)
        return cls(mesh, "cell", {"": np.asarray(cells)}, {"": g}, np.abs(g.detJ) * w)

    @classmethod
    def on_facets(cls, mesh, kind, facets, degree):
        cell = mesh.cell_name
        pts, w = quadrature(FACET_CELL[cell], degree)
        sh = facet_shape(cell, pts)  # (nq, nfv)
        sides = {"": (facets[:, 0], facets[:, 1])} if kind == "ext" else {
            "+": (facets[:, 0], facets[:, 1]), "-": (facets[:, 2], facets[:, 3])}
        rv = REF_VERTS[cell]
        fac = np.array([list(f) for f in FACETS[cell]])
        cv = mesh.topology._cells
        geoms, cells, lfs = {}, {}, {}
        first = None
        for side, (cs, lf) in sides.items():
            loc = fac[lf]  # (nf, nfv) local vertices
            if first is None:
                glob = np.take_along_axis(cv[cs], loc, axis=1)
                first = glob
            else:  # same physical vertices, in the order of the '+' side
                mine = np.take_along_axis(cv[cs], loc, axis=1)
                pos = (mine[:, None, :] == first[:, :, None]).argmax(axis=2)
                if not (np.take_along_axis(mine, pos, axis=1) == first).all():
                    msg = "non-matching facets"
                    raise RuntimeError(msg)
                loc = np.take_along_axis(loc, pos, axis=1)
            X = np.einsum("qv,nvi->nqi", sh, rv[loc])
            geoms[side], cells[side], lfs[side] = GeomAt(mesh, cs, X), cs, lf
        s0 = next(iter(sides))
        jac = np.array([facet_ref_jac(cell, i) for i in range(len(fac))])
        nref = np.array([facet_ref_normal(cell, i) for i in range(len(fac))])
        g, lf = geoms[s0], lfs[s0]
        nv = np.einsum("nqji,nj->nqi", g.K, nref[lf])
        scale = np.abs(g.detJ) * np.linalg.norm(nv, axis=2)
        self = cls(mesh, kind, cells, geoms, scale * jac[lf][:, None] * w, lfs)
        for s in sides:
            v = np.einsum("nqji,nj->nqi", geoms[s].K, nref[lfs[s]])
            self._normals[s] = v / np.linalg.norm(v, axis=2)[..., None]
        if kind == "int" and len(facets):
            d = np.abs(geoms["+"].x - geoms["-"].x).max()
            if d > 1e-8 * (1 + np.abs(geoms["+"].x).max()):
                msg = "facet points do not match"
                raise RuntimeError(msg)
        return self

    @property
    def n(self):
        return len(self.weights)

    def side(self, r, need=False):
        if self.kind == "int":
            if r == "":
                if need:
                    msg = "Discontinuous type must be restricted."
                    raise ArityMismatch(msg)
                return "+"
            return r
        if r and self.kind == "ext":
            msg = "Cannot restrict on an exterior facet integral."
            raise ArityMismatch(msg)
        if r:
            msg = "Cannot restrict in a cell integral."
            raise ArityMismatch(msg)
        return ""

    def tab(self, basis, dirs, side):
        key = (id(basis), tuple(sorted(dirs)), side)
        if key not in self._tabs:
            self._tabs[key] = self.geoms[side].phys_tab(basis, tuple(sorted(dirs)))
        return self._tabs[key]

    def unit_matrix(self, b0, d0, s0, b1, d1, s1):
        key = (id(b0), d0, s0, id(b1), d1, s1)
        if key not in self._unit:
            self._unit[key] = self.weighted(self.weights, b0, d0, s0, b1, d1, s1)
        return self._unit[key]

    def weighted(self, w, b0, d0, s0, b1, d1, s1):
        t0, t1 = self.tab(b0, d0, s0), self.tab(b1, d1, s1)
        return np.matmul(np.swapaxes(t0 * w[..., None], 1, 2), t1)

    def function_value(self, f, comp, dirs, side):
        key = (id(f), comp, tuple(sorted(dirs)), side)
        if key not in self._fn:
            V = f.function_space
            if V.mesh is not self.mesh:
                msg = "Function lives on another mesh than the integration domain"
                raise RuntimeError(msg)
            s = V.scalars[comp]
            loc = f.x.array[V.comp_dofs[comp][s.cell_dofs[self.cells[side]]]]
            self._fn[key] = np.einsum("nqb,nb->nq", self.tab(s.basis, dirs, side), loc)
        return self._fn[key]


MATH = {
    "sqrt": np.sqrt, "exp": np.exp, "ln": np.log, "cos": np.cos, "sin": np.sin, "tan": np.tan, "cosh": np.cosh,
    "sinh": np.sinh, "tanh": np.tanh, "acos": np.arccos, "asin": np.arcsin, "atan": np.arctan, "erf": special.erf,
}
COND = {EQ: np.equal, NE: np.not_equal, LE: np.less_equal, GE: np.greater_equal, LT: np.less, GT: np.greater}


def flat(comp, shape):
    i = 0
    for c, s in zip(comp, shape):
        i = i * s + c
    return i


class Evaluator:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.keep = []

    def scalar(self, expr):
        return self.ev(expr, (), {}, "")

    def ev(self, e, comp, env, r):
        fi = e.ufl_free_indices
        key = (id(e), comp, tuple(env[i] for i in fi) if fi else (), r)
        if key in self.memo:
            return self.memo[key]
        v = self._ev(e, comp, env, r)
        self.memo[key] = v
        self.keep.append(e)
        return v

    def _mi(self, mi, env):
        return tuple(int(i) if isinstance(i, FixedIndex) else env[i.count()] for i in mi)

    def _ev(self, e, comp, env, r):  # noqa: C901
        ctx = self.ctx
        if isinstance(e, Zero):
            return 0.0
        if isinstance(e, (FloatValue, IntValue)):
            return float(e)
        if isinstance(e, Sum):
            a, b = e.ufl_operands
            return add(self.ev(a, comp, env, r), self.ev(b, comp, env, r))
        if isinstance(e, Product):
            a, b = e.ufl_operands
            return mul(self.ev(a, comp if a.ufl_shape else (), env, r),
                       self.ev(b, comp if b.ufl_shape else (), env, r))
        if isinstance(e, Indexed):
            a, mi = e.ufl_operands
            return self.ev(a, self._mi(mi, env), env, r)
        if isinstance(e, IndexSum):
            a, mi = e.ufl_operands
            (i,) = mi
            out = 0.0
            for k in range(e.dimension()):
                out = add(out, self.ev(a, comp, {**env, i.count(): k}, r))
            return out
        if isinstance(e, ComponentTensor):
            a, mi = e.ufl_operands
            return self.ev(a, (), {**env, **{i.count(): c for i, c in zip(mi, comp)}}, r)
        if isinstance(e, ListTensor):
            return self.ev(e.ufl_operands[comp[0]], comp[1:], env, r)
        if isinstance(e, (PositiveRestricted, NegativeRestricted)):
            side = "+" if isinstance(e, PositiveRestricted) else "-"
            if r and r != side:
                msg = "Cannot restrict an expression twice."
                raise ArityMismatch(msg)
            if ctx.kind != "int":
                ctx.side(side)
            return self.ev(e.ufl_operands[0], comp, env, side)
        if isinstance(e, (Argument, Coefficient, Grad)):
            return self.form_argument(e, comp, r)
        if isinstance(e, Constant):
            v = e.value
            return float(v[comp]) if comp else float(v)
        if isinstance(e, Division):
            a, b = e.ufl_operands
            d = self.ev(b, (), env, r)
            if is_ml(d):
                msg = "Division by a form argument."
                raise ArityMismatch(msg)
            n = self.ev(a, comp, env, r)
            if is_zero(n):
                return 0.0
            return mul(n, 1.0 / d)
        if isinstance(e, Variable):
            return self.ev(e.ufl_operands[0], comp, env, r)
        if isinstance(e, SpatialCoordinate):
            return ctx.geoms[ctx.side(r)].x[..., comp[0] if comp else 0]
        if isinstance(e, FacetNormal):
            if ctx.kind == "cell":
                msg = "Integrals of type cell cannot contain a FacetNormal."
                raise ArityMismatch(msg)
            return ctx._normals[ctx.side(r, True)][..., comp[0]]
        if isinstance(e, CellDiameter):
            return ctx.mesh.cell_diameter()[ctx.cells[ctx.side(r, True)]][:, None]
        if isinstance(e, (CellVolume, Circumradius, FacetArea, MinCellEdgeLength, MaxCellEdgeLength,
                          MinFacetEdgeLength, MaxFacetEdgeLength)):
            return self.geometric(e, r)
        if isinstance(e, Identity):
            return float(comp[0] == comp[1])
        ops = e.ufl_operands
        if isinstance(e, Conditional):
            c = self.cond(ops[0], env, r)
            a, b = (self.ev(o, comp, env, r) for o in ops[1:])
            c = np.asarray(c, dtype=float)
            return add(mul(a, c), mul(b, 1.0 - c))
        if isinstance(e, Jacobian):
            return ctx.geoms[ctx.side(r, True)].J[..., comp[0], comp[1]]
        if isinstance(e, JacobianInverse):
            return ctx.geoms[ctx.side(r, True)].K[..., comp[0], comp[1]]
        if isinstance(e, JacobianDeterminant):
            return ctx.geoms[ctx.side(r, True)].detJ
        # nonlinear operators of argument-free operands
        if isinstance(e, (MathFunction, Power, Abs, MinValue, MaxValue, Atan2)):
            vals = [self.ev(o, (), env, r) for o in ops]
            if any(is_ml(v) for v in vals):
                msg = f"Applying nonlinear operator {type(e).__name__} to a form argument."
                raise ArityMismatch(msg)
            if isinstance(e, MathFunction):
                return MATH[e._name](vals[0])
            if isinstance(e, Power):
                return np.power(np.asarray(vals[0], float), vals[1])
            if isinstance(e, Abs):
                return np.abs(vals[0])
            if isinstance(e, MinValue):
                return np.minimum(*vals)
            if isinstance(e, MaxValue):
                return np.maximum(*vals)
            return np.arctan2(*vals)
        if isinstance(e, (CellAvg, FacetAvg, BesselFunction)):
            raise MiniUnsupported(type(e).__name__)
        raise MiniUnsupported(f"UFL node {type(e).__name__}")

    def cond(self, c, env, r):
        ops = c.ufl_operands
        if isinstance(c, NotCondition):
            return np.logical_not(self.cond(ops[0], env, r))
        if isinstance(c, AndCondition):
            return np.logical_and(self.cond(ops[0], env, r), self.cond(ops[1], env, r))
        if isinstance(c, OrCondition):
            return np.logical_or(self.cond(ops[0], env, r), self.cond(ops[1], env, r))
        if type(c) in COND:
            a, b = (self.ev(o, (), env, r) for o in ops)
            if is_ml(a) or is_ml(b):
                msg = "Condition depends on a form argument."
                raise ArityMismatch(msg)
            return COND[type(c)](a, b)
        raise MiniUnsupported(f"condition {type(c).__name__}")

    def form_argument(self, e, comp, r):
        ctx = self.ctx
        nd = 0
        t = e
        while isinstance(t, Grad):
            t = t.ufl_operands[0]
            nd += 1
        if isinstance(t, SpatialCoordinate):
            if nd == 1:
                return float(comp[0] == comp[1])
            return 0.0
        if not isinstance(t, (Argument, Coefficient)):
            raise MiniUnsupported(f"Grad of {type(t).__name__}")
        dirs = tuple(comp[len(comp) - nd:]) if nd else ()
        vcomp = comp[: len(comp) - nd] if nd else comp
        c = flat(vcomp, t.ufl_shape)
        side = ctx.side(r, need=True)
        if isinstance(t, Argument):
            return {((t.number(), c, tuple(sorted(dirs)), side),): 1.0}
        if not hasattr(t, "function_space"):
            raise MiniUnsupported("plain ufl.Coefficient")
        return ctx.function_value(t, c, dirs, side)

    def geometric(self, e, r):
        ctx = self.ctx
        mesh = ctx.mesh
        side = ctx.side(r, True)
        cells = ctx.cells[side]
        if isinstance(e, CellVolume):
            if "vol" not in mesh._cache:
                pts, w = quadrature(mesh.cell_name, 2 * mesh.geometry.degree + 2)
                g = GeomAt(mesh, np.arange(mesh.num_cells), pts)
                mesh._cache["vol"] = (np.abs(g.detJ) * w).sum(axis=1)
            return mesh._cache["vol"][cells][:, None]
        if isinstance(e, FacetArea):
            return ctx.weights.sum(axis=1)[:, None]
        v = mesh._vert_x[mesh.topology._cells[cells]]
        if isinstance(e, (MinCellEdgeLength, MaxCellEdgeLength)):
            le = np.array([np.linalg.norm(v[:, a] - v[:, b], axis=1) for a, b in EDGES[mesh.cell_name]])
            return (le.min(axis=0) if isinstance(e, MinCellEdgeLength) else le.max(axis=0))[:, None]
        if isinstance(e, Circumradius) and mesh.cell_name == "interval":
            return 0.5 * np.linalg.norm(v[:, 0] - v[:, 1], axis=1)[:, None]
        if isinstance(e, Circumradius) and mesh.cell_name == "triangle":
            a, b, c = (np.linalg.norm(v[:, i] - v[:, j], axis=1) for i, j in ((0, 1), (1, 2), (0, 2)))
            s = (a + b + c) / 2
            return (a * b * c / (4 * np.sqrt(s * (s - a) * (s - b) * (s - c))))[:, None]
        if isinstance(e, Circumradius) and mesh.cell_name == "tetrahedron":
            d = v[:, 1:] - v[:, :1]
            c = np.linalg.solve(d, 0.5 * (d ** 2).sum(axis=2)[..., None])[..., 0]
            return np.linalg.norm(c, axis=1)[:, None]
        if isinstance(e, Circumradius):
            msg = "Circumradius only makes sense for affine simplex cells"
            raise ValueError(msg)
        raise MiniUnsupported(type(e).__name__)


def eval_at(mesh, expr, cells, X):
    """Values of a UFL expression at reference points: (ncomp, n, nq)."""
    expr = lower(ufl.as_ufl(expr))
    ctx = Ctx.on_cells(mesh, cells, points=np.asarray(X))
    ev = Evaluator(ctx)
    shape = expr.ufl_shape
    out = []
    for idx in np.ndindex(*shape) if shape else [()]:
        v = ev.ev(expr, tuple(idx), {}, "")
        if is_ml(v):
            raise ArityMismatch("Expression with arguments")
        out.append(np.broadcast_to(np.asarray(v, float), (len(cells), len(X))))
    return np.array(out)


_ = math
