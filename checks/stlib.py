"""Reference model of the space-time discretisation and problem generator for the S checks.

The reference is written independently of src/dxss/space_time.py: matrices are sums of
Kronecker products (exact temporal integrals) x (scalar spatial matrices), placed with the
degree-of-freedom maps of the platform, not with those of the code under test.
"""
from __future__ import annotations

import copy
import math
import os
from functools import lru_cache

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
import ufl
from numpy.polynomial import Polynomial as Poly
from scipy.spatial import cKDTree

import dxss.precomp_time_int as _pti

# ---------------------------------------------------------------- time
_plain_elmat = _pti.get_elmat_time
_memo = {}


def _memo_elmat(*a, **kw):
    """get_elmat_time is slow (sympy) and pure (T01): call it once for each pair of degrees."""
    key = (a, tuple(sorted(kw.items())))
    if key not in _memo:
        _memo[key] = _plain_elmat(*a, **kw)
    return copy.deepcopy(_memo[key])


_pti.get_elmat_time = _memo_elmat
import dxss.space_time as ST  # noqa: E402
from dolfinx import fem, mesh as dmesh  # noqa: E402
from dolfinx.fem._form import assemble_csr, assemble_vector_array  # noqa: E402
from dolfinx.fem._space import eval_points  # noqa: E402,F401
from mpi4py import MPI  # noqa: E402
from petsc4py import PETSc  # noqa: E402

from vlib.core import Inconclusive  # noqa: E402


@lru_cache(None)
def lag(q):
    """Lagrange basis at equispaced nodes of [0, 1]."""
    if q == 0:
        return [Poly([1.0])]
    x = np.linspace(0, 1, q + 1)
    out = []
    for i in range(q + 1):
        p = Poly([1.0])
        for j in range(q + 1):
            if j != i:
                p = p * Poly([-x[j], 1.0]) / (x[i] - x[j])
        out.append(p)
    return out


def _int(p):
    P = p.integ()
    return P(1.0) - P(0.0)


@lru_cache(None)
def tmats(q, qs):
    f, g = lag(q), lag(qs)
    return {
        "Mqq": np.array([[_int(a * b) for b in f] for a in f]),
        "Dqq": np.array([[_int(a * b.deriv()) for b in f] for a in f]),  # test, derivative of trial
        "DD": np.array([[_int(a.deriv() * b.deriv()) for b in f] for a in f]),
        "Msq": np.array([[_int(a * b) for b in f] for a in g]),
        "Dsq": np.array([[_int(a * b.deriv()) for b in f] for a in g]),
        "Mss": np.array([[_int(a * b) for b in g] for a in g]),
    }


@lru_cache(None)
def radau(n):
    """Left Radau rule on [0, 1], to machine precision."""
    from numpy.polynomial import Legendre

    p = Legendre.basis(n) + Legendre.basis(n - 1)
    x = np.sort(np.real(p.roots()))
    x[0] = -1.0
    V = np.vander(x, n, increasing=True).T
    mom = np.array([(1 - (-1) ** (i + 1)) / (i + 1) for i in range(n)])
    return (x + 1) / 2, np.linalg.solve(V, mom) / 2


# ---------------------------------------------------------------- meshes
CELLS = {1: ["interval"], 2: ["triangle", "quadrilateral"], 3: ["tetrahedron"]}


def mesh_arrays(rng, cell, n, graded=True, scale=None):
    """Points and cells of a random mesh of a box."""
    if cell == "interval":
        m = dmesh.create_unit_interval(MPI.COMM_SELF, n)
    elif cell in ("triangle", "quadrilateral"):
        ny = max(1, n - int(rng.integers(0, 2)))
        m = dmesh.create_unit_square(MPI.COMM_SELF, n, ny, getattr(dmesh.CellType, cell))
    else:
        m = dmesh.create_box(MPI.COMM_SELF, [(0, 0, 0), (1, 1, 1)], [n, 1, 1], dmesh.CellType.tetrahedron)
    x, c = np.array(m.geometry.x[:, : m.geometry.dim]), np.array(m.geometry._dofmap)
    if graded:
        for d in range(x.shape[1]):
            a = rng.uniform(-0.25, 0.25)
            x[:, d] = x[:, d] + a * np.sin(np.pi * x[:, d]) ** 2 * (1 if a > 0 else 1)
        if cell == "triangle":
            inner = ((x > 1e-9) & (x < 1 - 1e-9)).all(axis=1)
            x[inner] += rng.uniform(-0.08, 0.08, (inner.sum(), 2)) / n
    if scale is not None:
        x = x * np.asarray(scale)[None, : x.shape[1]]
    return x, c


def build_mesh(cell, x, c, comm=None):
    gd = x.shape[1]
    dom = ufl.Mesh(ufl.VectorElement("Lagrange", ufl.Cell(cell, geometric_dimension=gd), 1, dim=gd))
    return dmesh.create_mesh(comm or MPI.COMM_WORLD, c, x, dom)


def midpoints(m):
    return m.geometry.x[m.geometry._dofmap].mean(axis=1)[:, : m.geometry.dim]


# ---------------------------------------------------------------- data regions and solutions
class Region:
    """A data region: what the user passes, and what it means."""

    def __init__(self, rng, kind, x, c):
        self.kind = kind
        mids = x[c].mean(axis=1)
        self.tree = cKDTree(mids)
        n = len(mids)
        if kind in ("cells", "function"):
            self.vals = rng.choice([0.0, 1.0], n)
            self.vals[rng.integers(0, n)] = 1.0
        elif kind in ("weights", "function-unfitted"):
            self.vals = rng.uniform(-0.5, 2.0, n)
            if rng.random() < 0.7:
                self.vals = np.abs(self.vals)
        elif kind == "half":
            self.vals = (mids[:, 0] < np.median(mids[:, 0])).astype(float)
        elif kind == "all":
            self.vals = np.ones(n)
        elif kind == "none":
            self.vals = np.zeros(n)
        elif kind == "poly":
            self.coef = rng.uniform(0.1, 1.0, 3)
            self.vals = None
        else:
            raise KeyError(kind)
        self.calls = []

    def __call__(self, x):
        """The indicator function the user passes (points of shape (3, n))."""
        x = np.asarray(x)
        self.calls.append(x.shape)
        d = self.tree.data.shape[1]
        return self.vals[self.tree.query(x[:d].reshape(d, -1).T)[1]]

    def dg0(self, m):
        V = fem.FunctionSpace(m, ("DG", 0))
        f = fem.Function(V)
        s = V.scalars[0]
        f.x.array[V.comp_dofs[0][s.cell_dofs[:, 0]]] = self.vals[self.tree.query(midpoints(m))[1]]
        return f

    def expr(self, m):
        X = ufl.SpatialCoordinate(m)
        if self.kind == "poly":
            a, b, c = self.coef
            return a + b * X[0] + c * X[m.geometry.dim - 1] ** 2
        return self.dg0(m)

    def domain(self, m):
        if self.kind == "poly":
            return ST.DataDomain(self.expr(m), False)
        if self.kind == "function":
            return ST.DataDomain(self.dg0(m), True)
        if self.kind == "function-unfitted":
            return ST.DataDomain(self.dg0(m), False)
        return ST.DataDomain(self.__call__, True)


REGIONS = ["cells", "weights", "half", "poly", "function", "all", "function-unfitted", "none"]


class Wave:
    """An 'exact solution': polynomial of degree <= dx in space, smooth in time."""

    def __init__(self, rng, dim, dx=2, tpoly=None):
        self.dim, self.tpoly = dim, tpoly
        self.terms = []
        for _ in range(3):
            e = rng.integers(0, dx + 1, dim)
            while e.sum() > dx:
                e = rng.integers(0, dx + 1, dim)
            self.terms.append(([int(v) for v in e], rng.uniform(-1, 1, 4)))

    def _t(self, co, t):
        if self.tpoly is not None:
            return sum(co[i] * t**i for i in range(self.tpoly + 1))
        return co[0] + co[1] * t + co[2] * math.cos(3 * t + co[3])

    def _dt(self, co, t):
        if self.tpoly is not None:
            return sum(i * co[i] * t ** (i - 1) for i in range(1, self.tpoly + 1))
        return co[1] - 3 * co[2] * math.sin(3 * t + co[3])

    def _x(self, e, x):
        out = 1.0
        for d, p in enumerate(e):
            for _ in range(p):
                out = out * x[d]
        return out

    def v(self, t, x):
        return sum(self._t(co, t) * self._x(e, x) for e, co in self.terms)

    def dvdt(self, t, x):
        return sum(self._dt(co, t) * self._x(e, x) for e, co in self.terms)

    def arg(self):
        return ST.ValueAndDerivative(self.v, self.dvdt)


# ---------------------------------------------------------------- problems
STABS = ["data", "dual", "primal", "primal-jump"]


class Problem:
    def __init__(self, rng, cell=None, n=None, q=None, qs=None, k=None, ks=None, N=None, T=None, region=None,
                 fw=False, wp=False, stabs=None, small=True, graded=True, scale=True, wave=None, seed=None):
        pick = lambda v, *opts: v if v is not None else opts[int(rng.integers(0, len(opts)))]  # noqa: E731
        self.cell = pick(cell, "interval", "interval", "interval", "triangle", "triangle", "quadrilateral", "tetrahedron")
        dim = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3}[self.cell]
        self.dim = dim
        self.n = pick(n, *{1: (2, 3, 4, 5), 2: (1, 2, 2), 3: (1,)}[dim])
        self.q = pick(q, 1, 1, 2, 2, 3, 0)
        self.qs = pick(qs, 0, 1, 1, 2, 3)
        top = 3 if dim == 1 else 2
        self.k = pick(k, *range(1, top + 1))
        self.ks = pick(ks, *range(1, top + 1))
        self.N = pick(N, 1, 2, 2, 3, 3, 4) if dim == 1 else pick(N, 1, 2, 3)
        self.T = float(rng.uniform(0.3, 2.0)) if T is None else T
        self.stabs = {s: float(10 ** rng.uniform(-1.3, 1.3)) for s in STABS} if stabs is None else stabs
        self.fw, self.wp = fw, wp
        self.x, self.c = mesh_arrays(
            rng, self.cell, self.n, graded, rng.uniform(0.6, 1.7, dim) if scale and rng.random() < 0.5 else None)
        self.region = Region(rng, pick(region, *REGIONS), self.x, self.c)
        self.wave = wave or Wave(rng, dim)
        self.seed = int(rng.integers(1, 10000)) if seed is None else seed
        self._mesh = None

    def desc(self):
        return {"cell": self.cell, "cells": len(self.c), "q": self.q, "qstar": self.qs, "k": self.k, "kstar": self.ks,
                "N": self.N, "T": round(self.T, 4), "region": self.region.kind, "fw_jumps": self.fw, "well_posed": self.wp,
                "numbering": self.seed, "stabs": {a: round(b, 4) for a, b in self.stabs.items()}}

    def sig(self):
        return (self.cell, len(self.c), self.q, self.qs, self.k, self.ks, self.N, self.region.kind, self.fw, self.wp)

    @property
    def dt(self):
        return self.T / self.N

    @property
    def mesh(self):
        if self._mesh is None:
            os.environ["MINIDOLFINX_SEED"] = str(self.seed)
            self._mesh = build_mesh(self.cell, self.x, self.c)
        return self._mesh

    def args(self, **o):
        return dict(
            polynomial_order_time=ST.OrderTime(self.q, self.qs), polynomial_order_space=ST.OrderSpace(self.k, self.ks),
            N=o.get("N", self.N), T=o.get("T", self.T), t=0.0, msh=o.get("msh", self.mesh),
            stabilisation_terms=dict(o.get("stabs", self.stabs)), omega=o.get("omega") or self.region.domain(self.mesh),
            solution=o.get("solution") or self.wave.arg(),
            parameters=ST.ProblemParameters(jumps_in_fw_problem=o.get("fw", self.fw), well_posed=o.get("wp", self.wp)),
        )

    def solver(self, **o):
        m = self.mesh
        os.environ["MINIDOLFINX_SEED"] = str(o.get("seed", self.seed))
        st = ST.SpaceTime(**self.args(**dict({"msh": m}, **o)))
        st.setup_spacetime_finite_elements()
        return st

    @property
    def ref(self):
        if getattr(self, "_ref", None) is None:
            self._ref = Reference(self)
        return self._ref


def spatial(mesh, k, ks, region, deg=None):
    """Scalar spatial matrices, rows test, columns trial."""
    V, W = fem.FunctionSpace(mesh, ("CG", k)), fem.FunctionSpace(mesh, ("CG", ks))
    u, w = ufl.TrialFunction(V), ufl.TestFunction(V)
    z, y = ufl.TrialFunction(W), ufl.TestFunction(W)
    deg = deg or 2 * max(k, ks) + 4
    dx = ufl.Measure("dx", domain=mesh, metadata={"quadrature_degree": deg})
    ds = ufl.Measure("ds", domain=mesh, metadata={"quadrature_degree": deg})
    dS = ufl.Measure("dS", domain=mesh, metadata={"quadrature_degree": deg})
    h, nu = ufl.CellDiameter(mesh), ufl.FacetNormal(mesh)
    lap = lambda f: ufl.div(ufl.grad(f))  # noqa: E731
    gj = lambda f: ufl.grad(f)("+") - ufl.grad(f)("-")  # noqa: E731
    F = {
        "M": u * w * dx, "K": ufl.dot(ufl.grad(u), ufl.grad(w)) * dx, "B": u * w / h * ds,
        "J": 0.5 * (h("+") + h("-")) * ufl.dot(gj(u), gj(w)) * dS,
        "Mh": h**2 * u * w * dx, "uLw": h**2 * u * lap(w) * dx, "Luw": h**2 * lap(u) * w * dx,
        "LL": h**2 * lap(u) * lap(w) * dx, "Om": region.expr(mesh) * u * w * dx,
        "sM": u * y * dx, "sK": ufl.dot(ufl.grad(u), ufl.grad(y)) * dx, "sN": ufl.dot(ufl.grad(u), nu) * y * ds,
        "ssM": z * y * dx, "ssK": ufl.dot(ufl.grad(z), ufl.grad(y)) * dx, "ssB": z * y / h * ds,
    }
    out = {}
    for name, f in F.items():
        if k == 1 and mesh.cell_name != "quadrilateral" and name in ("uLw", "Luw", "LL"):
            out[name] = sp.csr_matrix((V.num_dofs, V.num_dofs))
        elif name == "J" and len(mesh.facet_data()[1]) == 0:
            out[name] = sp.csr_matrix((V.num_dofs, V.num_dofs))
        else:
            out[name] = assemble_csr(f)[0].tocsr()
    for a in ("sM", "sK", "sN"):
        out[a + "T"] = out[a].T.tocsr()
    return out, V, W


class Reference:
    """Kronecker-product reference of all matrices of a problem."""

    def __init__(self, p, mesh=None, stabs=None):
        self.p = p
        self.mesh = mesh or p.mesh
        self.S, self.V, self.W = spatial(self.mesh, p.k, p.ks, p.region)
        self.t = tmats(p.q, p.qs)
        self.g = stabs or p.stabs
        self.nk, self.ns = self.V.num_dofs, self.W.num_dofs

    # component index of (field, slab, level) and offsets in canonical order
    def comp(self, N):
        q1, s1 = self.p.q + 1, self.p.qs + 1
        base = [0, N * q1, 2 * N * q1, 2 * N * q1 + N * s1]
        return lambda f, n, lev: base[f] + n * (q1 if f < 2 else s1) + lev

    def sizes(self, N):
        q1, s1 = self.p.q + 1, self.p.qs + 1
        return [self.nk] * (2 * N * q1) + [self.ns] * (2 * N * s1)

    def field_slices(self, N):
        off = np.concatenate([[0], np.cumsum(self.sizes(N))])
        q1, s1 = self.p.q + 1, self.p.qs + 1
        e = off[[0, N * q1, 2 * N * q1, 2 * N * q1 + N * s1, -1]]
        return [slice(e[i], e[i + 1]) for i in range(4)]

    def canon(self, V):
        """canonical index -> index in space V."""
        return np.concatenate(V.comp_dofs)

    def slab_terms(self, dt):
        """Terms of the slab matrix without interface jumps: ((field, level) test, trial, coef, name)."""
        p, t, g = self.p, self.t, self.g
        lam = 5.0 * p.k**2
        Q, Sx = range(p.q + 1), range(p.qs + 1)
        gp, gs, gd = g["primal"], g["dual"], g["data"]
        out = []

        def add(f, a, h, b, coef, name):
            if coef != 0.0:
                out.append(((f, a), (h, b), coef, name))

        for a in Sx:
            for j in Q:
                D, M = t["Dsq"][a, j], dt * t["Msq"][a, j]
                for (tf, trf, coef, name) in (
                    (2, 1, D, "sM"), (2, 0, M, "sK"), (2, 0, -M, "sN"), (3, 0, D, "sM"), (3, 1, -M, "sM"),
                ):
                    add(tf, a, trf, j, coef, name)
                    add(trf, j, tf, a, coef, name + "T")
        for a in Q:
            for b in Q:
                M, D, Dt, DD = dt * t["Mqq"][a, b], t["Dqq"][a, b], t["Dqq"][b, a], t["DD"][a, b]
                add(0, a, 0, b, gd * M, "Om")
                add(0, a, 0, b, gp * M * lam, "B")
                add(0, a, 0, b, gp * M, "J")
                # (u2 - dt u1, w2 - dt w1)
                add(1, a, 1, b, gp * M, "M")
                add(0, a, 1, b, -gp * Dt, "M")
                add(1, a, 0, b, -gp * D, "M")
                add(0, a, 0, b, gp * DD / dt, "M")
                # h^2 (dt u2 - lap u1, dt w2 - lap w1)
                add(1, a, 1, b, gp * DD / dt, "Mh")
                add(0, a, 1, b, -gp * D, "uLw")
                add(1, a, 0, b, -gp * Dt, "Luw")
                add(0, a, 0, b, gp * M, "LL")
        for a in Sx:
            for b in Sx:
                M = gs * dt * t["Mss"][a, b]
                add(2, a, 2, b, -M, "ssM")
                add(2, a, 2, b, -M, "ssK")
                add(2, a, 2, b, -M * lam, "ssB")
                add(3, a, 3, b, -M, "ssM")
        return out

    def start_terms(self, dt, fw):
        """Jump terms acting on the first level of a slab itself."""
        g = self.g
        gj, gs = g["primal-jump"], g["dual"]
        out = [((0, 0), (0, 0), gj / dt, "M"), ((0, 0), (0, 0), gj * dt, "K"), ((1, 0), (1, 0), gj / dt, "M")]
        if fw:
            out += [((2, 0), (2, 0), -gs * dt, "ssM"), ((3, 0), (3, 0), -gs * dt, "ssM")]
            for y, u in ((2, 1), (3, 0)):
                out += [((y, 0), (u, 0), 1.0, "sM")]
        return out

    def assemble(self, triples, N):
        """(matrix, magnitude) from ((field, slab, level), (field, slab, level), coef, name)."""
        comp = self.comp(N)
        acc, mag = {}, {}
        for r, c, coef, name in triples:
            key = (comp(*r), comp(*c))
            S = self.S[name]
            acc[key] = acc[key] + coef * S if key in acc else coef * S
            mag[key] = mag[key] + abs(coef) * abs(S) if key in mag else abs(coef) * abs(S)
        off = np.concatenate([[0], np.cumsum(self.sizes(N))])
        out = []
        for d in (acc, mag):
            I, J, X = [], [], []
            for (a, b), m in d.items():
                m = m.tocoo()
                I.append(m.row + off[a])
                J.append(m.col + off[b])
                X.append(m.data)
            out.append(sp.coo_matrix((np.concatenate(X), (np.concatenate(I), np.concatenate(J))), shape=(off[-1],) * 2).tocsr())
        return out

    def slab(self, jumps, fw=None, dt=None):
        fw = self.p.fw if fw is None else fw
        dt = self.p.dt if dt is None else dt
        T = self.slab_terms(dt)
        if jumps:
            T = T + self.start_terms(dt, fw)
            if fw:  # in the slab matrices the jump couples the dual test functions only
                pass
        return self.assemble([((r[0], 0, r[1]), (c[0], 0, c[1]), co, nm) for r, c, co, nm in T], 1)

    def spacetime(self, precond=False, N=None, dt=None, fw=None, wp=None):
        p = self.p
        N, dt = N or p.N, dt or p.dt
        fw = p.fw if fw is None else fw
        wp = p.wp if wp is None else wp
        g = self.g
        gj, gs, q = g["primal-jump"], g["dual"], p.q
        T = []
        base = self.slab_terms(dt)
        for n in range(N):
            T += [((r[0], n, r[1]), (c[0], n, c[1]), co, nm) for r, c, co, nm in base]
            if n == 0:
                if wp:
                    T += [((r[0], 0, 0), (c[0], 0, 0), co, nm) for r, c, co, nm in self.start_terms(dt, False)]
                continue
            new, old = (n, 0), (n - 1, q)
            for f, coef, nm in ((0, gj / dt, "M"), (0, gj * dt, "K"), (1, gj / dt, "M")):
                for tst, s1 in ((new, 1.0),) if precond else ((new, 1.0), (old, -1.0)):
                    for tri, s2 in ((new, 1.0), (old, -1.0)):
                        T.append(((f, *tst), (f, *tri), s1 * s2 * coef, nm))
            if fw:
                T += [((f, *new), (f, *new), -gs * dt, "ssM") for f in (2, 3)]
                for y, u in ((3, 0), (2, 1)):
                    for tri, s in ((new, 1.0), (old, -1.0)):
                        T.append(((y, *new), (u, *tri), s, "sM"))
                        T.append(((u, *tri), (y, *new), s, "sMT"))
        return self.assemble(T, N)

    def coupling_load(self, u1, u2):
        """What slab n receives in (u1, u2)[first level] from the end values of slab n-1."""
        gj, dt = self.g["primal-jump"], self.p.dt
        return gj * (self.S["M"] @ u1 / dt + dt * (self.S["K"] @ u1)), gj * (self.S["M"] @ u2) / dt

    def rhs(self, u1_0=None, u2_0=None, wave=None, rule=None, region=None):
        """Right-hand side in canonical order, from the exact solution."""
        p = self.p
        wave = wave or p.wave
        reg = region or p.region
        comp = self.comp(p.N)
        off = np.concatenate([[0], np.cumsum(self.sizes(p.N))])
        b, mag = np.zeros(off[-1]), np.zeros(off[-1])
        w = ufl.TestFunction(self.V)
        X = ufl.SpatialCoordinate(self.mesh)
        dx = ufl.Measure("dx", domain=self.mesh, metadata={"quadrature_degree": 2 * p.k + 5})
        om = reg.expr(self.mesh)
        tau, om_t = rule or radau(4)
        ph = lag(p.q)
        gd, gj = self.g["data"], self.g["primal-jump"]
        for n in range(p.N):
            for ti, wi in zip(tau, om_t):
                f = wave.v(n * p.dt + p.dt * ti, X)
                L = assemble_vector_array(f * om * w * dx) if not isinstance(f, (int, float)) else (
                    assemble_vector_array(ufl.as_ufl(f) * om * w * dx))
                for lev in range(p.q + 1):
                    i = comp(0, n, lev)
                    b[off[i]: off[i + 1]] += gd * p.dt * wi * ph[lev](ti) * L
                    mag[off[i]: off[i + 1]] += abs(gd * p.dt * wi * ph[lev](ti)) * np.abs(L)
        if p.wp:
            a1, a2 = self.coupling_load(u1_0, u2_0)
            for f, a in ((0, a1), (1, a2)):
                i = comp(f, 0, 0)
                b[off[i]: off[i + 1]] += a
                mag[off[i]: off[i + 1]] += np.abs(a)
        return b, mag


# ---------------------------------------------------------------- helpers on the code under test
def csr(A):
    ai, aj, av = A.getValuesCSR()
    return sp.csr_matrix((av, aj, ai), shape=A.getSize())


def fes(st):
    V = getattr(st, "fes", None)
    return V if V is not None else st.get_spacetime_lfi().function_spaces[0]


def fes_slab(st):
    V = getattr(st, "fes_p", None)
    return V if V is not None else st.get_slab_bfi().function_spaces[0]


def fes_coarse(st):
    for name in ["fes_coarse", *vars(st)]:
        V = getattr(st, name, None)
        if hasattr(V, "comp_dofs") and hasattr(V, "num_dofs") and V is not fes(st) and V.mesh is not st.msh \
                and V.num_dofs == st.get_spacetime_matrix_coarse().getSize()[0]:
            return V
    raise Inconclusive("the solver offers no space on the coarse mesh")


def pvec(a):
    v = PETSc.Vec().createMPI(len(a), comm=PETSc.COMM_WORLD)
    v.array[:] = a
    return v


def apply(fun, b, out=None):
    """Output of fun(Vec in, Vec out) as an array; checks nothing."""
    x = pvec(b)
    y = pvec(np.full(len(b), 0.0) if out is None else out)
    fun(x, y)
    return np.array(y.array), np.array(x.array)


class LU:
    """Exact slab solver with a call log."""

    def __init__(self, A, log=None, tag="slab"):
        A = csr(A) if isinstance(A, PETSc.Mat) else A
        self.lu = spl.splu(A.tocsc())
        self.log, self.tag = log, tag

    def solve(self, b, x):
        xin = np.array(b.array)
        x.array[:] = self.lu.solve(xin)
        if self.log is not None:
            self.log.append((self.tag, xin, np.array(x.array)))


class Scripted:
    """Slab solver that records what it is given and answers with prescribed vectors."""

    def __init__(self, log, tag, answer):
        self.log, self.tag, self.answer = log, tag, answer

    def solve(self, b, x):
        got = np.array(b.array)
        out = self.answer(len(self.log), got)
        self.log.append((self.tag, got, np.array(out)))
        x.array[:] = out


def with_lu(st, log=None):
    st.set_solver_first_slab(LU(st.get_slab_matrix_first_slab(), log, "first"))
    st.set_solver_slab(LU(st.get_slab_matrix(), log, "slab"))
    return st


def compare_matrix(c, A, ref, perm, tol, what, **detail):
    """Entrywise comparison of a matrix of the code under test with (reference, magnitude)."""
    R, B = ref
    A = csr(A) if isinstance(A, PETSc.Mat) else A
    if not c.ok(A.shape == R.shape, f"{what}: size", got=A.shape, expected=R.shape):
        return False
    A = A[perm][:, perm]
    D = (A - R).tocoo()
    Bd = B.tocsr()
    top = Bd.max() if Bd.nnz else 1.0
    # magnitude of the entry, and a small share of the largest entry of its row and column
    rowm = np.asarray(Bd.max(axis=1).todense()).ravel()
    colm = np.asarray(Bd.max(axis=0).todense()).ravel()
    lim = tol * (np.asarray(Bd[D.row, D.col]).ravel() + 1e-2 * np.minimum(rowm[D.row], colm[D.col])) + 1e-15 * top
    bad = ~(np.abs(D.data) <= lim)
    c.oracle_evaluations += A.nnz
    c.count("matrix entries compared", A.nnz)
    if bad.any():
        i = int(np.argmax(np.abs(D.data) * bad / lim))
        return c.ok(False, f"{what}: entry differs from the integral of the formulation", row=int(D.row[i]), col=int(D.col[i]),
                    got=float(A[D.row[i], D.col[i]]), expected=float(R[D.row[i], D.col[i]]), wrong=int(bad.sum()), **detail)
    if len(lim):
        c.worst[what] = max(c.worst.get(what, 0.0), float((np.abs(D.data) / lim).max()))
    return True


# ---------------------------------------------------------------- case plans
def plan(c, count, name="p", more=0.6, far=None, **fixed):
    """Stratified stream of (key, Problem): every option value occurs early, combinations vary with the seed.

    A list given for a parameter is cycled through; further cases follow in the thorough tier while time is left.
    ``far`` is a range of numbers of slabs for one more case, of low order on two or three cells.
    """
    opts = {
        "cell": ["interval", "triangle", "interval", "quadrilateral", "interval", "tetrahedron", "triangle"],
        "q": [1, 2, 0, 3, 1, 2], "qs": [1, 0, 2, 3, 1], "N": [2, 3, 1, 2], "region": REGIONS,
        "wp": [False, True, False], "fw": [False],
    }
    for key, v in fixed.items():
        opts[key] = list(v) if isinstance(v, (list, tuple)) else [v]
    for i in range(1 if c.quick else 6):  # many slabs, on tiny meshes, and unusual final times
        key = f"{name}long{i}"
        if c.only in (None, key):
            r = c.rng(name, "long", i)
            kw = {k: v[int(r.integers(0, len(v)))] for k, v in opts.items()}
            kw.update(cell="interval", N=int(r.choice([6, 7, 9, 11, 12, 13, 17, 19, 32] if not c.quick else [6, 7, 9, 11, 12, 13])),
                      q=min(kw["q"], 2), qs=min(kw["qs"], 1), k=int(r.integers(1, 3)), ks=1, T=float(10 ** r.uniform(-1.3, 1.3)))
            if i % 2 == 0:
                kw["n"] = int(r.integers(2, 4))
            yield key, Problem(r, **kw)
    for i in range(0 if far is None else 1 if c.quick else 4):
        key = f"{name}far{i}"
        if c.only in (None, key):
            r = c.rng(name, "far", i)
            kw = {k: v[int(r.integers(0, len(v)))] for k, v in opts.items()}
            kw.update(cell="interval", n=int(r.integers(2, 4)), N=int(r.integers(far[0], far[1] + 1)), q=1, qs=int(r.integers(0, 2)), k=1, ks=1)
            kw["fw"] = kw["fw"] and i > 0
            yield key, Problem(r, **kw)
    perm = {}
    r0 = c.rng(name, "plan")
    for key in sorted(opts):
        perm[key] = [opts[key][int(j)] for j in r0.permutation(len(opts[key]))]
    i = 0
    while i < count or (not c.quick and c.more(more)):
        if c.enough():
            return
        key = f"{name}{i}"
        if c.only is None or c.only == key:
            r = c.rng(name, i)
            kw = {k: v[i % len(v)] for k, v in perm.items()}
            if i >= 2 * count:  # beyond the stratified part everything is drawn at random
                kw = {k: v[int(r.integers(0, len(v)))] for k, v in opts.items()}
            if kw["cell"] != "interval":
                kw["N"] = min(kw["N"], 3)
                if kw["q"] == 3 or kw["qs"] == 3:
                    kw["N"] = min(kw["N"], 2)
            if kw["cell"] == "tetrahedron":
                kw["q"], kw["qs"] = min(kw["q"], 1), min(kw["qs"], 1)
                kw["N"] = min(kw["N"], 2)
                kw.setdefault("k", int(r.integers(1, 3)))
                kw.setdefault("ks", 1 if kw["k"] == 2 else int(r.integers(1, 3)))
            p = Problem(r, **kw)
            r = c.rng(name, "types", i)
            if r.random() < 0.25:  # whole numbers, of any numeric type
                p.T = [int, np.float64, np.int64][int(r.integers(0, 3))](r.integers(1, 3))
            if r.random() < 0.25:
                s = STABS[int(r.integers(0, len(STABS)))]
                p.stabs[s] = [int, np.float64, np.int64][int(r.integers(0, 3))](r.integers(1, 9))
            yield key, p
        elif c.only is not None and not c.only.startswith(name):
            return
        i += 1
        if c.only is not None and i > 4000:
            return


def slab_maps(p, st):
    """For each slab: (indices in the global vector, indices in the slab vector), in canonical slab order."""
    V, W = fes(st), fes_slab(st)
    R = p.ref
    big, small = R.comp(p.N), R.comp(1)
    out = []
    for n in range(p.N):
        g, s = [], []
        for f in range(4):
            for lev in range((p.q if f < 2 else p.qs) + 1):
                g.append(V.comp_dofs[big(f, n, lev)])
                s.append(W.comp_dofs[small(f, 0, lev)])
        out.append((np.concatenate(g), np.concatenate(s)))
    return out


def slab_slices(p):
    """(field, level) -> slice in canonical slab order."""
    R = p.ref
    off = np.concatenate([[0], np.cumsum(R.sizes(1))])
    comp = R.comp(1)
    return lambda f, lev: slice(off[comp(f, 0, lev)], off[comp(f, 0, lev) + 1])


def linear_answers(rng, size):
    """A well-conditioned linear map used as slab 'solver': differences of inputs stay differences."""
    perm, sc = rng.permutation(size), rng.uniform(0.5, 1.5, size)
    perm2, sc2 = rng.permutation(size), rng.uniform(-0.4, 0.4, size)
    return lambda got: sc * got[perm] + sc2 * got[perm2]


class Linear:
    def __init__(self, fun, log=None, tag="slab"):
        self.fun, self.log, self.tag = fun, log, tag

    def solve(self, b, x):
        got = np.array(b.array)
        out = self.fun(got)
        if self.log is not None:
            self.log.append((self.tag, got, np.array(out)))
        x.array[:] = out


def with_linear(st, rng, size, log=None):
    st.set_solver_first_slab(Linear(linear_answers(rng, size), log, "first"))
    st.set_solver_slab(Linear(linear_answers(rng, size), log, "slab"))
    return st


def scalar(V, canonical):
    """Function of a scalar space from canonical coefficients."""
    f = fem.Function(V)
    f.x.array[V.comp_dofs[0]] = canonical
    return f


class Strips(Region):
    """Cell-wise constant region given by values between grid lines of the first coordinate."""

    def __init__(self, rng, kind, lines, dim):
        self.kind, self.lines, self.calls, self.dim = kind, np.asarray(lines), [], dim
        n = len(lines) - 1
        if kind == "poly":
            self.coef = rng.uniform(0.1, 1.0, 3)
        elif kind == "weights":
            self.vals = rng.uniform(0.1, 2.0, n)
        else:
            self.vals = rng.choice([0.0, 1.0], n)
            self.vals[int(rng.integers(0, n))] = 1.0

    def at(self, x0):
        return self.vals[np.clip(np.searchsorted(self.lines, x0) - 1, 0, len(self.vals) - 1)]

    def __call__(self, x):
        self.calls.append(np.shape(x))
        return self.at(np.asarray(x)[0])

    def dg0(self, m):
        V = fem.FunctionSpace(m, ("DG", 0))
        f = fem.Function(V)
        s = V.scalars[0]
        f.x.array[V.comp_dofs[0][s.cell_dofs[:, 0]]] = self.at(midpoints(m)[:, 0])
        return f


def nested_problem(r, **kw):
    """A Problem on a fine mesh with .coarse_arrays of a coarse mesh of which it is a refinement."""
    kind, coarse = kw.pop("region", "cells"), kw.pop("coarse", None)
    p = Problem(r, region="all", graded=False, **kw)
    n = {"interval": int(r.integers(2, 5)), "triangle": 2, "quadrilateral": 2, "tetrahedron": 1}[p.cell]
    n = coarse or n
    if p.cell in ("interval", "quadrilateral"):
        def lines(k, m):
            a = np.sort(np.concatenate([[0, 1], np.linspace(0, 1, k + 1)[1:-1] + r.uniform(-0.3, 0.3, k - 1) / k]))
            extra = [a[i] + (a[i + 1] - a[i]) * r.uniform(0.2, 0.8) for i in range(k) if r.random() < m]
            return a, np.sort(np.concatenate([a, extra]))

        x_c, x_f = lines(n, 0.8)
        if len(x_f) == len(x_c):
            x_f = np.sort(np.append(x_f, 0.5 * (x_f[0] + x_f[1])))
        out = []
        y_c, y_f = lines(1 if r.random() < 0.5 else 2, 0.6)
        for gx, gy in ((x_c, y_c), (x_f, y_f)):
            if p.cell == "interval":
                m = dmesh.create_unit_interval(MPI.COMM_SELF, len(gx) - 1)
            else:
                m = dmesh.create_unit_square(MPI.COMM_SELF, len(gx) - 1, len(gy) - 1, dmesh.CellType.quadrilateral)
            X = np.array(m.geometry.x[:, : m.geometry.dim])
            for d, g in enumerate((gx, gy)[: X.shape[1]]):
                X[:, d] = np.interp(X[:, d], np.linspace(0, 1, len(g)), g)
            out.append((X, np.array(m.geometry._dofmap)))
        (xc, cc), (xf, cf) = out
        grid = x_c
    else:
        sc = r.uniform(0.7, 1.5, p.dim)
        xc, cc = mesh_arrays(r, p.cell, n, False, sc)
        mc = build_mesh(p.cell, xc, cc, MPI.COMM_SELF)
        mc.topology.create_entities(1)
        mf = dmesh.refine(mc)
        xf, cf = np.array(mf.geometry.x[:, : p.dim]), np.array(mf.geometry._dofmap)
        grid = np.linspace(0, sc[0], n + 1)
    p.x, p.c, p._mesh, p._ref = xf, cf, None, None
    p.coarse_arrays = (xc, cc)
    p.region = Strips(r, kind, grid, p.dim)
    p.coarse_mesh = build_mesh(p.cell, xc, cc)
    return p


def value_at(mesh, k, canonical, pts):
    """Values at points of the scalar function with given canonical coefficients."""
    V = fem.FunctionSpace(mesh, ("CG", k))
    v, found = eval_points(scalar(V, canonical), pts)
    assert found.all()
    return v[:, 0]


def random_points(r, x, c, n):
    """Random points inside random cells (convex combinations of the vertices)."""
    w = r.dirichlet(np.ones(c.shape[1]), n)
    cells = r.integers(0, len(c), n)
    P = np.zeros((n, 3))
    P[:, : x.shape[1]] = np.einsum("nv,nvd->nd", w, x[c[cells]])
    return P
