"""Reference cells: quadrature, equispaced Lagrange bases, geometry."""
from __future__ import annotations

import functools
import itertools

import numpy as np
from numpy.polynomial.legendre import leggauss
from scipy.special import roots_jacobi

from ..errors import MiniUnsupported
from ..mesh import EDGES, FACETS, IS_SIMPLEX, REF_VERTS, TDIM


# ------------------------------------------------------------------ quadrature
@functools.lru_cache(maxsize=None)
def _gauss01(n):
    x, w = leggauss(n)
    return 0.5 * (x + 1), 0.5 * w


@functools.lru_cache(maxsize=None)
def _jacobi01(n, a):
    x, w = roots_jacobi(n, a, 0)
    return 0.5 * (x + 1), w / 2 ** (a + 1)


@functools.lru_cache(maxsize=None)
def quadrature(cell, degree):
    n = max(1, (int(degree) + 2) // 2)
    if cell == "point":
        return np.zeros((1, 0)), np.ones(1)
    if cell == "interval":
        x, w = _gauss01(n)
        return x[:, None], w
    if cell in ("quadrilateral", "hexahedron"):
        d = TDIM[cell]
        x, w = _gauss01(n)
        pts = np.array([p[::-1] for p in itertools.product(x, repeat=d)])
        wts = np.array([np.prod(p) for p in itertools.product(w, repeat=d)])
        return pts, wts
    if cell == "triangle":
        (a, wa), (b, wb) = _jacobi01(n, 1), _gauss01(n)
        pts = np.array([[s, t * (1 - s)] for s in a for t in b])
        return pts, np.array([u * v for u in wa for v in wb])
    if cell == "tetrahedron":
        (a, wa), (b, wb), (c, wc) = _jacobi01(n, 2), _jacobi01(n, 1), _gauss01(n)
        pts = np.array([[s, t * (1 - s), r * (1 - s) * (1 - t)] for s in a for t in b for r in c])
        return pts, np.array([u * v * z for u in wa for v in wb for z in wc])
    raise MiniUnsupported(f"quadrature on {cell}")


FACET_CELL = {
    "interval": "point", "triangle": "interval", "quadrilateral": "interval",
    "tetrahedron": "triangle", "hexahedron": "quadrilateral",
}


# ------------------------------------------------------------------ Lagrange bases
def lattice(cell, k):
    """Equispaced nodes (midpoint for k = 0)."""
    d = TDIM[cell]
    if k == 0:
        return REF_VERTS[cell].mean(axis=0)[None, :]
    g = itertools.product(range(k + 1), repeat=d)
    if cell in IS_SIMPLEX:
        g = [p for p in g if sum(p) <= k]
    return np.array(list(g), dtype=float) / k


@functools.lru_cache(maxsize=None)
def _exponents(cell, k):
    d = TDIM[cell]
    g = itertools.product(range(k + 1), repeat=d)
    if cell in IS_SIMPLEX:
        g = (p for p in g if sum(p) <= k)
    return tuple(g)


def _monomials(exps, x, der):
    out = np.ones((len(exps), len(x)))
    d = x.shape[1]
    kmax = max([max(e) if e else 0 for e in exps] + [0])
    pw = [[np.ones(len(x))] for _ in range(d)]
    for i in range(d):
        for _ in range(kmax):
            pw[i].append(pw[i][-1] * x[:, i])
    for r, e in enumerate(exps):
        for i in range(d):
            p, c = e[i], 1.0
            for _ in range(der[i]):
                c *= p
                p -= 1
            if c == 0:
                out[r] = 0
                break
            out[r] *= c * pw[i][p]
    return out


class Basis:
    """Nodal basis of P_k/Q_k at given nodes."""

    def __init__(self, cell, k, nodes):
        self.cell, self.k, self.nodes = cell, k, nodes
        self.exps = _exponents(cell, k)
        self.coef = np.linalg.inv(_monomials(self.exps, nodes, (0,) * nodes.shape[1]).T)

    def tab(self, x, der):
        """(npts, nbasis)"""
        return _monomials(self.exps, x, der).T @ self.coef


@functools.lru_cache(maxsize=None)
def lagrange(cell, k):
    return Basis(cell, k, lattice(cell, k))


@functools.lru_cache(maxsize=None)
def geometry_basis(cell, degree):
    v = REF_VERTS[cell]
    if degree == 1:
        return Basis(cell, 1, v)
    if degree == 2 and cell in IS_SIMPLEX:
        mids = [(v[a] + v[b]) / 2 for a, b in EDGES[cell]]
        return Basis(cell, 2, np.concatenate([v, np.array(mids)]))
    raise MiniUnsupported(f"geometry of degree {degree} on {cell}")


def multiindices(d, n):
    return [p for p in itertools.product(range(n + 1), repeat=d) if sum(p) == n]


def facet_ref_normal(cell, lf):
    v = REF_VERTS[cell]
    fv = v[list(FACETS[cell][lf])]
    d = TDIM[cell]
    if d == 1:
        n = fv[0] - v.mean(axis=0)
    elif d == 2:
        t = fv[1] - fv[0]
        n = np.array([t[1], -t[0]])
    else:
        n = np.cross(fv[1] - fv[0], fv[2] - fv[0])
    n = n / np.linalg.norm(n)
    if n @ (fv.mean(axis=0) - v.mean(axis=0)) < 0:
        n = -n
    return n


def facet_ref_jac(cell, lf):
    fv = REF_VERTS[cell][list(FACETS[cell][lf])]
    d = TDIM[cell]
    if d == 1:
        return 1.0
    if d == 2:
        return float(np.linalg.norm(fv[1] - fv[0]))
    return float(np.linalg.norm(np.cross(fv[1] - fv[0], fv[2] - fv[0])))


def facet_shape(cell, pts):
    """Barycentric-type weights of the facet's vertices at facet quadrature points."""
    fc = FACET_CELL[cell]
    if fc == "point":
        return np.ones((1, 1))
    return Basis(fc, 1, REF_VERTS[fc]).tab(pts, (0,) * pts.shape[1])


class GeomAt:
    """Geometry of a set of cells at reference points X (npts, d) or per-cell (n, npts, d)."""

    def __init__(self, mesh, cells, X):
        self.mesh, self.cells, self.X = mesh, np.asarray(cells), X
        cell = mesh.cell_name
        self.d = mesh.topology.dim
        self.gdim = mesh.geometry.dim
        if self.d != self.gdim:
            raise MiniUnsupported("manifold meshes")
        gb = geometry_basis(cell, mesh.geometry.degree)
        self.affine = cell in IS_SIMPLEX and mesh.geometry.degree == 1
        nodes = mesh.geometry.x[mesh.geometry._dofmap[self.cells]][:, :, : self.gdim]
        self._nodes, self._gb = nodes, gb
        n0 = (0,) * self.d
        self.x = self._comb(self._tab(gb, n0), nodes)
        J = np.empty(self.x.shape[:2] + (self.gdim, self.d))
        for j in range(self.d):
            e = tuple(int(i == j) for i in range(self.d))
            J[..., j] = self._comb(self._tab(gb, e), nodes)
        self.J = J
        self.detJ = np.linalg.det(J)
        if np.any(self.detJ == 0):
            msg = "degenerate cell"
            raise RuntimeError(msg)
        self.K = np.linalg.inv(J)  # K[..., j, i] = dX_j/dx_i
        self._H = None

    def _tab(self, basis, der):
        X = self.X
        if X.ndim == 2:
            return basis.tab(X, der)
        n, m, d = X.shape
        return basis.tab(X.reshape(-1, d), der).reshape(n, m, -1)

    @staticmethod
    def _comb(t, nodes):
        if t.ndim == 2:
            return np.einsum("qb,nbi->nqi", t, nodes)
        return np.einsum("nqb,nbi->nqi", t, nodes)

    def hess_geom(self):
        """H[..., i, j, k] = d2 x_i / dX_j dX_k"""
        if self._H is None:
            d = self.d
            H = np.zeros(self.x.shape[:2] + (self.gdim, d, d))
            for j in range(d):
                for k in range(d):
                    der = [0] * d
                    der[j] += 1
                    der[k] += 1
                    H[..., j, k] = self._comb(self._tab(self._gb, tuple(der)), self._nodes)
            self._H = H
        return self._H

    def phys_tab(self, basis, dirs):
        """Physical derivative of the basis in directions `dirs` (tuple of ints): (n, nq, nb)."""
        n, nq = self.x.shape[:2]
        d = self.d

        def full(t):
            return np.broadcast_to(t, (n, nq, t.shape[-1])) if t.ndim == 2 else t

        if len(dirs) == 0:
            return full(self._tab(basis, (0,) * d))
        if len(dirs) == 1:
            out = 0.0
            for j in range(d):
                e = tuple(int(i == j) for i in range(d))
                out = out + full(self._tab(basis, e)) * self.K[:, :, j, dirs[0], None]
            return out
        if len(dirs) == 2:
            a, b = dirs
            out = 0.0
            for j in range(d):
                for k in range(d):
                    der = [0] * d
                    der[j] += 1
                    der[k] += 1
                    out = out + full(self._tab(basis, tuple(der))) * (
                        self.K[:, :, j, a] * self.K[:, :, k, b])[..., None]
            if not self.affine:
                H = self.hess_geom()
                # d2X_l/dx_a dx_b = -K[l,i] H[i,j,k] K[j,a] K[k,b]
                c = -np.einsum("nqli,nqijk,nqj,nqk->nql", self.K, H, self.K[..., a], self.K[..., b])
                for m in range(d):
                    e = tuple(int(i == m) for i in range(d))
                    out = out + full(self._tab(basis, e)) * c[:, :, m, None]
            return out
        if self.affine:
            out = 0.0
            for js in itertools.product(range(d), repeat=len(dirs)):
                der = [0] * d
                f = 1.0
                for j, a in zip(js, dirs):
                    der[j] += 1
                    f = f * self.K[:, :, j, a]
                out = out + full(self._tab(basis, tuple(der))) * f[..., None]
            return out
        raise MiniUnsupported("derivatives of order > 2 on non-affine cells")
