"""M01-M06: the mesh generators (src/dxss/meshes.py), run by the real gmsh in processes of their own."""
from __future__ import annotations

import concurrent.futures as cf
import math
from functools import lru_cache
from pathlib import Path

import numpy as np

from .children import decided, run_child

ROOT = Path(__file__).resolve().parent.parent
H = ["get_mesh_hierarchy", "get_mesh_hierarchy_nonconvex", "get_mesh_hierarchy_fitted_disc", "get_mesh_data_all_around"]
LISTS = [*H, "get_3d_mesh_data_all_around", "get_mesh_convex"]
SINGLE = ["create_initial_mesh_convex", "get_mesh_inclusion", "get_mesh_inclusion_square", "get_mesh_bottom_data"]
NAMES = SINGLE + LISTS


# ---------------------------------------------------------------- calls
def between(rng, a, b, avoid=(), gap=0.03):
    """A position; often a round one, never closer than gap to a line of the geometry unless on it."""
    while True:
        v = float(np.round(rng.uniform(a, b), int(rng.choice([1, 2, 4])))) if rng.random() < 0.85 else float(rng.choice([a, b]))
        if a <= v <= b and all(v == w or abs(v - w) >= gap for w in avoid):
            return v


def call(rng, name, big=False, n_ref=None):
    """A random admissible call of a generator."""
    if name == "get_3d_mesh_data_all_around":
        h = float(np.round(rng.uniform(1.2 if big else 2.0, 6.0), 2))
    else:
        h = float(np.round(np.exp(rng.uniform(np.log(0.35 if big else 0.6), np.log(6.0))), 2))
    r = int(rng.integers(0, 4 if h > 2 else 3 if h > 1 else 2)) if n_ref is None else n_ref
    if name == "get_3d_mesh_data_all_around":
        r = min(r, 2 if h > 3 else 1)
    elif h > 2.5 and n_ref is None and name != "get_mesh_convex" and rng.random() < 0.2:
        r = int(rng.choice([4, 4, 5])) if h > 4 else 4
    kw = {}
    if name == "create_initial_mesh_convex":
        kw = {"init_h_scale": h}
    elif name == "get_mesh_convex":
        kw = {"n_ref": r, "init_h_scale": h}
    elif name == "get_mesh_inclusion":
        kw = {"h_init": h, "order": int(rng.choice([1, 1, 2, 2, 2, 3]))}
        if kw["order"] >= 2 and h > 2:  # quadratic arcs of coarser polygons cannot be represented without folding
            kw["h_init"] = float(np.round(rng.uniform(0.6, 2.0), 2))
    elif name == "get_mesh_bottom_data":
        kw = {"h_init": h, "eta": between(rng, 0.26, 0.88)}
    elif name == "get_mesh_hierarchy_fitted_disc":
        kw = {"n_ref": r, "eta": between(rng, 0.26, 0.94, (0.5,)), "h_init": h}
    elif name == "get_mesh_inclusion_square":
        lines = (-1.25, -0.75, 0.75, 1.25, 1.5)
        eta = float(rng.choice([1.25, 1.5])) if rng.random() < 0.3 else between(rng, -0.9, 1.45, lines)
        low = between(rng, -1.45, min(eta, 1.0) - 0.1, lines)
        if eta >= 1.5:
            high = between(rng, low + 0.1, 1.45, (*lines, low))
        else:
            high = eta if rng.random() < 0.3 else between(rng, eta, 1.5, (*lines, eta))
        kw = {"h_init": h, "x_l": between(rng, -1.45, -0.1, lines), "x_r": between(rng, 0.1, 1.45, lines),
              "y_l": low, "y_r": high, "eta": eta}
    else:
        kw = {"n_ref": r, "init_h_scale": h}
    if rng.random() < 0.35 and n_ref is None:  # rely on defaults
        for k in list(kw):
            if k not in ("n_ref",) and not (name == "get_mesh_inclusion" and k == "order" and kw.get("h_init", 1.25) > 2) and not (k == "eta" and name == "get_mesh_hierarchy_fitted_disc") and rng.random() < 0.5 \
                    and not (name == "get_mesh_inclusion_square" and k != "h_init") and not (name.startswith("get_3d")):
                del kw[k]
        if name == "get_mesh_inclusion_square" and rng.random() < 0.5:
            kw = {k: v for k, v in kw.items() if k == "h_init"}
    return [name, kw]


def near_call(rng, name, kw):
    """A call which differs a little, in one parameter, from this one."""
    kw = dict(kw)
    what = sorted(kw)[int(rng.integers(0, len(kw)))]
    if what == "n_ref":
        kw[what] = 1 - min(kw[what], 1)
        kw[what] = max(kw[what], 1) if name == "get_mesh_convex" else kw[what]
    elif what == "order":
        kw[what] = 3 - kw[what] if kw[what] < 3 and kw.get("h_init", 1.25) <= 2 else kw[what]
    elif what in ("h_init", "init_h_scale"):
        kw[what] = round(kw[what] * float(rng.choice([0.97, 0.99, 0.8])), 3)
    elif what == "eta" and name != "get_mesh_inclusion_square":
        kw[what] = round(kw[what] + (0.01 if kw[what] < 0.4 else -0.01), 4)
    elif what in ("x_l", "x_r") and abs(abs(kw[what]) - 0.75) > 0.1 and abs(abs(kw[what]) - 1.25) > 0.1:
        kw[what] = round(kw[what] * 0.98, 4)
    return [name, kw]


def plan(c, quick, thorough, names=NAMES, **o):
    """Batches of calls: every generator several times, shuffled."""
    out = []
    for r in range(quick if c.quick else thorough):
        rng = c.rng("calls", r)
        calls = [call(rng, n, big=not c.quick, **o) for n in names]
        rng.shuffle(calls)
        half = (len(calls) + 1) // 2
        out += [(f"{r}/a", calls[:half]), (f"{r}/b", calls[half:])]
    return out


class M:
    """One returned mesh."""

    def __init__(self, arr, i, j, ev):
        self.x, self.dofs, self.v = (arr[f"{i}|{j}|{k}"] for k in ("x", "dofs", "v"))
        self.gdim, self.degree = ev["gdim"][j], ev["degree"][j]
        self.dim = self.v.shape[1] - 1
        self.p = self.v[:, :, : self.dim]
        d = self.p[:, 1:] - self.p[:, :1]
        self.vol = np.abs(np.linalg.det(d)) / math.factorial(self.dim)
        pts = self.p.reshape(-1, self.dim)
        _, inv = np.unique(np.round(pts, 9), axis=0, return_inverse=True)
        self.cells = inv.reshape(len(self.p), -1)
        self.mid = self.p.mean(axis=1)
        self.points = np.zeros((self.cells.max() + 1, self.dim))
        self.points[self.cells.ravel()] = pts

    def canonical(self):
        """Sorted cells by coordinates, independent of numbering."""
        c = np.sort(self.cells, axis=1)
        order = np.lexsort(c.T)
        return self.points, c[order]

    def edges(self):
        import itertools

        e = np.concatenate([self.cells[:, [a, b]] for a, b in itertools.combinations(range(self.dim + 1), 2)])
        return np.unique(np.sort(e, axis=1), axis=0)

    def hmax(self):
        e = self.edges()
        return np.linalg.norm(self.points[e[:, 0]] - self.points[e[:, 1]], axis=1).max()


def run_batches(c, batches, env=None, **o):
    """Yield (case key, calls, report, arrays) for each batch, inside a case, with decided outcome."""
    todo = [(k, b) for k, b in batches if c.only in (None, k)]
    width = 7
    with cf.ThreadPoolExecutor(width) as pool:
        jobs = []
        for n, (key, b) in enumerate(todo):
            jobs.append((key, b, pool.submit(later, c, n < 3 * width, b, env, o)))
        for key, b, job in jobs:
            got = job.result()
            if got is None or c.enough():
                continue
            ev, arr = got
            with c._case(key, {"calls": b}):
                decided(c, ev)
                yield key, b, ev, arr
    c.count("processes", len(todo))


def later(c, always, b, env, o):
    if not always and not c.more(0.6):
        return None
    return run_child("checks.mesh_child", dict({"calls": b, "clean": True}, **o), env)


def returned(c, ev):
    """Did this generator call return meshes?  A raised exception is a violation."""
    what = f"{ev['name']}({', '.join(f'{k}={v}' for k, v in ev['kw'].items())})"
    if "error" in ev:
        if ev["unsupported"]:
            c.inconclusive.append(f"{what}: platform: {ev['error']}")
        else:
            c.ok(False, f"{what} raised {ev['error']} [{ev['where']}]")
        return None
    c.count("generator calls")
    c.mark(ev["name"], str(sorted(ev["kw"].items())))
    return what


def domain(name):
    if "inclusion" in name:
        return np.array([-1.5, -1.5]), np.array([1.5, 1.5])
    d = 3 if name.startswith("get_3d") else 2
    return np.zeros(d), np.ones(d)


def value(ev, key, default):
    return ev["kw"].get(key, default)


# ---------------------------------------------------------------- M01
@lru_cache(None)
def nodes_of(p):
    """Nodes of the Lagrange triangle of degree p: vertices, edges 12, 02, 01 (from the lower vertex), interior."""
    V = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]])
    out = list(V)
    for a, b in ((1, 2), (0, 2), (0, 1)):
        out += [V[a] + (V[b] - V[a]) * i / p for i in range(1, p)]
    out += [np.array([i, j]) / p for j in range(1, p) for i in range(1, p - j)]
    return np.array(out)


@lru_cache(None)
def curved_rule(p):
    """Quadrature points on the triangle with weights and the gradients of the degree-p basis there."""
    ex = [(i, j) for i in range(p + 1) for j in range(p + 1 - i)]
    X = nodes_of(p)
    C = np.linalg.inv(np.array([[x**i * y**j for i, j in ex] for x, y in X]))
    g, w = np.polynomial.legendre.leggauss(6)
    g, w = (g + 1) / 2, w / 2
    out = []
    for a, wa in zip(g, w):
        for b, wb in zip(g, w):
            s, t = a, b * (1 - a)
            D = np.array([[i * s ** max(i - 1, 0) * t**j, j * s**i * t ** max(j - 1, 0)] for i, j in ex])
            out.append((wa * wb * (1 - a), C.T @ D))
    return out


def curved_area(m):
    """Area and smallest Jacobian of curved triangles."""
    X = m.x[m.dofs][:, :, :2]
    area, low = np.zeros(len(X)), np.full(len(X), np.inf)
    whole = np.linalg.det(X[:, 1:3] - X[:, :1])
    sign = np.sign(whole)
    for wt, D in curved_rule(m.degree):
        det = np.linalg.det(np.einsum("cni,nj->cij", X, D)) * sign
        area += wt * det
        low = np.minimum(low, det / np.abs(whole))
    return area, low


def check_cover(c, m, name, what, rng):
    lo, hi = domain(name)
    dim = len(lo)
    if not c.ok(m.dim == dim and m.gdim == dim, f"{what}: mesh of dimension {m.dim} in {m.gdim} coordinates"):
        return
    h = m.hmax()
    c.ok((m.points >= lo - 1e-9).all() and (m.points <= hi + 1e-9).all(), f"{what}: points outside the domain")
    longest = max(np.linalg.norm(m.p[:, i] - m.p[:, j], axis=1).max() for i in range(dim + 1) for j in range(i))
    c.ok((m.vol > 1e-9 * longest**dim).all(), f"{what}: degenerate cell", smallest=float(m.vol.min()))
    c.close(m.vol.sum(), np.prod(hi - lo), 1e-10, "volumes of the cells sum up to that of the domain", what=what)
    if m.points.shape[0] > 1:
        from scipy.spatial import cKDTree

        d = cKDTree(m.points).query(m.points, k=2)[0][:, 1]
        c.ok(d.min() > 1e-7 * h, f"{what}: distinct points almost coincide")
    # facets: shared by two cells on opposite sides, or on the border
    facets = np.concatenate([np.delete(m.cells, i, axis=1) for i in range(dim + 1)])
    opp = np.concatenate([m.cells[:, i] for i in range(dim + 1)])
    srt = np.sort(facets, axis=1)
    uniq, inv, cnt = np.unique(srt, axis=0, return_inverse=True, return_counts=True)
    inv = inv.ravel()
    c.ok(cnt.max() <= 2, f"{what}: a facet belongs to {cnt.max()} cells")
    P = m.points[uniq]
    n = np.array([np.linalg.svd(q[1:] - q[0])[2][-1] for q in P]) if dim == 3 else np.stack([-(P[:, 1] - P[:, 0])[:, 1], (P[:, 1] - P[:, 0])[:, 0]], axis=1)
    side = np.sign(np.einsum("fd,fd->f", n[inv], m.points[opp] - P[inv, 0]))
    tot = np.zeros(len(uniq))
    np.add.at(tot, inv, side)
    c.ok((tot[cnt == 2] == 0).all(), f"{what}: two cells on the same side of their common facet")
    B = P[cnt == 1]
    on = np.zeros(len(B), bool)
    for d in range(dim):
        for w in (lo[d], hi[d]):
            on |= (np.abs(B[:, :, d] - w) < 1e-9).all(axis=1)
    c.ok(on.all(), f"{what}: {int((~on).sum())} facets of only one cell lie inside the domain (gap or hanging node)")
    # random points are in exactly one cell
    q = rng.uniform(lo, hi, (40, dim))
    inside = np.zeros(len(q), int)
    border = np.zeros(len(q), bool)
    Ainv = np.linalg.inv((m.p[:, 1:] - m.p[:, :1]).transpose(0, 2, 1))
    for k, z in enumerate(q):
        lam = np.einsum("cij,cj->ci", Ainv, z - m.p[:, 0])
        lam = np.concatenate([1 - lam.sum(axis=1, keepdims=True), lam], axis=1).min(axis=1)
        inside[k] = (lam > 1e-9).sum()
        border[k] = (np.abs(lam) <= 1e-9).any()
    if m.degree == 1:
        c.ok(((inside == 1) | border).all(), f"{what}: a point lies in {inside.min()} or {inside.max()} cells")
    c.count("points located", len(q))
    c.count("cells inspected", len(m.cells))
    if m.degree >= 2:
        if not c.ok(m.dofs.shape[1] == len(nodes_of(m.degree)), f"{what}: {m.dofs.shape[1]} nodes in cells of degree {m.degree}"):
            return
        area, low = curved_area(m)
        c.ok((low > 0).all(), f"{what}: a curved cell folds over", smallest=float(low.min()))
        c.close(area.sum(), np.prod(hi - lo), 1e-9, "areas of the curved cells sum up to that of the domain", what=what)
        X, p = m.x[m.dofs], m.degree
        key = {}
        for i, (a, b) in enumerate(((1, 2), (0, 2), (0, 1))):
            for k in range(1, p):
                node = 3 + i * (p - 1) + k - 1
                at = X[:, a] + (X[:, b] - X[:, a]) * k / p
                off = np.linalg.norm(X[:, node] - at, axis=1) / np.linalg.norm(X[:, a] - X[:, b], axis=1)
                c.ok((off < 0.25).all(), f"{what}: a node of edge {a}{b} of a curved cell is not near its place on this edge")
                # the nodes of a shared edge are shared
                for cell, dof in zip(m.cells, m.dofs):
                    va, vb = int(cell[a]), int(cell[b])
                    e = (va, vb, k) if va < vb else (vb, va, p - k)
                    key.setdefault(e, set()).add(tuple(np.round(m.x[dof[node]], 9)))
        c.ok(all(len(s) == 1 for s in key.values()), f"{what}: curved cells do not share the node of their common edge")


def M01(c):
    c.rule = (
        "all generators are called with random admissible parameters (size factor, refinements, interface and target "
        "positions, geometry order, defaults left out) in random order, in child processes with the real gmsh; every "
        "returned mesh is inspected cell by cell. Non-trivial: distinct (generator, parameters)."
    )
    c.require("generator calls", 30)
    c.require("cells inspected", 5000)
    for key, b, ev, arr in run_batches(c, plan(c, 18, 250)):
        for i, e in enumerate(ev["calls"]):
            what = returned(c, e)
            if what is None:
                continue
            c.ok(e["list"] == (e["name"] in LISTS), f"{what}: returns {'a list' if e['list'] else 'one mesh'}")
            for j in range(e["meshes"]):
                m = M(arr, i, j, e)
                want = value(e, "order", 2) if e["name"] == "get_mesh_inclusion" else 1
                c.ok(m.degree == want, f"{what}: geometry of degree {m.degree}, asked for {want}")
                check_cover(c, m, e["name"], f"{what}, mesh {j}", c.rng("points", key, i, j))
                c.count("meshes")
            c.sample(call=what, meshes=e["meshes"], cells=[len(arr[f"{i}|{j}|v"]) for j in range(e["meshes"])])


# ---------------------------------------------------------------- M02
def boxes(e):
    """Subregions (closed boxes) which the mesh of this call must resolve."""
    n, big = e["name"], 9.0
    if n in ("create_initial_mesh_convex", "get_mesh_convex", "get_mesh_hierarchy"):
        return [((0.1, 0.25), (0.9, 0.95)), ((0.1, 0.25), (0.9, 1.0)), ((0.1, 0.95), (0.9, 1.0))]
    if n == "get_mesh_hierarchy_nonconvex":
        return [((0.25, 0.05), (0.75, 0.5)), ((0.125, 0.05), (0.875, 0.95))]
    if n == "get_mesh_hierarchy_fitted_disc":
        eta = e["kw"]["eta"]
        return [((-big, -big), (big, eta)), ((0.1, 0.25), (0.9, 0.95)), ((0.1, 0.25), (0.9, eta)), ((0.1, eta), (0.9, 0.95))]
    if n == "get_mesh_inclusion":
        return [((-0.5, -0.5), (0.5, 0.5)), ((-1.25, -1.25), (1.25, 1.5))]
    if n == "get_mesh_inclusion_square":
        g = lambda k, d: value(e, k, d)  # noqa: E731
        eta = g("eta", 1.25)
        out = [((g("x_l", -1.25), g("y_l", -1.25)), (g("x_r", 1.25), g("y_r", 1.25))), ((-0.75, -0.75), (0.75, 0.75)),
               ((-1.25, -1.25), (1.25, min(eta, 1.5)))]
        if eta < 1.5:
            out.append(((-big, -big), (big, eta)))
        return out
    if n == "get_mesh_bottom_data":
        eta = value(e, "eta", 0.6)
        return [((-big, -big), (big, 0.25)), ((-big, -big), (big, eta)), ((0.25, 0.25), (0.75, eta)), ((0.25, eta), (0.75, 0.9)),
                ((0.25, 0.25), (0.75, 0.9)), ((0.25, 0.9), (0.75, 1.0))]
    if n == "get_mesh_data_all_around":
        return [((0.2, 0.2), (0.8, 0.8))]
    if n == "get_3d_mesh_data_all_around":
        return [((0.2,) * 3, (0.8,) * 3)]
    raise KeyError(n)


def clip_area(tri, lo, hi):
    """Area of the intersection of a triangle with a box."""
    poly = [np.array(p) for p in tri]
    for d in (0, 1):
        for sgn, w in ((1, lo[d]), (-1, -hi[d])):
            out = []
            for a, b in zip(poly, poly[1:] + poly[:1]):
                fa, fb = sgn * a[d] - w, sgn * b[d] - w
                if fa >= 0:
                    out.append(a)
                if (fa > 0 > fb) or (fa < 0 < fb):
                    out.append(a + (b - a) * fa / (fa - fb))
            poly = out
            if len(poly) < 3:
                return 0.0
    x, y = np.array(poly).T
    return 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


BARY = np.array([[i, j, k, 12 - i - j - k] for i in range(1, 10) for j in range(1, 11 - i) for k in range(1, 12 - i - j)]) / 12.0


def crossing(m, lo, hi):
    """Cells that lie partly inside and partly outside the box."""
    lo, hi = np.array(lo), np.array(hi)
    tol = 1e-9
    inn = ((m.p >= lo - tol) & (m.p <= hi + tol)).all(axis=(1, 2))
    mn, mx = m.p.min(axis=1), m.p.max(axis=1)
    out = ((mx <= lo + tol) | (mn >= hi - tol)).any(axis=1)
    bad = []
    for k in np.nonzero(~inn & ~out)[0]:
        if m.dim == 2:
            a = clip_area(m.p[k], lo, hi)
            if 1e-7 * m.vol[k] < a < (1 - 1e-7) * m.vol[k]:
                bad.append(k)
        else:
            q = BARY @ m.p[k]
            s = ((q > lo + tol) & (q < hi - tol)).all(axis=1)
            if s.any() and not s.all():
                bad.append(k)
    return bad, inn


def M02(c):
    c.rule = (
        "as for M01; for every documented subregion of every returned mesh the part of each cell inside the region is "
        "measured (exact polygon clipping in 2D, a lattice of 165 interior points in 3D) and the volumes of the cells "
        "inside are added up. Non-trivial: distinct (generator, parameters)."
    )
    c.require("generator calls", 30)
    c.require("cell-region pairs", 10000)
    for key, b, ev, arr in run_batches(c, plan(c, 24, 300)):
        for i, e in enumerate(ev["calls"]):
            what = returned(c, e)
            if what is None:
                continue
            lo, hi = domain(e["name"])
            for j in range(e["meshes"]):
                m = M(arr, i, j, e)
                for a, z in boxes(e):
                    bad, inn = crossing(m, a, z)
                    c.ok(not bad, f"{what}, mesh {j}: {len(bad)} cells cross the border of the region {a}-{z}",
                         cell=m.p[bad[0]] if bad else None)
                    a2, z2 = np.maximum(a, lo), np.minimum(z, hi)
                    c.close(m.vol[inn].sum(), np.prod(np.maximum(z2 - a2, 0)), 1e-8, "volume of the region on the mesh",
                            what=what, region=[*a, *z])
                    c.count("cell-region pairs", len(m.cells))
                if e["name"] == "get_mesh_inclusion":
                    disc(c, m, what)
            c.sample(call=what, regions=boxes(e))


def disc(c, m, what):
    """The unit disc: vertices on one side for every cell, area up to the geometry order."""
    r = np.linalg.norm(m.p, axis=2)
    inside = (r <= 1 + 1e-8).all(axis=1)
    outside = (r >= 1 - 1e-8).all(axis=1)
    # a cell with all vertices on the circle is inside
    c.ok((inside | outside).all(), f"{what}: {int((~(inside | outside)).sum())} cells cross the circle")
    on = np.abs(r - 1) < 1e-8
    c.ok(on.any(), f"{what}: no vertex on the circle")
    h = max(np.linalg.norm(m.points[a] - m.points[b]) for a, b in m.edges() if abs(np.linalg.norm(m.points[a]) - 1) < 1e-8
            and abs(np.linalg.norm(m.points[b]) - 1) < 1e-8)
    if m.degree == 1:
        c.ok(0 <= math.pi - m.vol[inside].sum() <= math.pi * h**2 / 6 * 1.3, f"{what}: area of the disc {m.vol[inside].sum()}, h={h}")
    else:
        area, _ = curved_area(m)
        c.ok(abs(math.pi - area[inside].sum()) <= 0.2 * h**4, f"{what}: area of the disc {area[inside].sum()}, h={h}")
        X, p = m.x[m.dofs], m.degree
        for i, (a, b) in enumerate(((1, 2), (0, 2), (0, 1))):
            edge = on[:, a] & on[:, b] & (inside | (np.abs(np.linalg.norm(m.mid, axis=1)) > 1))
            # an edge with both ends on the circle and a cell on each side is an arc unless both cells are inside
            for k in range(3 + i * (p - 1), 3 + (i + 1) * (p - 1)):
                rr = np.linalg.norm(X[:, k][edge & outside & ~inside], axis=1)
                c.close(rr, np.ones_like(rr), 1e-7, "nodes of the arcs lie on the circle", what=what)
                c.count("arc nodes", len(rr))


# ---------------------------------------------------------------- M03
def nested(c, coarse, fine, what):
    """Every fine cell lies in exactly one coarse cell, all edges of the coarse mesh are halved."""
    from scipy.spatial import cKDTree

    dim = coarse.dim
    Ainv = np.linalg.inv((coarse.p[:, 1:] - coarse.p[:, :1]).transpose(0, 2, 1))
    tree = cKDTree(coarse.mid)
    parent = np.full(len(fine.cells), -1)
    open_ = np.arange(len(fine.cells))
    k = min(24, len(coarse.cells))
    while len(open_):
        near = tree.query(fine.mid[open_], k=k)[1].reshape(len(open_), -1)
        lam = np.einsum("fcij,fcj->fci", Ainv[near], fine.mid[open_][:, None] - coarse.p[near, 0])
        low = np.minimum(lam.min(axis=2), 1 - lam.sum(axis=2))
        best = low.argmax(axis=1)
        good = low[np.arange(len(open_)), best] > 0
        parent[open_[good]] = near[np.arange(len(open_)), best][good]
        open_ = open_[~good]
        if k >= len(coarse.cells):
            break
        k = min(4 * k, len(coarse.cells))
    if not c.ok((parent >= 0).all(), f"{what}: a fine cell has its midpoint in no coarse cell"):
        return
    lam = np.einsum("fij,fvj->fvi", Ainv[parent], fine.p - coarse.p[parent][:, :1])
    low = np.minimum(lam.min(axis=(1, 2)), (1 - lam.sum(axis=2)).min(axis=1))
    c.ok(low.min() > -1e-9, f"{what}: {int((low <= -1e-9).sum())} fine cells lie in more than one coarse cell")
    n = np.bincount(parent, minlength=len(coarse.cells))
    c.ok((n == 2**dim).all(), f"{what}: coarse cells have between {n.min()} and {n.max()} children, expected {2 ** dim}")
    v = np.zeros(len(coarse.cells))
    np.add.at(v, parent, fine.vol)
    c.close(v, coarse.vol, 1e-9, "children fill their parent", what=what)
    e = coarse.edges()
    want = np.concatenate([coarse.points, coarse.points[e].mean(axis=1)])
    d = cKDTree(fine.points).query(want)[0]
    c.ok(d.max() < 1e-9, f"{what}: an edge of the coarse mesh is not halved")
    c.ok(len(fine.points) == len(want), f"{what}: {len(fine.points)} points, expected {len(want)}")
    c.count("fine cells located", len(fine.cells))
    c.count("refinements")


def M03(c):
    c.rule = (
        "all generators of mesh lists with random parameters and 0 to 3 refinements, and pairs of calls of all generators "
        "with size factors f and f/2; all fine cells are located in the coarser mesh. Non-trivial: distinct (generator, parameters)."
    )
    c.require("refinements", 15)
    c.require("size pairs", 10)
    batches = []
    for r in range(14 if c.quick else 160):
        rng = c.rng("lists", r)
        calls = [call(rng, n, big=not c.quick) for n in LISTS]
        if r == 0:
            for x in calls:
                x[1]["n_ref"] = max(1, x[1]["n_ref"])
        batches.append((f"lists/{r}", calls))
        rng = c.rng("pairs", r)
        calls = []
        for n in NAMES:
            x = call(rng, n, n_ref=0 if n != "get_mesh_convex" else 1)
            key = "init_h_scale" if "init_h_scale" in x[1] else "h_init"
            f = float(np.round(rng.uniform(2.4, 6.0) if n.startswith("get_3d") else rng.uniform(1.0, 4.0), 2))
            if not n.startswith("get_3d") and rng.random() < 0.2:
                f = float(np.round(rng.uniform(0.3, 0.8), 2))
            calls += [[n, dict(x[1], **{key: f})], [n, dict(x[1], **{key: f / 2})]]
        batches.append((f"pairs/{r}", calls))
        if r % 2 == 0:
            n = 2 + (r // 2) % 4
            f = float(np.round(rng.uniform(1.0 if n < 5 else 2.5, 4.0), 2))
            batches.append((f"convex/{r}", [["get_mesh_convex", {"n_ref": n, "init_h_scale": f}],
                                            *(["create_initial_mesh_convex", {"init_h_scale": f / 2**j}] for j in range(n))]))
    for key, b, ev, arr in run_batches(c, batches):
        got = []
        for i, e in enumerate(ev["calls"]):
            what = returned(c, e)
            if what is None:
                got.append(None)
                continue
            ms = [M(arr, i, j, e) for j in range(e["meshes"])]
            got.append(ms)
            if e["name"] not in LISTS:
                continue
            n = e["kw"]["n_ref"]
            c.ok(len(ms) == (n if e["name"] == "get_mesh_convex" else n + 1), f"{what} returns {len(ms)} meshes")
            for j in range(1, len(ms)):
                if e["name"] == "get_mesh_convex":
                    f = value(e, "init_h_scale", 1.0) / 2 ** (j - 1)  # coarse meshes are limited by the geometry, not by the factor
                    c.ok(len(ms[j].cells) > (1.5 if f <= 3 else 0.999) * len(ms[j - 1].cells), f"{what}: mesh {j} has {len(ms[j].cells)} cells, mesh {j - 1} {len(ms[j - 1].cells)}")
                else:
                    nested(c, ms[j - 1], ms[j], f"{what}, mesh {j}")
            c.sample(call=what, cells=[len(m.cells) for m in ms])
        if key.startswith("pairs"):
            for i in range(0, len(got) - 1, 2):
                if got[i] and got[i + 1]:
                    a, z = got[i][0], got[i + 1][0]
                    what = f"{b[i][0]}({b[i][1]}) against half the size factor"
                    c.ok(len(z.cells) >= len(a.cells), f"{what}: {len(z.cells)} cells instead of {len(a.cells)}")
                    lo, hi = domain(b[i][0])
                    f = b[i + 1][1].get("init_h_scale", b[i + 1][1].get("h_init"))
                    bound = 0.1 * np.linalg.norm(hi - lo) * f  # default size of the generator
                    c.ok(z.hmax() <= 2.0 * bound, f"{what}: longest edge {z.hmax():.3f}, size factor asks for {bound:.3f}")
                    c.count("size pairs")
        if key.startswith("convex") and all(got):
            for j, m in enumerate(got[0]):
                same(c, m, got[1 + j][0], f"{b[0][0]}({b[0][1]}) mesh {j} against a single mesh of size factor {b[1 + j][1]['init_h_scale']}")


def same(c, a, b, what):
    """The same mesh up to numbering."""
    if not c.ok(a.p.shape == b.p.shape and a.points.shape == b.points.shape,
                f"{what}: {a.p.shape[0]} and {b.p.shape[0]} cells, {len(a.points)} and {len(b.points)} points"):
        return
    (pa, ca), (pb, cb) = a.canonical(), b.canonical()
    c.close(pa, pb, 1e-9, "same points", scale=1.0, what=what)
    c.ok(np.array_equal(ca, cb), f"{what}: different cells")
    c.ok(a.degree == b.degree and a.gdim == b.gdim, f"{what}: different geometry")
    c.count("meshes compared")


# ---------------------------------------------------------------- M04
FAILURES = ["Exception", "KeyboardInterrupt", "MemoryError", "ValueError", "OSError", "SystemExit", "RuntimeError", "ArithmeticError", "KeyError", "AssertionError", "NotImplementedError", "TypeError"]
LARGE_STEPS = ["generate", "write", "read", "read_mesh", "refine", "create_mesh", "locate_entities", "compute_incident_entities", "fragment", "cut"]
# calls without a mesh: they may raise or return anything, but not spoil the calls after them
HOPELESS = [["get_mesh_bottom_data", {"h_init": 2.0, "eta": 1.0}], ["get_mesh_bottom_data", {"h_init": 2.0, "eta": 0.25}],
            ["get_mesh_inclusion_square", {"h_init": 2.0, "y_l": 1.25}], ["get_mesh_inclusion_square", {"h_init": 2.0, "eta": -1.5}],
            ["get_mesh_hierarchy", {"n_ref": 1, "init_h_scale": None}], ["get_mesh_data_all_around", {"n_ref": None, "init_h_scale": 4.0}],
            ["get_mesh_hierarchy_fitted_disc", {"n_ref": 1, "eta": None}], ["create_initial_mesh_convex", {"init_h_scale": "coarse"}],
            ["get_mesh_inclusion", {"h_init": None}], ["get_3d_mesh_data_all_around", {"n_ref": None, "init_h_scale": 5.0}]]


def M04(c):
    c.rule = (
        "histories of 10 to 15 generator calls (repetitions, calls that differ a little in one parameter, returned meshes and lists modified by "
        "their user, calls which fail because of an injected failure inside the generator or because their parameters admit no mesh) in one process without any cleaning up in between; after "
        "every call the state of the gmsh session is observed, and every mesh is compared with that of a fresh process. "
        "Non-trivial: distinct (generator, parameters, previous generator)."
    )
    c.require("meshes compared", 40)
    c.require("distinct predecessors", 15)
    c.require("failing calls", 100)
    hist = []
    first = int(c.rng("first").integers(0, len(NAMES)))
    for r in range(7 if c.quick else 80):
        rng = c.rng("history", r)
        calls = [call(rng, NAMES[int(i)]) for i in rng.permutation(len(NAMES))[:4]]
        for f in range(2):  # repetitions of calls, and the like of them
            x = call(rng, NAMES[(first + 2 * r + f) % len(NAMES)])
            near = [near_call(rng, *x) for _ in range(2 if x[1] else 0)]
            calls += [x, *near, x, *near[:1], x]
        for x in calls:
            if "n_ref" in x[1]:
                x[1]["n_ref"] = min(x[1]["n_ref"], 1)
        calls = [calls[int(i)] for i in rng.permutation(len(calls))]
        for _ in range(4 if c.quick else 6):  # calls which fail, before one of the same or of another generator
            j = int(rng.integers(0, len(calls)))
            x = near_call(rng, *calls[j][:2]) if calls[j][1] and len(calls[j]) == 2 and rng.random() < 0.7 else call(rng, NAMES[int(rng.integers(0, len(NAMES)))], n_ref=1)
            if rng.random() < 0.25:
                calls.insert(j, [*HOPELESS[int(rng.integers(0, len(HOPELESS)))], None])
            else:
                at = ["generate", int(rng.integers(1, 8)), int(rng.integers(1, 60))][int(rng.integers(0, 3))]
                calls.insert(j, [*x[:2], [at, FAILURES[int(rng.integers(0, len(FAILURES)))]]])
        hist.append((f"{r}", calls))
    seen = set()
    with cf.ThreadPoolExecutor(7) as tp:
        fresh = {}
        for key, b in hist:
            if c.only in (None, key):
                for x in (x for x in b if len(x) == 2):
                    fresh.setdefault(repr(x), tp.submit(later, c, len(fresh) < 60, [x], None, {}))
        for key, b, ev, arr in run_batches(c, hist, clean=False, spoil=True):
            for i, e in enumerate(ev["calls"]):
                before = b[i - 1][0] + (" (failing)" if len(b[i - 1]) == 3 else "") if i else None
                c.ok(not e["session open"], f"call {i} {e['name']}({e['kw']}): generator session left open", failed=e.get("error"))
                if len(b[i]) == 3:
                    if e.get("failed at"):
                        c.ok("error" in e and e["injected"], f"call {i} {e['name']}({e['kw']}): a failure inside did not reach the caller", failure=e["failed at"], error=e.get("error"))
                        c.count("failing calls")
                    elif b[i][2] is None:
                        c.count("calls without a possible mesh")
                    continue
                what = returned(c, e)
                if what is None:
                    continue
                got = fresh[repr(b[i])].result()
                if got is None:
                    continue
                fev, farr = got
                decided(c, fev)
                f = fev["calls"][0]
                if "error" in f:
                    c.ok(f["unsupported"], f"{what} in a fresh process raised {f['error']}")
                    continue
                if not c.ok(f["meshes"] == e["meshes"], f"{what}: {e['meshes']} meshes after other calls, {f['meshes']} alone"):
                    continue
                for j in range(e["meshes"]):
                    same(c, M(arr, i, j, e), M(farr, 0, j, f), f"{what}, mesh {j}, as call {i} after {before}")
                seen.add((e["name"], before))
                c.mark(e["name"], str(e["kw"]), before)
            c.sample(history=[x[0] for x in b])
    # each generator failing in each of its steps
    sweeps = []
    for r in range(1 if c.quick else 6):
        for name in NAMES:
            rng = c.rng("sweep", r, name)
            x = call(rng, name, n_ref=1)
            size = "h_init" if "h_init" in x[1] or name in ("get_mesh_inclusion",) else "init_h_scale"
            if size in x[1] and name != "get_mesh_inclusion":
                x[1][size] = round(float(rng.uniform(3, 6)), 2)
            sweeps.append((f"sweep{r}/{name}", [x]))
    kinds = [FAILURES[int(i)] for i in c.rng("kinds").permutation(len(FAILURES))]
    for key, b, ev, arr in run_batches(c, sweeps, clean=False, sweep=[kinds, LARGE_STEPS]):
        x = b[0]
        for e in ev["calls"][:-1]:
            c.ok(not e["session open"], f"{e['name']}({e['kw']}), failing: generator session left open", failed=e.get("error"))
            if e.get("failed at"):
                c.ok("error" in e and e["injected"], f"{e['name']}({e['kw']}): a failure inside did not reach the caller", failure=e["failed at"], error=e.get("error"))
                c.count("failing calls")
                c.mark(e["name"], e["failed at"].split(" in call")[0], e["failed at"].split(", ")[-1])
        e = ev["calls"][-1]
        what = returned(c, e)
        got = run_child("checks.mesh_child", {"calls": [x], "clean": True}, None) if what else None
        if got is None:
            continue
        fev, farr = got
        decided(c, fev)
        f, last = fev["calls"][0], len(ev["calls"]) - 1
        if "error" in f:
            c.ok(f["unsupported"], f"{what} in a fresh process raised {f['error']}")
        elif c.ok(f["meshes"] == e["meshes"], f"{what}: {e['meshes']} meshes after failing calls, {f['meshes']} alone"):
            for j in range(e["meshes"]):
                same(c, M(arr, last, j, e), M(farr, 0, j, f), f"{what}, mesh {j}, after {last} failing calls")
        c.sample(failing=[e.get("failed at") for e in ev["calls"]][:12])
    c.count("distinct predecessors", len(seen))


# ---------------------------------------------------------------- M06
MARKED = ["create_initial_mesh_convex", "get_mesh_convex", *H]
WRITTEN = [*MARKED, "get_mesh_inclusion", "get_mesh_inclusion_square", "get_mesh_bottom_data"]


def named(e, mid):
    """Markers of the data region (1), the rest of the target region (2) and the remainder (3)."""
    inside = lambda lo, hi: ((mid > lo) & (mid < hi)).all(axis=1)  # noqa: E731
    n = e["name"]
    if n in ("create_initial_mesh_convex", "get_mesh_convex", "get_mesh_hierarchy"):
        return np.where(inside((0.1, 0.25), (0.9, 0.95)), 2, np.where(inside((0.1, 0.95), (0.9, 1.0)), 3, 1))
    if n == "get_mesh_hierarchy_nonconvex":
        return np.where(inside((0.25, 0.05), (0.75, 0.5)), 1, np.where(inside((0.125, 0.05), (0.875, 0.95)), 2, 3))
    return None


def files(c, m, e, arr, i, what):
    from scipy.spatial import cKDTree

    lo, hi = domain(e["name"])
    ed = m.edges()
    P = m.points[ed]
    on = sum((np.abs(P[:, :, d] - w) < 1e-9).all(axis=1) for d in range(2) for w in (lo[d], hi[d])) > 0
    border = {tuple(x) for x in ed[on].tolist()}
    mine = {tuple(x): k for k, x in enumerate(np.sort(m.cells, axis=1).tolist())}

    def read(f):
        if not c.ok(f"no {f}" not in e, f"{what}: {f} cannot be read: {e.get('no ' + f)}"):
            return None
        g = {k: arr.get(f"{i}|{f}|{k}") for k in ("points", "cells", "values")}
        near, at = cKDTree(m.points).query(g["points"][:, : m.dim])
        used = np.unique(g["cells"])
        if not c.ok(not len(used) or near[used].max() < 1e-9, f"{what}: {f} has a point which the mesh has not", distance=float(near[used].max(initial=0))):
            return None
        return at[g["cells"]], g["values"]

    def cells_in(f, marked):
        got = read(f)
        if got is None:
            return
        cells, values = got
        theirs = [mine.get(tuple(x)) for x in np.sort(cells, axis=1).tolist()]
        if not c.ok(None not in theirs and len(set(theirs)) == len(theirs) == len(m.cells), f"{what}: {f} holds {len(cells)} cells, "
                    f"{len(set(theirs) - {None})} of the {len(m.cells)} of the mesh"):
            return
        c.count("cells in files", len(cells))
        if marked and c.ok(values is not None and len(values) == len(cells), f"{what}: {f} has no marker for each cell"):
            mark = np.zeros(len(m.cells), int)
            mark[theirs] = np.round(values).astype(int)
            markers(c, m, e, mark, f"{what}, {f}")

    def border_in(f):
        got = read(f)
        if got is None:
            return
        lines, values = got
        theirs = [tuple(x) for x in np.sort(lines, axis=1).tolist()]
        c.ok(set(theirs) == border and len(theirs) == len(border), f"{what}: {f} marks {len(theirs)} edges, {len(set(theirs) & border)} of the {len(border)} of the border")
        c.ok(values is not None and len(values) == len(theirs) and (values == 1).all(), f"{what}: {f} does not mark the border with 1")
        c.count("border edges compared", len(border))

    cells_in("mesh.xdmf", e["name"] in MARKED)
    if e["name"] in MARKED:
        border_in("mt.xdmf")
    cells_in("mesh.msh", True)
    if e["name"] != "get_mesh_bottom_data":
        border_in("mesh.msh:line")


def markers(c, m, e, mark, what):
    """The markers of the cells are those of the subregions."""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components

    c.count("markers compared", len(mark))
    want = named(e, m.mid)
    if want is not None:
        bad = np.nonzero(mark != want)[0]
        c.ok(not len(bad), f"{what}: {len(bad)} cells carry the marker of another region",
             **({"cell": m.p[bad[0]], "marker": int(mark[bad[0]]), "expected": int(want[bad[0]])} if len(bad) else {}))
        return
    regions = [(((m.mid > a) & (m.mid < z)).all(axis=1), f"{a}-{z}") for a, z in boxes(e)]
    if e["name"] == "get_mesh_inclusion":
        regions.append(((np.linalg.norm(m.p, axis=2) <= 1 + 1e-8).all(axis=1), "unit disc"))
    for inn, region in regions:
        both = set(mark[inn].tolist()) & set(mark[~inn].tolist())
        c.ok(not both, f"{what}: the marker {both} is used inside and outside the region {region}")
    n = mark.max()
    c.ok(set(mark.tolist()) == set(range(1, n + 1)), f"{what}: markers {sorted(set(mark.tolist()))[:20]}")
    # every marker marks one piece
    inv, pairs = {}, []
    for k, cell in enumerate(m.cells):
        for f in range(3):
            ed = tuple(sorted(np.delete(cell, f).tolist()))
            if ed in inv and mark[inv[ed]] == mark[k]:
                pairs.append((inv[ed], k))
            inv[ed] = k
    pairs = np.array(pairs).reshape(-1, 2)
    parts = connected_components(coo_matrix((np.ones(len(pairs)), pairs.T), shape=(len(m.cells),) * 2), directed=False)[0]
    c.ok(parts == n, f"{what}: {n} markers for {parts} pieces")


def M06(c):
    c.rule = (
        "sequences of calls of the generators which write files, in scratch folders; after every call mesh.xdmf, mt.xdmf and mesh.msh "
        "are read back (by a reader of our own) and compared with the mesh the call returned (the coarsest of a hierarchy, the last "
        "of a list), the cell markers with the subregions, the border edges with those of the domain. Non-trivial: distinct (generator, parameters)."
    )
    c.require("cells in files", 3000)
    c.require("markers compared", 2000)
    c.require("border edges compared", 500)
    batches = []
    for n, (key, calls) in enumerate(plan(c, 24, 300, WRITTEN)):
        rng = c.rng("near", n)
        longer = []
        for x in calls:  # what a call wrote is replaced by a similar one
            longer.append(x)
            if x[1] and rng.random() < 0.6:
                longer.append(near_call(rng, *x))
        batches.append((key, longer))
    for key, b, ev, arr in run_batches(c, batches, files=1):
        for i, e in enumerate(ev["calls"]):
            what = returned(c, e)
            if what is None or not e["meshes"]:
                continue
            j = e["meshes"] - 1 if e["name"] == "get_mesh_convex" else 0
            files(c, M(arr, i, j, e), e, arr, i, what)
            c.sample(call=what, cells=len(arr[f"{i}|{j}|v"]))


# ---------------------------------------------------------------- M05
def M05(c):
    c.rule = (
        "every generator is called in a process with the 0.6 interface; the all-around generator also with that of 0.7, "
        "and the meshes are compared. The returned meshes are used (space, interpolation, form). Non-trivial: distinct "
        "(generator, parameters, interface version)."
    )
    c.require("generator calls", 20)
    c.require("versions compared", 6)
    import os

    def env(v):
        """The interface of a release series, installed as one of its releases."""
        info = Path(os.getcwd()) / f"release-{v}" / f"fenics_dolfinx-{v}.dist-info"
        info.mkdir(parents=True, exist_ok=True)
        (info / "METADATA").write_text(f"Metadata-Version: 2.1\nName: fenics-dolfinx\nVersion: {v}\n")
        old = str(ROOT / "platform" / "v06")
        path = os.environ["PYTHONPATH"].replace(old, str(info.parent))
        assert str(info.parent) in path, "harness: no interface version on the path"
        return {"PYTHONPATH": path, "MINIDOLFINX_VERSION": v}

    old = env("0.6.0")
    releases = ["0.7.0", "0.7.1", "0.7.2", "0.7.3"]
    batches = plan(c, 6, 80)
    for key, b, ev, arr in run_batches(c, batches, old, use=1):
        for e in ev["calls"]:
            what = returned(c, e)
            if what:
                c.mark(e["name"], str(e["kw"]), "0.6")
                c.ok(e.get("used", False), f"{what}: the mesh could not be used")
                c.sample(call=what, interface="0.6")
    pairs = []
    for r in range(8 if c.quick else 60):
        rng = c.rng("all around", r)
        pairs.append((f"versions/{r}", [call(rng, "get_mesh_data_all_around") for _ in range(2)] + [["get_mesh_data_all_around", {"n_ref": 1 + r % 3}]]))
    results = {}
    for v in ("0.6.0", *releases):
        mine = pairs if v == "0.6.0" else pairs[releases.index(v)::len(releases)]
        for key, b, ev, arr in run_batches(c, mine, old if v == "0.6.0" else env(v)):
            results[v, key] = ev, arr
            for i, x in enumerate(ev["calls"]):
                what = returned(c, x)
                if what is None:
                    continue
                c.mark(x["name"], str(x["kw"]), v)
                if v != "0.6.0":
                    oev, oarr = results["0.6.0", key]
                    o = oev["calls"][i]
                    if "error" in o:
                        continue
                    if c.ok(o["meshes"] == x["meshes"], f"{what}: {o['meshes']} meshes under 0.6, {x['meshes']} under {v}"):
                        for j in range(x["meshes"]):
                            same(c, M(arr, i, j, x), M(oarr, i, j, o), f"{what}, mesh {j}, {v} against 0.6")
                        c.count("versions compared")
