"""T01-T04: the temporal ingredients (src/dxss/precomp_time_int.py)."""
from __future__ import annotations

import itertools
from fractions import Fraction as F

import numpy as np

KEYS = {
    "M_time_q_qstar": ("qstar", "q", 0, 0), "M_time_q_q": ("q", "q", 0, 0),
    "M_time_qstar_qstar": ("qstar", "qstar", 0, 0), "DM_time_q_qstar": ("qstar", "q", 0, 1),
    "DM_time_q_q": ("q", "q", 0, 1), "DDM_time_q_q": ("q", "q", 1, 1),
}


# ---- exact reference: polynomials as lists of Fractions, lowest order first
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def pder(a):
    return [i * x for i, x in enumerate(a)][1:] or [F(0)]


def pint(a):
    return sum(x / (i + 1) for i, x in enumerate(a))


def peval(a, t):
    r = 0
    for x in reversed(a):
        r = r * t + x
    return r


def lagrange(q):
    if q == 0:
        return [[F(1)]]
    nodes = [F(i, q) for i in range(q + 1)]
    out = []
    for i, n in enumerate(nodes):
        p = [F(1)]
        for j, m in enumerate(nodes):
            if j != i:
                p = pmul(p, [-m / (n - m), 1 / (n - m)])
        out.append(p)
    return out


def reference_elmat(q, qstar):
    b = {"q": lagrange(q), "qstar": lagrange(qstar)}
    out = {}
    for key, (r, c, dr, dc) in KEYS.items():
        rows = [pder(p) if dr else p for p in b[r]]
        cols = [pder(p) if dc else p for p in b[c]]
        out[key] = np.array([[float(pint(pmul(x, y))) for y in cols] for x in rows])
    return out


def T01(c):
    from dxss.precomp_time_int import get_elmat_time

    c.rule = (
        "all 16 degree pairs; then histories of calls in random order in which every matrix returned so far "
        "is overwritten in place before the next call. A case is one call whose six matrices are compared entrywise "
        "with exact rational integrals; non-trivial: distinct (pair, previous pair, mutated before)."
    )
    c.require("matrices compared", 96)
    pairs = list(itertools.product(range(4), repeat=2))

    def compare(q, qs, got):
        ref = reference_elmat(q, qs)
        for key, m in ref.items():
            if not c.ok(key in got, f"{key} missing from the result"):
                continue
            c.close(got[key], m, 3e-13, f"{key} q={q} qstar={qs}", scale=max(1.0, np.abs(m).max()))
            c.count("matrices compared")
        return ref

    for q, qs in pairs:
        with c.case(f"pair-{q}-{qs}", q=q, qstar=qs) as k:
            if k:
                with c.sut(f"get_elmat_time({q}, {qs})"):
                    got = get_elmat_time(q, qs)
                compare(q, qs, got)
                c.mark(q, qs)
                c.sample(limit=2, q=q, qstar=qs, DM=got["DM_time_q_qstar"])
    c.exhaustive = False
    rounds = 2 if c.quick else 12
    for r in range(rounds):
        rng = c.rng("history", r)
        order = [pairs[i] for i in rng.integers(0, 16, 10 if c.quick else 24)]
        order = order + order[:3] + [order[-1]] * 2
        with c.case(f"history-{r}", order=order) as k:
            if not k:
                continue
            kept, prev = [], None
            for q, qs in order:
                with c.sut(f"get_elmat_time({q}, {qs}) after {prev}"):
                    got = get_elmat_time(q, qs)
                compare(q, qs, got)
                c.mark(q, qs, prev)
                prev = (q, qs)
                for old in kept:
                    for m in old.values():
                        c.ok(not any(np.shares_memory(m, x) for x in got.values()), "a call returned memory of an earlier result")
                for m in got.values():
                    try:
                        m[...] = rng.standard_normal(m.shape) * 1e3
                    except (ValueError, TypeError):
                        pass  # read-only results cannot be corrupted
                for key in list(got):
                    if rng.random() < 0.2:
                        del got[key]
                kept.append(got)
                c.count("results corrupted between calls")


def T02(c):
    import sympy
    from dxss.precomp_time_int import basis_in_time, get_elmat_time

    c.rule = (
        "degrees 0..3, every basis and derivative function, evaluated at its nodes, at random points in [-2, 3], on "
        "arrays and symbolically, against exact rational Lagrange polynomials, and integrated against the element "
        "matrices. Non-trivial: distinct (degree, function, kind of argument)."
    )
    c.require("evaluations", 500)
    npts = 200 if c.quick else 5000
    for q in range(4):
        with c.case(f"degree-{q}", q=q) as k:
            if not k:
                continue
            ref = lagrange(q)
            with c.sut(f"basis_in_time[{q}]"):
                phi, dphi = basis_in_time[q]
            if not c.ok(len(phi) == q + 1 and len(dphi) == q + 1, "number of basis functions", got=[len(phi), len(dphi)]):
                continue
            rng = c.rng("points", q)
            nodes = [i / q for i in range(q + 1)] if q else [0.0]
            pts = nodes + [0.0, 0.5, 1.0] + list(rng.uniform(0, 1, npts)) + list(rng.uniform(-2, 3, npts))
            for j in range(q + 1):
                for name, fn, p in (("phi", phi[j], ref[j]), ("dphi", dphi[j], pder(ref[j]))):
                    with c.sut(f"{name}[{j}] of degree {q}"):
                        got = np.array([float(fn(t)) for t in pts])
                    want = np.array([float(peval(p, F(t))) for t in pts])
                    c.close(got, want, 1e-11, f"{name}[{j}] degree {q}", scale=1.0 + np.abs(want))
                    c.count("evaluations", len(pts))
                    c.mark(q, j, name, "float")
                    arr = np.array(pts)
                    with c.sut(f"{name}[{j}] of degree {q} on an array"):
                        got = np.broadcast_to(np.asarray(fn(arr), dtype=float), arr.shape)
                        again = np.array([float(fn(t)) for t in pts[:20]])
                    c.close(got, want, 1e-11, f"{name}[{j}] degree {q} array", scale=1.0 + np.abs(want))
                    c.close(again, want[:20], 1e-11, f"{name}[{j}] degree {q} again", scale=1.0 + np.abs(want[:20]))
                    c.ok(np.array_equal(arr, np.array(pts)), "the argument was modified")
                    c.mark(q, j, name, "array")
                    x = sympy.Symbol("x")
                    with c.sut(f"{name}[{j}] of degree {q} symbolically"):
                        expr = sympy.expand(fn(x))
                        co = [float(a) for a in reversed(sympy.Poly(expr, x).all_coeffs())]
                    co = np.array(co + [0.0] * (6 - len(co)))
                    wc = np.array([float(a) for a in p] + [0.0] * (6 - len(p)))
                    c.close(co, wc, 1e-11, f"{name}[{j}] degree {q} coefficients", scale=1 + np.abs(wc).max())
                    c.mark(q, j, name, "symbol")
            for i in range(q + 1):
                with c.sut("nodal values"):
                    vals = [float(phi[j](nodes[i])) for j in range(q + 1)]
                c.close(vals, np.eye(q + 1)[i], 1e-12, f"nodal values degree {q}", scale=1.0)
            c.sample(degree=q, phi_at_0_3=[float(f(0.3)) for f in phi], dphi_at_0_3=[float(f(0.3)) for f in dphi])
    # agreement with the integrated basis
    gx, gw = np.polynomial.legendre.leggauss(6)
    gx, gw = (gx + 1) / 2, gw / 2
    for q, qs in itertools.product(range(4), repeat=2):
        with c.case(f"agree-{q}-{qs}", q=q, qstar=qs) as k:
            if not k:
                continue
            with c.sut("get_elmat_time"):
                el = get_elmat_time(q, qs)
            with c.sut("basis"):
                v = {
                    (nm, d): np.array([[float(f(t)) for t in gx] for f in basis_in_time[n][d]])
                    for nm, n in (("q", q), ("qstar", qs)) for d in (0, 1)
                }
            for key, (r, cc, dr, dc) in KEYS.items():
                want = (v[r, dr] * gw) @ v[cc, dc].T
                c.close(el[key], want, 1e-11, f"{key} against exported basis", scale=1 + np.abs(want).max())
                c.count("evaluations")
            c.mark("agree", q, qs)


def exact_rule(name, n):
    """Exact points and weights on [-1, 1]."""
    P = np.polynomial.legendre
    if name == "Gauss":
        return P.leggauss(n)
    if name == "Gauss-Radau":
        e = np.zeros(n + 1)
        e[n - 1] = e[n] = 1
        x = np.sort(P.legroots(e).real)
        x[0] = -1.0
        # polish
        d = P.legder(e)
        for _ in range(4):
            x[1:] -= P.legval(x[1:], e) / P.legval(x[1:], d)
        e1 = np.zeros(n)
        e1[n - 1] = 1
        w = (1 - x) / (n * P.legval(x, e1)) ** 2
        w[0] = 2 / n**2
        return x, w
    if name == "Newton-Cotes":
        return (np.array([-1.0, 1]), np.array([1.0, 1])) if n == 2 else (np.array([-1.0, 0, 1]), np.array([1, 4, 1]) / 3)
    return np.array([0.0]), np.array([2.0])


RULES = [("Gauss-Radau", 3, 1e-13, 4), ("Gauss-Radau", 4, 1.2e-6, 6), ("Gauss-Radau", 5, 1.2e-6, 8)]
RULES += [("Gauss", 1, 1e-13, 1), ("Gauss", 2, 1e-13, 3), ("Gauss", 3, 1e-13, 5)]
RULES += [("Newton-Cotes", 2, 1e-13, 1), ("Newton-Cotes", 3, 1e-13, 3), ("Midpoint-Rule", 1, 1e-13, 1)]


def T03(c):
    from dxss.precomp_time_int import QuadRule

    c.rule = (
        "every rule and number of points on unit, reference, tiny, long, negative and random intervals, all rule "
        "objects alive and queried interleaved; random polynomials of every degree up to the nominal one. "
        "Non-trivial: distinct (rule, points, interval)."
    )
    c.require("polynomials integrated", 500)
    rng = c.rng("intervals")
    intervals = [(0, 1), (-1, 1), (0.0, 1.0), (2, 5), (-3.5, -1.25), (0.0, 1e-3), (-100.0, 100.0), (0.3, 0.31), (1.0, 1.0 + 2**-20), (0, 0.125)]
    intervals += [(0, 7), (-3, 8), (np.int64(2), np.int64(9)), (-4, 1)]
    intervals += [tuple(sorted(rng.uniform(-10, 10, 2))) for _ in range(15 if c.quick else 400)]
    with c.sut("construction of the rules"):
        objs = {(n, p): QuadRule(n, p) for n, p, _, _ in RULES}
    for a, b in intervals:
        for name, n, tol, deg in RULES:
            with c.case(f"{name}-{n}-{a}-{b}", rule=name, points=n, a=a, b=b) as k:
                if not k:
                    continue
                rng = c.rng("case", name, n, a, b)
                with c.sut("current_pts and t_weights"):
                    if rng.random() < 0.5:
                        qr = objs[name, n]
                    else:
                        qr = QuadRule(name, n)
                    x = np.array([float(v) for v in qr.current_pts(a, b)])
                    w = np.array([float(v) for v in qr.t_weights(b - a)])
                L = b - a
                eps = 1e-13 * max(abs(a), abs(b), L) / L
                X, W = exact_rule(name, n)
                nn = len(X)
                if not c.ok(len(x) == nn and len(w) == nn, "number of points and weights", got=[len(x), len(w)]):
                    continue
                c.close((x - a) / L * 2 - 1, X, tol + 4 * eps, f"points of {name} {n}", scale=1.0)
                c.close(w / L * 2, W, tol + 4 * eps, f"weights of {name} {n}", scale=1.0)
                c.ok(np.all(x >= a - eps * L) and np.all(x <= b + eps * L), "points lie in the interval", x=x)
                c.ok(np.all(w > 0), "positive weights", w=w)
                c.close(w.sum() / L, 1.0, 2 * tol + 4 * eps, "weights sum to the length", scale=1.0)
                if name == "Gauss-Radau":
                    c.close(x[0], a, 1e-13, "first Radau point is the left end", scale=max(abs(a), L))
                for d in range(deg + 1):
                    co = rng.uniform(-1, 1, d + 1)
                    co[d] = 1.0
                    y = (x - a) / L * 2 - 1
                    got = (w / L * 2) @ np.polynomial.legendre.legval(y, co)
                    c.close(got, 2 * co[0], (d + 1) ** 3 * tol + 40 * (d + 1) ** 2 * eps, f"{name} {n} integrates degree {d}", scale=1.0)
                    c.count("polynomials integrated")
                c.mark(name, n, a, b)
                c.sample(points=x, weights=w)
    with c.case("reuse") as k:
        if k:
            # what a caller does with the returned lists does not change the rule
            for name, n, tol, _ in RULES:
                with c.sut("repeated queries"):
                    qr = QuadRule(name, n)
                    for _ in range(3):
                        x, w = qr.current_pts(1, 3), qr.t_weights(2)
                        X, W = exact_rule(name, n)
                        c.close([float(v) - 2 for v in x], X, tol + 1e-13, "points on repeated query", scale=1.0)
                        c.close([float(v) for v in w], W, tol + 1e-13, "weights on repeated query", scale=1.0)
                        other = QuadRule(name, n)
                        other.current_pts(-7, 11), other.t_weights(18)
                c.mark("reuse", name, n)


def T04(c):
    import sympy
    from dxss.precomp_time_int import d_theta_ref, theta_ref

    c.rule = (
        "end points and random reference times (in and around [-1, 1], ints, floats, numpy values, symbols); the "
        "derivative is obtained from the lifting itself by complex steps and symbolically. Non-trivial: distinct times."
    )
    c.require("derivatives compared", 100)
    with c.case("ends") as k:
        if k:
            for one in (-1, -1.0, np.float64(-1)):
                with c.sut("theta_ref at the start"):
                    v = float(theta_ref(one))
                c.close(v, 1.0, 1e-12, "lifting at the start", scale=1.0)
            for one in (1, 1.0, np.float64(1)):
                with c.sut("theta_ref at the end"):
                    v = float(theta_ref(one))
                c.close(v, 0.0, 1e-12, "lifting at the end", scale=1.0)
            c.mark("ends")
            c.sample(start=float(theta_ref(-1.0)), end=float(theta_ref(1.0)))
    with c.case("symbolic") as k:
        if k:
            x = sympy.Symbol("x")
            with c.sut("symbolic evaluation"):
                d1 = sympy.Poly(sympy.expand(sympy.diff(theta_ref(x), x)), x)
                d2 = sympy.Poly(sympy.expand(d_theta_ref(x)), x)
            n = max(d1.degree(), d2.degree(), 0) + 1
            co = [np.array([float(p.coeff_monomial(x**i)) for i in range(n)]) for p in (d1, d2)]
            c.close(co[1], co[0], 1e-12, "derivative of the lifting (coefficients)", scale=1 + np.abs(co[0]).max())
            c.mark("symbolic")
    rng = c.rng("times")
    times = [-1.0, 0.0, 1.0, -0.5, 0.5, 1e-9] + list(rng.uniform(-1, 1, 100 if c.quick else 5000)) + list(rng.uniform(-3, 3, 50))
    with c.case("numeric") as k:
        if k:
            for t in times:
                with c.sut("evaluation"):
                    want = (theta_ref(complex(t, 1e-30))).imag / 1e-30
                    got = float(d_theta_ref(t))
                    again = float(d_theta_ref(np.float64(t)))
                    ends = float(theta_ref(-1.0)), float(theta_ref(1.0))
                c.close([got, again], [want, want], 1e-11, "derivative of the lifting", scale=1 + abs(want))
                c.close(ends, (1.0, 0.0), 1e-12, "lifting at the ends later", scale=1.0)
                c.count("derivatives compared")
                c.mark(t)
