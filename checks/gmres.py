"""G01-G06: the GMRES wrapper (src/dxss/gmres.py)."""
from __future__ import annotations

import contextlib
import copy
import ctypes
import gc
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np

LINE = re.compile(r"iteration\D*?(\d+)\D+?(\d+(?:\.\d*)?(?:e[+-]?\d+)?|nan|inf)\s*$", re.IGNORECASE | re.MULTILINE)
_libc = ctypes.CDLL(None)


# ---------------------------------------------------------------- instrumentation
class Boom(Exception):
    pass


class RunAway(Exception):
    """Logical watchdog: more applications than any admissible solve can need."""


class Op:
    """Operator with an event log, optional faults and a step watchdog."""

    def __init__(self, matrix, log, fault=None, cap=50000):
        self.matrix, self.log, self.fault, self.cap = matrix, log, fault, cap
        self.calls = 0

    def _do(self, tag, x, y):
        self.calls += 1
        if self.calls > self.cap:
            raise RunAway
        with x as xa:
            out = self.matrix(np.array(xa)) if callable(self.matrix) else self.matrix @ np.array(xa)
        if self.fault and self.calls == self.fault[0]:
            kind = self.fault[1]
            self.log.append(tag + "!")
            if kind == "exc":
                raise Boom("injected fault")
            out = np.array(out)
            out[self.fault[2] % len(out)] = kind
        else:
            self.log.append(tag)
        y.array[:] = out


class A_(Op):
    def mult(self, mat, x, y):  # noqa: ARG002
        self._do("A", _view(x), y)


class M_(Op):
    def apply(self, pc, x, y):  # noqa: ARG002
        self._do("M", _view(x), y)


class _view:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self.v.getArray(readonly=True)

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def captured():
    """Capture everything written to file descriptor 1 (C and Python level)."""
    sys.stdout.flush()
    _libc.fflush(None)
    saved = os.dup(1)
    tmp = tempfile.TemporaryFile()
    os.dup2(tmp.fileno(), 1)
    box = {}
    try:
        yield box
    finally:
        sys.stdout.flush()
        _libc.fflush(None)
        os.dup2(saved, 1)
        os.close(saved)
        tmp.seek(0)
        box["text"] = tmp.read().decode(errors="replace")
        tmp.close()


def vec(a, comm=None):
    from petsc4py import PETSc

    v = PETSc.Vec()
    if comm is None:
        v.createSeq(len(a))
    else:
        v.createMPI(len(a), comm=comm)
    v.array[:] = a
    return v


# ---------------------------------------------------------------- reference model
def reference(A, M, b, restart, rtol, atol, maxit):
    """Left-preconditioned restarted GMRES in numpy with reorthogonalisation.

    Returns (history of preconditioned residual norms, converged, solution)."""
    n = len(b)
    x = np.zeros(n)
    hist = []
    r = M @ b
    beta = np.linalg.norm(r)
    ttol = max(rtol * beta, atol)
    hist.append(beta)
    if beta <= ttol:
        return hist, True, x
    scale = beta
    while len(hist) - 1 < maxit:
        V = [r / beta]
        H = np.zeros((min(restart, maxit) + 1, min(restart, maxit)))
        j, y = 0, None
        while j < restart and len(hist) - 1 < maxit:
            w = M @ (A @ V[j])
            nw = np.linalg.norm(w)
            for _ in range(3):
                for i in range(j + 1):
                    h = V[i] @ w
                    H[i, j] += h
                    w = w - h * V[i]
            H[j + 1, j] = np.linalg.norm(w)
            e = np.zeros(j + 2)
            e[0] = beta
            y, *_ = np.linalg.lstsq(H[: j + 2, : j + 1], e, rcond=None)
            res = np.linalg.norm(e - H[: j + 2, : j + 1] @ y)
            hist.append(res)
            j += 1
            if res <= ttol or H[j, j - 1] <= 1e-14 * max(nw, 1e-300):
                break
            V.append(w / H[j, j - 1])
        x = x + np.array(V[:j]).T @ y
        r = M @ (b - A @ x)
        beta = np.linalg.norm(r)
        if hist[-1] <= ttol:
            return hist, True, x
        if j < restart and len(hist) - 1 < maxit:
            return hist, False, x  # breakdown
        if beta <= 1e-15 * scale:
            return hist, True, x
    return hist, False, x


def sensitivity(A, M, b, restart, rtol, atol, maxit, hist, conv):
    """How much rounding can move each entry of the reference history (restarted GMRES can
    amplify it a lot), and whether it can change the number of steps or the outcome."""
    rng = np.random.default_rng(0)
    noise, stable = np.zeros(len(hist)), True
    for _ in range(3):
        pert = lambda a: a * (1 + 1e-13 * rng.standard_normal(a.shape))  # noqa: E731
        h, cv, _ = reference(pert(A), pert(M), pert(b), restart, rtol, atol, maxit)
        stable = stable and cv == conv and len(h) == len(hist)
        m = min(len(h), len(hist))
        noise[:m] = np.maximum(noise[:m], np.abs(np.array(h[:m]) - hist[:m]))
    return 100 * np.maximum.accumulate(noise), stable


# ---------------------------------------------------------------- systems
def system(rng, kind, n):
    A = {
        "dominant": lambda: np.eye(n) * (2 + 0.3 * np.sqrt(n)) + 0.7 * rng.standard_normal((n, n)),
        "spd": lambda: (lambda q: q @ np.diag(np.linspace(1, 30, n)) @ q.T)(np.linalg.qr(rng.standard_normal((n, n)))[0]),
        "diag": lambda: np.diag(rng.choice([1.0, 2.0, 3.5, -2.0, 7.0], n)),
        "shift": lambda: np.roll(np.eye(n), 1, axis=0),
        "rot": lambda: np.linalg.qr(rng.standard_normal((n, n)))[0] + 1.5 * np.eye(n),
        "indef": lambda: (lambda q: q @ np.diag(rng.choice([-1, 1], n) * np.linspace(1, 6, n)) @ q.T)(np.linalg.qr(rng.standard_normal((n, n)))[0]),
        "grcar": lambda: np.triu(np.tril(np.ones((n, n)), 3)) - 2 * np.diag(np.ones(max(n - 1, 0)), -1)[:n, :n] + np.eye(n),
        "upper": lambda: np.triu(0.4 * rng.standard_normal((n, n)), 1) + np.diag(rng.uniform(1, 3, n)),
    }[kind]()
    return A


def precond(rng, kind, A):
    n = len(A)
    if kind == "id":
        return np.eye(n)
    if kind == "jacobi":
        d = np.diag(A).copy()
        d[np.abs(d) < 0.2] = 1.0
        return np.diag(1 / d)
    if kind == "big":
        return 3e4 * np.eye(n)
    if kind == "small":
        return 2e-4 * np.eye(n)
    if kind == "near":
        return np.linalg.inv(A + 0.3 * np.linalg.norm(A, 2) / max(np.sqrt(n), 1) * rng.standard_normal((n, n)) / np.sqrt(n))
    if kind == "exact":
        return np.linalg.inv(A)
    if kind == "neg":
        return -np.diag(rng.uniform(0.5, 2, n))
    if kind == "rowscale":
        return np.diag(10.0 ** rng.uniform(-2, 2, n))
    raise KeyError(kind)


KINDS = ["dominant", "spd", "diag", "shift", "rot", "indef", "grcar", "upper"]
PRECS = ["id", "jacobi", "big", "small", "near", "exact", "neg", "rowscale"]


def draw(rng, nmax=40):
    """A random, not too ill-conditioned preconditioned system."""
    while True:
        n = int(rng.integers(1, nmax + 1))
        kind, pk = str(rng.choice(KINDS)), str(rng.choice(PRECS))
        A = system(rng, kind, n) * 10.0 ** rng.integers(-3, 4)
        M = precond(rng, pk, A)
        b = rng.standard_normal(n) * 10.0 ** rng.integers(-2, 4)
        if rng.random() < 0.1:
            b = np.eye(n)[rng.integers(0, n)]
        if np.linalg.cond(M @ A) < 1e5 and np.linalg.cond(A) < 1e6:
            return n, kind, pk, A, M, b


_calls = [0]


def tidy():
    """petsc4py crashes when the garbage collector runs while an exception travels through
    PETSc, so collect only between calls."""
    gc.disable()
    _calls[0] += 1
    if _calls[0] % 20 == 0:
        gc.collect()


def call(A, M, b, log=None, fa=None, fm=None, cap=50000, **kw):
    """One call of the code under test with fresh instrumented operators."""
    from dxss.gmres import get_gmres_solution

    tidy()
    log = [] if log is None else log
    bv = vec(b) if isinstance(b, np.ndarray) else b
    x, r = get_gmres_solution(A_(A, log, fa, cap), bv, M_(M, log, fm, cap), **kw)
    return np.array(x.array), np.array(r.array), log


def slack(A, M, b, x):
    """Rounding level of the preconditioned residual."""
    nA, nM = np.linalg.norm(A, 2), np.linalg.norm(M, 2)
    return 1e-12 * nM * (nA * max(np.linalg.norm(x), np.linalg.norm(np.linalg.solve(A, b))) + np.linalg.norm(b))


def tolerances(rng, beta):
    """Random (tol, reltol) arguments, None meaning the default."""
    c = rng.integers(0, 8)
    if c == 0:
        return {}
    if c == 6:  # only the absolute criterion
        return {"tol": float(beta * 10 ** rng.uniform(-9, -1)), "reltol": 0.0}
    if c == 7:  # only the relative criterion
        return {"tol": 0.0, "reltol": float(10 ** rng.uniform(-9, -1))}
    if c == 1:
        return {"tol": float(beta * 10 ** rng.uniform(-6, -1))}
    if c == 2:
        return {"reltol": float(10 ** rng.uniform(-9, -1))}
    if c == 3:
        return {"tol": float(beta * 10 ** rng.uniform(-6, -1)), "reltol": 1e-10}
    if c == 4:
        return {"tol": 1e-300, "reltol": float(10 ** rng.uniform(-9, -1))}
    return {"tol": float(beta * 10 ** rng.uniform(-8, -1)), "reltol": float(10 ** rng.uniform(-8, -1))}


def G01(c):
    c.rule = (
        "random systems (8 operator families x 8 preconditioners, sizes 1..40, scales 1e-3..1e3), random absolute and "
        "relative tolerances or the defaults, restart lengths and step limits; plus zero right-hand sides. Non-trivial: "
        "distinct (family, preconditioner, size, tolerances, restart) for which the call returned after at least one iteration."
    )
    c.require("returned solutions", 60)
    m = 400 if c.quick else 6000
    for i in range(m):
        if i > 60 and not c.more():
            break
        rng = c.rng("sys", i)
        n, kind, pk, A, M, b = draw(rng, 40 if i % 10 else 80)
        extreme = rng.random() < 0.2  # tiny and huge right-hand sides with tolerances to match
        if extreme:
            b = b * 10.0 ** rng.choice([rng.uniform(-25, -10), rng.uniform(4, 15)])
        beta = np.linalg.norm(M @ b)
        kw = tolerances(rng, beta)
        if extreme:
            kw["tol"] = float(beta * 10 ** rng.uniform(-9, -2)) if kw.get("reltol") is None or rng.random() < 0.5 else 0.0
        if rng.random() < 0.4:
            kw["restart"] = int(rng.integers(1, n + 3))
        kw["maxsteps"] = int(rng.choice([100, 400, 3000]))
        if rng.random() < 0.3:
            del kw["maxsteps"]
        kw["printrates"] = bool(rng.random() < 0.3)
        with c.case(f"sys-{i}", n=n, kind=kind, pre=pk, **kw) as k:
            if not k:
                continue
            try:
                x, r, log = call(A, M, b, **kw)
            except Exception as e:  # noqa: BLE001 -- whether raising is right is decided by G02
                c.count("calls that raised")
                c.count("raised " + type(e).__name__)
                continue
            c.count("returned solutions")
            judge(c, A, M, b, x, r, kw)
            if len(log) > 3:
                c.mark(kind, pk, n, kw.get("tol"), kw.get("reltol"), kw.get("restart"))
                c.sample(n=n, family=kind, pre=pk, kw=kw, applications=len(log), prec_residual=np.linalg.norm(M @ (b - A @ x)))
    for i in range(10):
        rng = c.rng("zero", i)
        n, kind, pk, A, M, b = draw(rng, 10)
        with c.case(f"zero-{i}", n=n, kind=kind, pre=pk) as k:
            if k:
                with c.sut("zero right-hand side"):
                    x, r, log = call(A, M, 0 * b, printrates=False)
                judge(c, A, M, 0 * b, x, r, {})
                c.count("returned solutions")


def judge(c, A, M, b, x, r, kw):
    tol = 1e-12 if kw.get("tol") is None else kw["tol"]
    rel = 1e-7 if kw.get("reltol") is None else kw["reltol"]
    if not c.ok(np.all(np.isfinite(x)) and np.all(np.isfinite(r)) and len(x) == len(b) == len(r), "solution and residual finite and of the right size"):
        return
    res = np.linalg.norm(M @ (b - A @ x))
    target = max(tol, rel * np.linalg.norm(M @ b))
    s = slack(A, M, b, x)
    c.ok(res <= target * (1 + 1e-6) + s, "preconditioned residual meets the tolerance", residual=res, target=target, rounding=s)
    true = b - A @ x
    sr = 1e-13 * (np.linalg.norm(A, 2) * np.linalg.norm(x) + np.linalg.norm(b)) * np.sqrt(len(b)) + 1e-300
    c.ok(np.linalg.norm(r - true) <= sr, "returned residual is b - A x", difference=np.linalg.norm(r - true), rounding=sr)


def gap(hist, target, factor=1.5):
    """First index meeting the target if it does so (and the one before fails) with a clear margin."""
    for i, h in enumerate(hist):
        if h <= target:
            if h * factor <= target and (i == 0 or hist[i - 1] >= factor * target):
                return i
            return None
    return None


def G02(c):
    c.rule = (
        "(a) every fault kind (NaN, +inf, -inf, exception) at every application of operator and preconditioner that "
        "happens while iterating; (b) systems whose reference history meets the tolerance at step m with a clear margin, "
        "run with limits m-1, m, m+1, 0; (c) stagnating restarted and singular inconsistent systems. Non-trivial: "
        "distinct (system, fault position, kind) or (system, limit)."
    )
    c.require("faults injected", 100)
    c.require("limit decisions", 60)
    # (a) faults
    for i in range(6 if c.quick else 60):
        rng = c.rng("fault", i)
        n, kind, pk, A, M, b = draw(rng, 14)
        kw = {"printrates": False, "maxsteps": 200}
        if i % 3 == 1:
            kw["restart"] = int(rng.integers(2, 6))
        try:
            _, _, log = call(A, M, b, **kw)
        except Exception:  # noqa: BLE001 -- restarted solve may legitimately fail
            continue
        last = max((j for j, e in enumerate(log) if e == "M"), default=-1)
        body = log[: last + 1]
        if len(body) > 80:
            body = body[:80]
        nA, nM = body.count("A"), body.count("M")
        for which, total in (("A", nA), ("M", nM)):
            for j in range(1, total + 1):
                for kindf in (np.nan, np.inf, -np.inf, "exc"):
                    if c.quick and kindf == -np.inf and j % 3:
                        continue
                    with c.case(f"fault-{i}-{which}{j}-{kindf}", n=n, kind=kind, pre=pk, kw=kw) as k:
                        if not k:
                            continue
                        f = (j, kindf, int(rng.integers(0, n)))
                        lg = []
                        kwf = dict(kw)
                        if kindf == "exc" and "restart" not in kw and j % 5:
                            kwf["restart"] = 60  # same iteration; petsc4py leaks the whole basis on an exception
                        try:
                            call(A, M, b, log=lg, cap=5000, **{"fa" if which == "A" else "fm": f}, **kwf)
                        except RunAway:
                            c.ok(False, "step limit is not respected (runaway after a fault)")
                        except Exception:  # noqa: BLE001
                            pass
                        else:
                            if any("!" in e for e in lg):
                                c.ok(False, f"returned although {which} produced {kindf} at application {j}", log="".join(lg)[:80])
                        c.ok(True, "")
                        if any("!" in e for e in lg):
                            c.count("faults injected")
                            c.mark(i, which, j, str(kindf))
    # (b) step limits around the reference iteration count
    done = 0
    for i in range(400 if c.quick else 4000):
        if done >= (120 if c.quick else 2000) or (i > 40 and not c.more(0.7)):
            break
        rng = c.rng("limit", i)
        n, kind, pk, A, M, b = draw(rng, 30)
        beta = np.linalg.norm(M @ b)
        tolkw = tolerances(rng, beta)
        if i % 8 == 1:  # tiny and huge right-hand sides with tolerances to match
            f = 10.0 ** rng.choice([rng.uniform(-22, -8), rng.uniform(4, 12)])
            b, beta = f * b, f * beta
            tolkw["tol"] = float(beta * 10 ** rng.uniform(-8, -1)) if rng.random() < 0.7 else 0.0
        if i % 4 == 3:  # so small that the default absolute tolerance decides
            b = b * (10 ** rng.uniform(-10.5, -6) / beta)
            beta = np.linalg.norm(M @ b)
            tolkw = {}
        rel = 1e-7 if tolkw.get("reltol") is None else tolkw["reltol"]
        target = max(tolkw.get("tol", 1e-12), rel * beta)
        full = rng.random() < 0.7
        restart = 1000 if full else int(rng.integers(2, 8))
        hist, conv, _ = reference(A, M, b, restart, rel, tolkw.get("tol", 1e-12), 150)
        # rounding must not be able to decide the step at which the target is met
        m = gap(hist, target)
        if m is None or m == 0 or target < 1e-9 * beta:
            continue
        noises, stable = sensitivity(A, M, b, restart, rel, tolkw.get("tol", 1e-12), 150, hist, conv)
        if not stable or np.any(noises > 0.1 * np.maximum(hist, target)):
            continue
        done += 1
        for lim in sorted({0, 1, m - 1, m, m + 1, m + 50}):
            kw = dict(tolkw, maxsteps=lim, printrates=False)
            if not full or rng.random() < 0.5:
                kw["restart"] = restart
            with c.case(f"limit-{i}-{lim}", n=n, kind=kind, pre=pk, needed=m, **kw) as k:
                if not k:
                    continue
                lg = []
                try:
                    x, r, _ = call(A, M, b, log=lg, cap=20 * (lim + 5) + 100, **kw)
                    returned = True
                except RunAway:
                    c.ok(False, "step limit is not respected")
                    continue
                except Exception:  # noqa: BLE001
                    returned = False
                c.count("limit decisions")
                c.mark(kind, pk, n, m, lim)
                c.ok(
                    returned == (lim >= m),
                    "returned within the limit exactly when GMRES reaches the tolerance",
                    needed=m, limit=lim, returned=returned, residuals=hist[max(0, m - 2) : m + 1], target=target,
                )
                if returned:
                    judge(c, A, M, b, x, r, kw)
                # one application per step, and at most two more per cycle and a final one
                cycles = 1 + lim // max(1, kw.get("restart", 1000))
                c.ok(lg.count("A") <= lim + cycles + 3, "operator applications within the step limit", applications=lg.count("A"), limit=lim)
                c.sample(needed=m, limit=lim, returned=returned, applications="".join(lg)[:60])
    # (c) systems which cannot be solved
    for i in range(12 if c.quick else 100):
        rng = c.rng("hopeless", i)
        n = int(rng.integers(3, 25))
        j = i % 4
        if j == 0:  # restarted GMRES stagnates on the cyclic shift
            A, kw = np.roll(np.eye(n), 1, axis=0), {"restart": max(1, n - 1 - i % 3), "maxsteps": 5 * n}
            b = np.eye(n)[0]
        elif j == 1:  # singular and inconsistent
            q = np.linalg.qr(rng.standard_normal((n, n)))[0]
            A, kw = q @ np.diag([0.0] + list(rng.uniform(1, 2, n - 1))) @ q.T, {"maxsteps": n}  # (more steps would amplify the null vector up to rounding)
            b = q[:, 0] + 0.3 * rng.standard_normal(n)
        elif j == 2:
            A, kw, b = np.zeros((n, n)), {"maxsteps": 20}, rng.standard_normal(n)
        else:  # skew: restart 1 makes no progress
            s = rng.standard_normal((n, n))
            A, kw, b = s - s.T, {"maxsteps": 50, "restart": 1}, rng.standard_normal(n)
        with c.case(f"hopeless-{i}", n=n, sort=j, **kw) as k:
            if not k:
                continue
            try:
                x, _, lg = call(A, np.eye(n), b, cap=20 * kw["maxsteps"] + 100, printrates=False, **kw)
            except RunAway:
                c.ok(False, "step limit is not respected")
            except Exception:  # noqa: BLE001
                c.ok(True, "")
            else:
                c.ok(False, "returned a solution of a system it cannot solve", residual=np.linalg.norm(b - A @ x))
            c.count("limit decisions")
            c.mark("hopeless", j, n)


class Holder:
    """A and preconditioner in one object with state which must not be touched."""

    def __init__(self, A, M):
        self.A, self.M = A, M
        self.notes = {"a": [1, 2], "b": "c"}
        self.n = 0

    def mult(self, mat, x, y):  # noqa: ARG002
        self.n += 1
        y.array[:] = self.A @ x.getArray(readonly=True)

    def apply(self, pc, x, y):  # noqa: ARG002
        self.n += 1
        y.array[:] = self.M @ x.getArray(readonly=True)


def G03(c):
    from dxss.gmres import get_gmres_solution

    c.rule = (
        "histories of solves drawn with repetition from a pool of systems and parameter sets, interleaved with failing "
        "solves (step limit, exceptions, NaN), re-using operator, preconditioner and vector objects whose contents are "
        "changed between the calls; each result is compared with the first result of the same arguments (computed in "
        "another order) and with the reference. Non-trivial: distinct (previous call, call)."
    )
    c.require("solves compared", 80)
    for h in range(10 if c.quick else 150):
        if h > 2 and not c.more():
            break
        rng = c.rng("history", h)
        pool = []
        while len(pool) < 6:
            n, kind, pk, A, M, b = draw(rng, 25)
            kw = dict(tolerances(rng, np.linalg.norm(M @ b)), printrates=bool(rng.random() < 0.4))
            if rng.random() < 0.5:
                kw["restart"] = int(rng.integers(2, n + 3))
            kw["maxsteps"] = int(rng.choice([3, 100, 500]))
            pool.append((n, kind, pk, A, M, b, kw))
        # the same system with other parameters, and a perturbed one of the same size
        n, kind, pk, A, M, b, kw = pool[0]
        pool.append((n, kind, pk, A, M, b, {"printrates": False, "maxsteps": 500, "reltol": 1e-3, "tol": 1e-300}))
        pool.append((n, kind, pk, A + 0.01 * np.linalg.norm(A, 2) * rng.standard_normal((n, n)) / n, M, 2 * b, dict(kw)))
        pool.append((n, kind, pk, A, M, -b, dict(kw)))
        order = list(rng.integers(0, len(pool), 24 if c.quick else 60))
        order += list(range(len(pool))) + [0, 6, 0, 7, 0, 8, 0]
        with c.case(f"history-{h}", order=order) as k:
            if not k:
                continue
            first, prev, alive = {}, None, []
            shared = Holder(None, None)
            vecs = {}
            for step, idx in enumerate(order):
                n, kind, pk, A, M, b, kw = pool[idx]
                mode = int(rng.integers(0, 3))
                if mode == 0:
                    ctx_a = ctx_m = Holder(A.copy(), M.copy())
                    bv = vec(b)
                else:  # the same objects with new contents
                    shared.A, shared.M = A.copy(), M.copy()
                    ctx_a = ctx_m = shared
                    bv = vecs.setdefault(n, vec(b))
                    bv.array[:] = b
                ctx_a.n = 0
                state = copy.deepcopy({a: v for a, v in vars(ctx_a).items() if a != "n"})
                if rng.random() < 0.15:
                    kwf = [{"maxsteps": 1}, {"maxsteps": 0}, {"tol": -1.0, "reltol": 1e-30, "maxsteps": 7}][int(rng.integers(0, 3))]
                    try:
                        call(A, M, b, fa=(2, "exc", 0) if rng.random() < 0.5 else None, printrates=bool(step % 2), **kwf)
                    except Exception:  # noqa: BLE001
                        c.count("failing solves interleaved")
                try:
                    x, r = get_gmres_solution(ctx_a, bv, ctx_m, **kw)
                    out = (np.array(x.array), np.array(r.array), ctx_a.n)
                except Exception as e:  # noqa: BLE001
                    if type(e).__name__ not in ("Error",):
                        with c.sut("a solve in a history"):
                            raise
                    x = r = None
                    out = (None, None, ctx_a.n)
                c.ok(np.array_equal(bv.array, b), "right-hand side was modified", step=step)
                now = {a: v for a, v in vars(ctx_a).items() if a != "n"}
                same = set(now) == set(state) and all(
                    np.array_equal(now[a], state[a]) if isinstance(state[a], np.ndarray) else now[a] == state[a] for a in state
                )
                c.ok(same, "operator or preconditioner object was modified", attributes=sorted(now))
                if idx in first:
                    f = first[idx]
                    if c.ok((f[0] is None) == (out[0] is None), "the same solve once returned and once failed", history=order[: step + 1]):
                        if f[0] is not None:
                            s = np.linalg.norm(f[0]) + 1e-300
                            c.close(out[0], f[0], 1e-9, "solution of a repeated solve", scale=s, history=order[: step + 1])
                            c.close(out[1], f[1], 1e-9, "residual of a repeated solve", scale=np.linalg.norm(b) + np.linalg.norm(A, 2) * s)
                        c.ok(out[2] == f[2], "a repeated solve took a different number of applications", first=f[2], now=out[2])
                    c.count("solves compared")
                else:
                    first[idx] = out
                    rel = 1e-7 if kw.get("reltol") is None else kw["reltol"]
                    if out[0] is not None:
                        judge(c, A, M, b, out[0], out[1], kw)
                for xv, rv, xc, rc in alive:
                    c.ok(np.array_equal(xv.array, xc) and np.array_equal(rv.array, rc), "a result was changed by a later solve", step=step)
                if x is not None:
                    alive.append((x, r, out[0], out[1]))
                    alive = alive[-6:]
                    # a caller may overwrite what it got
                    if rng.random() < 0.2:
                        x.array[:] = 7.0
                        r.array[:] = 7.0
                        alive.pop()
                c.mark(prev, idx, mode)
                prev = idx
            c.sample(order=order, solved=sum(f[0] is not None for f in first.values()), pool=[(p[0], p[1], p[2]) for p in pool])


def parse(text):
    return [(int(a), float(b)) for a, b in LINE.findall(text)]


def match_history(c, lines, hist, noises, what):
    """Printed (iteration, residual) pairs against the reference history."""
    c.ok([i for i, _ in lines] == list(range(len(lines))), f"{what}: lines numbered consecutively from 0", numbers=[i for i, _ in lines][:20])
    for (i, v), h, ns in zip(lines, hist, noises):
        if ns > 0.5 * h and ns > 1e-9 * hist[0]:
            c.count("histories cut where rounding decides")
            break
        if not c.ok(abs(v - h) <= 0.006 * h + ns, f"{what}: printed residual is that of the GMRES iterate", iteration=i, printed=v, reference=h):
            break
        c.count("printed residuals compared")


def G04(c):
    c.rule = (
        "random systems, restarts, tolerances and limits with printing on (standard output captured at the file "
        "descriptor, converging and failing solves) compared line by line with a reference restarted GMRES; the same "
        "with printing off; and cyclic shifts of size around 1000 that decide the default restart. Non-trivial: distinct "
        "(family, preconditioner, size, restart, number of lines)."
    )
    c.require("printed residuals compared", 300)
    c.require("silent solves", 10)
    c.require("default restart decisions", 2)
    m = 200 if c.quick else 3000
    for i in range(m):
        if i > 30 and not c.more(0.8):
            break
        rng = c.rng("print", i)
        n, kind, pk, A, M, b = draw(rng, 30)
        beta = np.linalg.norm(M @ b)
        kw = tolerances(rng, beta)
        restart = 1000
        if rng.random() < 0.6:
            restart = kw["restart"] = int(rng.integers(1, n + 3))
        kw["maxsteps"] = int(rng.choice([0, 1, 4, 30, 60, 100]))
        if rng.random() < 0.7:
            kw["printrates"] = True
        rel = 1e-7 if kw.get("reltol") is None else kw["reltol"]
        tol = 1e-12 if kw.get("tol") is None else kw["tol"]
        with c.case(f"print-{i}", n=n, kind=kind, pre=pk, **kw) as k:
            if not k:
                continue
            hist, conv, _ = reference(A, M, b, restart, rel, tol, kw["maxsteps"])
            failed = None
            with captured() as box:
                try:
                    x, r, log = call(A, M, b, **kw)
                except Exception as e:  # noqa: BLE001
                    failed = e
            lines = parse(box["text"])
            target = max(tol, rel * beta)
            noise = 1e-11 * beta * max(1.0, np.linalg.cond(M @ A) * 1e-3)
            if not c.ok(len(lines) > 0, "no history line was printed", text=box["text"][:200]):
                continue
            noises, stable = sensitivity(A, M, b, restart, rel, tol, kw["maxsteps"], hist, conv)
            noises = noises + noise
            near = not stable or any(0.98 * target - 2 * ns <= h <= 1.02 * target + 2 * ns for h, ns in zip(hist, noises))
            match_history(c, lines, hist, noises, "history")
            c.ok(lines[-1][0] <= kw["maxsteps"], "iteration numbers within the step limit", last=lines[-1], limit=kw["maxsteps"])
            if not near:
                c.ok(len(lines) == len(hist), "one line per iteration", lines=len(lines), iterations=len(hist) - 1)
                c.ok((failed is None) == conv, "returned exactly if the history meets the tolerance", last=hist[-1], target=target)
            if failed is None:
                c.ok(lines[-1][1] <= target * 1.006 + noise, "last printed residual satisfies the stopping test", last=lines[-1], target=target)
                c.ok(all(v > target * 0.99 - noise for _, v in lines[:-1]), "stopped as soon as the test was satisfied", lines=lines[-3:], target=target)
            else:
                c.count("failing histories")
            c.mark(kind, pk, n, kw.get("restart"), len(lines))
            c.sample(n=n, family=kind, pre=pk, kw=kw, lines=lines[:6], reference=hist[:6])
            # and silent
            if i % 3 == 0:
                kw2 = dict(kw, printrates=False)
                with captured() as box:
                    try:
                        call(A, M, b, **kw2)
                    except Exception:  # noqa: BLE001
                        pass
                c.ok(not parse(box["text"]), "history lines printed although printing is off", text=box["text"][:200])
                c.count("silent solves")
    # default restart of 1000: the cyclic shift is solved in exactly n steps and never by a shorter cycle
    for n, solved in ((1000, True), (1001, False)):
        for given in (False, True):
            with c.case(f"restart-{n}-{given}", n=n, given=given) as k:
                if not k:
                    continue
                b = np.zeros(n)
                b[0] = 1.0
                shift = lambda v: np.roll(v, 1)  # noqa: E731
                kw = {"maxsteps": 2100, "printrates": False}
                if given:
                    kw["restart"] = 1000
                try:
                    call(shift, lambda v: v, b, cap=5000, **kw)
                    returned = True
                except Exception:  # noqa: BLE001
                    returned = False
                c.ok(returned == solved, "restarts after 1000 steps by default", size=n, returned=returned)
                c.count("default restart decisions")
                c.mark("restart", n, given)


MPI_SCRIPT = Path(__file__).with_name("gmres_mpi.py")


def mpirun(nproc, args, timeout=300):
    exe = shutil.which("mpirun")
    if not exe:
        return None, "mpirun not found"
    cmd = [exe, "--allow-run-as-root", "--oversubscribe", "-n", str(nproc), sys.executable, "-P", str(MPI_SCRIPT), *args]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ))  # noqa: S603 -- env: not what MPI_Init put into the C environment
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return p, None


def G05(c):
    from mpi4py import MPI
    from petsc4py import PETSc
    from dxss.gmres import get_gmres_solution

    c.rule = (
        "in-process: right-hand sides on COMM_SELF and COMM_WORLD, sequential and MPI vectors; under mpirun with 2..4 (thorough 8) "
        "processes: even, skewed and empty-rank row distributions on the world, split and self communicators. Each "
        "rank checks its part of the solution against a dense solve and the layout against that of the right-hand side. "
        "Non-trivial: distinct (processes, communicator, row distribution)."
    )
    for i, kindv in enumerate(["seq", "self-mpi", "world-mpi", "world-auto", "self-auto", "dup-mpi"]):
        for n in (1, 7, 20):
            with c.case(f"local-{kindv}-{n}", kind=kindv, n=n) as k:
                if not k:
                    continue
                rng = c.rng(kindv, n)
                A = system(rng, "dominant", n)
                b = rng.standard_normal(n)
                comm = {"s": PETSc.COMM_SELF, "w": PETSc.COMM_WORLD, "d": MPI.COMM_WORLD.Dup()}[kindv[0]]
                v = PETSc.Vec()
                if kindv == "seq":
                    v.createSeq(n)
                elif kindv.endswith("mpi"):
                    v.createMPI(n, comm=comm)
                else:
                    v.create(comm=comm)
                    v.setSizes(n)
                    v.setUp()
                v.array[:] = b
                with c.sut(f"solve on {kindv}"):
                    x, r = get_gmres_solution(A_(A, []), v, M_(np.eye(n), []), printrates=False, reltol=1e-12)
                c.close(x.array, np.linalg.solve(A, b), 1e-9, "solution", scale=np.linalg.norm(np.linalg.solve(A, b)))
                rel = MPI.Comm.Compare(x.getComm().tompi4py(), v.getComm().tompi4py())
                c.ok(rel in (MPI.IDENT, MPI.CONGRUENT) and x.getSizes() == v.getSizes(), "communicator and layout of the solution", got=[rel, x.getSizes()])
                c.count("local solves")
                c.mark("local", kindv, n)
    c.require("local solves", 12)
    p, err = mpirun(2, ["hello"], 120)
    if p is None or p.returncode != 0 or p.stdout.count("hello") != 2:
        c.assumptions.append("mpirun does not work here: only single-process communicators were observed")
        c.count("mpirun unavailable")
        return
    c.require("parallel solves", 10)
    for nproc in (2, 3, 4) if c.quick else (2, 3, 4, 5, 8):
        for rep in range(1 if c.quick else 4):
            with c.case(f"mpi-{nproc}-{rep}", processes=nproc) as k:
                if not k:
                    continue
                for limit in (100, 200):  # a hang or crash must happen twice to count
                    p, err = mpirun(nproc, ["run", str(c.seed * 100 + rep), c.tier], limit)
                    out = [json.loads(ln[7:]) for ln in p.stdout.splitlines() if ln.startswith("RESULT ")] if p else []
                    if out:
                        break
                if not out and err == "timeout" and nproc > 4:
                    c.count("too slow with more than 4 processes")  # a busy machine; hangs are decided with up to 4
                    break
                if not c.ok(out, f"{nproc} processes: the solves crashed or did not end", error=err or p.stderr[-500:]):
                    continue
                for o in out:
                    c.count("parallel solves")
                    c.mark(nproc, o["comm"], str(o["layout"]))
                    c.ok(not o["problems"], f"{nproc} processes, {o['comm']}, rows {o['layout']}", problems=o["problems"])
                c.sample(processes=nproc, first=out[:2])


def G06(c):
    from petsc4py import PETSc

    c.rule = (
        "systems whose reference history meets each candidate tolerance with a clear margin; calls with all combinations "
        "of distinct tol, reltol, maxsteps and restart, with and without overriding run-time options (max_it, rtol, atol, "
        "restart); the observed printed history decides which value was in force. Non-trivial: distinct (arguments given, "
        "options set, deciding criterion)."
    )
    c.require("argument decisions", 40)
    c.require("option decisions", 25)
    opts = PETSc.Options()
    keys = ["ksp_max_it", "ksp_rtol", "ksp_atol", "ksp_gmres_restart"]

    def observe(A, M, b, kw, options):
        for k_ in keys:
            opts.delValue(k_)
        for k_, v in options.items():
            opts.setValue(k_, v)
        try:
            with captured() as box:
                try:
                    x, r, log = call(A, M, b, cap=5000, **kw)
                    got = True
                except RunAway:
                    got = None
                except Exception:  # noqa: BLE001
                    got = False
        finally:
            for k_ in keys:
                opts.delValue(k_)
        return got, parse(box["text"])

    want_runs = 300 if c.quick else 4000
    ndone = 0
    for i in range(want_runs * 8):
        if ndone >= want_runs or (ndone > 30 and not c.more()):
            break
        rng = c.rng("opt", i)
        n, kind, pk, A, M, b = draw(rng, 30)
        if n < 6 or kind in ("diag",) or pk == "exact":
            continue
        beta = np.linalg.norm(M @ b)
        kw = {}
        tiny = rng.random() < 0.3
        if tiny:  # so small that the default absolute tolerance decides
            b = b * (10 ** rng.uniform(-10.5, -6) / beta)
            beta = np.linalg.norm(M @ b)
        if rng.random() < (0.2 if tiny else 0.7):
            kw["tol"] = float(beta * 10 ** rng.uniform(-7, -0.5))
        if rng.random() < 0.7:
            kw["reltol"] = float(10 ** rng.uniform(-7, -0.5))
        if rng.random() < 0.7:
            kw["restart"] = int(rng.integers(2, 12))
        if rng.random() < 0.8:
            kw["maxsteps"] = int(rng.choice([3, 5, 8, 13, 21, 40, 90]))
        if rng.random() < 0.5:
            kw["printrates"] = True
        options = {}
        if ndone % 2:
            for key, val in (
                ("ksp_rtol", float(f"{10 ** rng.uniform(-7, -0.5):.6g}")), ("ksp_atol", float(f"{beta * 10 ** rng.uniform(-7, -0.5):.6g}")),
                ("ksp_max_it", int(rng.choice([2, 4, 7, 11, 30, 70]))), ("ksp_gmres_restart", int(rng.integers(2, 12))),
            ):
                if rng.random() < 0.55:
                    options[key] = val
        rel = options.get("ksp_rtol", kw.get("reltol", 1e-7))
        tol = options.get("ksp_atol", kw.get("tol", 1e-12))
        lim = options.get("ksp_max_it", kw.get("maxsteps", 100))
        restart = options.get("ksp_gmres_restart", kw.get("restart", 1000))
        target = max(tol, rel * beta)
        hist, conv, _ = reference(A, M, b, restart, rel, tol, lim)
        noise = 1e-11 * beta * max(1.0, np.linalg.cond(M @ A) * 1e-3)
        noises, stable = sensitivity(A, M, b, restart, rel, tol, lim, hist, conv)
        noises = noises + noise
        if not stable or any(0.9 * target - ns <= h <= 1.1 * target + ns for h, ns in zip(hist, noises)):
            continue
        ndone += 1
        with c.case(f"opt-{i}", n=n, kind=kind, pre=pk, options=options, **kw) as k:
            if not k:
                continue
            got, lines = observe(A, M, b, kw, options)
            what = "run-time options" if options else "arguments"
            c.ok(got is not None, "step limit is not respected")
            c.ok(bool(got) == conv, f"{what}: returned exactly if the tolerance in force is met within the limit in force", returned=got, expected=conv, iterations=len(hist) - 1)
            if kw.get("printrates") or lines or "printrates" not in kw:
                c.ok(len(lines) == len(hist), f"{what}: number of iterations", lines=len(lines), expected=len(hist), last=lines[-1:], target=target)
                match_history(c, lines, hist, noises, what)
            deciding = "limit" if not conv else ("abs" if tol > rel * beta else "rel")
            c.mark(tuple(sorted(kw)), tuple(sorted(options)), deciding)
            c.count("option decisions" if options else "argument decisions")
            c.sample(kw=kw, options=options, iterations=len(hist) - 1, converged=conv, deciding=deciding)


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 1e6


def G07(c):
    import weakref

    from dxss.gmres import get_gmres_solution

    c.rule = (
        "series of solves of the same size (converging, stopped at the step limit, failing with an exception; default and "
        "explicit restart lengths) with the resident memory measured after each and the returned vectors destroyed; the growth per solve after "
        "a warm-up is compared with the size of the Krylov basis, with very short restarts and large vectors also with that of a single "
        "vector. The operator and preconditioner objects of finished solves are watched through weak references. Non-trivial: distinct "
        "(size, restart, outcome)."
    )
    c.require("solves watched", 30)
    c.require("operators watched", 40)
    reps = 12 if c.quick else 60
    for n, restart, outcome in [
        (2000, None, "ok"), (20000, 100, "ok"), (20000, 100, "limit"), (2000, None, "limit"), (4000, 500, "exc"), (2000, None, "exc"),
        (200000, 2, "ok"), (200000, 2, "limit"),
    ]:
        with c.case(f"series-{n}-{restart}-{outcome}", n=n, restart=restart, outcome=outcome) as k:
            if not k:
                continue
            rng = c.rng(n, outcome)
            d = rng.choice([1.0, 1.5, 2.0, 3.0, 4.0], n)
            b = rng.standard_normal(n)
            kw = {"printrates": False, "maxsteps": 3 if outcome == "limit" else 50}
            if restart == 2:
                d = 1 + 0.01 * (d - 1)
                kw["maxsteps"] = 1 if outcome == "limit" else 50
            if restart:
                kw["restart"] = restart
            basis = n * 8e-6 * (restart or 1000)  # MB, allocated up front
            trace, watched, results = [], [], []
            for j in range(reps):
                tidy()
                bv, log = vec(b), []
                ops = A_(lambda v: d * v, log, (3, "exc", 0) if outcome == "exc" else None), M_(lambda v: v, log)
                watched.append([weakref.ref(o) for o in ops])
                try:
                    for out in get_gmres_solution(ops[0], bv, ops[1], **kw):
                        results.append(weakref.ref(out))
                        out.destroy()
                    good = outcome == "ok"
                except Exception:  # noqa: BLE001
                    good = outcome != "ok"
                bv.destroy()
                del ops
                out = None
                if not good:
                    c.count("unexpected outcomes (decided by G01, G02)")
                gc.collect()
                trace.append(rss_mb())
                c.count("solves watched")
                if trace[-1] > 8000:
                    break
            # a single missed release is worth a whole basis (vector); anything below a fifth is not the basis (below a half: no vector)
            growth = (trace[-1] - trace[3]) / (len(trace) - 4)
            if restart == 2:
                c.ok(growth <= 0.5 * n * 8e-6, "memory grows from solve to solve by one vector or more", growth_mb=growth, vector_mb=n * 8e-6, resident=trace[:12])
            else:
                c.ok(growth <= 0.2 * basis, "memory grows from solve to solve by (part of) a Krylov basis", growth_mb=growth, basis_mb=basis, resident=trace[:12])
            if outcome != "exc":  # PETSc itself keeps references when an exception travels through it
                left = [sum(w[i]() is not None for w in watched) for i in (0, 1)]
                c.ok(left == [0, 0], "operators (preconditioners) of finished solves are kept alive", alive=left, solves=len(watched))
                c.ok(not any(w() is not None for w in results), "returned vectors are kept alive")
                c.count("operators watched", len(watched))
            c.mark(n, restart, outcome)
            c.sample(n=n, restart=restart, outcome=outcome, basis_mb=basis, growth_per_solve_mb=growth)
