"""S01-S18: the space-time discretisation and its solvers (src/dxss/space_time.py)."""
from __future__ import annotations

import contextlib
import copy
import gc
import io
import os
import re

import numpy as np
import scipy.linalg as sla
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from dolfinx import _fastufl
from petsc4py import PETSc

from checks.stlib import (  # noqa: F401
    LU, ST, STABS, Linear, MPI, Poly, Problem, Reference, Region, Scripted, Wave, apply, build_mesh, compare_matrix, csr,
    dmesh, eval_points, fem, fes, fes_coarse, fes_slab, lag, linear_answers, mesh_arrays, midpoints, plan, pvec, radau, scalar,
    slab_maps, slab_slices, spatial, tmats, ufl, with_linear, with_lu,
)

BASE = [
    "the checks run on the stand-in for DOLFINx 0.6 in /verif/platform (real UFL, PETSc, MPI, gmsh); see DESIGN.md",
    "serial runs: as in the shipped code, whose set-up is not parallel",
]


def slabs(r, cell):
    """Some number of slabs, sometimes a larger one where it is cheap."""
    if cell == "interval" and r.random() < 0.4:
        return int(r.choice([5, 6, 7, 9, 11, 13]))
    return int(r.integers(1, 4))


def number(key):
    return int(key.lstrip("abcdefghijklmnopqrstuvwxyz") or 0)


MAY_VANISH = ("data", "primal-jump")


def extreme_stabs(r, stabs, keep=(), turn=None):
    """Stabilisation parameters at the ends of their range; each parameter is unchanged half of the time.

    Zero is in the range of the weights of the data and of the jumps; without the other two the method is refused by UFL.
    With a ``turn`` (the number of the case) each parameter goes through its extreme values in the course of a few cases.
    """
    out = dict(stabs)
    if turn is not None:
        for s, step in zip(STABS, (1, 2, 3, 4)):
            values = [None, 1e-7, 1e4, 0.0 if s in MAY_VANISH else 1e-12, None]
            v = values[(step * turn + STABS.index(s)) % 5]
            if v is not None and s not in keep:
                out[s] = v
        return out
    names = [s for s in STABS if s not in keep]
    for s in names:
        if r.random() < 0.5:
            out[s] = float(r.choice([0.0, 0.0, 1e-7, 1e4] if s in MAY_VANISH else [1e-12, 1e-7, 1e4]))
        elif r.random() < 0.5:
            out[s] = int(r.integers(1, 10))
    if out == stabs:
        out[names[int(r.integers(0, len(names)))]] = 1e-7
    return out


# ---------------------------------------------------------------------------- S05
def S05(c):
    c.rule = (
        "A case is one random problem (cell type, graded mesh, orders, slabs, region, stabilisation, jump and initial-data "
        "settings, dof numbering); every entry of each matrix is compared with a Kronecker-product reference of exact "
        "temporal integrals and scalar spatial matrices. Non-trivial: distinct problem signature with all matrices compared."
    )
    c.assumptions = BASE
    c.require("matrices compared", 40)
    tol = 1e-9
    for key, p in plan(c, 11, far=(14, 24), fw=[False, True, False, False]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            with c.sut("setting up the solver"):
                st = p.solver()
                A = st.get_spacetime_matrix()
                V = fes(st)
            R = p.ref
            compare_matrix(c, A, R.spacetime(), R.canon(V), tol, "space-time matrix")
            with c.sut("slab matrices"):
                Sl, S1 = st.get_slab_matrix(), st.get_slab_matrix_first_slab()
                W = fes_slab(st)
            compare_matrix(c, Sl, R.slab(True), R.canon(W), tol, "slab matrix")
            compare_matrix(c, S1, R.slab(p.wp), R.canon(W), tol, "first-slab matrix")
            S0 = getattr(st, "slab_matrix_no_dg_jumps", None)
            if S0 is not None:
                compare_matrix(c, S0, R.slab(False), R.canon(W), tol, "slab matrix without jumps")
                c.count("matrices compared")
            with c.sut("preconditioning matrix"):
                P = st.get_spacetime_matrix(precond=True)
            compare_matrix(c, P, R.spacetime(precond=True), R.canon(V), tol, "preconditioning matrix")
            with c.sut("interface matrices"):
                for name in ("setup_coupling_matrix_between_slices", "setup_scaled_mass_matrix_between_slices"):
                    getattr(st, name, lambda: None)()
                C, Mm, Vc, Vm = (getattr(st, n, None) for n in ("coupling_matrix_between_slices", "scaled_mass_matrix_between_slices", "fes_coupling", "fes_slab_bnd"))
            gj, dt, S = p.stabs["primal-jump"], p.dt, R.S
            D = np.array([[1.0, -1.0], [-1.0, 1.0]])
            J1, J2 = gj * (S["M"] / dt + dt * S["K"]), gj / dt * S["M"]
            J1a, J2a = gj * (abs(S["M"]) / dt + dt * abs(S["K"])), gj / dt * abs(S["M"])
            ref = sp.block_diag([sp.kron(D, J1), sp.kron(D, J2)]).tocsr()
            mag = sp.block_diag([sp.kron(abs(D), J1a), sp.kron(abs(D), J2a)]).tocsr()
            if C is not None and Vc is not None:
                compare_matrix(c, C, (ref, mag), np.concatenate(Vc.comp_dofs), tol, "coupling matrix")
            ref, mag = sp.block_diag([J1, J2]).tocsr(), sp.block_diag([J1a, J2a]).tocsr()
            if Mm is not None and Vm is not None:
                compare_matrix(c, Mm, (ref, mag), np.concatenate(Vm.comp_dofs), tol, "interface mass matrix")
            c.count("matrices compared", 6)
            # parameters at the ends of their range: zero is a value like any other
            r = c.rng(key, "extreme")
            turn = number(key)
            stabs = extreme_stabs(r, p.stabs, turn=turn if r.random() < 0.7 else None)
            T2 = [p.T, float(10.0 ** r.uniform(-5, -1)), int(r.integers(1, 20)), float(10.0 ** r.uniform(-5, -1)), float(10.0 ** r.uniform(1, 4))][turn % 5]
            dt2 = T2 / p.N
            with c.sut("matrices with extreme parameters"):
                st2 = p.solver(stabs=stabs, T=T2)
                mats = st2.get_spacetime_matrix(), st2.get_slab_matrix(), st2.get_slab_matrix_first_slab()
                V2, W2 = fes(st2), fes_slab(st2)
            R2 = copy.copy(R)
            R2.g = stabs
            for (what, ref, U), B in zip((("space-time matrix", R2.spacetime(dt=dt2), V2), ("slab matrix", R2.slab(True, dt=dt2), W2), ("first-slab matrix", R2.slab(p.wp, dt=dt2), W2)), mats):
                compare_matrix(c, B, ref, R2.canon(U), tol, f"{what} with extreme parameters", stabs=stabs, T=T2)
                c.count("matrices with extreme parameters")
            c.mark(p.sig())
            c.sample(problem=p.desc(), unknowns=V.num_dofs, extreme=stabs)


# ---------------------------------------------------------------------------- S01
def _data_block(p, st, other):
    """Differences of the (u1, u1) blocks of two solvers which differ in the data weight only."""
    R = p.ref
    out = []
    for name, get, N in (("space-time matrix", "get_spacetime_matrix", p.N), ("slab matrix", "get_slab_matrix", 1)):
        A, B = getattr(st, get)(), getattr(other, get)()
        perm = R.canon(fes(st) if N == p.N and name[0:2] == "sp" else fes_slab(st))
        out.append((name, N, (csr(A) - csr(B))[perm][:, perm].tocsr()))
    return out


def S01(c):
    c.rule = (
        "A case is one random data region (cell-wise 0/1 and weighted callables, fitted and unfitted functions, expressions) "
        "in one random problem. The data term is isolated as the difference of matrices with different data weights and compared "
        "entrywise with the region's own mass matrix; the right-hand side likewise; all user objects are compared with "
        "snapshots and then reused for a second solver on another mesh. Non-trivial: distinct signature."
    )
    c.assumptions = BASE
    c.require("data terms compared", 16)
    c.require("objects reused", 4)
    for key, p in plan(c, 10, wp=[False], fw=[False, False, True], q=[0, 1, 2], qs=[0, 1], N=[1, 2, 3]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "use")
            dom = p.region.domain(p.mesh)
            ind, fitted = dom.indicator_function, dom.fitted
            is_fun = isinstance(ind, fem.Function)
            before = np.array(ind.x.array) if is_fun else None
            ot, os_ = ST.OrderTime(p.q, p.qs), ST.OrderSpace(p.k, p.ks)
            par, sol, stabs = ST.ProblemParameters(p.fw, False), p.wave.arg(), dict(p.stabs)
            kw = dict(polynomial_order_time=ot, polynomial_order_space=os_, N=p.N, T=p.T, t=0.0, msh=p.mesh,
                      stabilisation_terms=stabs, omega=dom, solution=sol, parameters=par)

            def untouched(when):
                c.ok(dom.indicator_function is ind and dom.fitted == fitted, f"the user's data region was replaced {when}")
                if is_fun:
                    c.ok(np.array_equal(ind.x.array, before), f"the user's region function was modified {when}")
                c.ok((ot.q, ot.qstar, os_.k, os_.kstar) == (p.q, p.qs, p.k, p.ks), f"the order objects were modified {when}")
                c.ok((par.jumps_in_fw_problem, par.well_posed) == (p.fw, False), f"the parameters were modified {when}")
                c.ok(stabs == p.stabs, f"the stabilisation parameters were modified {when}")
                c.ok(sol.v == p.wave.v and sol.dvdt == p.wave.dvdt, f"the solution object was modified {when}")

            os.environ["MINIDOLFINX_SEED"] = str(p.seed)
            with c.sut("setting up with the region"):
                st = ST.SpaceTime(**kw)
                st.setup_spacetime_finite_elements()
                untouched("by the set-up")
                other = ST.SpaceTime(**dict(kw, stabilisation_terms=dict(p.stabs, data=3.7 * p.stabs["data"] + 0.2)))
                other.setup_spacetime_finite_elements()
                blocks = _data_block(p, st, other)
                b = np.array(st.get_spacetime_rhs().array)
            untouched("by assembling")
            g = p.stabs["data"] - (3.7 * p.stabs["data"] + 0.2)
            Om, R = p.ref.S["Om"], p.ref
            Mt = g * p.dt * tmats(p.q, p.qs)["Mqq"]
            for name, N, D in blocks:
                n1 = R.field_slices(N)[0].stop
                ref = sp.kron(sp.identity(N), sp.kron(Mt, Om)).toarray()
                scale = max(abs(g) * p.dt, abs(D).max() if D.nnz else 0.0, p.stabs["primal"] / p.dt, 1e-300)
                c.close(D[:n1, :n1].toarray(), ref, 1e-9, f"data term of the {name}: not the region's", scale=max(np.abs(ref).max(), 1e-4 * scale))
                rest = D.tolil()
                rest[:n1, :n1] = 0
                c.ok(abs(rest).max() <= 1e-9 * scale, f"the data weight acts outside the first field of the {name}", worst=abs(rest).max())
                c.count("data terms compared")
            rb, mag = R.rhs()
            c.close(b[R.canon(fes(st))], rb, 3e-5, "right-hand side: not that of the region", scale=max(mag.max(), 1e-9))
            if p.region.kind in ("weights", "cells", "half", "all", "none"):
                # the same objects for a solver on another mesh with cells of its own inside the old ones
                x2, c2 = mesh_arrays(r, p.cell, p.n + 1, True)
                m2 = build_mesh(p.cell, x2, c2)
                with c.sut("reusing the user's objects for another solver"):
                    st2 = ST.SpaceTime(**dict(kw, msh=m2))
                    st2.setup_spacetime_finite_elements()
                    A2 = csr(st2.get_spacetime_matrix())
                    V2 = fes(st2)
                    # nothing of the first solver has changed
                    st.setup_slab_matrix(with_jumps=True)
                    st.setup_rhs()
                    again = csr(st.get_slab_matrix())
                    b2 = np.array(st.get_spacetime_rhs().array)
                untouched("by a second solver")
                R2 = Reference(p, mesh=m2)
                compare_matrix(c, A2, R2.spacetime(), R2.canon(V2), 1e-9, "matrix of the second solver with the same objects")
                compare_matrix(c, again, R.slab(True), R.canon(fes_slab(st)), 1e-9, "slab matrix of the first solver afterwards")
                c.close(b2, b, 1e-13, "right-hand side of the first solver changed after a second one was set up", scale=max(mag.max(), 1e-9))
                c.count("objects reused")
            else:
                with c.sut("measuring"):
                    st.measured_errors(pvec(r.normal(size=fes(st).num_dofs)))
                untouched("by measuring")
            c.mark(p.sig())
            c.sample(problem=p.desc(), region_evaluations=len(p.region.calls))


# ---------------------------------------------------------------------------- S02
def S02(c):
    c.rule = (
        "A case is one problem with one random numbering. Slab solvers are replaced by monitors: the global input carries a unique "
        "label per unknown, the answers carry unique labels too; what each slab solver received and where each answer ended up is "
        "compared with the dof maps. Non-trivial: distinct (problem, variant) with all slabs observed."
    )
    c.assumptions = BASE
    c.require("slab calls observed", 30)
    for key, p in plan(c, 14, far=(20, 100), fw=[False, True, False], q=[0, 1, 2, 3], qs=[0, 1, 2, 3], N=[1, 2, 3, 4]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "labels")
            log = []
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
            maps = slab_maps(p, st)
            ntot = fes(st).num_dofs
            c.ok(np.array_equal(np.sort(np.concatenate([g for g, _ in maps])), np.arange(ntot)), "harness: slab maps are not a partition")
            for variant in ("pre_time_marching", "pre_time_marching_improved"):
                if p.fw and variant.endswith("improved"):
                    continue
                fun = getattr(st, variant)
                labels = np.zeros(ntot)
                labels[r.permutation(ntot)] = 1.0 + np.arange(ntot)
                # (1) zero answers: what is received is the input alone
                log.clear()
                size = len(maps[0][1])
                zero = lambda i, got: np.zeros(size)  # noqa: E731
                st.set_solver_first_slab(Scripted(log, "first", zero))
                st.set_solver_slab(Scripted(log, "slab", zero))
                with c.sut(variant):
                    out, _ = apply(fun, labels, np.full(ntot, 7.0))
                if not c.ok(len(log) == p.N, f"{variant}: number of slab solves", got=len(log), expected=p.N):
                    continue
                for n, (g, s) in enumerate(maps):
                    got = log[n][1]
                    c.ok(len(got) == size, f"{variant}: size of the slab vector")
                    c.close(got[s], labels[g], 1e-12, f"{variant}: slab solver did not receive its own unknowns", scale=1.0, slab=n)
                    c.count("slab calls observed")
                c.close(out, np.zeros(ntot), 1e-300, f"{variant}: output is not the slab solution", scale=1.0)
                # (2) labelled answers: where they end up
                log.clear()
                ans = [1e6 * (n + 1) + r.permutation(size) for n in range(p.N)]
                script = lambda i, got: ans[i]  # noqa: E731
                st.set_solver_first_slab(Scripted(log, "first", script))
                st.set_solver_slab(Scripted(log, "slab", script))
                with c.sut(variant):
                    out, _ = apply(fun, labels, np.full(ntot, -3.0))
                for n, (g, s) in enumerate(maps):
                    c.ok(np.array_equal(out[g], ans[n][s]), f"{variant}: the slab solution was not copied one to one", slab=n,
                         wrong=int((out[g] != ans[n][s]).sum()))
                    c.count("slab calls observed")
                # (3) each single unknown of a random sample arrives at exactly one place
                log.clear()
                st.set_solver_first_slab(Scripted(log, "first", zero))
                st.set_solver_slab(Scripted(log, "slab", zero))
                for i in r.choice(ntot, 3):
                    log.clear()
                    e = np.zeros(ntot)
                    e[i] = 1.0
                    with c.sut(variant):
                        apply(fun, e)
                    hits = [(n, j) for n, (_, got, _) in enumerate(log) for j in np.flatnonzero(np.abs(got) > 1e-9)]
                    want = [(n, int(s[list(g).index(i)])) for n, (g, s) in enumerate(maps) if i in g]
                    c.ok(hits == want, f"{variant}: a single unknown did not arrive at exactly its place", got=hits[:5], expected=want)
                c.mark(p.sig(), variant)
            c.sample(problem=p.desc(), unknowns=ntot, per_slab=len(maps[0][1]))


# ---------------------------------------------------------------------------- S03
def _vectors(r, n):
    yield "random", r.normal(size=n)
    yield "large", 1e8 * r.normal(size=n)
    yield "small", 1e-8 * r.normal(size=n)
    e = np.zeros(n)
    e[r.integers(0, n)] = 1.0
    yield "unit", e
    yield "constant", np.ones(n)
    yield "graded", 10.0 ** r.uniform(-10, 4, n) * r.choice([-1, 1], n)
    yield "zero", np.zeros(n)


def S03(c):
    c.rule = (
        "A case is one random problem; the matrix-free operator and the assembled matrix are applied to vectors of seven kinds "
        "(random, badly scaled, graded over 14 decades, unit, constant, zero) and compared row by row relative to |A||x|. "
        "Non-trivial: distinct (problem signature, vector kind)."
    )
    c.assumptions = BASE
    c.require("applications compared", 60)
    for key, p in plan(c, 13, far=(17, 36), fw=[False, False, True, False]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "x")
            with c.sut("setting up"):
                st = p.solver()
                first = r.random() < 0.5
                if first:
                    A = csr(st.get_spacetime_matrix())
                st.prepare_precondition_gmres()
                if not first:
                    A = csr(st.get_spacetime_matrix())
                V = fes(st)
            aA = abs(A)
            jumps = p.fw and p.N > 1
            B = None
            if jumps:
                perm = p.ref.canon(V)
                T, _ = p.ref.spacetime(fw=False)
                if p.wp:
                    F1, F0 = p.ref.slab(True, fw=True)[0], p.ref.slab(True, fw=False)[0]
                    E = (F1 - F0).tocoo()
                    n1 = [p.ref.comp(1)(f, 0, l) for f in range(4) for l in range((p.q if f < 2 else p.qs) + 1)]
                    off1 = np.concatenate([[0], np.cumsum(p.ref.sizes(1))])
                    offN = np.concatenate([[0], np.cumsum(p.ref.sizes(p.N))])
                    nN = [p.ref.comp(p.N)(f, 0, l) for f in range(4) for l in range((p.q if f < 2 else p.qs) + 1)]
                    mp = np.concatenate([np.arange(offN[b], offN[b + 1]) for a, b in sorted(zip(n1, nN))])
                    assert len(mp) == off1[-1]
                    T = T + sp.coo_matrix((E.data, (mp[E.row], mp[E.col])), shape=T.shape)
                inv = np.argsort(perm)
                B = T.tocsr()[inv][:, inv]
            for kind, x in _vectors(r, V.num_dofs):
                with c.sut("apply_spacetime_matrix"):
                    y, xin = apply(st.apply_spacetime_matrix, x, r.normal(size=len(x)))
                c.ok(np.array_equal(x, xin), "the matrix-free operator modified its input")
                lim = aA @ np.abs(x)
                lim = np.maximum(lim, 1e-4 * lim.max()) + 1e-300
                bad = np.abs(y - A @ x) > 1e-10 * lim
                c.oracle_evaluations += len(y)
                c.count("applications compared")
                if bad.any() and p.fw:
                    # is it exactly the recognised defect?
                    ref = B if B is not None else None
                    if ref is None:  # one slab: with initial data the first slab matrix carries the jump terms
                        F = csr(st.get_slab_matrix_first_slab())
                        (g, s), = slab_maps(p, st)
                        expect = np.empty(len(y))
                        expect[g] = _gather(F, x, g, s)
                    else:
                        expect = ref @ x
                    if np.all(np.abs(y - expect) <= 1e-9 * (lim + np.abs(expect)) + 1e-13 * np.abs(expect).max()):
                        c.known("fw-jumps", "the matrix-free operator ignores the jumps of the forward problem", worst=float(np.max(np.abs(y - A @ x))))
                        c.mark(p.sig(), kind)
                        continue
                if bad.any():
                    i = int(np.argmax(np.abs(y - A @ x) / lim))
                    c.ok(False, "matrix-free operator differs from the assembled matrix", vector=kind, row=i, got=y[i], expected=(A @ x)[i],
                         wrong=int(bad.sum()))
                    break
                c.ok(np.isfinite(y).all(), "matrix-free operator returned non-finite values")
                c.mark(p.sig(), kind)
            c.sample(problem=p.desc(), unknowns=V.num_dofs)


def _gather(F, x, g, s):
    v = np.empty(len(s))
    v[s] = x[g]
    return (F @ v)[s]


# ---------------------------------------------------------------------------- S04
def S04(c):
    c.rule = (
        "A case is one random problem with a non-negative data region and positive stabilisation: symmetry entrywise, extreme eigenvalues "
        "of the primal and dual diagonal blocks, zero or constant response of each block to the parameters, and exact affine dependence of "
        "the matrix on every parameter (differences at three values). Non-trivial: distinct problem signature."
    )
    c.assumptions = BASE
    c.require("spectra", 12)
    regions = ["cells", "half", "poly", "function", "all", "none"]
    for key, p in plan(c, 9, fw=[False, True, False], region=regions, N=[1, 2, 3], q=[0, 1, 2, 3], qs=[0, 1, 2]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "gamma")
            with c.sut("assembling"):
                st = p.solver()
                A = csr(st.get_spacetime_matrix())
                Sl = csr(st.get_slab_matrix())
                F = csr(st.get_slab_matrix_first_slab())
            mats = [("space-time", A, p.ref.canon(fes(st)), p.N)]
            if not p.fw:
                mats += [("slab", Sl, p.ref.canon(fes_slab(st)), 1), ("first-slab", F, p.ref.canon(fes_slab(st)), 1)]
            for name, M, perm, N in mats:
                top = abs(M).max()
                c.ok(abs(M - M.T).max() <= 1e-12 * top, f"{name} matrix is not symmetric", worst=abs(M - M.T).max(), scale=top)
                M = M[perm][:, perm]
                fs = p.ref.field_slices(N)
                pr, du = slice(0, fs[1].stop), slice(fs[2].start, None)
                if M.shape[0] <= 1600:
                    X, Y = M[pr, pr].toarray(), M[du, du].toarray()
                    # congruence with the diagonal: signs do not change and scales do not hide anything
                    dx = 1 / np.sqrt(np.maximum(np.abs(np.diag(X)), 1e-300))
                    dy = 1 / np.sqrt(np.maximum(np.abs(np.diag(Y)), 1e-300))
                    c.ok((np.diag(X) > 0).all(), f"{name}: primal diagonal not positive")
                    c.ok((np.diag(Y) < 0).all(), f"{name}: dual diagonal not negative")
                    ex = sla.eigvalsh(X * np.outer(dx, dx))
                    ey = sla.eigvalsh(Y * np.outer(dy, dy))
                    c.ok(ex[0] >= -1e-9 * ex[-1], f"{name}: primal block is not positive semidefinite", smallest=ex[0], largest=ex[-1])
                    c.ok(ey[-1] <= -1e-7 * abs(ey[0]), f"{name}: dual block is not negative definite", largest=ey[-1], smallest=ey[0])
                    c.count("spectra", 2)
            # affine in each parameter: A(g+d) - A(g) == (A(g+3d) - A(g)) / 3, and only in the blocks it concerns
            s = STABS[int(r.integers(0, 4))] if c.quick else None
            for s in [s] if s else STABS:
                d = float(r.uniform(0.3, 2.0))
                with c.sut("assembling with other parameters"):
                    A1 = csr(p.solver(stabs=dict(p.stabs, **{s: p.stabs[s] + d})).get_spacetime_matrix())
                    A3 = csr(p.solver(stabs=dict(p.stabs, **{s: p.stabs[s] + 3 * d})).get_spacetime_matrix())
                perm = p.ref.canon(fes(st))
                top = max(abs(A).max(), abs(A3).max())
                c.ok(abs(3 * (A1 - A) - (A3 - A)).max() <= 1e-11 * top, f"the system is not linear in '{s}'",
                     worst=abs(3 * (A1 - A) - (A3 - A)).max(), scale=top)
                low = 0.0 if s in MAY_VANISH else 1e-12  # the end of the range is on the same line
                with c.sut(f"assembling with {s} = {low}"):
                    A0 = csr(p.solver(stabs=dict(p.stabs, **{s: low})).get_spacetime_matrix())
                D0 = abs(d * (A - A0) - (p.stabs[s] - low) * (A1 - A)).max()
                c.ok(D0 <= 1e-11 * top * (d + p.stabs[s]), f"the system with '{s}' = {low} is not the limit of those with small values", worst=D0, scale=top)
                D = (A3 - A)[perm][:, perm].tocsr()
                npri = p.ref.field_slices(p.N)[1].stop
                zero = [D[:npri, npri:], D[npri:, :npri], D[:npri, :npri] if s == "dual" else D[npri:, npri:]]
                for Z in zero:
                    c.ok((abs(Z).max() if Z.nnz else 0.0) <= 1e-11 * top, f"'{s}' acts on a block it does not concern")
                c.count("parameters varied")
            c.mark(p.sig())
            c.sample(problem=p.desc(), unknowns=A.shape[0])


# ---------------------------------------------------------------------------- S06
class Outside(Wave):
    """w plus another wave that lives outside the region only."""

    def __init__(self, a, b, chi):
        self.a, self.b, self.chi = a, b, chi

    def v(self, t, x):
        return self.a.v(t, x) + (1.0 - self.chi) * self.b.v(t, x)

    def dvdt(self, t, x):
        return self.a.dvdt(t, x) + (1.0 - self.chi) * self.b.dvdt(t, x)


class Sum(Wave):
    def __init__(self, a, b, s, t):
        self.a, self.b, self.s, self.t = a, b, s, t

    def v(self, t, x):
        return self.s * self.a.v(t, x) + self.t * self.b.v(t, x)

    def dvdt(self, t, x):
        return self.s * self.a.dvdt(t, x) + self.t * self.b.dvdt(t, x)


def S06(c):
    c.rule = (
        "A case is one random problem: the right-hand side is compared with a reference built from exact 4-point Radau weights, scalar load "
        "vectors and own initial-data terms; then recomputed for scaled sums of solutions and for solutions changed outside the region "
        "only. Non-trivial: distinct problem signature."
    )
    c.assumptions = BASE + ["tabulated quadrature digits (6) bound the comparison with exact Radau weights to 3e-5"]
    c.require("vectors compared", 20)
    for key, p in plan(c, 14, far=(40, 140), region=["cells", "weights", "half", "poly", "function", "all", "none"], q=[0, 1, 2, 3], qs=[0, 1, 2], N=[1, 2, 3, 4]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "data")
            w2 = Wave(r, p.dim)
            u1, u2 = r.normal(size=p.ref.nk), r.normal(size=p.ref.nk)

            def rhs(solution, init=1.0, **kw):
                with c.sut("assembling the right-hand side"):
                    st = p.solver(solution=solution, **kw)
                    if p.wp:
                        st.u1_0.x.array[fes_of(st.u1_0)] = init * u1
                        st.u2_0.x.array[fes_of(st.u2_0)] = init * u2
                    if r.random() < 0.4:
                        st.get_spacetime_lfi()
                    b = np.array(st.get_spacetime_rhs().array)
                    if p.wp:
                        c.ok(np.array_equal(st.u1_0.x.array[fes_of(st.u1_0)], init * u1), "assembling modified the initial data")
                    return b[p.ref.canon(fes(st))]

            b1 = rhs(p.wave.arg())
            ref, mag = p.ref.rhs(u1, u2)
            scale = max(mag.max(), 1e-9)
            # slab by slab and level by level, so that no small part hides behind a large one
            off = np.concatenate([[0], np.cumsum(p.ref.sizes(p.N))])
            for i in range(len(off) - 1):
                s = slice(off[i], off[i + 1])
                c.close(b1[s], ref[s], 3e-5, "right-hand side: not the data functional", scale=max(mag[s].max(), 1e-12 * scale, 1e-14), component=i)
            fs = p.ref.field_slices(p.N)
            second = b1[fs[1]].copy()
            if p.wp:
                second[: p.ref.nk] = 0  # initial velocity
            c.close(second, 0 * second, 1e-15, "right-hand side: acts on the second field", scale=max(scale, 1e-4))
            c.close(b1[fs[2].start:], 0 * b1[fs[2].start:], 1e-15, "right-hand side: acts on the dual fields", scale=max(scale, 1e-4))
            c.count("vectors compared")
            # linear in the data (initial data included)
            s, t = r.uniform(-2, 2, 2)
            b2 = rhs(w2.arg(), init=0.5)
            b12 = rhs(Sum(p.wave, w2, s, t).arg(), init=s + 0.5 * t)
            lin = s * b1 + t * b2
            c.close(b12, lin, 1e-11, "right-hand side: not linear in the data", scale=max(np.abs(s * b1).max() + np.abs(t * b2).max(), 1e-6))
            c.count("vectors compared")
            # parameters at the ends of their range
            stabs = extreme_stabs(c.rng(key, "extreme"), p.stabs, turn=number(key) if r.random() < 0.5 else None)
            if p.region.kind == "none" and not p.wp and stabs["data"] == 0:
                stabs["data"] = 1e4
            b4 = rhs(p.wave.arg(), stabs=stabs)
            R2 = copy.copy(p.ref)
            R2.g = stabs
            ref4, mag4 = R2.rhs(u1, u2)
            for i in range(len(off) - 1):
                s = slice(off[i], off[i + 1])
                c.close(b4[s], ref4[s], 3e-5, "right-hand side with extreme parameters: not the data functional", scale=max(mag4[s].max(), 1e-12 * mag4.max(), 1e-14), component=i, stabs=stabs)
            c.count("vectors compared")
            # a solution changed outside the region
            if p.region.kind in ("cells", "half", "function", "all", "none"):
                chi = p.region.dg0(p.mesh)
                b3 = rhs(Outside(p.wave, w2, chi).arg())
                c.close(b3, b1, 1e-12, "right-hand side: depends on the solution outside the region", scale=max(np.abs(b1).max(), np.abs(b2).max(), 1e-9))
                c.count("vectors compared")
            c.mark(p.sig())
            c.sample(problem=p.desc(), largest=float(np.abs(b1).max()))


def fes_of(f):
    return f.function_space.comp_dofs[0]


# ---------------------------------------------------------------------------- S07
def S07(c):
    c.rule = (
        "A case is one random problem without forward jumps: both time-marching preconditioners, with exact slab solvers, are applied to "
        "vectors of several kinds and multiplied with the assembled preconditioning matrix. The residual is measured against |P||x|. "
        "Non-trivial: distinct (problem signature, variant)."
    )
    c.assumptions = BASE
    c.require("inversions", 40)
    for key, p in plan(c, 12, far=(17, 36), N=[1, 2, 3, 4, 5]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "b")
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
                P = csr(st.get_spacetime_matrix(precond=True))
                with_lu(st)
            aP = abs(P)
            for variant in (st.pre_time_marching, st.pre_time_marching_improved):
                for kind, b in _vectors(r, P.shape[0]):
                    if kind in ("zero", "graded"):
                        continue
                    with c.sut(variant.__name__):
                        x, bin_ = apply(variant, b, r.normal(size=len(b)))
                    c.ok(np.array_equal(b, bin_), f"{variant.__name__}: modified its input")
                    # the reference variant adds 1e-20 times a basis function; keep the scale above that
                    lim = max((aP @ np.abs(x)).max(), np.abs(b).max(), 1e-9)
                    res = np.abs(P @ x - b).max()
                    c.ok(res <= 1e-11 * lim, f"{variant.__name__}: not the inverse of the forward matrix", vector=kind, residual=res, scale=lim)
                    c.worst["inverse"] = max(c.worst.get("inverse", 0), res / lim / 1e-11)
                    c.count("inversions")
                c.mark(p.sig(), variant.__name__)
            c.sample(problem=p.desc(), unknowns=P.shape[0])


# ---------------------------------------------------------------------------- S08
def S08(c):
    c.rule = (
        "A case is one random problem with scripted slab solvers: an online monitor checks the order of the solver calls and compares what "
        "each slab receives with its part of the input plus the load of the previous slab's end values; then single slabs of the input are "
        "changed and all earlier slabs must stay bit-identical. Non-trivial: distinct (problem signature, variant)."
    )
    c.assumptions = BASE
    c.require("slab inputs checked", 40)
    c.require("causality probes", 20)
    for key, p in plan(c, 14, far=(40, 140), fw=[False, True, False], N=[1, 2, 3, 4, 5]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "script")
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
            maps = slab_maps(p, st)
            size, ntot = len(maps[0][1]), fes(st).num_dofs
            sl, R = slab_slices(p), p.ref
            for variant in ("pre_time_marching", "pre_time_marching_improved"):
                if p.fw and variant.endswith("improved"):
                    continue
                fun, log = getattr(st, variant), []
                ans = [r.normal(size=size) * 10 ** r.uniform(-2, 2) for _ in range(p.N)]
                script = lambda i, got: ans[i] if i < len(ans) else np.zeros(size)  # noqa: E731
                b = r.normal(size=ntot)
                for rep in range(2):
                    log.clear()
                    st.set_solver_first_slab(Scripted(log, "first", script))
                    st.set_solver_slab(Scripted(log, "slab", script))
                    with c.sut(variant):
                        apply(fun, b)
                    if not c.ok([t for t, *_ in log] == ["first"] + ["slab"] * (p.N - 1), f"{variant}: order of the solver calls",
                                got=[t for t, *_ in log]):
                        break
                    for n, (g, s) in enumerate(maps):
                        want, mag = b[g].copy(), np.abs(b[g])
                        if n:
                            prev = ans[n - 1][s]
                            e1, e2 = prev[sl(0, p.q)], prev[sl(1, p.q)]
                            l1, l2 = R.coupling_load(e1, e2)
                            want[sl(0, 0)] += l1
                            want[sl(1, 0)] += l2
                            mag[sl(0, 0)] += np.abs(l1).max()
                            mag[sl(1, 0)] += np.abs(l2).max()
                            if p.fw:
                                for f, e in ((2, e2), (3, e1)):
                                    want[sl(f, 0)] += R.S["sM"] @ e
                                    mag[sl(f, 0)] += np.abs(R.S["sM"] @ e).max()
                        got = log[n][1][s]
                        bad = np.abs(got - want) > 1e-10 * (mag + 1e-6)
                        c.oracle_evaluations += size
                        if bad.any():
                            i = int(np.argmax(np.abs(got - want) * bad))
                            c.ok(False, f"{variant}: a slab did not receive its input plus the end values of the previous slab", slab=n, index=i,
                                 got=got[i], expected=want[i], wrong=int(bad.sum()))
                            break
                        c.count("slab inputs checked")
                # causality with solvers that answer by a linear map
                with_linear(st, r, size)
                with c.sut(variant):
                    base, _ = apply(fun, b)
                for m in range(p.N) if p.N <= 12 else sorted(r.choice(p.N, 10, replace=False)):
                    b2 = b.copy()
                    g = maps[m][0]
                    b2[g] += r.normal(size=len(g)) * 10
                    with c.sut(variant):
                        x2, _ = apply(fun, b2)
                    for n in range(m):
                        c.ok(np.array_equal(x2[maps[n][0]], base[maps[n][0]]), f"{variant}: a slab depends on later input", slab=n, changed=m)
                    c.ok(not np.array_equal(x2[g], base[g]), f"{variant}: a slab ignores its own input", slab=m)
                    c.count("causality probes")
                c.mark(p.sig(), variant)
            c.sample(problem=p.desc())


# ---------------------------------------------------------------------------- S09
def S09(c):
    c.rule = (
        "A case is one random problem and a random interleaving of applications of both variants to several vectors, with well-conditioned "
        "linear slab maps (differences are not hidden by ill-conditioning) and with exact slab solvers; every output is compared with the reference variant's. "
        "Where the optimised variant does not support the setting it has to raise. Non-trivial: distinct (problem signature, solver kind)."
    )
    c.assumptions = BASE
    c.require("outputs compared", 60)
    c.require("refusals", 2)
    for key, p in plan(c, 14, far=(40, 140), fw=[False, False, True], N=[1, 2, 3, 4, 5]):
        r = c.rng(key, "mix")
        if key.startswith("pfar"):  # nothing grows from slab to slab
            p.stabs["primal-jump"] = float(p.dt * r.uniform(0.3, 1.0))
        elif r.random() < 0.3:
            p.stabs = extreme_stabs(r, p.stabs, keep=("primal-jump",))  # a large one blows the constant 1e-20 of the reference up from slab to slab
            if r.random() < 0.3:
                p.stabs["primal-jump"] = float(r.choice([1e-12, 1e-7]))
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
            ntot, size = fes(st).num_dofs, fes_slab(st).num_dofs
            with_linear(st, r, size)
            if p.fw:
                b = r.normal(size=ntot)
                with c.sut("pre_time_marching"):
                    one, _ = apply(st.pre_time_marching, b)
                refused = False
                try:
                    got, _ = apply(st.pre_time_marching_improved, b)
                except Exception:  # noqa: BLE001
                    refused = True
                if not refused:
                    c.ok(False, "the optimised preconditioner accepts forward jumps", same=bool(np.allclose(got, one)))
                c.count("refusals")
                c.ok(True, "refused")
                with c.sut("pre_time_marching"):
                    two, _ = apply(st.pre_time_marching, b)
                c.close(two, one, 1e-13, "the refused call changed the reference preconditioner")
                c.mark(p.sig(), "refused")
                continue
            for solver in ("linear", "exact"):
                if solver == "exact":
                    if max(p.stabs.values()) > 1e3 or min(p.stabs.values()) < 1e-3:
                        break  # too ill-conditioned
                    with_lu(st)
                bs = [b for kind, b in _vectors(r, ntot) if kind in ("random", "large", "unit", "constant")]
                refs = []
                for b in bs:
                    with c.sut("pre_time_marching"):
                        refs.append(apply(st.pre_time_marching, b)[0])
                with c.sut("pre_time_marching"):
                    trick = np.abs(apply(st.pre_time_marching, np.zeros(ntot))[0]).max()  # the constant of size 1e-20, after all slabs
                for _ in range(8):
                    i = int(r.integers(0, len(bs)))
                    which = st.pre_time_marching_improved if r.random() < 0.7 else st.pre_time_marching
                    if r.random() < 0.2:
                        with c.sut("in between"):
                            apply(st.apply_spacetime_matrix, bs[0])
                    with c.sut(which.__name__):
                        x, _ = apply(which, bs[i], r.normal(size=ntot))
                    if solver == "linear":
                        big = max(np.abs(refs[i]).max(), 1e-300)
                        if 1e7 * trick > big and which != st.pre_time_marching:
                            c.count("outputs which only show the constant of the reference variant")
                            continue
                        c.close(x, refs[i], 1e-12, f"{which.__name__}: differs from the reference preconditioner", scale=max(big, 1e13 * trick))
                    else:
                        c.close(x, refs[i], 1e-6, f"{which.__name__}: differs from the reference preconditioner with exact solvers")
                    c.count("outputs compared")
                c.mark(p.sig(), solver)
            c.sample(problem=p.desc())


# ---------------------------------------------------------------------------- S10
# the time marching of the reference variant contains a term of size 1e-20
EXACT_MAPS = ("apply_spacetime_matrix", "pre_time_marching_improved", "q_op", "matrix wrapper", "preconditioner wrapper")


def S10(c):
    from checks.stlib import nested_problem

    c.rule = (
        "A case is one problem and a random history of operations on one solver object (operator and preconditioner applications, getters, "
        "set-up calls, coarse preparation, transfers, error measurement, plotting, export). After each step an application to an earlier "
        "input must reproduce the first output; outputs are pre-filled with garbage and NaN, inputs compared bit by bit, linearity tested "
        "with random combinations. Non-trivial: distinct (preceding operation, map)."
    )
    c.assumptions = BASE
    c.require("repeated applications", 60)
    c.require("linear combinations", 20)
    c.require("rescaled inputs", 20)
    c.require("zero inputs", 10)
    import matplotlib.pyplot as plt

    cells = ["interval", "interval", "triangle", "interval", "quadrilateral"]
    n_cases = 8 if c.quick else 60
    for i in range(n_cases):
        if i >= 8 and not c.more():
            break
        r = c.rng("h", i)
        cell = cells[i % len(cells)]
        p = nested_problem(r, cell=cell, N=slabs(r, cell), q=int(r.integers(0, 3)), qs=int(r.integers(0, 2)),
                           k=int(r.integers(1, 3)), ks=1, region=["cells", "weights", "poly"][i % 3], fw=i % 4 == 3, wp=i % 3 == 1, scale=False)
        with c.case(f"h{i}", **p.desc()) as k:
            if not k:
                continue
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
            ntot, size = fes(st).num_dofs, fes_slab(st).num_dofs
            with_linear(st, r, size)
            maps = {"apply_spacetime_matrix": st.apply_spacetime_matrix, "pre_time_marching": st.pre_time_marching}
            if not p.fw:
                maps["pre_time_marching_improved"] = st.pre_time_marching_improved
            mat, pc = ST.SpaceTimePETScMatrixWrapper(st), ST.SpaceTimePETScPreconditionerWrapper(st)
            maps["matrix wrapper"] = lambda b, x: mat.mult(None, b, x)  # noqa: B023
            if not p.fw:
                maps["preconditioner wrapper"] = lambda b, x: pc.apply(None, b, x)  # noqa: B023
            inputs = [r.normal(size=ntot), 1e5 * r.normal(size=ntot), np.eye(1, ntot, int(r.integers(0, ntot)))[0]]
            first = {}
            coarse = [False]

            def coarse_prep():
                st.prepare_coarse_grid_correction(p.coarse_mesh)
                nc = st.get_spacetime_matrix_coarse().getSize()[0]
                st.set_solver_coarse(Linear(linear_answers(np.random.default_rng(5), nc)))
                maps["pre_twolvl"] = st.pre_twolvl
                maps["q_op"] = st.q_op
                coarse[0] = True

            def wrappers():
                b = pvec(inputs[1])
                ST.SpaceTimePETScMatrixWrapper(st).mult(None, b, pvec(np.zeros(ntot)))

            def plots():
                if cell == "interval":
                    v = pvec(r.normal(size=ntot))
                    if r.random() < 0.5:
                        st.plot(v, n_space=7, n_time_subdiv=3, abs_val=bool(r.random() < 0.5))
                    else:
                        st.plot_error(v, n_space=7, n_time_subdiv=3)
                    plt.close("all")

            ops = {
                "matrix": lambda: st.get_spacetime_matrix(), "precond matrix": lambda: st.get_spacetime_matrix(precond=True),
                "form": lambda: st.get_spacetime_bfi(precond=bool(r.random() < 0.5)), "slab": lambda: st.get_slab_matrix(),
                "slab form": lambda: st.get_slab_bfi(), "first slab": lambda: st.get_slab_matrix_first_slab(),
                "rhs": lambda: st.get_spacetime_rhs(), "lfi": lambda: st.get_spacetime_lfi(), "new rhs": lambda: st.setup_rhs(),
                "new slab": lambda: st.setup_slab_matrix(with_jumps=bool(r.random() < 0.5)),
                "new interface": lambda: (st.setup_coupling_matrix_between_slices(), st.setup_scaled_mass_matrix_between_slices()),
                "prepare": lambda: st.prepare_precondition_gmres(), "coarse": coarse_prep, "wrapper": wrappers,
                "errors": lambda: st.measured_errors(pvec(r.normal(size=ntot)), verbose=bool(r.random() < 0.3)),
                "plot": plots, "export": lambda: st.plot_para_view(pvec(r.normal(size=ntot)), name="hist"),
                "other input": lambda: apply(maps[sorted(maps)[int(r.integers(0, len(maps)))]], 1e3 * r.normal(size=ntot)),
            }
            for name, need in (("new rhs", "setup_rhs"), ("new slab", "setup_slab_matrix"), ("new interface", "setup_coupling_matrix_between_slices"),
                               ("new interface", "setup_scaled_mass_matrix_between_slices")):
                if not hasattr(ST.SpaceTime, need):
                    ops.pop(name, None)
            names = sorted(ops)
            prev = "start"
            # measuring 105 samples is the dearest operation: reduce them where the solver offers it
            st.sample_pts_error = [0.0, 0.4 * p.T, p.T]
            for step in range(10 if c.quick else 25):
                for name in sorted(maps):
                    j = int(r.integers(0, len(inputs)))
                    fill = [np.full(ntot, np.nan), np.full(ntot, 1e30), r.normal(size=ntot)][int(r.integers(0, 3))]
                    with c.sut(f"{name} after {prev}"):
                        y, x = apply(maps[name], inputs[j], fill)
                    c.ok(np.array_equal(x, inputs[j]), f"{name} modified its input", after=prev)
                    c.ok(np.isfinite(y).all(), f"{name} left old content in its output", after=prev)
                    if (name, j) in first:
                        c.close(y, first[name, j], 1e-12, f"{name}: another output for the same input", after=prev)
                        c.count("repeated applications")
                    else:
                        first[name, j] = y
                    c.mark(prev, name)
                    if r.random() < 0.25:
                        a, b = r.uniform(-3, 3, 2)
                        u, v = r.normal(size=ntot), r.normal(size=ntot)
                        with c.sut(name):
                            fu, fv = apply(maps[name], u)[0], apply(maps[name], v)[0]
                            fw_ = apply(maps[name], a * u + b * v)[0]
                        c.close(fw_, a * fu + b * fv, 1e-11, f"{name}: not linear", scale=max(np.abs(a * fu).max() + np.abs(b * fv).max(), 1e-30))
                        c.count("linear combinations")
                    if r.random() < 0.35:
                        # the vector with some signs changed has the same norm, largest entry and so on
                        v = inputs[int(r.integers(0, 2))]
                        w = np.where(r.random(ntot) < 0.5, v, -v)
                        with c.sut(f"{name} with changed signs"):
                            fv, fw_, fm = (apply(maps[name], z)[0] for z in (v, w, np.where(v == w, v, 0.0)))
                        c.close(fv + fw_, 2 * fm, 1e-11, f"{name}: not linear in vectors of the same norm", scale=max(np.abs(fv).max(), np.abs(fw_).max(), 1e-30))
                        c.count("linear combinations")
                    if r.random() < 0.2:
                        # nothing of the previous application may be left over
                        with c.sut(f"{name} with zero"):
                            y, x = apply(maps[name], np.zeros(ntot), fill)
                            big = np.abs(apply(maps[name], inputs[0])[0]).max()
                        c.ok(not x.any(), f"{name} modified its input", after=prev)
                        c.close(y, np.zeros(ntot), 1e-300 if name in EXACT_MAPS else 1e-13, f"{name}: zero is not mapped to zero", scale=max(big, 1.0), after=prev)
                        c.count("zero inputs")
                    if r.random() < 0.35:
                        # powers of two: the same digits at another size, however small or large
                        e = int(r.integers(-70, 60)) if name in EXACT_MAPS else int(r.integers(-18, 30))
                        with c.sut(f"{name} with a rescaled input"):
                            z, _ = apply(maps[name], inputs[0] * 2.0**e)
                            y, _ = apply(maps[name], inputs[0])
                        c.close(z / 2.0**e, y, 1e-12, f"{name}: depends on the size of its input", scale=max(np.abs(y).max(), 1e-30), power=e)
                        c.count("rescaled inputs")
                op = names[int(r.integers(0, len(names)))]
                if op == "coarse" and p.fw:
                    op = "rhs"
                with c.sut(op):
                    ops[op]()
                prev = op
            c.sample(problem=p.desc(), history_length=step + 1)


# ---------------------------------------------------------------------------- S11
def S11(c):
    c.rule = (
        "A case is one random problem and a random sequence of set-up and getter calls on one solver object, each item requested at random "
        "positions and repeatedly; every value returned is compared with the value a fresh solver gives when asked for only that item. "
        "Then the solver is prepared for the iterative solve from whatever state it is in, and every operator must work. "
        "Non-trivial: distinct (item, set of items requested before)."
    )
    c.assumptions = BASE
    c.require("items compared", 80)
    c.require("prepared solvers", 8)

    def val(x):
        if x is None:
            return None
        if hasattr(x, "getValuesCSR"):
            return csr(x).sorted_indices()
        if hasattr(x, "array"):
            return np.array(x.array)
        return _form_value(x)

    items = {
        "matrix": lambda st: st.get_spacetime_matrix(), "matrix()": lambda st: st.get_spacetime_matrix(precond=False),
        "precond": lambda st: st.get_spacetime_matrix(precond=True), "bfi": lambda st: st.get_spacetime_bfi(),
        "precond bfi": lambda st: st.get_spacetime_bfi(precond=True), "slab": lambda st: st.get_slab_matrix(),
        "slab bfi": lambda st: st.get_slab_bfi(), "first": lambda st: st.get_slab_matrix_first_slab(),
        "first bfi": lambda st: st.get_slab_bfi_first_slab(), "rhs": lambda st: st.get_spacetime_rhs(), "lfi": lambda st: st.get_spacetime_lfi(),
    }
    setups = {
        "setup slab jumps": lambda st: st.setup_slab_matrix(with_jumps=True), "setup slab": lambda st: st.setup_slab_matrix(with_jumps=False),
        "setup rhs": lambda st: st.setup_rhs(), "setup coupling": lambda st: st.setup_coupling_matrix_between_slices(),
        "setup mass": lambda st: st.setup_scaled_mass_matrix_between_slices(), "prepare": lambda st: st.prepare_precondition_gmres(),
        "measure": lambda st: st.measured_errors(pvec(np.linspace(0, 1, fes(st).num_dofs))),
    }
    for name, need in (("setup slab jumps", "setup_slab_matrix"), ("setup slab", "setup_slab_matrix"), ("setup rhs", "setup_rhs"),
                       ("setup coupling", "setup_coupling_matrix_between_slices"), ("setup mass", "setup_scaled_mass_matrix_between_slices")):
        if not hasattr(ST.SpaceTime, need):  # internal to the solver
            del setups[name]

    def same(a, b, what, **d):
        if a is None or b is None:
            c.ok(a is None and b is None, f"{what}: not available", got=type(a).__name__, fresh=type(b).__name__, **d)
        elif sp.issparse(a):
            top = abs(b).max()
            c.ok(a.shape == b.shape and abs(a - b).max() <= 1e-13 * top, f"{what}: other value than from a fresh solver", **d)
        else:
            c.close(a, b, 1e-13, f"{what}: other value than from a fresh solver", scale=max(np.abs(b).max(), 1e-12), **d)

    for key, p in plan(c, 10, fw=[False, True, False], cell=["interval", "interval", "triangle", "interval"], N=[1, 2, 3], q=[0, 1, 2], qs=[0, 1]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "order")
            u1, u2 = r.normal(size=p.ref.nk), r.normal(size=p.ref.nk)

            def fresh():
                st = p.solver()
                st.sample_pts_error = [0.0, p.T]
                if p.wp:
                    st.u1_0.x.array[fes_of(st.u1_0)] = u1
                    st.u2_0.x.array[fes_of(st.u2_0)] = u2
                return st

            base = {}
            with c.sut("setting up"):
                st = fresh()
            seq = [sorted(items)[int(j)] for j in r.permutation(len(items))]
            seq += [sorted(items)[int(j)] for j in r.integers(0, len(items), 5)]
            for s in sorted(setups):
                if r.random() < 0.7:
                    seq.insert(int(r.integers(0, len(seq) + 1)), s)
            seen = []
            for name in seq:
                if name in setups:
                    with c.sut(f"{name} after {seen}"):
                        setups[name](st)
                else:
                    if name not in base:
                        with c.sut(f"{name} on a fresh solver"):
                            base[name] = val(items[name](fresh()))
                        c.ok(base[name] is not None, f"{name}: None from a fresh solver")
                    with c.sut(f"{name} after {seen}"):
                        got = val(items[name](st))
                    same(got, base[name], name, after=seen[-4:])
                    c.count("items compared")
                    c.mark(name, tuple(sorted(set(seen))))
                seen.append(name)
            # cross checks between items that must agree
            for a, b in (("matrix", "matrix()"), ("matrix", "bfi"), ("precond", "precond bfi"), ("slab", "slab bfi"), ("first", "first bfi"), ("rhs", "lfi")):
                if a in base and b in base:
                    same(base[a], base[b], f"{a} and {b} disagree")
            # preparation from the present state, from a fresh one, and after a single item
            for state in ("history", "fresh", sorted(items)[int(r.integers(0, len(items)))]):
                with c.sut(f"preparing from {state}"):
                    s2 = st if state == "history" else fresh()
                    if state in items:
                        items[state](s2)
                    s2.prepare_precondition_gmres()
                    with_lu(s2)
                    x = r.normal(size=fes(s2).num_dofs)
                    y, _ = apply(s2.apply_spacetime_matrix, x)
                    z, _ = apply(s2.pre_time_marching, x)
                    zi = None if p.fw else apply(s2.pre_time_marching_improved, x)[0]
                    b = np.array(s2.get_spacetime_rhs().array)
                for name, v in (("apply", y), ("marching", z), ("improved", zi), ("rhs", b)):
                    if v is not None:
                        c.ok(np.isfinite(v).all(), f"{name} after preparing from {state}: not finite")
                if "matrix" in base and not (p.fw):
                    lim = abs(base["matrix"]) @ np.abs(x)
                    c.ok((np.abs(y - base["matrix"] @ x) <= 1e-9 * np.maximum(lim, 1e-4 * lim.max())).all(), f"operator after preparing from {state} is not the space-time matrix")
                if "rhs" in base:
                    same(b, base["rhs"], "rhs")
                c.count("prepared solvers")
            c.sample(problem=p.desc(), sequence=seq)


def _form_value(form):
    """Value of a compiled form: assembled afresh."""
    from dolfinx.fem import petsc as fp

    if len(form.function_spaces) == 2:
        A = fp.assemble_matrix(form, bcs=[])
        A.assemble()
        return csr(A).sorted_indices()
    b = fp.create_vector(form)
    fp.assemble_vector(b, form)
    return np.array(b.array)


# ---------------------------------------------------------------------------- S12
def S12(c):
    import gc

    from dxss.gmres import get_gmres_solution

    c.rule = (
        "A case is one small random problem solved by GMRES with the operator and preconditioner wrappers and exact slab solvers, and by a "
        "direct factorisation of the assembled matrix. The difference is bounded by the tolerance divided by the smallest singular value of the "
        "preconditioned matrix (computed densely from the assembled matrices). Non-trivial: distinct problem signature that needed at least two iterations."
    )
    c.assumptions = BASE
    c.require("solves", 8)
    stab = {"data": 1.0, "dual": 0.5, "primal": 0.3, "primal-jump": 2.0}
    for key, p in plan(c, 11, cell=["interval", "interval", "triangle"], N=[1, 2, 3, 4], q=[1, 2, 1], qs=[0, 1, 1], region=["half", "all", "cells", "function", "weights"],
                       k=[1, 2], ks=[1, 1, 2]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "solve")
            p.stabs = {s: v * float(10 ** r.uniform(-0.5, 0.5)) for s, v in stab.items()}
            with c.sut("setting up"):
                st = p.solver()
                if p.wp:
                    V0 = st.u1_0.function_space
                    X = V0.scalars[0].x.T
                    st.u1_0.x.array[fes_of(st.u1_0)] = p.wave.v(0.0, X)
                    st.u2_0.x.array[fes_of(st.u2_0)] = p.wave.dvdt(0.0, X)
                st.prepare_precondition_gmres()
                A = csr(st.get_spacetime_matrix())
                P = csr(st.get_spacetime_matrix(precond=True))
                b = st.get_spacetime_rhs()
                with_lu(st)
                barr = np.array(b.array)
            n = A.shape[0]
            if n > 900:
                raise_small(c)
                continue
            PA = spl.splu(P.tocsc()).solve(A.toarray())
            Pb = spl.splu(P.tocsc()).solve(barr)
            s = np.linalg.svd(PA, compute_uv=False)
            if s[-1] < 1e-9 * s[0] or np.abs(barr).max() < 1e-10:
                c.count("skipped: singular system or no data")
                continue
            tol = float(10 ** r.uniform(-10, -7))
            calls = {"A": 0, "P": 0}
            mat, pre = ST.SpaceTimePETScMatrixWrapper(st), ST.SpaceTimePETScPreconditionerWrapper(st)
            M, C = _Counting(mat, calls), _Counting(pre, calls)
            gc.collect()
            gc.disable()
            try:
                with c.sut("GMRES with the space-time operator"):
                    x, res = get_gmres_solution(M, b, pre=C, maxsteps=n + 20, reltol=tol, printrates=False)
                    x, res = np.array(x.array), np.array(res.array)
            finally:
                gc.enable()
            lu = spl.splu(A.tocsc())
            xd = lu.solve(barr)
            xd += lu.solve(barr - A @ xd)
            bound = 1.5 * max(1e-12, tol * np.linalg.norm(Pb)) / s[-1] + 1e-9 * np.linalg.norm(xd) * min(1.0, 1e-6 * s[0] / s[-1] + 1e-3)
            diff = np.linalg.norm(x - xd)
            c.ok(diff <= bound, "iterative and direct solution differ", difference=diff, bound=bound, norm=np.linalg.norm(xd), condition=s[0] / s[-1])
            c.worst["difference"] = max(c.worst.get("difference", 0), diff / bound)
            lim = (abs(A) @ np.abs(x)).max()
            c.ok(np.abs(res - (barr - A @ x)).max() <= 1e-10 * lim, "the reported residual is not that of the assembled system")
            c.ok(np.array_equal(np.array(b.array), barr), "the solve changed the right-hand side")
            c.ok(np.linalg.norm(xd) > 0, "harness: zero solution")
            c.count("solves")
            c.count("iterations", calls["A"])
            if calls["A"] > 2:
                c.mark(p.sig())
            c.sample(problem=p.desc(), unknowns=n, operator_calls=calls["A"], condition=float(s[0] / s[-1]))


def raise_small(c):
    c.count("skipped: too large for a dense oracle")


class _Counting:
    def __init__(self, inner, calls):
        self.inner, self.calls = inner, calls

    def mult(self, *a):
        self.calls["A"] += 1
        return self.inner.mult(*a)

    def apply(self, *a):
        self.calls["P"] += 1
        return self.inner.apply(*a)


# ---------------------------------------------------------------------------- S13
def S13(c):
    from dxss.precomp_time_int import d_theta_ref, theta_ref

    c.rule = (
        "A case is one random problem and one discrete solution (random, exact interpolant, perturbed interpolant, large error at the initial or final time); the four reported errors "
        "are compared with an own evaluation: nodal coefficients, a scalar mass matrix, own temporal basis and an exact Radau rule. "
        "Non-trivial: distinct (problem signature, kind of solution)."
    )
    c.assumptions = BASE + ["maximum over time means over the solver's sample points (105 equispaced ones incl. both ends)"]
    c.require("error sets compared", 20)
    for key, p in plan(c, 13, far=(17, 36), cell=["interval", "interval", "triangle", "interval", "quadrilateral", "interval"], N=[1, 2, 3, 4], q=[1, 2, 0, 3], qs=[0, 1]):
        r = c.rng(key, "sol")
        kd = max(p.k, 2)
        long_ = key.startswith(("plong", "pfar"))
        if r.random() < 0.3:
            p.T = p.T * float(r.uniform(3, 9))  # slabs longer than one
        if p.N >= 3 and (not long_ or r.random() < 0.7):  # final times which are not the end of the last slab in floating point
            if not long_:
                p.N = 6 if p.dim == 1 and p.q <= 2 else 3
            for _ in range(400):
                if (p.N - 1) * p.dt + p.dt < p.T:
                    break
                p.T = float(p.T * r.uniform(0.8, 1.25))
        exact_case = p.q >= 1 and (long_ or int(key[1:]) % 3 != 2)
        if exact_case:
            p.wave = Wave(r, p.dim, dx=min(p.k, 2), tpoly=p.q)
        with c.case(key, exact=exact_case, **p.desc()) as k:
            if not k:
                continue
            with c.sut("setting up"):
                st = p.solver()
            V = fes(st)
            full = p.N * 105 * len(p.c) > 1500
            samples = list(getattr(st, "sample_pts_error", np.linspace(0, p.T, 105)))
            c.ok(samples[0] == 0 and abs(samples[-1] - p.T) < 1e-12 * p.T and max(np.diff(samples)) <= p.T / 20, "sample points do not cover the time interval",
                 first=samples[0], last=samples[-1], n=len(samples))
            if full and c.quick:  # fewer samples for the larger problems
                samples = sorted(set([0.0, p.T] + list(r.uniform(0, p.T, 12))))
                st.sample_pts_error = samples
            # spaces of the oracle: the wave and the discrete solution both live in degree kd
            Vk, Vd = fem.FunctionSpace(p.mesh, ("CG", p.k)), fem.FunctionSpace(p.mesh, ("CG", kd))
            u, w = ufl.TrialFunction(Vd), ufl.TestFunction(Vd)
            from dolfinx.fem._form import assemble_csr
            M = assemble_csr(u * w * ufl.dx(metadata={"quadrature_degree": 2 * kd + 1}))[0].tocsr()
            X = Vd.scalars[0].x.T

            def lift(v):
                f = fem.Function(Vd)
                f.interpolate(scalar(Vk, v))
                return np.array(f.x.array[Vd.comp_dofs[0]])

            Md = M  # canonical = array order of the plain space's component
            if not np.array_equal(Vd.comp_dofs[0], np.arange(Vd.num_dofs)):
                Md = M[Vd.comp_dofs[0]][:, Vd.comp_dofs[0]]
            norm = lambda v: float(np.sqrt(max(v @ (Md @ v), 0.0)))  # noqa: E731
            comp = p.ref.comp(p.N)
            Xk = Vk.scalars[0].x.T
            kinds = ["random", "perturbed", "exact", "start", "end"]
            if key.startswith("pfar"):
                kinds = ["perturbed", "exact", "end"]
            elif int(r.integers(0, 3)) == 0 and p.N * len(p.c) <= 16 or long_:
                kinds.append("many")
            for kind in kinds:
                if kind == "many":  # more samples than usual, the decisive one late
                    samples = sorted(set(np.linspace(0, p.T, int(r.integers(106, 170)))) | {p.T})
                    st.sample_pts_error = samples
                if kind in ("start", "end"):  # an error that is largest at the initial (final) time
                    samples = sorted({0.0, 0.37 * p.dt, p.T / 2, p.T})
                    st.sample_pts_error = samples
                vec = r.normal(size=V.num_dofs)
                nodes = np.linspace(0, 1, p.q + 1) if p.q else np.array([0.5])
                for n in range(p.N):
                    for lev in range(p.q + 1):
                        if kind != "random":
                            t = (n + nodes[lev]) * p.dt
                            vec[V.comp_dofs[comp(0, n, lev)]] = p.wave.v(t, Xk) + (0 if kind == "exact" else 0.1 * r.normal(size=Xk.shape[1]))
                            vec[V.comp_dofs[comp(1, n, lev)]] = p.wave.dvdt(t, Xk)
                if kind == "start":
                    vec[V.comp_dofs[comp(0, 0, 0)]] += 20 * (1 + np.abs(vec).max())
                elif kind in ("end", "many"):
                    vec[V.comp_dofs[comp(0, p.N - 1, p.q)]] += 20 * (1 + np.abs(vec).max())
                pv = pvec(vec)
                init = np.array(st.u1_0.x.array), np.array(st.u2_0.x.array)
                said = io.StringIO()
                with c.sut("measured_errors"), contextlib.redirect_stdout(said):
                    err = st.measured_errors(pv, verbose=bool(r.random() < 0.6))
                missing = {"L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t"} - set(err)
                if not c.ok(not missing, "an error is not reported", missing=sorted(missing)):
                    return
                c.ok(np.array_equal(np.array(pv.array), vec), "measuring changed the vector")
                c.ok(np.array_equal(st.u1_0.x.array, init[0]) and np.array_equal(st.u2_0.x.array, init[1]), "measuring changed the initial data")
                U = [[lift(vec[V.comp_dofs[comp(0, n, lev)]]) for lev in range(p.q + 1)] for n in range(p.N)]
                ph = lag(p.q)

                def at(n, tau):
                    uh = sum(ph[a](tau) * U[n][a] for a in range(p.q + 1))
                    du = sum(ph[a].deriv()(tau) * U[n][a] for a in range(p.q + 1)) / p.dt
                    if n:
                        J = U[n][0] - U[n - 1][-1]
                        uh = uh - theta_ref(2 * tau - 1) * J
                        du = du - 2 / p.dt * d_theta_ref(2 * tau - 1) * J
                    return uh, du

                wt = lambda f, t: np.broadcast_to(f(t, X), (X.shape[1],))  # noqa: E731
                size = max(norm(v) for s in U for v in s) + max(norm(wt(p.wave.v, t)) for t in np.linspace(0, p.T, 7))
                rel = 1e-9
                c.close(err["L2-u1-T"], norm(U[-1][-1] - wt(p.wave.v, p.T)), rel, "final-time error: wrong", scale=size, kind=kind)
                sure, may = [], []
                for t in samples:
                    for n in range(p.N):
                        tau = t / p.dt - n
                        if -1e-9 <= tau <= 1 + 1e-9:
                            uh, du = at(n, tau)
                            e = norm(uh - wt(p.wave.v, t)), norm(du - wt(p.wave.dvdt, t))
                            may.append(e)
                            if 1e-9 < tau < 1 - 1e-9 or t == 0 or (t == p.T and n == p.N - 1):
                                sure.append(e)
                dsize = (2 + 4 * p.q**2) * 4 * size / p.dt + max(norm(wt(p.wave.dvdt, t)) for t in np.linspace(0, p.T, 7))
                # a sample on the boundary of two slabs may be missed or counted on either side by rounding
                for j, (name, sc) in enumerate((("L-infty-L2-error-u", size), ("L-infty-L2-error-ut", dsize))):
                    lo, hi = max([e[j] for e in sure], default=0.0), max(e[j] for e in may)
                    c.ok(lo - rel * sc <= err[name] <= hi + rel * sc, f"{name}: wrong", got=err[name], least=lo, most=hi, kind=kind)
                tau5, w5 = radau(5)
                tot = tot_mag = 0.0
                for n in range(p.N):
                    for ti, wi in zip(tau5, w5):
                        uh, du = at(n, ti)
                        d = wt(p.wave.dvdt, (n + ti) * p.dt)
                        tot += wi * p.dt * norm(du - d) ** 2
                        tot_mag += wi * p.dt * (norm(du) + norm(d)) ** 2
                c.ok(abs(err["L2-L2-error-u_t"] ** 2 - tot) <= 1e-4 * tot_mag ** 0.5 * tot ** 0.5 + 1e-9 * tot_mag + 1e-18, "L2-L2-error-u_t: wrong", got=err["L2-L2-error-u_t"], expected=tot**0.5, kind=kind)
                number = r"(?:np\.float64\()?([-+0-9.einfa]+)\)?\s*"
                for label, key in ((r"t = \S+, L2-error = ", "L2-u1-T"), ("L-infty-L2 error u = +", "L-infty-L2-error-u"), ("L-infty-L2 error u_t = +", "L-infty-L2-error-ut"), ("L2-L2 error u_t = +", "L2-L2-error-u_t")):
                    for line in said.getvalue().splitlines():
                        m = re.fullmatch(label + number, line)
                        if m:
                            c.ok(abs(float(m[1]) - err[key]) <= 1e-5 * abs(err[key]) + 1e-300, f"{key}: the printed value is not the returned one", printed=line, returned=float(err[key]))
                            c.count("printed values")
                for line in said.getvalue().splitlines():
                    m = re.fullmatch(f"t = {number}, L2-error u = {number}, L2-error u_t = {number}", line)
                    if m:
                        t, e, de = map(float, m.groups())
                        near = [i for i, s in enumerate(samples) if abs(s - t) <= 1e-9 * p.T]
                        fits = []
                        for n in range(p.N) if near else []:
                            tau = t / p.dt - n
                            if -1e-9 <= tau <= 1 + 1e-9:
                                uh, du = at(n, tau)
                                fits.append((norm(uh - wt(p.wave.v, t)), norm(du - wt(p.wave.dvdt, t))))
                        c.ok(any(abs(a - e) <= 1e-5 * a + rel * size and abs(b - de) <= 1e-5 * b + rel * dsize for a, b in fits), "a printed line with the errors at a time is wrong", line=line, errors=fits)
                        c.count("printed values")
                if exact_case and kind == "exact":
                    c.ok(err["L2-u1-T"] <= 1e-10 * size and err["L-infty-L2-error-u"] <= 1e-10 * size, "error of the exact solution is not zero", errors=err)
                    c.ok(err["L-infty-L2-error-ut"] <= 1e-9 * dsize and err["L2-L2-error-u_t"] <= 1e-8 * dsize, "derivative error of the exact solution is not zero", errors=err)
                    c.count("vanishing errors")
                c.count("error sets compared")
                c.mark(p.sig(), kind)
            # a solution which is not a number in some place has no error
            st.sample_pts_error = sorted({0.0, p.T, *((n + r.uniform(0.3, 0.7)) * p.dt for n in range(p.N))})
            for n, lev in {(0, 0), (p.N - 1, p.q), (int(r.integers(0, p.N)), int(r.integers(0, p.q + 1)))}:
                bad = vec.copy()
                bad[r.choice(V.comp_dofs[comp(0, n, lev)])] = np.nan
                with c.sut("measured_errors"):
                    e = st.measured_errors(pvec(bad), verbose=bool(r.random() < 0.5))
                want = {"L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t"} | ({"L2-u1-T"} if (n, lev) == (p.N - 1, p.q) else set())
                if p.q == 0 and n == p.N - 1 == 0:  # a constant has a derivative whatever it is
                    want = {"L-infty-L2-error-u", "L2-u1-T"}
                c.ok(all(np.isnan(e[a]) for a in want), "a solution which is not a number has a finite error", errors=e, expected_nan=sorted(want), slab=n, level=lev)
                c.count("errors which are not numbers")
            bad = vec.copy()
            for comp_ in (comp(1, 0, 0), comp(2, p.N - 1, 0), comp(3, p.N - 1, p.qs)):
                bad[V.comp_dofs[comp_]] = np.nan
            with c.sut("measured_errors"):
                e0, e = st.measured_errors(pvec(vec)), st.measured_errors(pvec(bad))
            c.ok(all(e[a] == e0[a] for a in e0), "the errors of the first field depend on the other fields", errors=e, without=e0)
            c.sample(problem=p.desc(), errors={a: float(b) for a, b in err.items()}, samples=len(samples))
    c.require("vanishing errors", 3)
    c.require("errors which are not numbers", 20)


# ---------------------------------------------------------------------------- S15
def prepared_before(c, r, p, st):
    """Sometimes: a coarse-grid correction with another mesh, which the next one replaces."""
    if r.random() < 0.5:
        os.environ["MINIDOLFINX_SEED"] = str(p.seed + 17)
        # the fine mesh itself, or one with as many unknowns as the coarse one but another numbering
        st.prepare_coarse_grid_correction(build_mesh(p.cell, *((p.x, p.c) if r.random() < 0.4 else p.coarse_arrays)))
        if r.random() < 0.5:
            nc = st.get_spacetime_matrix_coarse().getSize()[0]
            st.set_solver_coarse(Linear(linear_answers(r, nc)))
            if r.random() < 0.5:
                apply(st.q_op, r.normal(size=fes(st).num_dofs))
        os.environ["MINIDOLFINX_SEED"] = str(p.seed)
        c.count("corrections replaced")


class Lazy:
    """A coarse solver which is told later what to do."""

    inner = None

    def solve(self, b, x):
        self.inner.solve(b, x)


def S15(c):
    from checks.stlib import nested_problem, random_points, value_at

    c.rule = (
        "A case is one nested pair of meshes (graded intervals and rectangles with random extra nodes, refined triangles and tetrahedra) and orders. "
        "Prolonged functions are compared with the coarse ones at random points field by field and level by level, restriction of the result with the "
        "coarse vector, and single-level inputs must stay in their level. Non-trivial: distinct (problem signature)."
    )
    c.assumptions = BASE
    c.require("functions compared", 150)
    cells = ["interval", "triangle", "quadrilateral", "interval", "tetrahedron"]
    n_cases = 10 if c.quick else 80
    for i in range(n_cases):
        if i >= 10 and not c.more():
            break
        r = c.rng("t", i)
        cell = cells[i % 5]
        top = 4 if cell == "interval" else 3
        p = nested_problem(r, cell=cell, N=slabs(r, cell), q=int(r.integers(0, 3)), qs=int(r.integers(0, 3)),
                           k=int(r.integers(1, top)) if cell != "tetrahedron" else 1, ks=int(r.integers(1, top)) if cell != "tetrahedron" else 2,
                           region="cells", fw=False, wp=bool(i % 2))
        with c.case(f"t{i}", **p.desc()) as k:
            if not k:
                continue
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
                prepared_before(c, r, p, st)
                st.prepare_coarse_grid_correction(p.coarse_mesh)
            V = fes(st)
            Ac = st.get_spacetime_matrix_coarse()
            Vc = fes_coarse(st)
            nc, nf = Ac.getSize()[0], V.num_dofs
            comp = p.ref.comp(p.N)
            want = [fem.FunctionSpace(p.coarse_mesh, ("CG", kk)).num_dofs for kk in (p.k, p.ks)]
            want = 2 * p.N * ((p.q + 1) * want[0] + (p.qs + 1) * want[1])
            if not c.ok(nc == want == Vc.num_dofs, "the coarse space is not that of the given mesh", got=(nc, Vc.num_dofs), expected=want):
                continue
            xc, cc = p.coarse_arrays
            pts = random_points(r, xc, cc, 12)
            for rep in range(2):
                vc = r.normal(size=nc) * 10.0 ** (r.uniform(-3, 3) if rep == 0 else r.uniform(-20, 20))
                a, b = pvec(vc), pvec(r.normal(size=nf))
                with c.sut("prolongation"):
                    st.prolongation(a, b)
                vf = np.array(b.array)
                c.ok(np.array_equal(np.array(a.array), vc), "prolongation modified its input")
                back = pvec(np.full(nc, np.nan))
                with c.sut("restriction"):
                    st.restriction(back, b)
                c.ok(np.array_equal(np.array(b.array), vf), "restriction modified its input")
                c.close(np.array(back.array), vc, 1e-9, "restriction does not recover the coarse function")
                for f in range(4):
                    kf = p.k if f < 2 else p.ks
                    for n in range(p.N):
                        for lev in range((p.q if f < 2 else p.qs) + 1):
                            j = comp(f, n, lev)
                            one = value_at(p.coarse_mesh, kf, vc[Vc.comp_dofs[j]], pts)
                            two = value_at(p.mesh, kf, vf[V.comp_dofs[j]], pts)
                            c.close(two, one, 1e-9, "prolongation: not the same function", scale=np.abs(vc).max(), field=f, slab=n, level=lev)
                            c.count("functions compared")
            # one level of one field only
            f = int(r.integers(0, 4))
            j = comp(f, int(r.integers(0, p.N)), int(r.integers(0, (p.q if f < 2 else p.qs) + 1)))
            vc = np.zeros(nc)
            vc[Vc.comp_dofs[j]] = 1.0 + r.random(len(Vc.comp_dofs[j]))
            b = pvec(np.full(nf, 5.0))
            with c.sut("prolongation"):
                st.prolongation(pvec(vc), b)
            out = np.array(b.array)
            mine = np.zeros(nf, bool)
            mine[V.comp_dofs[j]] = True
            c.ok((out[~mine] == 0).all() and (np.abs(out[mine]) > 0.1).any(), "prolongation mixes fields or levels", leaked=int((out[~mine] != 0).sum()))
            # restriction of arbitrary fine functions: nodal values of the coarse mesh
            vf = r.normal(size=nf) * 10.0 ** r.uniform(-20, 20)
            back = pvec(np.full(nc, 3.0))
            with c.sut("restriction"):
                st.restriction(back, pvec(vf))
            got = np.array(back.array)
            for f in range(4):
                kf = p.k if f < 2 else p.ks
                j = comp(f, p.N - 1, 0)
                want = value_at(p.mesh, kf, vf[V.comp_dofs[j]], np.asarray(Vc.scalars[j].x))
                c.close(got[Vc.comp_dofs[j]], want, 1e-8, "restriction: not the nodal values", scale=np.abs(vf).max(), field=f)
                c.count("functions compared")
            c.mark(p.sig())
            c.sample(problem=p.desc(), coarse_unknowns=nc, fine_unknowns=nf)


# ---------------------------------------------------------------------------- S16
def S16(c):
    from checks.stlib import nested_problem

    c.rule = (
        "A case is one nested pair of meshes, a random problem and a monitored coarse solver (scripted answers, then exact). The coarse matrix is compared "
        "entrywise with the reference on the coarse mesh; each application of the two-level preconditioner (after a random history of other operations) is compared with the formula evaluated "
        "from separately obtained parts. Non-trivial: distinct (problem signature, coarse solver)."
    )
    c.assumptions = BASE
    c.require("two-level applications", 20)
    c.require("coarse matrices", 8)
    cells = ["interval", "triangle", "interval", "quadrilateral", "interval"]
    n_cases = 11 if c.quick else 80
    for i in range(n_cases):
        if i >= 11 and not c.more():
            break
        r = c.rng("two", i)
        cell = cells[i % 5]
        N = slabs(r, cell)
        p = nested_problem(r, cell=cell, N=N, q=int(r.integers(0, 3)), qs=int(r.integers(0, 2)), k=int(r.integers(1, 3)), ks=int(r.integers(1, 3)),
                           region=["cells", "poly", "weights", "function"][i % 4], fw=(N == 1 and i % 2 == 0), wp=i % 3 == 1 and N > 1)
        with c.case(f"two{i}", **p.desc()) as k:
            if not k:
                continue
            lazy = Lazy() if i % 2 else None
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
                prepared_before(c, r, p, st)
                if lazy:  # registered before the correction is prepared
                    st.set_solver_coarse(lazy)
                st.prepare_coarse_grid_correction(p.coarse_mesh)
                Ac, Vc = st.get_spacetime_matrix_coarse(), fes_coarse(st)
                A = csr(st.get_spacetime_matrix())
            Rc = Reference(p, mesh=p.coarse_mesh)
            compare_matrix(c, Ac, Rc.spacetime(), Rc.canon(Vc), 1e-9, "coarse matrix")
            compare_matrix(c, A, p.ref.spacetime(), p.ref.canon(fes(st)), 1e-9, "fine matrix after the coarse preparation")
            c.count("coarse matrices")
            nf, nc, size = fes(st).num_dofs, Vc.num_dofs, fes_slab(st).num_dofs
            with_linear(st, r, size)
            for solver in ("scripted", "linear", "exact"):
                log = []
                if solver == "scripted":
                    ans = r.normal(size=nc)
                    use = Scripted(log, "coarse", lambda i_, got: ans)  # noqa: B023
                elif solver == "linear":
                    use = Linear(linear_answers(r, nc), log, "coarse")
                else:
                    try:
                        use = LU(Ac, log, "coarse")
                    except RuntimeError:
                        continue
                if lazy:
                    lazy.inner = use
                else:
                    st.set_solver_coarse(use)
                b = r.normal(size=nf)
                for what in r.choice(5, int(r.integers(0, 4)), replace=False):  # what went on before does not matter
                    with c.sut("operations before"):
                        if what == 0:
                            st.get_spacetime_matrix(precond=True)
                        elif what == 1:
                            st.get_spacetime_rhs()
                        elif what == 2:
                            st.measured_errors(pvec(r.normal(size=nf)), verbose=False)
                        elif what == 3:
                            apply(st.pre_time_marching, r.normal(size=nf))
                        else:
                            apply(st.q_op, r.normal(size=nf), np.full(nf, np.nan))
                    c.count("operations before")
                restricted = pvec(np.zeros(nc))
                with c.sut("restriction"):
                    st.restriction(restricted, pvec(b))
                restricted = np.array(restricted.array)
                log.clear()
                with c.sut("pre_twolvl"):
                    x, bin_ = apply(st.pre_twolvl, b, np.full(nf, np.nan))
                c.ok(np.array_equal(bin_, b), "the two-level preconditioner modified its input")
                if not c.ok(len(log) == 1, "number of coarse solves", got=len(log)):
                    continue
                c.close(log[0][1], restricted, 1e-12, "the coarse solver did not receive the restricted input")
                pro = pvec(np.zeros(nf))
                with c.sut("prolongation"):
                    st.prolongation(pvec(log[0][2]), pro)
                Qb = np.array(pro.array)
                with c.sut("q_op"):
                    q2, _ = apply(st.q_op, b, np.full(nf, np.nan))
                c.close(q2, Qb, 1e-9 if solver != "exact" else 1e-6, "coarse correction: not prolongation of the coarse solution")
                resid = b - A @ Qb
                with c.sut("pre_time_marching"):
                    m, _ = apply(st.pre_time_marching, resid)
                scale = max(np.abs(Qb).max(), np.abs(m).max(), (abs(A) @ np.abs(Qb)).max() if solver == "exact" else 0)
                c.close(x, Qb + m, 1e-10, "two-level preconditioner: not coarse correction plus time marching of its residual", scale=scale, solver=solver)
                c.count("two-level applications")
                c.mark(p.sig(), solver)
            c.sample(problem=p.desc(), coarse=nc, fine=nf)


# ---------------------------------------------------------------------------- S14
class Standing(Wave):
    """Standing waves of the unit interval (square): genuine solutions with zero boundary values."""

    def __init__(self, r, dim, modes=(1,)):
        self.dim = dim
        self.parts = [(m, r.uniform(0.5, 1.5) * (1 if m == 1 else 0.2), r.uniform(0, 2 * np.pi)) for m in modes]

    def _s(self, m, x):
        sin = np.sin if isinstance(x, np.ndarray) else ufl.sin
        out = sin(m * np.pi * x[0])
        for d in range(1, self.dim):
            out = out * sin(m * np.pi * x[d])
        return out

    def _w(self, m):
        return m * np.pi * np.sqrt(self.dim)

    def v(self, t, x):
        return sum(float(a * np.cos(self._w(m) * t + f)) * self._s(m, x) for m, a, f in self.parts)

    def dvdt(self, t, x):
        return sum(float(-self._w(m) * a * np.sin(self._w(m) * t + f)) * self._s(m, x) for m, a, f in self.parts)


def _solve_wave(c, r, wave, order, n, T, zones, mode, cell="interval", seed=1, N=None):
    q, qs, k, ks = order
    x, cc = mesh_arrays(r, cell, n, False)
    os.environ["MINIDOLFINX_SEED"] = str(seed)
    msh = build_mesh(cell, x, cc)

    def omega(x):
        if mode == "well-posed":
            return 0.0 * x[0]
        return sum(((x[0] > a) & (x[0] < b)).astype(float) for a, b in zones)

    with c.sut("solving a wave problem"):
        st = ST.SpaceTime(
            ST.OrderTime(q, qs), ST.OrderSpace(k, ks), N or n, T, 0.0, msh, {"data": 1e4, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0},
            ST.DataDomain(omega, True), wave.arg(), ST.ProblemParameters(mode == "fw-jumps", mode == "well-posed"))
        st.setup_spacetime_finite_elements()
        if mode == "well-posed":
            X = st.u1_0.function_space.scalars[0].x.T
            st.u1_0.x.array[fes_of(st.u1_0)] = wave.v(0.0, X)
            st.u2_0.x.array[fes_of(st.u2_0)] = wave.dvdt(0.0, X)
        A, V = csr(st.get_spacetime_matrix()), fes(st)
        b = np.array(st.get_spacetime_rhs().array)
    u = spl.splu(A.tocsc()).solve(b)
    # own error evaluation at slab ends
    Vk = fem.FunctionSpace(msh, ("CG", k))
    X = ufl.SpatialCoordinate(msh)
    N = N or n
    dx = ufl.Measure("dx", domain=msh, metadata={"quadrature_degree": 2 * k + 6})
    errs, scale = [], 0.0
    for s in [N - 1] + list(range(0, N - 1, max(1, N // 4))):
        f = scalar(Vk, u[V.comp_dofs[s * (q + 1) + q]])
        ue = wave.v((s + 1) * T / N, X)
        errs.append(np.sqrt(fem.assemble_scalar(fem.form((f - ue) ** 2 * dx))))
        scale = max(scale, np.sqrt(fem.assemble_scalar(fem.form(ue**2 * dx))))
    if q == 0:
        return errs[0] / scale, max(errs) / scale, A.shape[0]
    # second field at the final time: the velocity
    f = scalar(Vk, u[V.comp_dofs[N * (q + 1) + (N - 1) * (q + 1) + q]])
    return errs[0] / scale, max(errs) / scale, A.shape[0]


def S14(c):
    c.rule = (
        "A case is one standing wave (random amplitude and phase), data region and problem type, solved directly on meshes with mesh size and time "
        "step halved twice, for several orders; errors are evaluated by the check itself. A case holds if the final-time error falls at "
        "first order or better and higher orders are better. Non-trivial: distinct (orders, mode)."
    )
    c.assumptions = BASE + ["finite sample of problems on an interval (and a square in the thorough tier), three mesh levels"]
    c.require("refinements", 6)
    cases = [
        ("data", (1, 0, 1, 1), (4, 8, 16)), ("data", (1, 1, 1, 1), (4, 8, 16)), ("data", (2, 0, 2, 1), (4, 8)), ("data", (2, 2, 2, 2), (4, 8)),
        ("well-posed", (1, 0, 1, 1), (4, 8, 16)), ("well-posed", (2, 0, 2, 1), (4, 8)), ("fw-jumps", (1, 1, 1, 1), (4, 8, 16)),
        ("one-sided", (1, 0, 1, 1), (4, 8, 16)),
    ]
    rounds = 1 if c.quick else 12
    for rd in range(rounds):
        if rd and not c.more():
            break
        errs = {}
        r0 = c.rng("wave", rd)
        wave = Standing(r0, 1)
        todo = list(cases)
        if not c.quick:
            todo += [("data", (3, 3, 3, 3), (4, 8)), ("data", (2, 1, 2, 2), (4, 8, 16)), ("data", (3, 0, 3, 1), (4, 8))]
        for mode, order, levels in todo:
            with c.case(f"w{rd}-{mode}-{''.join(map(str, order))}", mode=mode, order=order, levels=levels, phase=wave.parts[0][2]) as k:
                if not k:
                    continue
                zones = {"one-sided": [(0, 0.25)]}.get(mode, [(0, 0.25), (0.75, 1)])
                T = 3.0 if mode == "one-sided" else 2.0
                e = []
                for n in levels:
                    e.append(_solve_wave(c, r0, wave, order, n, T, zones, mode, seed=rd + 1)[:2])
                errs[mode, order] = e
                drop = e[0][0] / e[-1][0]
                dropm = e[0][1] / e[-1][1]
                steps = len(levels) - 1
                c.worst["first order"] = max(c.worst.get("first order", 0), 2.0**steps / dropm)
                c.ok(all(np.isfinite(v) for a in e for v in a), "the solve gave non-finite values")
                c.ok(dropm >= 1.7**steps, "the error does not decrease at first order", final=[v[0] for v in e], worst=[v[1] for v in e])
                c.ok(e[-1][0] <= 0.2, "the discrete solution is not near the wave", final=[v[0] for v in e])
                c.count("refinements", steps)
                c.mark(mode, order)
                c.sample(limit=12, mode=mode, order=order, final=[v[0] for v in e], worst=[v[1] for v in e], drop=drop)
        with c.case(f"w{rd}-orders") as k:
            if k and ("data", (1, 1, 1, 1)) in errs and ("data", (2, 2, 2, 2)) in errs:
                lo, hi = errs["data", (1, 1, 1, 1)], errs["data", (2, 2, 2, 2)]
                for a, b in zip(lo, hi):
                    c.ok(b[1] <= 0.6 * a[1], "higher order does not improve the error", low=a, high=b)
                if ("data", (3, 3, 3, 3)) in errs:
                    for a, b in zip(hi, errs["data", (3, 3, 3, 3)]):
                        c.ok(b[1] <= 0.6 * a[1], "third order does not improve on second", low=a, high=b)


# ---------------------------------------------------------------------------- S17
def _spy(calls):
    from matplotlib.axes import Axes

    plain = Axes.pcolormesh

    def pcolormesh(self, *args, **kw):
        out = plain(self, *args, **kw)
        if self.get_label() == "<colorbar>":
            return out
        if len(args) >= 3:
            calls.append((np.asarray(args[0], float), np.asarray(args[1], float), np.array(args[2], float)))
        else:
            calls.append((None, None, np.array(args[0], float)))
        return out

    return Axes, plain, pcolormesh


def S17(c):
    import contextlib
    import xml.etree.ElementTree as ET

    import h5py
    import matplotlib.pyplot as plt

    from checks.stlib import value_at

    c.rule = (
        "A case is one random one-dimensional problem and discrete solution for the plots (any dimension for the export). A spy on pcolormesh "
        "records what is drawn: coordinates must cover the unit interval and the time interval, and each drawn field must be the value, absolute value, "
        "time derivative or error at its own coordinates. Exported files are parsed and compared vertex by vertex. Non-trivial: distinct (problem, output kind)."
    )
    c.assumptions = BASE
    c.require("drawn fields", 20)
    c.require("exported fields", 12)

    @contextlib.contextmanager
    def spying(calls):
        Axes, plain, new = _spy(calls)
        Axes.pcolormesh = new
        try:
            yield
        finally:
            Axes.pcolormesh = plain
            plt.close("all")

    plans = plan(c, 8, cell=["interval"], N=[1, 2, 3, 5], q=[0, 1, 2, 3], region=["half", "poly", "all"], fw=[False, True], n=[3, 4, 6], name="plot", scale=[False])
    for key, p in plans:
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "u")
            with c.sut("setting up"):
                st = p.solver()
            V, comp = fes(st), p.ref.comp(p.N)
            vec = r.normal(size=V.num_dofs) * float(10 ** r.uniform(-1, 1)) + (2.0 if r.random() < 0.3 else 0.0)
            ns, nt = int(r.integers(2, 30)), int(r.integers(1, 12)) if r.random() < 0.7 else 1
            ph = lag(p.q)

            def fields(Xp, Tp, C):
                """value and derivative at the drawn coordinates; rows belong to slabs from below."""
                pts = np.zeros((len(Xp), 3))
                pts[:, 0] = Xp
                val = [[value_at(p.mesh, p.k, vec[V.comp_dofs[comp(0, n, lev)]], pts) for lev in range(p.q + 1)] for n in range(p.N)]
                u, du = np.zeros(C.shape), np.zeros(C.shape)
                for i, t in enumerate(Tp):
                    n = int(np.clip(np.floor(t / p.dt + 1e-9), 0, p.N - 1))
                    tau = t / p.dt - n
                    u[i] = sum(ph[a](tau) * val[n][a] for a in range(p.q + 1))
                    du[i] = sum(ph[a].deriv()(tau) * val[n][a] for a in range(p.q + 1)) / p.dt
                return u, du

            jobs = [("plot", {}), ("plot", {"abs_val": True}), ("plot_error", {})]
            for name, kw in jobs:
                calls, pv = [], pvec(vec)
                with spying(calls), c.sut(name):
                    getattr(st, name)(pv, n_space=ns, n_time_subdiv=nt, **kw)
                c.ok(np.array_equal(np.array(pv.array), vec), f"{name} changed the vector")
                if not calls:
                    raise_no_plot(c)
                    continue
                found = set()
                for Xp, Tp, C in calls:
                    if not c.ok(Xp is not None and C.shape == (len(Tp), len(Xp)), f"{name}: field and coordinates do not match"):
                        continue
                    Xp, Tp = Xp.ravel(), Tp.ravel()
                    c.ok(len(Xp) == ns and len(Tp) == nt * p.N, f"{name}: number of points", got=(len(Xp), len(Tp)), expected=(ns, nt * p.N))
                    c.close(Xp, np.linspace(0, 1, ns), 1e-12, f"{name}: spatial coordinates", scale=1.0)
                    c.close(Tp, (np.arange(p.N)[:, None] + np.linspace(0, 1, nt, endpoint=False)[None]).ravel() * p.dt, 1e-12, f"{name}: times", scale=p.T)
                    u, du = fields(Xp, Tp, C)
                    ue = np.array([np.broadcast_to(p.wave.v(t, [Xp]), Xp.shape) for t in Tp])
                    due = np.array([np.broadcast_to(p.wave.dvdt(t, [Xp]), Xp.shape) for t in Tp])
                    if name == "plot":
                        what = {"value": np.abs(u) if kw else u, "derivative": np.abs(du) if kw else du}
                    else:
                        what = {"derivative": du, "error": np.abs(u - ue), "derivative error": np.abs(du - due)}
                    # rows of several slabs may fall on a slab's start by rounding only: tau = 0 rows are exact multiples
                    hit = [w for w, F in what.items() if np.abs(F - C).max() <= 1e-8 * max(np.abs(F).max(), np.abs(u).max(), 1e-12)]
                    best = min(what, key=lambda w: np.abs(what[w] - C).max())
                    c.ok(bool(hit), f"{name}: a drawn field is none of {sorted(what)}", closest=best, difference=float(np.abs(what[best] - C).max()),
                         rows=np.flatnonzero(np.abs(what[best] - C).max(axis=1) > 1e-8)[:8], abs_val=bool(kw))
                    found |= set(hit)
                    c.count("drawn fields")
                need = {"value", "derivative"} if name == "plot" else {"error", "derivative error"}
                c.ok(need <= found, f"{name}: not drawn: {sorted(need - found)}")
                c.mark(p.sig(), name, bool(kw))
            c.sample(problem=p.desc(), n_space=ns, n_time_subdiv=nt)

    for key, p in plan(c, 8, name="export", q=[0, 1, 2, 3], N=[1, 2, 3], region=["half", "poly", "all"], fw=[False, True]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "u")
            with c.sut("setting up"):
                st = p.solver()
            V, comp = fes(st), p.ref.comp(p.N)
            vec = r.normal(size=V.num_dofs)
            pv = pvec(vec)
            init = np.array(st.u1_0.x.array)
            # names are the user's: with dots, blanks, in folders
            base = key + ["", ".v2", "_N=3 q=1", "-u", ".xdmf"][int(r.integers(0, 5))]
            folder = ["", "", "results", "results/run.1", os.path.abspath("elsewhere")][int(r.integers(0, 5))]
            os.makedirs(folder or ".", exist_ok=True)
            name = os.path.join(folder, base)
            before = {os.path.join(a, b) for a, _, bs in os.walk(".") for b in bs}
            with c.sut("plot_para_view"):
                st.plot_para_view(pv, name=name)
            new = {os.path.normpath(os.path.join(a, b)) for a, _, bs in os.walk(".") for b in bs} - {os.path.normpath(b) for b in before}
            c.ok(all(os.path.dirname(os.path.abspath(b)) == os.path.abspath(folder or ".") and os.path.basename(b).startswith(base) for b in new), "files written under another name", name=name, files=sorted(new))
            c.ok(np.array_equal(np.array(pv.array), vec), "exporting changed the vector")
            c.ok(np.array_equal(np.array(st.u1_0.x.array), init), "exporting changed the initial data")
            for f, suffix, fun in ((0, "u", p.wave.v), (1, "ut", p.wave.dvdt)):
                path = f"{name}-{suffix}.xdmf"
                if not c.ok(os.path.exists(path), f"no file {path}", files=sorted(new)):
                    continue
                root = ET.parse(path).getroot()

                def data(item):
                    fn, ds = item.text.strip().split(":")
                    with h5py.File(os.path.join(folder, fn), "r") as h:
                        return np.array(h[ds])

                geo = [data(g.find("DataItem")) for g in root.iter("Geometry") if g.find("DataItem") is not None]
                topo = [data(g.find("DataItem")) for g in root.iter("Topology") if g.find("DataItem") is not None]
                att = [a for a in root.iter("Attribute")]
                if not c.ok(bool(geo) and bool(topo) and len(att) == 1, f"{path}: mesh and one field", geometry=len(geo), topology=len(topo), fields=len(att)):
                    continue
                X = np.zeros((len(geo[0]), 3))
                X[:, : geo[0].shape[1]] = geo[0]
                vals = data(att[0].find("DataItem")).ravel()
                c.ok(suffix + "-" in (att[0].get("Name") or "") and (att[0].get("Name") or "").startswith(suffix), f"{path}: name of the field", name=att[0].get("Name"))
                # the mesh: same cells by midpoints
                mids = np.sort(X[topo[0]][:, :, : p.dim].mean(axis=1).round(9), axis=0)
                c.close(mids, np.sort(p.x[p.c].mean(axis=1).round(9), axis=0), 1e-6, f"{path}: not the mesh of the problem", scale=1.0)
                u = value_at(p.mesh, p.k, vec[V.comp_dofs[comp(f, p.N - 1, p.q)]], X)
                ue = np.broadcast_to(fun(p.T, X.T), u.shape)
                # values at the vertices of the interpolated exact solution are exact
                c.close(vals, np.abs(u - ue), 1e-8, f"{path}: not the absolute error at the final time", scale=max(np.abs(u).max(), np.abs(ue).max()))
                c.count("exported fields")
                c.mark(p.sig(), path.split("-")[-1])


def raise_no_plot(c):
    from vlib.core import Inconclusive

    raise Inconclusive("no drawing was observed through pcolormesh")


# ---------------------------------------------------------------------------- S18
class Mapped(Wave):
    """The same wave in transformed coordinates."""

    def __init__(self, wave, back):
        self.w, self.back = wave, back

    def v(self, t, x):
        return self.w.v(t, self.back(x))

    def dvdt(self, t, x):
        return self.w.dvdt(t, self.back(x))


def _match(V, W, g):
    """Permutation p with (dof i of V at x) <-> (dof p[i] of W at g(x)), component by component."""
    from scipy.spatial import cKDTree

    out = np.empty(V.num_dofs, int)
    for c_ in range(len(V.comp_dofs)):
        a, b = np.asarray(V.scalars[c_].x), np.asarray(W.scalars[c_].x)
        d, idx = cKDTree(b).query(g(a))
        assert d.max() < 1e-9 and len(set(idx)) == len(b)
        out[V.comp_dofs[c_]] = W.comp_dofs[c_][idx]
    return out


def S18(c):
    c.rule = (
        "A case is one random problem, solved as given and (a) with other numberings, (b) with cells and vertices permuted, (c) reflected or swapped axes, "
        "(d) with more slabs of the same length. Matrices and right-hand sides must agree after matching unknowns by coordinates, solutions by "
        "backward error, reported errors directly; blocks of later slabs must equal those of earlier ones. Non-trivial: distinct (problem, transformation)."
    )
    c.assumptions = BASE
    c.require("transformed problems", 20)
    c.require("blocks compared", 12)

    def assembled(q, **o):
        with c.sut("assembling"):
            st = q.solver(**o)
            st.sample_pts_error = [0.0, 0.31 * q.T, 0.77 * q.T, q.T]
            if q.wp:
                X = np.zeros((3, 1))
                X = st.u1_0.function_space.scalars[0].x.T
                st.u1_0.x.array[fes_of(st.u1_0)] = np.broadcast_to(q.wave.v(0.0, X), X.shape[1:])
                st.u2_0.x.array[fes_of(st.u2_0)] = np.broadcast_to(q.wave.dvdt(0.0, X), X.shape[1:])
            return st, csr(st.get_spacetime_matrix()), np.array(st.get_spacetime_rhs().array)

    for key, p in plan(c, 9, fw=[False, True, False], N=[2, 3, 4, 1], q=[0, 1, 2], qs=[0, 1, 2], region=["cells", "weights", "half", "all"],
                       cell=["interval", "triangle", "interval", "quadrilateral", "interval"]):
        with c.case(key, **p.desc()) as k:
            if not k:
                continue
            r = c.rng(key, "maps")
            st, A, b = assembled(p)
            V = fes(st)
            vec = r.normal(size=V.num_dofs)
            with c.sut("measured_errors"):
                err = st.measured_errors(pvec(vec))
            lu = None
            with contextlib_suppress():
                lu = spl.splu(A.tocsc())
            sol = lu.solve(b) if lu is not None else None
            back_err = np.abs(A @ sol - b).max() if sol is not None else 0
            hi = p.x.max(axis=0)

            def mirror(X):
                Y = np.array(X, float)
                Y[..., 0] = hi[0] - Y[..., 0]
                return Y

            trans = [("renumbered", lambda X: np.array(X, float), None), ("permuted", lambda X: np.array(X, float), "perm"), ("mirrored", mirror, "perm")]
            if p.dim == 2:
                trans.append(("axes swapped", lambda X: np.array(X, float)[..., [1, 0] + list(range(2, X.shape[-1]))], None))
            for name, g, how in trans:
                q = copy.copy(p)
                q._mesh = q._ref = None
                q.seed = int(r.integers(1, 10000))
                q.x, q.c = g(p.x), p.c
                if how == "perm":
                    pv, pc = r.permutation(len(p.x)), r.permutation(len(p.c))
                    inv = np.argsort(pv)
                    q.x, q.c = q.x[pv], inv[p.c][pc]
                q.region = _TransRegion(p.region, g)
                if name == "mirrored":
                    q.wave = Mapped(p.wave, lambda x: [hi[0] - x[0]] + [x[i] for i in range(1, p.dim)])
                elif name == "axes swapped":
                    q.wave = Mapped(p.wave, lambda x: [x[1], x[0]])
                st2, A2, b2 = assembled(q)
                P = _match(V, fes(st2), g)
                top = abs(A).max()
                B = A2[P][:, P]
                lim = abs(A - B).max()
                c.ok(lim <= 1e-11 * top, f"{name}: the matrix changes", worst=lim, scale=top)
                c.close(b2[P], b, 1e-11, f"{name}: the right-hand side changes", scale=max(np.abs(b).max(), 1e-9))
                v2 = np.empty(len(vec))
                v2[P] = vec
                with c.sut("measured_errors"):
                    err2 = st2.measured_errors(pvec(v2))
                for e in err:
                    c.close([err2[e]], [err[e]], 1e-9, f"{name}: reported error {e} changes", scale=max(abs(x_) for x_ in err.values()))
                if sol is not None:
                    with contextlib_suppress():
                        s2 = spl.splu(A2.tocsc()).solve(b2)
                        res = np.abs(A @ s2[P] - b).max()
                        c.ok(res <= 1e-8 * max((abs(A) @ np.abs(sol)).max(), np.abs(b).max(), 1e-9) + 1e3 * back_err, f"{name}: the discrete solution changes", residual=res)
                c.count("transformed problems")
                c.mark(p.sig(), name)
            # more slabs of the same length: the same blocks at every slab
            M = p.N + int(r.integers(1, 3))
            q = copy.copy(p)
            q._ref, q.N, q.T = None, M, p.dt * M
            stM, AM, bM = assembled(q)
            comp, VM = q.ref.comp(M), fes(stM)

            def block(n, m):
                rows = np.concatenate([VM.comp_dofs[comp(f, n, lev)] for f in range(4) for lev in range((p.q if f < 2 else p.qs) + 1)])
                cols = np.concatenate([VM.comp_dofs[comp(f, m, lev)] for f in range(4) for lev in range((p.q if f < 2 else p.qs) + 1)])
                return AM[rows][:, cols]

            top = abs(AM).max()
            for n in range(1, M):
                for d in (-2, -1, 1, 2):
                    if 0 <= n + d < M:
                        B = block(n, n + d)
                        if abs(d) == 2:
                            c.ok(B.nnz == 0 or abs(B).max() <= 1e-14 * top, "slabs that do not touch are coupled", slab=n, other=n + d)
                        else:
                            ref = block(1, 0) if d == -1 else block(0, 1)
                            c.ok(abs(B - ref).max() <= 1e-12 * top, "the coupling of slabs changes with time", slab=n, other=n + d)
                        c.count("blocks compared")
                if 1 < n < M - 1:
                    c.ok(abs(block(n, n) - block(1, 1)).max() <= 1e-12 * top, "the slab matrix changes with time", slab=n)
                    c.count("blocks compared")
            # shared slabs of the short and the long problem
            short, long_ = p.ref.comp(p.N), comp

            def part(mat, W, cmp, n, m):
                rows = np.concatenate([W.comp_dofs[cmp(f, n, lev)] for f in range(4) for lev in range((p.q if f < 2 else p.qs) + 1)])
                cols = np.concatenate([W.comp_dofs[cmp(f, m, lev)] for f in range(4) for lev in range((p.q if f < 2 else p.qs) + 1)])
                return mat[rows][:, cols]

            for n in range(p.N):
                for m in range(max(0, n - 1), min(p.N, n + 2)):
                    if n == m == p.N - 1:  # the last slab is not coupled to a following one
                        continue
                    d = abs(part(A, V, short, n, m) - part(AM, VM, long_, n, m)).max()
                    c.ok(d <= 1e-12 * top, "the matrix of a slab or the coupling of slabs depends on the number of slabs", slab=n, other=m, difference=d, scale=top)
                    c.count("blocks compared")
            with c.sut("slab matrices"):
                pairs = [(csr(a.get_slab_matrix()), csr(b_.get_slab_matrix())) for a, b_ in [(st, stM)]]
                pairs += [(csr(st.get_slab_matrix_first_slab()), csr(stM.get_slab_matrix_first_slab()))]
            for a, b_ in pairs:
                c.ok(abs(a - b_).max() <= 1e-12 * abs(a).max(), "a slab matrix depends on the number of slabs")
                c.count("blocks compared")
            for n in range(p.N):
                for f in range(2):
                    for lev in range(p.q + 1):
                        c.close(bM[VM.comp_dofs[long_(f, n, lev)]], b[V.comp_dofs[short(f, n, lev)]], 1e-11, "right-hand side of a slab depends on the number of slabs",
                                scale=max(np.abs(bM).max(), 1e-9), slab=n)
            c.mark(p.sig(), "more slabs")
            c.sample(problem=p.desc(), slabs=M)


# ---------------------------------------------------------------------------- S19
def _member(p, share, out, order, probe):
    """Generator: builds one solver step by step from (possibly shared) argument objects and records what it produces."""
    args = p.args()
    if not (p.fw or p.wp) and probe["default"]:
        del args["parameters"]
    if share is not None:
        ids = {"polynomial_order_time": (p.q, p.qs), "polynomial_order_space": (p.k, p.ks), "stabilisation_terms": tuple(sorted(p.stabs.items())),
               "omega": (id(p.region), id(p.mesh) if p.region.kind in ("poly", "function", "function-unfitted") else None), "solution": id(p.wave), "parameters": (p.fw, p.wp)}
        for name, key in ids.items():
            if name in args:
                args[name] = share.setdefault((name, key), args[name])
                if name in ("omega", "solution"):
                    share.setdefault((name + " as made", key), dict(vars(args[name])))
    os.environ["MINIDOLFINX_SEED"] = str(p.seed)
    st = ST.SpaceTime(**args)
    st.sample_pts_error = [0.0, 0.31 * p.T, p.T]
    yield "constructed"
    os.environ["MINIDOLFINX_SEED"] = str(p.seed)
    st.setup_spacetime_finite_elements()
    V, W = fes(st), fes_slab(st)
    r = np.random.default_rng(probe["seed"])
    b = r.normal(size=V.num_dofs)
    if p.wp:
        st.u1_0.x.array[:] = r.normal(size=len(st.u1_0.x.array))
        st.u2_0.x.array[:] = r.normal(size=len(st.u2_0.x.array))
    yield "spaces"
    prepared = False
    for op in order:
        if op in ("apply", "tm", "improved") and not prepared:
            st.prepare_precondition_gmres()
            with_linear(st, np.random.default_rng(probe["seed"]), W.num_dofs)
            prepared = True
            yield "prepared"
        if op == "matrix":
            out[op] = csr(st.get_spacetime_matrix())
        elif op == "slab":
            out[op] = csr(st.get_slab_matrix())
        elif op == "first":
            out[op] = csr(st.get_slab_matrix_first_slab())
        elif op == "rhs":
            out[op] = np.array(st.get_spacetime_rhs().array)
        elif op == "apply":
            out[op] = apply(st.apply_spacetime_matrix, b)[0]
        elif op == "tm":
            out[op] = apply(st.pre_time_marching, b)[0]
        elif op == "improved":
            out[op] = apply(st.pre_time_marching_improved, b)[0] if not p.fw else np.zeros(1)
        elif op == "errors":
            e = st.measured_errors(pvec(b))
            out[op] = np.array([e[k] for k in sorted(e)])
        yield op
    out["perm"], out["perm slab"] = p.ref.canon(V), p.ref.canon(W)


def S19(c):
    c.rule = (
        "A case is a family of three or four solvers that differ in some of orders, slabs, final time, region, mesh, stabilisation and problem "
        "parameters and share the argument objects they have in common. Their construction, set-up, assembly, operator and preconditioner "
        "applications and error measurements are interleaved at random; every result must equal that of the same solver built alone from its own "
        "objects, and matrices and right-hand side those of the reference model. Non-trivial: distinct (operation, operation of another solver before it)."
    )
    c.assumptions = BASE
    c.require("results compared", 60)
    c.require("switches between solvers", 40)
    c.require("shared objects", 10)
    cells = ["interval", "interval", "triangle", "quadrilateral"]
    n_cases = 6 if c.quick else 60
    for i in range(n_cases):
        if i >= 6 and not c.more():
            break
        r = c.rng("fam", i)
        p = Problem(r, cell=cells[i % 4], N=int(r.integers(1, 4)), q=int(r.integers(0, 3)), qs=[0, 1, 2][i % 3], k=int(r.integers(1, 3)), ks=int(r.integers(1, 3)),
                    region=["cells", "weights", "half", "function", "poly"][int(r.integers(0, 5))] if i % 2 else "half", fw=False, wp=i % 3 == 1)
        if i % 2:
            p.stabs["data"] = [0, 0.0][int(r.integers(0, 2))]
        with c.case(f"fam{i}", **p.desc()) as k:
            if not k:
                continue
            members = [p]
            for _ in range(2 if c.quick else int(r.integers(2, 4))):
                m = copy.copy(p)
                m._ref = None
                for what in r.choice(["q", "qs", "k", "ks", "N", "T", "region", "mesh", "fw", "wp", "stabs", "wave", "none"], int(r.integers(1, 4)), replace=False):
                    if what == "q":
                        m.q = int(r.integers(0, 3))
                    elif what == "qs":
                        m.qs = int(r.integers(0, 3))
                    elif what == "k":
                        m.k = int(r.choice([j for j in ((1, 2, 3) if m.dim == 1 else (1, 2)) if j != m.k]))
                    elif what == "ks":
                        m.ks = int(r.choice([j for j in ((1, 2, 3) if m.dim == 1 else (1, 2)) if j != m.ks]))
                    elif what == "N":
                        m.N = int(r.integers(1, 4))
                    elif what == "T":
                        m.T = float(r.uniform(0.4, 2))
                    elif what == "region" or (what == "mesh" and m.region.kind == "function"):
                        m.region = Region(r, "weights", m.x, m.c)
                    elif what == "mesh":
                        m.x = m.x * float(r.uniform(0.7, 1.3))
                        m._mesh = None
                        if m.region.kind not in ("cells", "weights", "half") or r.random() < 0.3:
                            m.region = Region(r, "weights", m.x, m.c)
                    elif what == "fw":
                        m.fw = not m.fw
                    elif what == "wp":
                        m.wp = not m.wp
                    elif what == "stabs":
                        m.stabs = {a: float(10 ** r.uniform(-1, 1)) for a in m.stabs}
                        if r.random() < 0.5:
                            m.stabs["data"] = [0, 0.0, 3][int(r.integers(0, 3))]
                    elif what == "wave":
                        m.wave = Wave(r, m.dim)
                if p.dim == 1:  # orders which differ by two
                    m.k, m.ks = [(1, 1), (3, m.ks), (m.k, 3)][1 + (i // 4 + i) % 2 if len(members) == 1 else 0]
                members.append(m)
            names = ["matrix", "slab", "first", "rhs", "apply", "tm", "improved", "errors"]
            orders = [[names[int(j)] for j in r.permutation(len(names))] for _ in members]
            probes = [{"seed": int(r.integers(0, 10**6)), "default": bool(r.random() < 0.5)} for _ in members]
            alone = [{} for _ in members]
            with c.sut("building and using one solver"):
                for m, o, od, pr in zip(members, alone, orders, probes):
                    for _ in _member(m, None, o, od, pr):
                        pass
            for m, o in zip(members, alone):
                compare_matrix(c, o["matrix"], m.ref.spacetime(), o["perm"], 1e-9, "matrix of a solver built after others")
                if not m.fw:
                    compare_matrix(c, o["slab"], m.ref.slab(True), o["perm slab"], 1e-9, "slab matrix of a solver built after others")
            # weights at the ends of their range, of any numeric type, stay as they were given
            given = extreme_stabs(r, p.stabs, turn=3 * i + int(r.integers(0, 3)))
            given[MAY_VANISH[i % 2]] = [0, 0.0][int(r.integers(0, 2))]
            args = p.args(stabs=given)
            mine, before = args["stabilisation_terms"], repr(list(given.items()))
            with c.sut("a solver with extreme weights"):
                st = ST.SpaceTime(**args)
                st.setup_spacetime_finite_elements()
                st.get_slab_matrix(), st.get_spacetime_rhs()
            c.ok(repr(list(mine.items())) == before, "the stabilisation parameters of the user were modified", given=before, now=repr(list(mine.items())))
            share, mixed = {}, [{} for _ in members]
            gens = [_member(m, share, o, od, pr) for m, o, od, pr in zip(members, mixed, orders, probes)]
            live, last = list(range(len(gens))), None
            while live:
                j = live[int(r.integers(0, len(live)))]
                for _ in range(int(r.integers(1, 3))):
                    with c.sut("using several solvers in turns"):
                        step = next(gens[j], None)
                    if step is None:
                        live.remove(j)
                        break
                    if last is not None and last[0] != j:
                        c.count("switches between solvers")
                        c.mark(last[1], step)
                    last = (j, step)
                for (name, key), obj in share.items():
                    if name == "polynomial_order_time":
                        c.ok((obj.q, obj.qstar) == key, "the orders in time of the user were modified", after=last)
                    elif name == "polynomial_order_space":
                        c.ok((obj.k, obj.kstar) == key, "the orders in space of the user were modified", after=last)
                    elif name == "stabilisation_terms":
                        c.ok(tuple(sorted(obj.items())) == key, "the stabilisation parameters of the user were modified", after=last)
                    elif name in ("omega", "solution"):
                        made, now = share[name + " as made", key], vars(obj)
                        c.ok(set(made) == set(now) and all(made[a] is now[a] for a in made), f"the {'data region' if name == 'omega' else 'solution'} of the user was modified", after=last)
                        c.count("checks of shared data regions and solutions")
                    elif name == "parameters":
                        c.ok((obj.jumps_in_fw_problem, obj.well_posed) == key, "the parameters of the user were modified", after=last)
            c.ok(tuple(ST.ProblemParameters()) == (False, False), "the default parameters changed")
            c.count("shared objects", sum(" as made" not in name for name, _ in share))
            for m, a, b in zip(members, alone, mixed):
                for name in names:
                    if not c.ok(a[name].shape == b[name].shape, f"{name}: size depends on other solvers"):
                        continue
                    if sp.issparse(a[name]):
                        top = abs(a[name]).max()
                        worst = abs(a[name] - b[name]).max()
                        c.ok(worst <= 1e-12 * top, f"{name}: depends on other solvers", worst=worst, scale=top)
                    else:
                        c.close(b[name], a[name], 1e-10, f"{name}: depends on other solvers", scale=max(np.abs(a[name]).max(), 1e-30))
                    c.count("results compared")
            c.sample(problems=[m.desc() for m in members], interleaving=[x for x in orders])


# ---------------------------------------------------------------------------- S20
def heap_bytes():
    """Bytes in use on the heap of this process (PETSc vectors and NumPy arrays live there), not those freed but kept by malloc."""
    import ctypes

    class Info(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]

    lib = ctypes.CDLL(None)
    if not hasattr(lib, "mallinfo2"):
        return None
    lib.mallinfo2.restype = Info
    _fastufl._memo.clear()  # the cache of the stand-in
    gc.collect()
    m = lib.mallinfo2()
    return m.uordblks + m.hblkhd


def S20(c):
    import weakref

    c.rule = (
        "A case is one problem with large slabs for which the operator, the preconditioners, the transfer operators, the PETSc wrappers, the error "
        "measurement and the getters are called again and again with the same vectors; the bytes in use on the heap are read after each call and "
        "their typical growth is compared with the size of one vector of a single field of a slab; at the end all references of the user are dropped "
        "and the solver object is watched. Non-trivial: distinct (problem signature, operation)."
    )
    c.assumptions = BASE
    if heap_bytes() is None:
        c.assumptions = c.assumptions + ["mallinfo2 is not available here: nothing observed"]
        return
    probe, v0 = [], heap_bytes()
    for _ in range(6):  # the instrument sees a leaked vector
        v = PETSc.Vec().createSeq(500)
        v.set(0.0)
        probe.append(v)
    c.ok(heap_bytes() - v0 >= 6 * 4000, "instrument: the heap counters do not show new vectors")
    for v in probe:
        v.destroy()
    c.require("series of calls", 60)
    c.require("solvers released", 6)
    cells = ["interval", "triangle", "interval", "quadrilateral", "interval", "tetrahedron"]
    n_cases = 7 if c.quick else 60
    for i in range(n_cases):
        if i >= 7 and not c.more():
            break
        r = c.rng("mem", i)
        cell = cells[i % 6]
        fw = i % 5 == 4
        p = nested_problem_big(r, cell, fw, wp=i % 3 == 1)
        with c.case(f"mem{i}", **p.desc()) as k:
            if not k:
                continue
            with c.sut("setting up"):
                st = p.solver()
                st.prepare_precondition_gmres()
                st.prepare_coarse_grid_correction(p.coarse_mesh)
                st.get_spacetime_matrix(), st.get_spacetime_rhs(), st.get_slab_matrix(), st.get_slab_matrix_first_slab()
                st.get_spacetime_bfi(), st.get_slab_bfi(), st.get_spacetime_lfi()
            nf, ns, nc = fes(st).num_dofs, fes_slab(st).num_dofs, st.get_spacetime_matrix_coarse().getSize()[0]
            with_linear(st, r, ns)
            st.set_solver_coarse(Linear(linear_answers(r, nc)))
            st.sample_pts_error = [0.0, 0.4 * p.T, p.T]
            x, y, z = pvec(r.normal(size=nf)), pvec(np.zeros(nf)), pvec(np.zeros(nc))
            A, P = ST.SpaceTimePETScMatrixWrapper(st), ST.SpaceTimePETScPreconditionerWrapper(st)
            ops = {
                "apply_spacetime_matrix": lambda: st.apply_spacetime_matrix(x, y),
                "pre_time_marching": lambda: st.pre_time_marching(x, y),
                "pre_twolvl": lambda: st.pre_twolvl(x, y), "q_op": lambda: st.q_op(x, y),
                "restriction": lambda: st.restriction(z, x), "prolongation": lambda: st.prolongation(z, y),
                "matrix wrapper": lambda: A.mult(None, x, y), "measured_errors": lambda: st.measured_errors(x, verbose=False),
                "getters": lambda: (st.get_spacetime_matrix(), st.get_spacetime_rhs(), st.get_slab_matrix(), st.get_slab_matrix_first_slab(),
                                    st.get_spacetime_bfi(), st.get_slab_bfi(), st.get_spacetime_lfi(), st.get_spacetime_matrix_coarse()),
            }
            if not fw:
                ops["pre_time_marching_improved"] = lambda: st.pre_time_marching_improved(x, y)
                ops["preconditioner wrapper"] = lambda: P.apply(None, x, y)
            unit = 8 * min(len(d) for d in fes_slab(st).comp_dofs)
            for name in [sorted(ops)[int(j)] for j in r.permutation(len(ops))]:
                growth = []
                with c.sut(f"repeated {name}"):
                    for _ in range(2):
                        ops[name]()
                    for n_calls in (6 if c.quick else 15, 30):  # growth seen in the short series has to go on in the long one
                        used = [heap_bytes()]
                        for _ in range(n_calls):
                            ops[name]()
                            used.append(heap_bytes())
                        steps = np.diff(used)
                        growth.append(float(np.mean(steps)))
                        if growth[-1] <= 0.4 * unit:
                            break
                c.ok(growth[-1] <= 0.4 * unit, f"{name}: calls leave memory behind", bytes_per_call=steps.tolist(), means=growth, vector_of_a_field=unit)
                c.count("series of calls")
                c.mark(p.sig(), name)
            gone = weakref.ref(st)
            del st, ops, A, P
            gc.collect()
            c.ok(gone() is None, "a solver which the user has dropped is kept alive", by=[type(o).__name__ for o in gc.get_referrers(gone())][:5] if gone() is not None else None)
            c.count("solvers released")
            c.sample(problem=p.desc(), slab=ns, unit=int(unit), last=name, bytes_per_call=steps.tolist())


def nested_problem_big(r, cell, fw, wp):
    from checks.stlib import nested_problem

    coarse = {"interval": int(r.integers(130, 160)), "triangle": 9, "quadrilateral": 9, "tetrahedron": 3}[cell]
    small = cell == "tetrahedron"
    return nested_problem(r, cell=cell, N=int(r.integers(2, 4)), q=1 if small else int(r.integers(1, 3)), qs=int(r.integers(0, 2)),
                          k=1 if cell != "interval" else int(r.integers(1, 3)), ks=1, region=["cells", "poly", "weights"][int(r.integers(0, 3))],
                          fw=fw, wp=wp, coarse=coarse)


# ---------------------------------------------------------------------------- S21
class Fuse:
    """Counts the calls of the parts of the user and of the finite element library; one of them fails when armed."""

    def __init__(self):
        self.calls, self.at, self.blown, self.kind = 0, None, None, None
        self.where, self.trace = {}, []

    def arm(self, at, kind):
        self.calls, self.at, self.blown, self.kind, self.trace = 0, at, None, kind, []

    def disarm(self):
        self.at = None

    def __call__(self, where):
        self.calls += 1
        self.where[where] = self.where.get(where, 0) + 1
        self.trace.append(where)
        if self.at is not None and self.calls == self.at:
            self.blown = self.kind(f"injected in {where}, call {self.at}")
            self.at = None
            raise self.blown

    def wrap(self, where, fun):
        def wrapped(*a, **kw):
            self(where)
            return fun(*a, **kw)

        return wrapped


def _faults():
    """Exceptions of the kinds which numerical codes, the library and the user raise; none is equal to one raised by anyone else."""
    kinds = [Exception, KeyboardInterrupt, MemoryError, RuntimeError, ValueError, ArithmeticError, ZeroDivisionError, KeyError, OSError, np.linalg.LinAlgError, NotImplementedError, SystemExit]
    return [type(f"Injected{k.__name__}", (k,), {}) for k in kinds]


FAULTS = _faults()


def reached(raised, blown):
    """The failure, or one which names it as its cause, arrived (or nothing failed)."""
    while raised is not None and raised is not blown:
        raised = raised.__cause__ or raised.__context__
    return raised is blown


APPLICATIONS = ["apply_spacetime_matrix", "pre_time_marching", "pre_time_marching_improved", "pre_twolvl", "q_op"]


class FusedSolver(Linear):
    def __init__(self, fuse, fun, tag):
        super().__init__(fun, None, tag)
        self.fuse = fuse

    def solve(self, b, x):
        x.array[:] = np.nan  # a solver that dies may leave anything behind
        self.fuse(f"{self.tag} solver")
        super().solve(b, x)


def S21(c):
    import contextlib
    from unittest import mock

    import matplotlib.pyplot as plt

    from checks.stlib import nested_problem

    c.rule = (
        "A case is one random problem (nested meshes) and several solver objects for it; each performs a random sequence of operations in which the slab and coarse solvers, "
        "the functions of the solution and of the data region, and calls of the finite element library fail at a random call with an exception, an "
        "interrupt or lack of memory. The failure must reach the caller; afterwards the operation and all others are repeated without failures and "
        "compared with those of a solver which never saw any. Non-trivial: distinct (operation, failing part, operations before)."
    )
    c.assumptions = BASE
    c.require("failures injected", 40)
    c.require("operations repeated after failures", 40)
    cells = ["interval", "triangle", "interval", "quadrilateral", "interval"]
    n_cases = 6 if c.quick else 60
    for i in range(n_cases):
        if i >= 6 and not c.more():
            break
        r = c.rng("fault", i)
        cell = cells[i % 5]
        fw = i % 4 == 3
        p = nested_problem(r, cell=cell, N=int(r.integers(1, 4)), q=int(r.integers(0, 3)), qs=int(r.integers(0, 2)), k=int(r.integers(1, 3)), ks=1,
                           region=["cells", "weights", "half"][i % 3], fw=fw, wp=i % 3 == 1)
        with c.case(f"f{i}", **p.desc()) as k:
            if not k:
                continue
            u1, u2 = r.normal(size=p.ref.nk), r.normal(size=p.ref.nk)
            answers, fuse = {}, Fuse()
            wave, region = p.wave, p.region
            solution = ST.ValueAndDerivative(fuse.wrap("solution", wave.v), fuse.wrap("derivative of the solution", wave.dvdt))
            dom = region.domain(p.mesh)
            omega = ST.DataDomain(fuse.wrap("data region", dom.indicator_function), dom.fitted)

            def build():
                st = ST.SpaceTime(**p.args(solution=solution, omega=omega))
                st.setup_spacetime_finite_elements()
                st.sample_pts_error = [0.0, 0.3 * p.T, p.T]
                if p.wp:
                    st.u1_0.x.array[fes_of(st.u1_0)] = u1
                    st.u2_0.x.array[fes_of(st.u2_0)] = u2
                return st, {}

            def solvers(st):
                for tag, size, put in (("first slab", fes_slab(st).num_dofs, st.set_solver_first_slab), ("slab", fes_slab(st).num_dofs, st.set_solver_slab)):
                    if tag not in answers:
                        answers[tag] = linear_answers(r, size)
                    put(FusedSolver(fuse, answers[tag], tag))

            def prepare(st, done):
                st.prepare_precondition_gmres()
                if "march" not in done:
                    solvers(st)
                    done["march"] = True

            def prepare_coarse(st, done):
                prepare(st, done)
                if "coarse" not in done:
                    st.prepare_coarse_grid_correction(p.coarse_mesh)
                    nc = st.get_spacetime_matrix_coarse().getSize()[0]
                    if "coarse" not in answers:
                        answers["coarse"] = linear_answers(r, nc)
                    st.set_solver_coarse(FusedSolver(fuse, answers["coarse"], "coarse"))
                    done["coarse"] = True

            os.environ["MINIDOLFINX_SEED"] = str(p.seed)
            n0 = p.solver()
            x0 = r.normal(size=fes(n0).num_dofs)

            def on(name, ready):
                def run(st, done):
                    ready(st, done)
                    return apply(getattr(st, name), x0, np.full(len(x0), 7.0))[0]

                return run

            def errors(st, done):
                out = st.measured_errors(pvec(x0))
                return np.array([float(out[n]) for n in sorted(out)])

            def plot(st, done):
                st.plot_error(pvec(x0), n_space=5, n_time_subdiv=2)
                plt.close("all")

            def export(st, done):
                st.plot_para_view(pvec(x0), name="fault")

            ops = {
                "matrix": lambda st, _: csr(st.get_spacetime_matrix()), "preconditioning matrix": lambda st, _: csr(st.get_spacetime_matrix(precond=True)),
                "slab": lambda st, _: csr(st.get_slab_matrix()), "first slab": lambda st, _: csr(st.get_slab_matrix_first_slab()),
                "right-hand side": lambda st, _: np.array(st.get_spacetime_rhs().array),
                "apply_spacetime_matrix": on("apply_spacetime_matrix", prepare), "pre_time_marching": on("pre_time_marching", prepare),
                "pre_twolvl": on("pre_twolvl", prepare_coarse), "q_op": on("q_op", prepare_coarse), "measured_errors": errors, "export": export,
            }
            if not fw:
                ops["pre_time_marching_improved"] = on("pre_time_marching_improved", prepare)
            if cell == "interval":
                ops["plot"] = plot

            def library():
                stack = contextlib.ExitStack()
                for mod, names in ((fem, ["form", "assemble_scalar", "FunctionSpace", "Expression"]), (fem.petsc, ["assemble_vector", "create_vector", "assemble_matrix"])):
                    for n in names:
                        if hasattr(mod, n) and not isinstance(getattr(mod, n), type):
                            stack.enter_context(mock.patch.object(mod, n, fuse.wrap(f"fem.{n}", getattr(mod, n))))
                return stack

            with library():
                base, count = {}, {}
                for name in sorted(ops):
                    fuse.arm(None, None)
                    with c.sut(f"{name} of a fresh solver"):
                        base[name] = ops[name](*build())
                    count[name] = fuse.calls

                def agree(got, name, **d):
                    want = base[name]
                    if want is None:
                        return
                    if sp.issparse(want):
                        c.ok(got.shape == want.shape and abs(got - want).max() <= 1e-13 * abs(want).max(), f"{name}: another value than from a solver without failures", **d)
                    else:
                        c.close(got, want, 1e-12, f"{name}: another value than from a solver without failures", scale=max(np.abs(want).max(), 1e-12), **d)

                # every part of an application fails in every way
                with c.sut("setting up"):
                    st, done = build()
                    prepare_coarse(st, done)
                for name in sorted(n for n in ops if n in APPLICATIONS):
                    fuse.arm(None, None)
                    with c.sut(name):
                        agree(ops[name](st, done), name)
                    trace = list(fuse.trace)
                    for part in sorted(set(trace)):
                        for kind in FAULTS if part.endswith("solver") else FAULTS[i % 4 :: 4]:
                            calls = [j for j, w in enumerate(trace) if w == part]
                            fuse.arm(1 + int(r.choice(calls)), kind)
                            raised = None
                            try:
                                with np.errstate(all="ignore"):
                                    ops[name](st, done)
                            except BaseException as e:  # noqa: BLE001
                                raised = e
                            blown = fuse.blown
                            fuse.disarm()
                            c.ok(reached(raised, blown), f"{name}: a failure of a part used by it did not reach the caller", failure=str(blown), raised=repr(raised))
                            c.count("failures injected")
                            c.mark(name, part, kind.__name__)
                    with c.sut(f"{name} after failures"):
                        agree(ops[name](st, done), name)

                for rep in range(2 if c.quick else 6):
                    with c.sut("setting up"):
                        st, done = build()
                    order = [sorted(ops)[int(j)] for j in r.permutation(len(ops))]
                    seen = []
                    for name in order:
                        if count[name] and r.random() < 0.75:
                            kind = FAULTS[int(r.integers(0, len(FAULTS)))]
                            fuse.arm(1 + int(r.integers(0, count[name])) if r.random() < 0.6 else 1 + int(r.integers(0, 3)), kind)
                            got, raised = None, None
                            try:
                                with np.errstate(all="ignore"):
                                    got = ops[name](st, done)
                            except BaseException as e:  # noqa: BLE001
                                raised = e
                            plt.close("all")
                            blown = fuse.blown
                            fuse.disarm()
                            if blown is None:
                                if raised is not None:
                                    with c.sut(f"{name} after {seen}"):
                                        raise raised
                                agree(got, name, after=seen)
                            else:
                                if not c.ok(reached(raised, blown), f"{name}: a failure of a part used by it did not reach the caller", failure=str(blown), raised=repr(raised), after=seen):
                                    break
                                c.count("failures injected")
                                c.mark(name, str(blown).split(",")[0], tuple(seen[-2:]))
                                seen.append(f"{name} failing {blown}")
                                if r.random() < 0.4:
                                    continue
                        with c.sut(f"{name} after {seen}"):
                            got = ops[name](st, done)
                        agree(got, name, after=seen)
                        c.count("operations repeated after failures")
                        seen.append(name)
                    for name in order:
                        with c.sut(f"{name} after {seen}"):
                            got = ops[name](st, done)
                        agree(got, name, after=seen)
                        c.count("operations repeated after failures")
            c.sample(problem=p.desc(), history=seen, parts=dict(fuse.where))


def contextlib_suppress():
    import contextlib

    return contextlib.suppress(RuntimeError)


class _TransRegion(Region):
    """The region of a transformed mesh (cells matched by transformed midpoints)."""

    def __init__(self, base, g):
        from scipy.spatial import cKDTree

        self.kind, self.calls = base.kind, []
        self.vals = base.vals
        self.tree = cKDTree(g(np.asarray(base.tree.data)))
