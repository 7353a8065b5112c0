"""Run one of the shipped examples in a process of its own and write down what it did.

python -m checks.driver_child SPEC.json OUT : SPEC = {driver, constants, pypardiso, back_end, measure, main, points}
Events go to OUT.json, arrays to OUT.npz.  The oracle is in checks/drivers.py.
"""
import ast
import importlib.abc
import importlib.util
import json
import os
import sys
import time
import traceback
import types
import warnings

import numpy as np

from checks.child_util import unsupported

SPEC, OUT = json.load(open(sys.argv[1])), sys.argv[2]
events, arrays = {"warnings": []}, {}


def dump():
    np.savez(OUT + ".npz", **arrays)
    json.dump(events, open(OUT + ".json", "w"))


class Block(importlib.abc.MetaPathFinder):
    """The optional package is not installed, or its shared library is missing."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "pypardiso":
            if SPEC["pypardiso"] == "absent":
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            raise ImportError("Shared library mkl_rt not found")
        return None


if SPEC["pypardiso"] != "present":
    sys.meta_path.insert(0, Block())
else:
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "platform", "pardiso"))


def load():
    name = "dxss." + SPEC["driver"]
    if not SPEC["constants"] and not SPEC.get("main"):
        return importlib.import_module(name)
    spec = importlib.util.find_spec(name)
    tree = ast.parse(open(spec.origin).read(), spec.origin)
    left = dict(SPEC["constants"])
    for node in tree.body:  # the constants at the top of an example are what a user edits
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in left:
                node.value = ast.copy_location(ast.Constant(left.pop(node.targets[0].id)), node.value)
    ast.fix_missing_locations(tree)
    events["constants not found"] = sorted(left)
    if left:  # the example's size cannot be set this way: keep its meshes small
        os.environ.update({"solve_2d": {"MINIDOLFINX_NO_REFINE": "1"}, "solve_3d": {"MINIDOLFINX_CAP": "4"}}.get(SPEC["driver"], {}))
    mod = types.ModuleType("__main__" if SPEC.get("main") else name)
    mod.__file__ = spec.origin
    mod.__package__ = "dxss"
    if not SPEC.get("main"):
        sys.modules[name] = mod
    exec(compile(tree, spec.origin, "exec"), mod.__dict__)
    return mod


def ufl_values(expr, pts):
    """Point values of a UFL expression of SpatialCoordinate only."""
    out = []
    for p in pts:
        try:
            out.append(expr if isinstance(expr, (int, float)) else expr(tuple(p)))
        except ArithmeticError:  # no value there
            out.append(np.nan)
        except ValueError as e:
            if "math" not in str(e):
                raise
            out.append(np.nan)
    return np.array(out, dtype=float)


def samples(mod):
    import ufl

    rng = np.random.default_rng(SPEC["points"])
    st = events["st"]
    gd = st.msh.geometry.dim
    X = ufl.SpatialCoordinate(st.msh)
    h = 0.02
    co1 = np.array([4 / 5, -1 / 5, 4 / 105, -1 / 280])
    co2 = np.array([-205 / 72, 8 / 5, -1 / 5, 8 / 315, -1 / 560])
    T = float(getattr(mod, "T", 1.0))
    fns = {"solver": (st.solution.v, st.solution.dvdt)}
    if hasattr(mod, "sample_sol") and hasattr(mod, "dt_sample_sol"):
        fns["module"] = (mod.sample_sol, mod.dt_sample_sol)
    for which, (v, dv) in fns.items():
        pts = rng.uniform(0.1, 0.9, (4, gd))
        rows = []
        for t in [0.0, T, *rng.uniform(-0.5, 2 * T, 3)]:
            t = float(t)
            at = lambda s: ufl_values(v(s, X), pts)  # noqa: E731
            c = at(t)
            side = [(at(t + i * h), at(t - i * h)) for i in (1, 2, 3, 4)]
            dt = sum(a * (p - m) for a, (p, m) in zip(co1, side)) / h
            dtt = (co2[0] * c + sum(a * (p + m) for a, (p, m) in zip(co2[1:], side))) / h**2
            lap = 0
            for d in range(gd):
                e = np.zeros(gd)
                e[d] = h
                g = lambda i: ufl_values(v(t, X), pts + i * e)  # noqa: E731
                lap = lap + (co2[0] * c + sum(a * (g(i) + g(-i)) for a, i in zip(co2[1:], (1, 2, 3, 4)))) / h**2
            rows.append(np.stack([np.full(4, t), c, dt, ufl_values(dv(t, X), pts), dtt, lap]))
            b = rng.uniform(0, 1, (6, gd))
            b[np.arange(6), rng.integers(0, gd, 6)] = rng.choice([0.0, 1.0], 6)
            arrays.setdefault(which + "_boundary", [])
            arrays[which + "_boundary"].append(np.concatenate([ufl_values(v(t, X), b), ufl_values(dv(t, X), b)]))
        arrays[which + "_wave"] = np.array(rows)
        arrays[which + "_boundary"] = np.array(arrays[which + "_boundary"])


def regions(mod):
    import ufl

    rng = np.random.default_rng(SPEC["points"] + 1)
    st = events["st"]
    gd = st.msh.geometry.dim
    names = [n for n in dir(mod) if n.startswith("omega_ind") and n != "omega_indicator"]
    events["regions"] = names
    for n in names:
        f = getattr(mod, n)
        for j, m in enumerate([1, 2, 3, 17, 200]):
            p = rng.uniform(0, 1, (gd, m))
            snap = rng.random((gd, m)) < 0.15
            p[snap] = rng.choice([0.0, 0.2, 0.8, 0.25, 0.75, 1.0], snap.sum())
            pad = np.zeros((3, m))
            pad[:gd] = p
            if callable(f) and not isinstance(f, ufl.core.expr.Expr):
                keep = pad.copy()
                val = np.asarray(f(pad))
                perm = rng.permutation(m)
                arrays[f"{n}|{j}|perm"] = np.asarray(f(np.ascontiguousarray(pad[:, perm])))[np.argsort(perm)]
                arrays[f"{n}|{j}|same"] = np.array([np.array_equal(keep, pad)])
            else:
                val = ufl_values(f, p.T)
                arrays[f"{n}|{j}|perm"] = val
                arrays[f"{n}|{j}|same"] = np.array([True])
            arrays[f"{n}|{j}|p"], arrays[f"{n}|{j}|v"] = p, val
    # what the example hands to the solver, cell by cell
    m = st.msh
    om = st.omega
    events["fitted"] = bool(om.fitted)
    from dolfinx import fem

    mids = np.array([m._vert_x[c].mean(axis=0) for c in m.topology._cells])[:, :gd]
    if om.fitted:
        V = fem.FunctionSpace(m, ("DG", 0))
        f = fem.Function(V)
        f.interpolate(om.indicator_function)
        arrays["cells_value"] = f.x.array[V.comp_dofs[0][V.scalars[0].cell_dofs[:, 0]]]
    else:
        mids = mids + rng.uniform(-0.02, 0.02, mids.shape)
        arrays["cells_value"] = ufl_values(om.indicator_function, mids)
    arrays["cells_points"] = mids
    arrays["cells_vertices"] = np.array([m._vert_x[c][:, :gd] for c in m.topology._cells])


class Reports:
    """What an example says, draws and writes, with delays that tell the solve from the reporting on it."""

    def __init__(self, S):
        self.S, self.open = S, None
        for name in ("measured_errors", "plot", "plot_error", "plot_para_view"):
            if hasattr(S.SpaceTime, name):
                self.watch(name)
        for name, part in (("apply_spacetime_matrix", "solve"), ("get_spacetime_matrix", "solve"), ("set_solver_slab", "set-up")):
            self.slow(name, part)

    def watch(self, name):
        plain = getattr(self.S.SpaceTime, name)

        def watched(st, u, *a, **kw):
            if self.open is None:
                return plain(st, u, *a, **kw)
            self.open["depth"] += 1
            try:
                i = len(arrays)
                arrays[f"reported{i}"] = u.array.copy()
                seen = {"what": name, "vector": i, "after": time.perf_counter() - self.open["start"]}
                if self.open["depth"] == 1:
                    self.open["seen"].append(seen)
                    if name == "measured_errors":
                        time.sleep(SPEC["report"])
                out = plain(st, u, *a, **kw)
                if isinstance(out, dict):
                    seen["values"] = {k: float(v) for k, v in out.items() if np.isscalar(v)}
                return out
            finally:
                self.open["depth"] -= 1

        setattr(self.S.SpaceTime, name, watched)

    def slow(self, name, part):
        plain = getattr(self.S.SpaceTime, name)

        def slowed(st, *a, **kw):
            if self.open is not None and part not in self.open["slept"]:
                self.open["slept"].append(part)
                time.sleep(SPEC["report"])
            return plain(st, *a, **kw)

        setattr(self.S.SpaceTime, name, slowed)

    def run(self, fun, **about):
        before = {f: os.stat(f).st_mtime_ns for f in os.listdir(".")}
        sys.stdout.flush()
        keep = os.dup(1)
        out = os.open(OUT + ".stdout", os.O_CREAT | os.O_TRUNC | os.O_RDWR)
        os.dup2(out, 1)
        self.open = dict(about, seen=[], slept=[], depth=0, start=time.perf_counter(), clock=time.time())
        try:
            result = fun()
        finally:
            r, self.open = self.open, None
            r["wall"], r["clock"] = time.perf_counter() - r.pop("start"), time.time() - r["clock"]
            sys.stdout.flush()
            os.dup2(keep, 1)
            os.close(keep)
            os.close(out)
        with open(OUT + ".stdout", encoding="utf-8", errors="replace") as f:
            r["text"] = f.read()[-60000:]
        r["written"] = sorted(f for f in os.listdir(".") if before.get(f) != os.stat(f).st_mtime_ns and not f.startswith("out"))
        events.setdefault("reports", []).append(r)
        return result


def main():
    import dxss.space_time as S

    sols, built, slab_solvers = [], [], {}
    plain = S.SpaceTime.measured_errors
    init = S.SpaceTime.__init__

    def measured_errors(self, u, *a, **kw):
        sols.append((self, u.array.copy()))
        return plain(self, u, *a, **kw)

    def __init__(self, *a, **kw):
        init(self, *a, **kw)
        built.append(self)

    def recorder(which):
        set_it = getattr(S.SpaceTime, "set_solver_" + which)

        def recorded(self, solver):
            slab_solvers[which] = (self, solver)
            return set_it(self, solver)

        return recorded

    for which in ("slab", "first_slab"):
        setattr(S.SpaceTime, "set_solver_" + which, recorder(which))
    S.SpaceTime.measured_errors = measured_errors
    S.SpaceTime.__init__ = __init__
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        events["stage"] = "import"
        reports = Reports(S) if SPEC.get("report") else None
        if reports and SPEC.get("main"):
            import resource

            low = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss / 1e6
            mod = reports.run(load, measure=True, script=True)
            events["memory"] = [low, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss / 1e6]
        else:
            mod = load()
        events["stage"] = "run"
        events["solver type"] = str(mod.SOLVER_TYPE)
        events["pypardiso is None"] = mod.pypardiso is None
        events["warnings on import"] = [str(w.message) for w in log if "ardiso" in str(w.message)]
    if not built:
        events["stage"] = "no solver"
        return
    events["st"] = built[-1]
    if SPEC.get("samples"):
        events["stage"] = "samples"
        samples(mod)
        regions(mod)
    if SPEC.get("adapters"):
        events["stage"] = "adapters"
        adapters(mod)
    if SPEC.get("solve"):
        events["stage"] = "solve"
        if SPEC["back_end"] is not None:
            mod.SOLVER_TYPE = SPEC["back_end"]
        st = built[-1]
        for measure in SPEC["solve"]:
            if reports:
                reports.run(lambda m=measure: mod.solve_problem(measure_errors=m), measure=measure, order=getattr(mod, "ORDER", None))
            else:
                mod.solve_problem(measure_errors=measure)
    if slab_solvers:
        events["stage"] = "slab solvers"
        try_slab_solvers(slab_solvers)
    if sols:
        events["stage"] = "reference"
        import scipy.sparse as sp
        import scipy.sparse.linalg as spl

        st = sols[-1][0]
        ai, aj, av = st.get_spacetime_matrix().getValuesCSR()
        A = sp.csc_matrix(sp.csr_matrix((av, aj, ai)))
        b = st.get_spacetime_rhs().array.copy()
        arrays["b"] = b
        arrays["reference"] = spl.splu(A).solve(b)
        if SPEC.get("report"):
            events["stage"] = "reference errors"
            x = st.get_spacetime_matrix().createVecs()[0]
            x.array[:] = arrays["reference"]
            events["reference errors"] = {k: float(v) for k, v in plain(st, x).items()}
            events["stage"] = "reference"
        for i, (_, u) in enumerate(sols):
            arrays[f"u{i}"] = u
        events["solutions"] = len(sols)
        arrays["residual"] = np.array([np.linalg.norm(A @ u - b) / np.linalg.norm(b) for _, u in sols])
        events["files"] = sorted(os.listdir("."))
    events["stage"] = "done"


def try_slab_solvers(slab_solvers):
    """The slab solvers which the example handed over, on random right-hand sides: residuals for the matrix of their slab."""
    import scipy.sparse as sp
    from petsc4py import PETSc

    rng = np.random.default_rng(SPEC.get("points", 0) + 3)
    events["slab residuals"] = {}
    for which, (st, solver) in slab_solvers.items():
        mat = st.get_slab_matrix() if which == "slab" else st.get_slab_matrix_first_slab()
        ai, aj, av = mat.getValuesCSR()
        A = sp.csr_matrix((av, aj, ai))
        n = A.shape[0]
        b, x = PETSc.Vec().createSeq(n), PETSc.Vec().createSeq(n)
        res = []
        for _ in range(3):
            val = rng.normal(size=n)
            b.array[:] = val
            x.array[:] = rng.normal(size=n)
            solver.solve(b, x)
            size = abs(A) @ np.abs(x.array) + np.abs(val)
            res.append(float(np.abs(A @ x.array - val).max() / size.max()))
        events["slab residuals"][which] = [r if np.isfinite(r) else 1e300 for r in res]


def adapters(mod):
    """Both slab solver adapters on matrices and right-hand sides of our own."""
    import scipy.sparse as sp
    from petsc4py import PETSc

    rng = np.random.default_rng(SPEC["points"] + 2)
    out = []
    mats = []
    for n in (1, 2, 5, 12, 40):
        D = rng.normal(size=(n, n)) * (rng.random((n, n)) < min(1, 6 / n))
        D += np.diag(rng.choice([-1, 1], n) * (np.abs(D).sum(axis=1) + 0.5))
        mats.append(D)
    made = []
    for D in mats:
        n = len(D)
        S = sp.csr_matrix(D)
        P = PETSc.Mat().createAIJ((n, n), csr=(S.indptr.astype("i4"), S.indices.astype("i4"), S.data), comm=PETSc.COMM_WORLD)
        P.assemble()
        made.append(("lu", D, P, mod.get_lu_solver(events["st"].msh, P), lambda P=P, n=n: sp.csr_matrix(P.getValuesCSR()[::-1], (n, n)).toarray()))
        if SPEC["pypardiso"] == "present":
            import pypardiso

            ps = pypardiso.PyPardisoSolver()
            ps.factorize(S)
            made.append(("py", D, S, mod.PySolver(S, ps), lambda S=S: S.toarray()))
    worst = {"lu": [0.0, 0.0, 0.0], "py": [0.0, 0.0, 0.0]}
    count = 0
    order = [int(i) for i in rng.integers(0, len(made), 60)]
    for i in order:  # interleaved: an adapter must not be affected by the others
        kind, D, _, solver, back = made[i]
        n = len(D)
        b = PETSc.Vec().createSeq(n)
        x = PETSc.Vec().createSeq(n)
        val = rng.normal(size=n) * 10.0 ** rng.integers(-6, 7)
        if rng.random() < 0.1:
            val[:] = 0
        if rng.random() < 0.2:
            val[rng.integers(0, n)] = 0
        b.array[:] = val
        x.array[:] = rng.normal(size=n)
        solver.solve(b, x)
        ref = np.linalg.solve(D, val)
        s = max(np.abs(ref).max(), 1e-300)
        err = np.abs(x.array - ref).max() / s if np.any(val) else np.abs(x.array).max()
        if not np.isfinite(err):
            err = 1e300
        w = worst[kind]
        w[0] = max(w[0], float(err))
        w[1] = max(w[1], float(np.abs(b.array - val).max()))
        w[2] = max(w[2], float(np.abs(back() - D).max()))
        count += 1
    events["adapters"] = worst
    events["adapter solves"] = count
    if SPEC["pypardiso"] != "present":
        # constructing the adapter without the package warns
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            mod.PySolver(sp.csr_matrix(np.eye(2)), object())
        events["construct warnings"] = [[w.category.__name__, str(w.message)] for w in log]
    else:
        import pypardiso

        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            mod.PySolver(sp.csr_matrix(np.eye(2)), pypardiso.PyPardisoSolver())
        events["construct warnings"] = [[w.category.__name__, str(w.message)] for w in log]


try:
    sys.setrecursionlimit(100000)
    main()
except BaseException as e:  # noqa: BLE001
    events["error"] = f"{type(e).__name__}: {str(e)[:300]}"
    events["unsupported"] = unsupported(e)
    events["where"] = " <- ".join(
        f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
events.pop("st", None)
dump()
os._exit(0)
