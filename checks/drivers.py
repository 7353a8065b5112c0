"""D01-D04: the shipped examples (src/dxss/solve_*.py), each run in a process of its own."""
from __future__ import annotations

import concurrent.futures as cf
import re

import numpy as np

from .children import decided, run_child

DIMS = {"solve_1d": 1, "solve_2d": 2, "solve_3d": 3}
BASE = {"constants": {}, "pypardiso": "absent", "back_end": None, "solve": [], "samples": 0, "adapters": 0, "main": 0}


def runs(c, specs):
    """Run (key, spec, env) triples in parallel; yield inside a case those that produced a report."""
    todo = [(k, dict(BASE, **s), e) for k, s, e in specs if c.only in (None, k)]
    with cf.ThreadPoolExecutor(7) as pool:
        jobs = [(k, s, e, pool.submit(run_child, "checks.driver_child", s, e)) for k, s, e in todo]
        for key, spec, e, job in jobs:
            ev, arr = job.result()
            if c.enough():
                continue
            with c._case(key, {k: v for k, v in spec.items() if v}):
                decided(c, ev)
                c.count("example processes")
                c.mark(spec["driver"], spec["pypardiso"], spec["back_end"], str(sorted(spec["constants"].items())),
                       str(spec["solve"]), spec["main"], spec.get("points", 0) if spec["samples"] or spec["adapters"] else 0)
                yield spec, ev, arr


SMALL = {  # cheap settings of the constants at the top of the examples
    "solve_1d": [{"N": 4}, {"N": 2}, {"N": 6}, {"N": 4, "ORDER": 2}, {"N": 3, "ORDER": 3}, {"N": 1}, {"N": 8, "kstar": 2}],
    "solve_2d": [{"REF_LVL": 1, "ORDER": 1}, {"REF_LVL": 0, "ORDER": 2}, {"REF_LVL": 1, "ORDER": 2}, {"REF_LVL": 0, "ORDER": 3}],
    "solve_3d": [{"REF_LVL": 1}, {"REF_LVL": 0}, {"REF_LVL": 0, "GCC": True}, {"REF_LVL": 1, "GCC": True},
                 {"REF_LVL": 0, "ORDER": 2}],
}
AS_SHIPPED = {"solve_1d": {}, "solve_2d": {"MINIDOLFINX_NO_REFINE": "1"}, "solve_3d": {"MINIDOLFINX_CAP": "4"}}


def region(name, dim, p, consts):
    """The documented data regions (closed sets), None if the name is not one of them."""
    if name == "omega_ind_convex" and dim == 1:
        return (p[0] <= 0.2) | (p[0] >= 0.8)
    if name == "omega_ind_nogcc" and dim == 1:
        return p[0] <= 0.2
    if name == "omega_ind_convex" and dim == 2:
        return ((p <= 0.2) | (p >= 0.8)).any(axis=0)
    if name == "omega_ind" and dim == 3:
        if consts.get("GCC", False):
            return ((p <= 0.25) | (p >= 0.75)).any(axis=0)
        return p[0] <= 0.25
    return None


def D01(c):
    c.rule = (
        "each shipped example is loaded in its own process (as shipped and with other values of the level, order and "
        "region constants at its top); a case is one such load, with fresh random points and times. Sample solution "
        "and derivative are observed both as module functions and as the ones stored in the solver, region functions "
        "on batches of 1 to 200 points including border points, shuffled, and on every cell handed to the solver. "
        "Non-trivial: distinct (example, constants, points)."
    )
    c.require("wave residuals", 60)
    c.require("region values", 1000)
    rng = c.rng("points")
    specs = []
    for d in DIMS:
        specs.append((f"{d}/shipped", {"driver": d, "samples": 1, "points": int(rng.integers(1 << 30))}, AS_SHIPPED[d]))
        for i, co in enumerate(SMALL[d]):
            for r in range(1 if c.quick else 12):
                specs.append((f"{d}/{i}/{r}", {"driver": d, "constants": co, "samples": 1, "points": int(rng.integers(1 << 30))}, None))
    for spec, ev, arr in runs(c, specs):
        dim = DIMS[spec["driver"]]
        consts = {k: v for k, v in spec["constants"].items() if k not in ev.get("constants not found", [])}
        for which in ("module", "solver"):
            if which + "_wave" not in arr:
                continue
            w, bnd = arr[which + "_wave"], arr[which + "_boundary"]
            v = w[:, 1]
            c.ok(np.abs(v).max() > 1e-3, f"{which}: the sample solution vanishes")
            scale = max(1.0, np.abs(w[:, 2:]).max())
            c.close(w[:, 4], w[:, 5], 1e-7, f"{which}: wave equation u_tt = Laplace u", scale=scale, times=w[:, 0, 0])
            c.close(w[:, 3], w[:, 2], 1e-7, f"{which}: stated time derivative", scale=scale, times=w[:, 0, 0])
            c.close(bnd, np.zeros_like(bnd), 1e-12, f"{which}: homogeneous Dirichlet values", scale=scale)
            c.count("wave residuals", w[:, 4].size)
            c.count("boundary values", bnd.size)
        known = 0
        for n in ev["regions"]:
            for j in range(5):
                p, v = arr[f"{n}|{j}|p"], arr[f"{n}|{j}|v"]
                want = region(n, dim, p, consts)
                if want is None:
                    continue
                known += 1
                if not c.ok(v.shape == want.shape, f"region {n}: {p.shape[1]} points give shape {v.shape}"):
                    continue
                keep = np.ones(len(v), bool)
                if not ev["fitted"]:  # symbolic region of a mesh that does not resolve it: border has measure zero
                    keep = ~np.isin(p, [0.25, 0.75]).any(axis=0)
                bad = (v != want) & keep
                c.ok(not bad.any(), f"region function {n} wrong", point=p[:, np.argmax(bad)], value=v[np.argmax(bad)])
                c.ok(np.array_equal(arr[f"{n}|{j}|perm"], v), f"region function {n} depends on the order of the points")
                c.ok(bool(arr[f"{n}|{j}|same"][0]), f"region function {n} changes the points")
                c.count("region values", len(v))
        c.ok(known > 0, "no documented region function found") if known else c.inconclusive.append("no documented region function found")
        # the region on the mesh of the example: cells wholly inside or outside, value = the documented one
        verts = arr["cells_vertices"]
        mids = arr["cells_points"].T
        options = [region(n, dim, mids, consts) for n in ev["regions"]]
        got = arr["cells_value"]
        c.ok(any(o is not None and np.array_equal(got, o) for o in options),
             "the region handed to the solver is none of the documented ones on the cells of the mesh")
        if ev["fitted"]:
            borders = [0.25, 0.75] if dim == 3 else [0.2, 0.8]
            if dim == 1 and not np.array_equal(got, options[ev["regions"].index("omega_ind_convex")]) or dim == 3 and not consts.get("GCC"):
                borders = borders[:1]
            lo, hi = verts.min(axis=1), verts.max(axis=1)
            # a cell straddles the region border if a cutting plane goes through it and its region value is not constant
            crosses = np.zeros(len(verts), bool)
            for b in borders:
                cut = (lo < b - 1e-9) & (hi > b + 1e-9)
                if dim == 3 and not consts.get("GCC") or dim == 1:
                    crosses |= cut[:, 0]
                else:
                    other = [[a for a in range(dim) if a != d] for d in range(dim)]
                    # crossing the plane x_d = b matters where the other coordinates are inside the hole
                    a0, a1 = borders
                    for d in range(dim):
                        inside = np.all((lo[:, other[d]] < a1 - 1e-9) & (hi[:, other[d]] > a0 + 1e-9), axis=1)
                        crosses |= cut[:, d] & inside
            c.ok(not crosses.any(), f"{int(crosses.sum())} cells of the mesh declared fitted cross the border of the region")
        c.count("cells with region value", len(got))
        c.sample(example=spec["driver"], constants=spec["constants"], times=arr["solver_wave"][:, 0, 0],
                 pde_residual=float(np.abs(arr["solver_wave"][:, 4] - arr["solver_wave"][:, 5]).max()))


def check_solution(c, ev, arr, what):
    n = ev.get("solutions", 0)
    if not c.ok(n >= 1, f"{what}: solve_problem(measure_errors=True) measured no solution"):
        return
    ref = arr["reference"]
    for i in range(n):
        u = arr[f"u{i}"]
        c.close(u, ref, 1e-4, f"{what} solution against the direct solution of the space-time system")
        c.close(arr["residual"][i], 0.0, 2e-6, f"{what} residual", scale=1.0)
        c.count("solutions compared")
        c.count("unknowns compared", u.size)


def D02(c):
    c.rule = (
        "each example is run in a process of its own with every back end (sparse-direct stand-in, PETSc, all-at-once "
        "direct); the solution its error measurement receives is compared with an independent direct solution of the "
        "assembled space-time system. Both slab solver adapters solve random regular systems of 1 to 40 unknowns, "
        "interleaved, with right-hand sides of 13 magnitudes; the slab solvers which the example sets are applied to random "
        "right-hand sides and the residual taken with the matrix of their slab. Non-trivial: distinct (example, back end, constants, points)."
    )
    c.require("solutions compared", 9)
    c.require("adapter solves", 300)
    rng = c.rng("points")
    specs = []
    for d in DIMS:
        take = SMALL[d] if not c.quick else [SMALL[d][0], SMALL[d][1 + int(rng.integers(0, len(SMALL[d]) - 1))]]
        for i, co in enumerate(take):
            for name, pyp, be in (("petsc", "absent", None), ("pardiso", "present", None), ("direct", "absent", "direct"),
                                  ("petsc-forced", "present", "petsc-LU")):
                if c.quick and i and name == "petsc-forced":
                    continue
                specs.append((f"{d}/{name}/{i}", {
                    "driver": d, "constants": co, "pypardiso": pyp, "back_end": be, "adapters": 1,
                    "solve": [True] if i else [False, True, True], "points": int(rng.integers(1 << 30))}, None))
        if not c.quick:
            for name, pyp, be in (("petsc", "absent", None), ("pardiso", "present", None), ("direct", "absent", "direct")):
                specs.append((f"{d}/{name}/shipped", {"driver": d, "pypardiso": pyp, "back_end": be, "adapters": 1,
                                                       "solve": [True], "points": int(rng.integers(1 << 30))}, AS_SHIPPED[d]))
    for spec, ev, arr in runs(c, specs):
        what = f"{spec['driver']} back end {spec['back_end'] or ev['solver type']}"
        check_solution(c, ev, arr, what)
        if spec["solve"].count(True) > 1:
            c.close(arr["u1"], arr["u0"], 1e-6, "second solve of the same example against the first")
        for which, res in ev.get("slab residuals", {}).items():
            c.close(max(res), 0.0, 1e-9, f"{what}: residual of the solver set for the {which.replace('_', ' ')} in the system of that slab", scale=1.0)
            c.count("slab solver applications", len(res))
        for kind, (err, rhs, mat) in ev["adapters"].items():
            c.close(err, 0.0, 1e-9, f"adapter {kind} solution", scale=1.0)
            c.ok(rhs == 0, f"adapter {kind} changed the right-hand side")
            c.ok(mat == 0, f"adapter {kind} changed the matrix")
        c.count("adapter solves", ev["adapter solves"])
        c.sample(example=what, residual=arr.get("residual"), unknowns=len(arr.get("reference", [])))


def D03(c):
    c.rule = (
        "each example is imported and solved in a process of its own with the optional package absent, failing to import "
        "and present (stand-in), as a module and as a script; selected back end and warnings are observed. Non-trivial: "
        "distinct (example, package state, constants, module/script)."
    )
    c.require("example processes", 12)
    c.require("solutions compared", 12)
    specs = []
    for d in DIMS:
        take = SMALL[d][:1] if c.quick else SMALL[d]
        for i, co in enumerate(take):
            for pyp in ("absent", "import error", "present"):
                for main in (0, 1):
                    if main and c.quick and pyp == "present" and d != "solve_1d":
                        continue
                    specs.append((f"{d}/{pyp}/{'script' if main else 'module'}/{i}", {
                        "driver": d, "constants": co, "pypardiso": pyp, "main": main,
                        "adapters": 0 if main else 1, "solve": [] if main else [False, True], "points": 1}, None))
        if not c.quick:
            for pyp in ("absent", "import error", "present"):
                specs.append((f"{d}/{pyp}/shipped", {"driver": d, "pypardiso": pyp, "adapters": 1, "solve": [True], "points": 1},
                              AS_SHIPPED[d]))
    for spec, ev, arr in runs(c, specs):
        what = f"{spec['driver']} with pypardiso {spec['pypardiso']}"
        there = spec["pypardiso"] == "present"
        c.ok(ev["solver type"] == ("pypardiso" if there else "petsc-LU"), f"{what}: back end {ev['solver type']} selected")
        check_solution(c, ev, arr, what)
        if spec["adapters"]:
            users = [m for k, m in ev["construct warnings"]]
            if there:
                c.ok(not users, f"{what}: constructing the adapter warns: {users}")
            else:
                c.ok(len(users) >= 1, f"{what}: constructing the adapter does not warn")
                c.count("adapter warnings")
        c.sample(example=what, selected=ev["solver type"], warnings=ev.get("construct warnings"))


def D04(c):
    c.rule = (
        "each example is run in a process of its own as a script and as a module, with every back end, with and without error "
        "measurement, repeatedly; what it prints (captured at the file descriptor), the vectors it passes on to error measurement, "
        "figures and export, and the files it writes are observed. Delays put into the solve and into the error measurement tell which "
        "of the two the printed time is about. Non-trivial: distinct (example, back end, constants, measured or not)."
    )
    c.require("reports", 15)
    c.require("reported vectors", 12)
    rng = c.rng("delays")
    specs = []
    for d in DIMS:
        take = SMALL[d] if not c.quick else [SMALL[d][0], SMALL[d][1 + int(rng.integers(0, len(SMALL[d]) - 1))]]
        if c.quick and d == "solve_3d":
            take = [*take[:1], SMALL[d][-1]]
        for i, co in enumerate(take):
            for name, pyp, be in (("petsc", "absent", None), ("pardiso", "present", None), ("direct", "absent", "direct")):
                solve = [[True, False], [False, True, False]][int(rng.integers(0, 2))]
                specs.append((f"{d}/{name}/{i}", {"driver": d, "constants": co, "pypardiso": pyp, "back_end": be, "solve": solve,
                                                  "report": float(np.round(rng.uniform(0.8, 1.2), 2))}, None))
                if be is None and not (c.quick and i):
                    specs.append((f"{d}/{name}/{i}/script", {"driver": d, "constants": co, "pypardiso": pyp, "main": 1,
                                                             "report": float(np.round(rng.uniform(0.8, 1.2), 2))}, None))
    for spec, ev, arr in runs(c, specs):
        back_end = spec["back_end"] or ev["solver type"]
        for n, r in enumerate(ev.get("reports", [])):
            m = r["measure"]
            what = f"{spec['driver']} with {back_end}, " + ("as a script" if r.get("script") else f"solve_problem(measure_errors={m}), call {n}")
            c.mark(spec["driver"], back_end, str(sorted(spec["constants"].items())), m, r.get("script", False))
            check_report(c, spec, ev, arr, r, what, back_end)
            c.count("reports")
        if spec["main"]:
            c.ok(len(ev.get("reports", [])) == 1, f"{spec['driver']}: no report of the script")
        c.sample(example=spec["driver"], back_end=back_end, last=re.findall("iteration.*", ev["reports"][0]["text"])[::3][:8], reports=[[s["what"] for s in r["seen"]] for r in ev.get("reports", [])])


NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf"


def check_report(c, spec, ev, arr, r, what, back_end):
    delay, text = spec["report"], r["text"]
    # whatever is measured, drawn or exported is the solution
    for s in r["seen"]:
        c.close(arr[f"reported{s['vector']}"], arr["reference"], 1e-4, f"{what}: vector given to {s['what']} against the direct solution")
        c.count("reported vectors")
    measured = [s for s in r["seen"] if s["what"] == "measured_errors"]
    c.ok(bool(measured) == r["measure"], f"{what}: errors are {'measured' if measured else 'not measured'}")
    if spec["driver"] == "solve_3d" and r.get("order") is not None:
        exported = [f for f in r["written"] if f.endswith(".xdmf") and f"order{r['order']}" in f]
        c.ok(bool(exported) == r["measure"], f"{what}: {'no' if r['measure'] else 'an'} export of the error is written", written=r["written"])
        c.count("exports observed", len(exported))
    # the errors
    numbers = [float(x) for x in re.findall(NUMBER, text.split("elapsed time")[-1])]
    for s in measured:
        for k, v in s.get("values", {}).items():
            c.ok(any(abs(x - v) <= 1e-9 * max(abs(v), 1e-300) for x in numbers), f"{what}: the error {k} = {v} is not printed", printed=numbers[:12])
            w = ev["reference errors"].get(k)
            if w is not None:
                c.close(v, w, 1e-3, f"{what}: error {k} against that of the direct solution", scale=max(abs(w), 1e-6))
            c.count("errors compared")
    # the time
    t = re.findall(rf"elapsed time\s+({NUMBER})\s+seconds", text)
    if c.ok(len(t) == 1, f"{what}: {len(t)} elapsed times are printed"):
        t = float(t[0])
        low = delay * len(r["slept"])
        high = r["wall"] - delay * len(measured)
        steady = abs(r["clock"] - r["wall"]) < 0.02 + 0.01 * r["wall"]  # nobody set the clock meanwhile
        c.ok(not steady or 0.95 * low <= t <= high + 0.05, f"{what}: elapsed time {t:.2f} s, the solve took between {low:.2f} and {high:.2f} s")
        c.count("elapsed times compared")
    # the convergence history
    its = re.findall(rf"iteration\s+(\d+)\D*?=\s*({NUMBER})", text)
    if back_end == "direct":
        c.ok(not its, f"{what}: a convergence history is printed")
    elif c.ok(bool(its), f"{what}: no convergence history is printed"):
        c.ok([int(a) for a, _ in its] == list(range(int(its[0][0]), int(its[0][0]) + len(its))), f"{what}: iterations {[a for a, _ in its][:12]}")
        c.ok(float(its[-1][1]) < max(1.02e-7 * float(its[0][1]), 1.02e-7), f"{what}: printed history ends with {its[-1]}")
        c.count("iterations printed", len(its))
    # the memory
    if r.get("script"):
        g = re.findall(rf"emory[^=]*=\s*({NUMBER})", text)
        if c.ok(len(g) == 1, f"{what}: {len(g)} values of memory usage are printed"):
            low, high = ev["memory"]
            c.ok(0.999 * low <= float(g[0]) <= 1.001 * high, f"{what}: memory usage {g[0]} Gb printed, between {low:.3f} and {high:.3f} Gb used")
            c.count("memory values compared")
