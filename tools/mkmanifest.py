"""Write /verif/MANIFEST.json: every property with a check function is claimed."""
import json
import re
from pathlib import Path

R = Path(__file__).resolve().parent.parent
MODULES = {"G": "gmres", "T": "timeint", "S": "spacetime", "D": "drivers", "M": "meshes"}
TECH = {
    "G": "runtime monitoring: event log of operator/preconditioner calls and returned vectors against a reference GMRES, with injected faults",
    "T": "runtime monitoring: exact-arithmetic oracle over recorded calls of the temporal routines",
    "S": "runtime monitoring: hooked operators and slab solvers, independent Kronecker-product reference model, metamorphic histories",
    "D": "runtime monitoring: recorded runs of the shipped drivers with substituted back ends against an exact reference",
    "M": "runtime monitoring: geometric invariants checked on every mesh returned over histories of generator calls",
}
NOTE = {
    "G": "Held on the executions listed in the evidence; trusts numpy's dense linear algebra as reference and the installed PETSc.",
    "T": "Held on all tabulated degrees and rules and on randomly drawn intervals, polynomials and call histories; trusts sympy/fractions.",
    "S": "Held on the executions listed in the evidence, which run the unchanged repository code on a small stand-in for DOLFINx 0.6 (/verif/platform, over the real UFL and PETSc); trusts that stand-in and numpy.",
    "D": "Held on the executions listed in the evidence, on the DOLFINx stand-in and a scipy stand-in for the optional direct solver.",
    "M": "Held on the generator calls listed in the evidence, with the real gmsh and the DOLFINx stand-in for refinement and interval/box meshes.",
}
LEVEL_NOTE_EXTRA = {}
checks, na = [], []
for line in (R / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    f = R / "checks" / f"{MODULES[pid[0]]}.py"
    if f.exists() and re.search(rf"^def {pid}\(c\)", f.read_text(), re.MULTILINE):
        checks.append({
            "property": pid, "quick_cmd": f"./run {pid}", "thorough_cmd": f"./run {pid} --thorough",
            "technique": TECH[pid[0]], "level": "exploration", "level_note": NOTE[pid[0]],
        })
    else:
        na.append({"property": pid, "reason": "no check built yet"})
(R / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na])
