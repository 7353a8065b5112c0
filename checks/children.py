"""Child processes that run the code under test, and the verdict on their reports."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vlib.core import Inconclusive, SutRaised


def run_child(module, spec, env=None, limit=400):
    for _ in range(3):
        ev, arr = _run_child(module, spec, env, limit)
        if "MPI_INIT" not in ev.get("tail", "").upper():  # the MPI library could not start: not about the code
            break
    return ev, arr


def _run_child(module, spec, env, limit):
    d = tempfile.mkdtemp(prefix="child-", dir=os.getcwd())
    try:
        with open(os.path.join(d, "spec.json"), "w") as f:
            json.dump(spec, f)
        e = dict(os.environ, MPLCONFIGDIR=d, OMPI_MCA_orte_tmpdir_base=d, **(env or {}))
        with open(os.path.join(d, "log"), "w") as log:
            try:
                p = subprocess.run([sys.executable, "-P", "-m", module, "spec.json", "out"],
                                   cwd=d, env=e, stdout=log, stderr=log, timeout=limit, check=False)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                return {"timeout": limit}, {}
        try:
            ev = json.load(open(os.path.join(d, "out.json")))
            with np.load(os.path.join(d, "out.npz"), allow_pickle=False) as z:
                arr = {k: z[k] for k in z.files}
        except OSError:
            tail = open(os.path.join(d, "log")).read()[-500:]
            return {"died": rc, "tail": tail}, {}
        return ev, arr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decided(c, ev):
    if "timeout" in ev:
        raise Inconclusive(f"no result within {ev['timeout']} s")
    if "MPI_INIT" in ev.get("tail", "").upper():
        raise Inconclusive("MPI did not start")
    if ev.get("died") == -9:
        raise Inconclusive("process was killed (memory?)")
    if "died" in ev:
        raise SutRaised(f"process ended with {ev['died']}: {ev['tail']}")
    if "error" in ev:
        msg = f"{ev.get('stage', '?')}: {ev['error']} [{ev.get('where', '')}]"
        if ev.get("unsupported"):
            raise Inconclusive(f"platform: {msg}")
        src = ev.get("where", "")
        if any(s in src for s in ("solve_", "space_time", "meshes.py", "gmres.py", "precomp")):
            raise SutRaised(msg)
        raise Inconclusive(f"harness error: {msg}")
