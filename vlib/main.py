"""python -m vlib.main ID [--replay FILE]: run one check in a supervised child process."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
MODULES = {"G": "checks.gmres", "T": "checks.timeint", "S": "checks.spacetime", "D": "checks.drivers", "M": "checks.meshes"}


def env():
    e = dict(os.environ)
    e.update(
        PETSC_DIR="/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg", PETSC_OPTIONS="",
        PYTHONPATH=os.pathsep.join(map(str, [REPO / "src", ROOT, ROOT / "platform", ROOT / "platform" / "v06"])),
        XDG_CACHE_HOME=e.get("VERIF_SCRATCH", "/tmp"), MPLCONFIGDIR=e.get("VERIF_SCRATCH", "/tmp"),
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
        OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl="self,vader", OMPI_MCA_mpi_yield_when_idle="1",
        OMPI_MCA_ess_singleton_isolated="1",  # no daemon for a process that was not started by mpirun
        OMPI_MCA_orte_tmpdir_base=e.get("VERIF_SCRATCH", "/tmp"),
    )
    return e


def child(pid, tier, seed, only):
    # everything the code under test prints goes to a log; reports go to the real stdout
    out = os.fdopen(os.dup(1), "w")
    log = os.open("sut.log", os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    os.dup2(log, 1)
    from vlib.core import Check
    sys.setrecursionlimit(100000)
    c = Check(pid, tier, seed, only, out)
    try:
        mod = importlib.import_module(MODULES[pid[0]])
        getattr(mod, pid)(c)
    except Exception as e:  # noqa: BLE001
        import traceback
        from vlib.core import StopCase, SutRaised, _unsupported
        if isinstance(e, StopCase):
            pass
        elif isinstance(e, SutRaised):
            c.violations.append({"case": "-", "desc": {}, "message": f"code under test raised: {e}", "detail": {}})
        else:
            c.broken = True
            c.inconclusive.append("platform: " if _unsupported(e) else "harness error: " + traceback.format_exc(limit=-8))
    rc = c.finish()
    out.flush()
    os._exit(rc)


def main(argv):
    if argv[0] == "--child":
        _, pid, tier, seed, only = argv
        child(pid, tier, int(seed), None if only == "-" else only)
    pid, only = argv[0], "-"
    tier, seed = os.environ.get("VERIF_TIER", "quick"), os.environ.get("VERIF_SEED", "1")
    if "--thorough" in argv:
        tier = "thorough"
    if "--replay" in argv:
        r = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        tier, seed, only = r["tier"], str(r["seed"]), r["case"]
        if only == "-":
            only = "-"
    limit = int(os.environ.get("VERIF_TIMEOUT", 840 if tier == "quick" else 7200))
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.environ["VERIF_SCRATCH"] = scratch
    proc = subprocess.Popen(
        [sys.executable, "-P", "-m", "vlib.main", "--child", pid, tier, seed, only],
        cwd=scratch, env=env(), start_new_session=True,
    )
    try:
        rc = proc.wait(limit)
        if rc not in (0, 1, 2):
            print(f"{pid}: INCONCLUSIVE child ended with {rc}")
            rc = 2
    except subprocess.TimeoutExpired:
        print(f"{pid}: INCONCLUSIVE no verdict within {limit} s")
        rc = 2
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        keep = os.environ.get("VERIF_KEEP")
        if keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
