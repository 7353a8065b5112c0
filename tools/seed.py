"""Make and re-verify the planted bugs in /verif/seeded (no check reads them).

python3 tools/seed.py verify [ID ...]   confirm: applies, touches original lines only, stable tests pass,
                                         demo passes without and fails with it; then run the property's check
python3 tools/seed.py table              the markdown table of DESIGN.md from the last verification
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

R = Path(__file__).resolve().parent.parent
SEED = R / "seeded"
BASE = "3550461"
PY = "/opt/venv/bin/python"
STABLE = ["tests/test_gmres.py", "tests/test_dxss.py::test_dummy"]


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout + p.stderr


def clean_env(**kw):
    return {"PATH": os.environ["PATH"], "HOME": "/root", **kw}


def copy_repo(tag):
    wt = Path(f"/tmp/seedwt-{os.getpid()}-{tag}")
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
    return wt


def original_lines_only(patch):
    """Every removed line must come from the original repository."""
    bad, removed = [], 0
    for block in re.split(r"^diff --git ", patch, flags=re.MULTILINE)[1:]:
        f = re.search(r"^--- a/(\S+)", block, re.MULTILINE).group(1)
        rc, blame = sh(["git", "-C", "/repo", "blame", "-l", "HEAD", "--", f])
        owners = [ln.split()[0] for ln in blame.splitlines()]
        line = 0
        for ln in block.splitlines():
            m = re.match(r"@@ -(\d+)", ln)
            if m:
                line = int(m.group(1)) - 1
                continue
            if line == 0 and not ln.startswith(("-", " ", "+")):
                continue
            if ln.startswith("---") or ln.startswith("+++"):
                continue
            if ln.startswith("-"):
                removed += 1
                if not owners[line].startswith("^"):
                    bad.append((f, line + 1))
                line += 1
            elif ln.startswith(" "):
                line += 1
    return removed, bad


def verify(d, tiers=("quick",), check=True):
    meta = json.loads((d / "meta.json").read_text())
    out = {"id": d.name, "property": meta["property"]}
    wt = copy_repo(d.name)
    try:
        patch = (d / "patch.diff").read_text()
        removed, bad = original_lines_only(patch)
        out["lines"] = "ok" if removed and not bad else f"removed {removed}, not original {bad}"
        env = clean_env()
        rc, log = sh(["bash", str(d / "demo.sh")], cwd=wt, env=env, timeout=300)
        out["demo_clean"] = rc
        if rc:
            out["log_clean"] = log[-1500:]
        rc, log = sh(["git", "apply", str(d / "patch.diff")], cwd=wt)
        out["apply"] = rc if rc == 0 else log
        rc, log = sh(["bash", str(d / "demo.sh")], cwd=wt, env=env, timeout=300)
        out["demo_patched"] = rc
        out["demo_says"] = log.strip().splitlines()[-1:] if rc else log[-300:]
        rc, log = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", *STABLE], cwd=wt,
                     env=clean_env(PYTHONPATH=str(wt / "src"), PYTHONDONTWRITEBYTECODE="1",
                                   PETSC_DIR="/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"))
        out["tests"] = re.findall(r"(\d+ \w+)", log.strip().splitlines()[-1])[:3]
        out["valid"] = out["lines"] == "ok" and out["demo_clean"] == 0 and out["apply"] == 0 and out["demo_patched"] not in (0, 124) and rc == 0
        if check:
            rc, log = sh([str(R / "run"), meta["property"]], env=dict(clean_env(), VERIF_REPO=str(wt), VERIF_SEED="1", VERIF_TIER="quick"))
            out["check_rc"] = rc
            out["caught"] = rc == 1 and f"VIOLATION property={meta['property']}" in log
            out["check_log"] = log[-1500:]
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return out


def main(argv):
    if argv[0] == "verify":
        dirs = [SEED / a for a in argv[1:]] or sorted(p for p in SEED.iterdir() if p.is_dir())
        res = {}
        with ThreadPoolExecutor(3) as ex:
            for o in ex.map(verify, dirs):
                res[o["id"]] = o
                print(o["id"], o["property"], "valid" if o["valid"] else "INVALID", "caught" if o.get("caught") else f"MISSED rc={o.get('check_rc')}", flush=True)
                if not o["valid"]:
                    print(json.dumps({k: v for k, v in o.items() if k != "check_log"}, indent=1))
                elif not o["caught"]:
                    print("   ", o["check_log"][-500:])
        f = Path("/tmp/seed-results.json")
        old = json.loads(f.read_text()) if f.exists() else {}
        old.update(res)
        f.write_text(json.dumps(old, indent=1))
    elif argv[0] == "table":
        res = json.loads(Path("/tmp/seed-results.json").read_text())
        for k in sorted(res):
            meta = json.loads((SEED / k / "meta.json").read_text())
            print(f"| {k} | {meta['property']} | {meta['what_it_breaks']} | {'caught' if res[k].get('caught') else 'missed'} |")


if __name__ == "__main__":
    main(sys.argv[1:])
