"""create a seeded dir: edits on a copy of /repo"""
import json, os, shutil, subprocess
from pathlib import Path
SEED=Path('/verif/seeded')
DEMO_SH={
'plain':'''#!/bin/bash
# exit 0 if the property holds for the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$work
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl_vader_single_copy_mechanism=none
export DXSS_SRC=$PWD/src PYTHONPATH=$PWD/src:$here
cd "$work"
CMD
''',
}
def plant(pid, prop, file, edits, demo, needs, breaks, platform=False, cmd='exec /opt/venv/bin/python -P "$here/demo.py"', extra=None):
    d=SEED/pid
    shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    wt=Path('/tmp/plants/wt'); shutil.rmtree(wt,ignore_errors=True)
    subprocess.run(['git','-C','/repo','worktree','prune'],check=True)
    subprocess.run(['git','clone','-q','/repo',str(wt)],check=True)
    files=[(file,edits)] if isinstance(file,str) else list(zip(file,edits))
    for f,es in files:
        p=wt/f; s=p.read_text()
        for e in es:
            old,new=e[0],e[1]; which=e[2] if len(e)>2 else None
            n=s.count(old)
            if which is None:
                assert n==1,(pid,old,n)
                s=s.replace(old,new)
            elif which=='all':
                assert n>=1,(pid,old); s=s.replace(old,new)
            else:
                parts=s.split(old); assert len(parts)>which,(pid,old,n)
                s=old.join(parts[:which])+new+old.join(parts[which:])
        p.write_text(s)
    diff=subprocess.run(['git','diff'],cwd=wt,capture_output=True,text=True,check=True).stdout
    (d/'patch.diff').write_text(diff)
    sh=DEMO_SH['plain'].replace('CMD',cmd)
    if platform:
        sh=sh.replace('PYTHONPATH=$PWD/src:$here','PYTHONPATH=$PWD/src:$here:$here/platform:$here/platform/v06')
        shutil.copytree('/verif/platform',d/'platform',ignore=shutil.ignore_patterns('__pycache__'))
    (d/'demo.sh').write_text(sh); os.chmod(d/'demo.sh',0o755)
    (d/'demo.py').write_text(demo.lstrip('\n'))
    for k,v in (extra or {}).items(): (d/k).write_text(v.lstrip('\n'))
    (d/'meta.json').write_text(json.dumps({'property':prop,'needs':needs,'what_it_breaks':breaks},indent=1)+'\n')
    shutil.rmtree(wt)
    print(pid, len(diff.splitlines()))
