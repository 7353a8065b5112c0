from lib import plant
F='src/dxss/gmres.py'
COMMON='''
import numpy as np
from petsc4py import PETSc
from dxss.gmres import get_gmres_solution


class Op:
    def __init__(self, f):
        self.f = f

    def mult(self, mat, x, y):
        y.array[:] = self.f(np.array(x.getArray(readonly=True)))

    apply = mult


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array[:] = a
    return v


def solve(A, b, M=None, **kw):
    M = np.eye(len(b)) if M is None else M
    return get_gmres_solution(Op(lambda v: A @ v), vec(b), Op(lambda v: M @ v), **kw)


'''
plant('g01-zero-reltol','G01',F,[('    if reltol is None:\n','    if not reltol:\n')],COMMON+'''
rng = np.random.default_rng(0)
A = np.diag(np.linspace(1, 50, 40)) + 0.1 * rng.standard_normal((40, 40))
b = rng.standard_normal(40)
x, r = solve(A, b, tol=1e-11, reltol=0.0, printrates=False)
res = np.linalg.norm(b - A @ x.array)
assert res <= 1.01e-11, f"residual {res} although only the absolute tolerance 1e-11 is admitted"
''','a relative tolerance of exactly 0.0 (only the absolute criterion wanted)','reltol=0.0 is silently replaced by 1e-7, so the returned solution misses the requested tolerance by orders of magnitude')
plant('g02-nan-accepted','G02',F,[('    if ksp_reason < 0:\n','    if ksp_reason == PETSc.KSP.ConvergedReason.DIVERGED_MAX_IT:\n')],COMMON+'''
rng = np.random.default_rng(0)
A = np.diag(np.linspace(1, 50, 40)) + 0.1 * rng.standard_normal((40, 40))
b = rng.standard_normal(40)
n = [0]


def pre(v):
    n[0] += 1
    v = v.copy()
    if n[0] == 7:
        v[3] = np.nan
    return v


try:
    x, r = get_gmres_solution(Op(lambda v: A @ v), vec(b), Op(pre), printrates=False)
except PETSc.Error:
    pass
else:
    raise SystemExit(f"returned {x.array[:4]} after the preconditioner produced a NaN")
''','a solve that ends for another reason than the step limit, e.g. a NaN produced by operator or preconditioner in some step','every failure other than the step limit is returned as if it was a solution')
plant('g03-reused-solution','G03',F,[('def convergence_monitor(','_solutions = {}  # solution vectors by layout, to avoid repeated allocation\n\n\ndef convergence_monitor('),
 ('    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning\n','''    layout = (b.getComm().tompi4py().size, sizes)
    x = _solutions.get(layout)
    if x is None:
        x = _solutions[layout] = A_shell.createVecRight()
    x.set(0.0)  # sol vec conforming to matrix partitioning
''')],COMMON+'''
rng = np.random.default_rng(0)
A = np.diag(np.linspace(1, 5, 12))
b1, b2 = rng.standard_normal((2, 12))
x1, _ = solve(A, b1, printrates=False)
first = x1.array.copy()
x2, _ = solve(A, b2, printrates=False)
assert np.array_equal(x1.array, first), "the first solution was overwritten by the second solve"
''','two solves of the same size in one process, the first result being used after the second solve','the solution vector is re-used: a later solve overwrites the solution returned earlier')
plant('g04-first-line','G04',F,[('''    PETSc.Sys.Print(f"GMRes iteration {its:>3}, residual = {rnorm:4.2e}")''','''    residual = rnorm if its else ksp.getRhs().norm()
    PETSc.Sys.Print(f"GMRes iteration {its:>3}, residual = {residual:4.2e}")''')],COMMON+'''
import re
import subprocess
import sys

if len(sys.argv) == 1:
    out = subprocess.run([sys.executable, "-P", __file__, "x"], capture_output=True, text=True, check=True).stdout
    v = [float(s) for s in re.findall(r"residual = (\\S+)", out)]
    assert abs(v[0] - 5.0) < 0.01, f"initial line shows {v[0]}, the preconditioned residual is 5.0"
    raise SystemExit
b = np.zeros(8)
b[:2] = 6, 8
solve(np.diag(np.arange(1.0, 9)), b, M=0.5 * np.eye(8))
''','a preconditioner which is not norm preserving, and somebody reading the first line of the history','the first printed residual is that of the unpreconditioned problem')
plant('g05-default-layout','G05',F,[('    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning\n','    x = PETSc.Vec().createMPI(sizes[1], comm=b.getComm())  # solution vector\n')],'''
import faulthandler
import sys

faulthandler.dump_traceback_later(60, exit=True)  # a hang is a failure
import numpy as np
from mpi4py import MPI
import petsc4py

petsc4py.init()
from petsc4py import PETSc
from dxss.gmres import get_gmres_solution

world = MPI.COMM_WORLD
n = 9
A = np.diag(np.linspace(1, 4, n)) + 0.1


class Op:
    def mult(self, mat, x, y):
        xs = np.concatenate(world.allgather(np.array(x.getArray(readonly=True))))
        lo, hi = x.getOwnershipRange()
        y.array[:] = (A @ xs)[lo:hi]

    def apply(self, pc, x, y):
        x.copy(y)


v = PETSc.Vec().createMPI(([7, 0, 2][world.rank], n), comm=world)
v.set(1.0)
try:
    x, r = get_gmres_solution(Op(), v, Op(), reltol=1e-11, printrates=False)
    ref = np.linalg.solve(A, np.ones(n))
    lo, hi = v.getOwnershipRange()
    good = x.getOwnershipRange() == (lo, hi) and np.allclose(x.array, ref[lo:hi], atol=1e-8)
except PETSc.Error:
    good = False
sys.exit(0 if all(world.allgather(bool(good))) else 1)
''','a right-hand side whose distribution over the processes is not the default one (several processes)','the solution vector has the default distribution instead of that of the right-hand side, which makes the solve fail',
 cmd='exec timeout -k 5 100 mpirun --oversubscribe -n 3 /opt/venv/bin/python -P "$here/demo.py"')
plant('g06-order-of-options','G06',F,[('    ksp.setTolerances(rtol=reltol, atol=tol, max_it=maxsteps)\n\n','\n'),('tuning the solver\n','tuning the solver\n    ksp.setTolerances(rtol=reltol, atol=tol, max_it=maxsteps)\n')],COMMON+'''
o = PETSc.Options()
o["ksp_max_it"] = 3
try:
    solve(np.diag(np.arange(1.0, 30)), np.ones(29), printrates=False)
except PETSc.Error:
    pass
else:
    raise SystemExit("the step limit given as run-time option is ignored")
''','run-time options for tolerances or step limit','tolerances and step limit of the call overwrite those set as PETSc options')
