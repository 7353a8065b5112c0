"""Run under mpirun by G05: each rank checks its own part."""
import json
import os
import sys

import numpy as np
from mpi4py import MPI

world = MPI.COMM_WORLD
if sys.argv[1] == "hello":
    print("hello", world.rank)
    sys.exit()

import petsc4py  # noqa: E402

petsc4py.init()
from petsc4py import PETSc  # noqa: E402
from dxss.gmres import get_gmres_solution  # noqa: E402

saved = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
seed, tier = int(sys.argv[2]), sys.argv[3]


class Op:
    def __init__(self, A, comm):
        self.A, self.comm = A, comm

    def _do(self, x, y):
        xs = np.concatenate(self.comm.allgather(np.array(x.getArray(readonly=True))))
        lo, hi = x.getOwnershipRange()
        y.array[:] = (self.A @ xs)[lo:hi]

    mult = lambda self, m, x, y: self._do(x, y)  # noqa: E731
    apply = lambda self, m, x, y: self._do(x, y)  # noqa: E731


def layouts(rng, n, size):
    yield [None] * size
    yield [n] + [0] * (size - 1)
    yield [0] * (size - 1) + [n]
    cuts = np.sort(rng.integers(0, n + 1, size - 1))
    yield [int(v) for v in np.diff(np.concatenate(([0], cuts, [n])))]
    base = [n // size] * size
    base[-1] += n - sum(base)
    yield base


def trial(comm, name, n, locs, seed, out):
    rng = np.random.default_rng(seed)
    A = np.eye(n) * (2 + 0.3 * np.sqrt(n)) + 0.7 * rng.standard_normal((n, n))
    M = np.diag(1 / np.diag(A))
    bg = rng.standard_normal(n)
    v = PETSc.Vec().createMPI((locs[comm.rank], n) if locs[0] is not None else n, comm=comm)
    lo, hi = v.getOwnershipRange()
    v.array[:] = bg[lo:hi]
    problems = []
    try:
        x, r = get_gmres_solution(Op(A, comm), v, Op(M, comm), printrates=False, reltol=1e-12, maxsteps=200)
        if x.getSizes() != v.getSizes() or x.getOwnershipRange() != (lo, hi):
            problems.append(f"layout {x.getSizes()} instead of {v.getSizes()}")
        if MPI.Comm.Compare(x.getComm().tompi4py(), v.getComm().tompi4py()) not in (MPI.IDENT, MPI.CONGRUENT):
            problems.append("communicator differs")
        if not problems:
            ref = np.linalg.solve(A, bg)
            if not np.allclose(x.array, ref[lo:hi], rtol=0, atol=1e-8 * np.linalg.norm(ref)):
                problems.append(f"solution differs on rank {comm.rank}")
            if not np.allclose(r.array, (bg - A @ ref)[lo:hi], rtol=0, atol=1e-7 * np.linalg.norm(bg)):
                problems.append(f"residual differs on rank {comm.rank}")
            if not np.array_equal(v.array, bg[lo:hi]):
                problems.append("right-hand side changed")
    except Exception as e:  # noqa: BLE001
        problems.append(f"raised {type(e).__name__}: {str(e)[-160:]}")
    allp = [p for ps in comm.allgather(problems) for p in ps]
    if comm.rank == 0:
        out.append({"comm": name, "n": n, "layout": [v if v is not None else "auto" for v in locs], "problems": allp[:3]})


out = []
for n in (5, 23) if tier == "quick" else (5, 23, 60):
    rng = np.random.default_rng((seed, n))
    for locs in layouts(rng, n, world.size):
        trial(world, "world", n, locs, (seed, n, 1), out)
    trial(MPI.COMM_SELF, "self", n, [n], (seed, n, 2, world.rank), out)
    if world.size > 2:
        half = world.Split(world.rank % 2, world.rank)
        trial(half, "split", n, [None] * half.size, (seed, n, 3), out)
for part in world.allgather(out):
    if world.rank == 0:
        for o in part:
            os.write(saved, ("RESULT " + json.dumps(o) + "\n").encode())
