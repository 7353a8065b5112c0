"""Builds a small space-time problem for the demonstrations."""
import sys

sys.setrecursionlimit(10**6)
import dolfinx.mesh as dm
import numpy as np
import ufl
from mpi4py import MPI
from petsc4py import PETSc

from dxss.space_time import DataDomain, OrderSpace, OrderTime, ProblemParameters, SpaceTime, ValueAndDerivative

STABS = {"data": 30.0, "dual": 1.3, "primal": 0.4, "primal-jump": 2.0}


def left(x):
    return (x[0] <= 0.5).astype(float)


def sol(t, xu):
    return ufl.cos(2 * t) * ufl.sin(2 * xu[0])


def dsol(t, xu):
    return -2 * ufl.sin(2 * t) * ufl.sin(2 * xu[0])


def make(q=1, qs=1, k=1, ks=1, N=2, T=1.0, msh=None, n=4, jumps=False, well_posed=False, omega=left, fitted=True, stabs=STABS, v=sol, dv=dsol):
    msh = dm.create_unit_interval(MPI.COMM_WORLD, n) if msh is None else msh
    s = SpaceTime(
        OrderTime(q, qs), OrderSpace(k, ks), N=N, T=T, t=0, msh=msh, stabilisation_terms=dict(stabs),
        omega=DataDomain(indicator_function=omega, fitted=fitted), solution=ValueAndDerivative(v, dv),
        parameters=ProblemParameters(jumps_in_fw_problem=jumps, well_posed=well_posed),
    )
    s.setup_spacetime_finite_elements()
    return s


def square(n=2):
    return dm.create_unit_square(MPI.COMM_WORLD, n, n)


class LU:
    def __init__(self, mat):
        self.a = dense(mat)

    def solve(self, b, x):
        x.array[:] = np.linalg.solve(self.a, b.array)


def ready(**kw):
    s = make(**kw)
    s.prepare_precondition_gmres()
    s.set_solver_slab(LU(s.get_slab_matrix()))
    s.set_solver_first_slab(LU(s.get_slab_matrix_first_slab()))
    return s


def dense(mat):
    m, n = mat.getSize()
    return mat.getValues(range(m), range(n))


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array[:] = a
    return v


def size(s):
    return s.fes.dofmap.index_map.size_global * s.fes.dofmap.index_map_bs


def apply(f, a):
    y = vec(np.zeros(len(a)))
    f(vec(a), y)
    return y.array.copy()


def same(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return np.max(np.abs(a - b)) <= tol * max(np.max(np.abs(b)), 1e-12)
