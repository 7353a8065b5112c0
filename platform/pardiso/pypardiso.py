"""Stand-in for pypardiso 0.4: the solver object's interface on top of SciPy's SuperLU."""
import warnings

import numpy as np
import scipy.sparse as sp
from scipy.sparse.linalg import splu


class PyPardisoWarning(UserWarning):
    pass


class PyPardisoError(Exception):
    pass


class PyPardisoSolver:
    def __init__(self, mtype=11, phase=13, size_limit_storage=5e7):
        self.mtype, self.phase = mtype, phase
        self.factorized_A = sp.csr_matrix((0, 0))
        self._lu = None

    def factorize(self, A):  # noqa: N803
        self._check_A(A)
        self.factorized_A = A.copy()
        self.set_phase(12)
        self._call_pardiso(A, np.zeros((A.shape[0], 1)))

    def solve(self, A, b):  # noqa: N803
        self._check_A(A)
        b = self._check_b(A, b)
        self.set_phase(33 if self._is_already_factorized(A) else 13)
        return self._call_pardiso(A, b)

    def _is_already_factorized(self, A):  # noqa: N803
        B = self.factorized_A
        return A is B or (A.shape == B.shape and A.nnz == B.nnz and np.array_equal(A.indptr, B.indptr)
                          and np.array_equal(A.indices, B.indices) and np.array_equal(A.data, B.data))

    def _check_A(self, A):  # noqa: N802, N803
        if A.shape[0] != A.shape[1]:
            raise ValueError("Matrix A needs to be square, but has shape: {}".format(A.shape))
        if not sp.issparse(A) or A.format != "csr":
            raise TypeError("PyPardiso requires matrix A to be in CSR format, but matrix A is: {}".format(type(A)))
        if not A.has_sorted_indices:
            A.sort_indices()
        if not np.diff(A.indptr).all():
            raise ValueError("Matrix A is singular, because it contains empty row(s)")
        if A.dtype != np.float64:
            raise TypeError("PyPardiso currently only supports float64, but matrix A has dtype: {}".format(A.dtype))

    def _check_b(self, A, b):  # noqa: N803
        if sp.issparse(b):
            warnings.warn("PyPardiso requires the right-hand side b to be a dense array", PyPardisoWarning, stacklevel=2)
            b = b.toarray()
        if b.shape[0] != A.shape[0]:
            raise ValueError("Dimension mismatch: Matrix A {} and array b {}".format(A.shape, b.shape))
        if b.dtype != np.float64:
            if b.dtype in (np.float16, np.float32, np.int16, np.int32, np.int64):
                b = b.astype(np.float64)
            else:
                raise TypeError("Dtype {} for array b is not supported".format(b.dtype))
        if not b.flags.f_contiguous:
            b = np.asfortranarray(b)
        return b

    def set_phase(self, phase):
        self.phase = phase

    def set_matrix_type(self, mtype):
        self.mtype = mtype

    def free_memory(self, everything=False):
        self._lu = None
        self.factorized_A = sp.csr_matrix((0, 0))

    def _call_pardiso(self, A, b):  # noqa: N803
        if self.phase in (12, 13, 23):
            self._lu = splu(sp.csc_matrix(A))
        elif self.phase != 33:
            raise PyPardisoError(-1)
        x = np.zeros_like(b)
        if self.phase in (13, 23, 33):
            if self._lu is None or self._lu.shape != A.shape:
                raise PyPardisoError(-3)  # no factorisation in memory: the library reports an internal error
            x = self._lu.solve(np.ascontiguousarray(b))
        return x


ps = PyPardisoSolver()


def spsolve(A, b, factorize=True, squeeze=True, solver=ps):  # noqa: N803
    if factorize and not solver._is_already_factorized(A):
        solver.factorize(A)
    x = solver.solve(A, b)
    return x.squeeze() if squeeze else x


def factorized(A, solver=ps):  # noqa: N803
    solver.factorize(A)
    return lambda b: spsolve(A, b, solver=solver)
