"""PETSc assembly."""
import numpy as np
from petsc4py import PETSc

from ..errors import MiniUnsupported, make_getattr
from ._form import assemble_csr, assemble_vector_array
from ._form import form as _form


def create_vector(L):
    L = _form(L)
    V = L.function_spaces[0]
    v = PETSc.Vec().createMPI(V.num_dofs, comm=V.mesh.comm)
    v.set(0.0)
    return v


def create_matrix(a, mat_type=None):
    m, f = assemble_csr(a)
    m.data[:] = 0
    A = _to_petsc(m, f)
    A.assemble()
    return A


def _to_petsc(m, f):
    A = PETSc.Mat().create(comm=f.mesh.comm)
    A.setSizes(m.shape)
    A.setType(PETSc.Mat.Type.AIJ)
    A.setPreallocationNNZ(np.diff(m.indptr).astype(PETSc.IntType))
    A.setOption(PETSc.Mat.Option.IGNORE_ZERO_ENTRIES, False)
    A.setValuesCSR(m.indptr.astype(PETSc.IntType), m.indices.astype(PETSc.IntType), m.data)
    return A  # as in DOLFINx, the caller has to call assemble()


def assemble_vector(b_or_L, L=None, *args, **kw):
    if isinstance(b_or_L, PETSc.Vec):
        if L is None:
            raise TypeError("assemble_vector(b, L): missing form")
        b_or_L.array[:] += assemble_vector_array(L)
        return b_or_L
    L = b_or_L
    b = create_vector(L)
    b.array[:] += assemble_vector_array(L)
    return b


def assemble_matrix(*args, bcs=(), diagonal=1.0, **kw):
    A = None
    if isinstance(args[0], PETSc.Mat):
        A, a, rest = args[0], args[1], args[2:]
    else:
        a, rest = args[0], args[1:]
    if rest:
        bcs = rest[0]
    if bcs is not None and len(bcs):
        raise MiniUnsupported("Dirichlet conditions")
    m, f = assemble_csr(a)
    if A is None:
        return _to_petsc(m, f)
    A.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
    A.setValuesCSR(m.indptr.astype(PETSc.IntType), m.indices.astype(PETSc.IntType), m.data,
                   addv=PETSc.InsertMode.ADD_VALUES)
    return A


__getattr__ = make_getattr(__name__)
