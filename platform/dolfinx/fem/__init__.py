"""Finite element part of the stand-in."""
from ..errors import make_getattr
from ._form import Form, assemble_csr, assemble_vector_array, form
from ._form import assemble_scalar_ as assemble_scalar
from ._space import (
    Constant,
    Expression,
    Function,
    FunctionSpace,
    TensorFunctionSpace,
    VectorFunctionSpace,
    functionspace,
)


def assemble_vector(L, *args, **kw):
    from ..la import Vector

    return Vector(assemble_vector_array(L))


FormMetaClass = Form
from . import petsc  # noqa: E402,F401

__getattr__ = make_getattr(__name__)
