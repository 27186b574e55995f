from .._core import Constant, Expression, Form, Function, FunctionSpace, assemble_scalar, form
from . import petsc
functionspace = FunctionSpace


def VectorFunctionSpace(mesh, element, dim=None):
    return FunctionSpace(mesh, (element[0], element[1], (dim or mesh.dim,)))


def __getattr__(name):
    from fake_errors import FakeUnsupported

    if name.startswith("__"):
        raise AttributeError(name)
    raise FakeUnsupported(f"{__name__}.{name}")
