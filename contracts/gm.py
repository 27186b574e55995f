"""Harness of the iterative solver."""
from pyvc import loader, ring
from pyvc.runtime import PV
from world import base, krylov, numpy_


class Caller:
    """The caller's operator or preconditioner: opaque, must not be modified."""

    def __init__(self, n):
        self.n = n


def setup():
    w = krylov.World()
    P = krylov.petsc(w)
    world = {"petsc4py": base.mod("petsc4py", PETSc=P), "petsc4py.PETSc": P, "numpy": numpy_.make(), "math": base.make_math(),
             "sys": base.make_sys(), "time": base.make_time(), "mpi4py": base.mod("mpi4py", MPI=base.mod("mpi4py.MPI"))}
    g = loader.fresh_loader(world).load("dxss.gmres")
    n = ring.var("N", "int")
    b = krylov.Vec(w, krylov.vecatom("b"), n)
    return w, P, g, n, b
