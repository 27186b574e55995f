"""Small problems on the stand-in libraries beside this file."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.getcwd(), "src"), os.path.join(HERE, "fakes"), HERE]

import contextlib  # noqa: E402
import io  # noqa: E402

import numpy as np  # noqa: E402
import scipy.sparse as sp  # noqa: E402
from dolfinx._core import Mesh  # noqa: E402
from mpi4py import MPI  # noqa: E402
from petsc4py import PETSc  # noqa: E402

RNG = np.random.default_rng(5)


def interval(x=(0.0, 0.4, 1.0)):
    return Mesh(np.array(x)[:, None], [[i, i + 1] for i in range(len(x) - 1)], MPI.COMM_SELF)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def sol(t, x):
    return (1 + 2 * t - t * t) * (1 + x[0])


def dsol(t, x):
    return (2 - 2 * t) * (1 + x[0])


def make(q=1, qs=1, k=1, ks=1, N=2, T=1.3, fj=False, wp=False, mesh=None, omega=None, fitted=True, v=sol, dv=dsol, setup=True, stabs=None):
    import dxss.space_time as s
    dd = s.DataDomain(indicator_function=omega or (lambda x: np.where(x[0] <= 0.4, 1.0, 0.0)), fitted=fitted)
    stabs = stabs or {"data": 1.7, "dual": 0.9, "primal": 0.6, "primal-jump": 1.4}
    with quiet():
        st = s.SpaceTime(s.OrderTime(q, qs), s.OrderSpace(k, ks), N, T, 0.0, mesh or interval(), stabs, dd, s.ValueAndDerivative(v, dv),
                         s.ProblemParameters(jumps_in_fw_problem=fj, well_posed=wp))
        if setup:
            st.setup_spacetime_finite_elements()
    return st


def dense(M):
    a, b, v = M.getValuesCSR()
    return sp.csr_matrix((v, b, a), shape=M.getSize()).toarray()


def vec(n, a=None):
    w = PETSc.Vec().createSeq(n, comm=MPI.COMM_SELF)
    w.array[:] = RNG.uniform(-1, 1, n) if a is None else a
    return w


class Lu:
    def __init__(self, M):
        self.M = dense(M)

    def solve(self, b, x):
        x.array[:] = np.linalg.solve(self.M, b.array)


def ready(st):
    with quiet():
        st.prepare_precondition_gmres()
        st.set_solver_slab(Lu(st.get_slab_matrix()))
        st.set_solver_first_slab(Lu(st.get_slab_matrix_first_slab()))
    return st


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (a.shape, b.shape)
    d = float(np.max(np.abs(a - b))) if a.size else 0.0
    assert d <= tol * max(1.0, float(np.max(np.abs(b)))), d
