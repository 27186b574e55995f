"""Shipped problem modules run with a recording problem class, tiny systems and stand-in solvers."""
import ast
import contextlib
import inspect
import os
import sys
import types

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from petsc4py import PETSc

from replay.harness import FakeUnsupported

REPO = os.environ.get("PV_REPO", "/repo")
MODS = {1: "solve_1d", 2: "solve_2d", 3: "solve_3d"}


class Pardiso:
    """Stand-in with the call protocol of pypardiso.PyPardisoSolver."""

    def __init__(self, *a, **k):
        self.lu, self.A, self.phase = None, None, 13

    def factorize(self, A):
        self._check_A(A)
        self.lu, self.A = spl.splu(sp.csc_matrix(A)), A.copy()

    def _check_A(self, A):
        if A.shape[0] != A.shape[1]:
            raise ValueError("Matrix A needs to be square")
        if not sp.issparse(A) or A.format != "csr":
            raise TypeError("PyPardiso requires matrix A to be in CSR or CSC format")

    def _check_b(self, A, b):
        if b.shape[0] != A.shape[0]:
            raise ValueError("Dimension mismatch")
        return np.asfortranarray(b, dtype=np.float64)

    def set_phase(self, p):
        self.phase = p

    def _call_pardiso(self, A, b):
        if self.phase != 33 or self.lu is None:
            raise FakeUnsupported("pardiso phase")
        return self.lu.solve(np.array(b))

    def solve(self, A, b):
        return spl.spsolve(sp.csc_matrix(A), b)


def mat(M):
    A = PETSc.Mat().createAIJ(M.shape, comm=PETSc.COMM_SELF, nnz=M.shape[1])
    for i, j in zip(*np.nonzero(M)):
        A.setValue(int(i), int(j), float(M[i, j]))
    A.assemble()
    return A


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array[:] = a
    return v


class Sample:
    """Records how the shipped module uses a problem; answers with a small fixed system."""

    made = []
    rng = np.random.default_rng(1)
    real = None

    def __init__(self, *a, **k):
        b = inspect.signature(Sample.real.__init__).bind(None, *a, **k)
        b.apply_defaults()
        self.args = dict(b.arguments)
        self.msh = self.args["msh"]
        Sample.made.append(self)
        n = self.n = 5
        r = Sample.rng
        self.S = np.eye(n) * 6 + r.standard_normal((n, n))
        self.F = np.eye(n) * 7 + r.standard_normal((n, n))
        up, lo = 0.3 * r.standard_normal((n, n)), 0.3 * r.standard_normal((n, n))
        self.Ag = np.block([[self.F, up], [lo, self.S]])
        self.Ap = np.block([[self.F, 0 * up], [lo, self.S]])
        self.rhs = r.standard_normal(2 * n)
        self.log, self.solver, self.first = [], None, None
        self.ready = set()

    def setup_spacetime_finite_elements(self):
        self.ready.add("fe")

    def prepare_precondition_gmres(self):
        assert "fe" in self.ready
        self.ready.add("pre")

    def get_spacetime_rhs(self):
        assert "fe" in self.ready
        self.b = vec(self.rhs)
        return self.b

    def get_spacetime_matrix(self, precond=False):
        return mat(self.Ap if precond else self.Ag)

    def get_slab_matrix(self):
        return mat(self.S)

    def get_slab_matrix_first_slab(self):
        return mat(self.F)

    def set_solver_slab(self, s):
        self.solver = s

    def set_solver_first_slab(self, s):
        self.first = s

    def apply_spacetime_matrix(self, x, y):
        assert "pre" in self.ready
        y.array[:] = self.Ag @ x.array_r

    def _pre(self, b, x):
        assert "pre" in self.ready
        n = self.n
        o = vec(np.zeros(n))
        self.first.solve(vec(b.array_r[:n]), o)
        u0 = o.array.copy()
        self.solver.solve(vec(b.array_r[n:] - self.Ap[n:, :n] @ u0), o)
        x.array[:] = np.concatenate([u0, o.array])

    pre_time_marching = pre_time_marching_improved = _pre

    def measured_errors(self, u, verbose=False):
        self.log.append(("errors", u.array.copy()))

    def plot_error(self, u, *a, **k):
        self.log.append(("plot", u.array.copy()))

    plot = plot_error

    def plot_para_view(self, u, *a, **k):
        self.log.append(("plot", u.array.copy()))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise FakeUnsupported(f"problem.{name}")


class Const(ast.NodeTransformer):
    def __init__(self, consts):
        self.consts, self.hit = consts, set()

    def visit_FunctionDef(self, n):
        return n

    def visit_Assign(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name) and t.id in self.consts:
                self.hit.add(t.id)
                n.value = ast.Constant(self.consts[t.id])
        return n


@contextlib.contextmanager
def quiet():
    from replay.c18 import quiet as q
    with q():
        yield


def load(dim, consts=None, pardiso=False):
    """Execute the module source of /repo with constants overridden; returns (namespace, problem, meshes)."""
    import dolfinx.mesh as dm
    import dxss.space_time as st
    import importlib.metadata as md
    name = MODS[dim]
    src = open(f"{REPO}/src/dxss/{name}.py").read()
    tree = ast.parse(src)
    c = Const(consts or {})
    tree = ast.fix_missing_locations(c.visit(tree))
    if consts and c.hit != set(consts):
        raise FakeUnsupported(f"{name} no longer defines {set(consts) - c.hit}")
    if Sample.real is None:
        Sample.real = st.SpaceTime
        v = md.version
        md.version = lambda p: "0.6.0" if p == "fenics-dolfinx" else v(p)
    import dxss.meshes as ms
    meshes = []
    keep = (dm.create_unit_interval, dm.create_interval, dm.create_box, ms.get_mesh_data_all_around, st.SpaceTime, sys.modules.get("pypardiso", 0))

    def rec(kind, real):
        def f(*a, **k):
            b = inspect.signature(keep_real[kind]).bind(*a, **k)
            b.apply_defaults()
            m = real(b.arguments)
            meshes.append({"kind": kind, "args": dict(b.arguments), "mesh": m})
            return m
        return f

    keep_real = {"interval": keep[0], "interval2": keep[1], "box": keep[2], "around": keep[3]}
    dm.create_unit_interval = rec("interval", lambda a: keep[0](a["comm"], 4))
    dm.create_interval = rec("interval2", lambda a: keep[1](a["comm"], 4, a["points"]))
    dm.create_box = rec("box", lambda a: keep[2](a["comm"], a["points"], [2, 2, 2]))
    ms.get_mesh_data_all_around = rec("around", lambda a: [dm.create_unit_square(dm.MPI.COMM_WORLD, 2, 2) for _ in range(a["n_ref"] + 1)])
    st.SpaceTime = Sample
    if pardiso:
        pp = types.ModuleType("pypardiso")
        pp.PyPardisoSolver = Pardiso
        pp.spsolve = lambda A, b: spl.spsolve(sp.csc_matrix(A), b)
        sys.modules["pypardiso"] = pp
    else:
        sys.modules["pypardiso"] = None
    mod = types.ModuleType(f"dxss.{name}")
    mod.__file__ = f"{REPO}/src/dxss/{name}.py"
    mod.__package__ = "dxss"
    Sample.made = []
    try:
        with quiet():
            exec(compile(tree, mod.__file__, "exec"), mod.__dict__)
    finally:
        dm.create_unit_interval, dm.create_interval, dm.create_box, ms.get_mesh_data_all_around, st.SpaceTime = keep[:5]
        if keep[5] == 0:
            sys.modules.pop("pypardiso", None)
        else:
            sys.modules["pypardiso"] = keep[5]
    (p,) = Sample.made
    return mod, p, meshes
