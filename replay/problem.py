"""Random small problems built with the real SpaceTime class on stand-in meshes."""
import contextlib
import io

import dolfinx
import numpy as np
from dolfinx import fem
from dolfinx._core import Mesh
from dolfinx.mesh import _grid
from mpi4py import MPI
from petsc4py import PETSc
from spec import forms

from replay.oracle import Kernels, assemble, dense


def random_mesh(ctx, dim, small=False):
    if dim == 1:
        n = 2 + int(ctx.np.integers(0, 2))
        x = np.concatenate([[0.0], np.sort(ctx.np.uniform(0.15, 0.85, n - 1)), [1.0]])
        if n == 3 and x[2] - x[1] < 0.1:
            x[1], x[2] = 0.3, 0.72
        return Mesh(x[:, None], [[i, i + 1] for i in range(n)], MPI.COMM_SELF)
    ns = [1] * dim if (dim == 3 or small) else [2, 1]
    pts, cells = _grid(ns, [0] * dim, [1] * dim)
    pts = np.array(pts) + ctx.np.uniform(-0.12, 0.12, (len(pts), dim))
    return Mesh(pts, cells, MPI.COMM_SELF)


class Poly:
    """Space-time polynomial reference solution usable with floats, numpy arrays and UFL coordinates."""

    def __init__(self, ctx, dim, p):
        self.dim = dim
        self.a = ctx.np.uniform(-1, 1, (3, p + 1, dim))
        self.p = p

    def space(self, i, x):
        s = 0.0
        for d in range(self.dim):
            for e in range(self.p + 1):
                s = s + float(self.a[i, e, d]) * (x[d] ** e if e else 1.0)
        return s

    def v(self, t, x):
        return sum(self.space(i, x) * t**i for i in range(3))

    def dvdt(self, t, x):
        return self.space(1, x) + 2 * t * self.space(2, x)

    def at(self, t, X):  # X (..., dim)
        return self.v(t, [X[..., d] for d in range(self.dim)]) + np.zeros(X.shape[:-1])

    def dat(self, t, X):
        return self.dvdt(t, [X[..., d] for d in range(self.dim)]) + np.zeros(X.shape[:-1])


class Counter:
    """Forwards to a sequential communicator; remembers reductions."""


class Problem:
    def __init__(self, ctx, dim=1, q=1, qs=1, k=1, ks=1, N=2, T=None, fj=False, wp=False, fitted=True, mesh=None, gj=None, p=None, build=True, sol=None,
                 omega=None, stabs=None):
        import dxss.space_time as stm

        self.ctx, self.stm = ctx, stm
        self.q, self.qs, self.k, self.ks, self.N, self.fj, self.wp, self.dim = q, qs, k, ks, N, fj, wp, dim
        self.T = float(ctx.np.uniform(0.6, 1.7)) if T is None else T
        self.mesh = mesh or random_mesh(ctx, dim)
        self.g = stabs or dict(zip(("data", "dual", "primal", "primal-jump"), map(float, ctx.np.uniform(0.4, 2.0, 4))))
        self.fitted = fitted
        self.cut = float(ctx.np.uniform(0.3, 0.7))
        cut = self.cut
        if omega is not None:
            self.ind = omega
            self.weight = None
        elif fitted:
            self.ind = lambda x: np.where(x[0] <= cut, 1.0, 0.25) + np.zeros(x.shape[1])
            self.weight = self._dg0
        else:
            V = fem.FunctionSpace(self.mesh, ("CG", 1))
            self.ind = fem.Function(V)
            self.ind.interpolate(lambda x: 0.3 + 0.5 * x[0] ** 2)
            self.weight = self._cg1
        self.dd = stm.DataDomain(indicator_function=self.ind, fitted=fitted)
        self.sol = sol or Poly(ctx, dim, (k + 1) if p is None else p)
        self.vd = stm.ValueAndDerivative(self.sol.v, self.sol.dvdt)
        self.par = stm.ProblemParameters(jumps_in_fw_problem=fj, well_posed=wp)
        self.tag = f"{dim}D q={q} q*={qs} k={k} k*={ks} N={N} T={self.T:.4g} fj={fj} wp={wp} fitted={fitted}"
        self.info = {"dim": dim, "q": q, "qstar": qs, "k": k, "kstar": ks, "N": N, "T": self.T, "jumps_in_fw_problem": fj, "well_posed": wp,
                     "fitted": fitted, "stabilisation": self.g, "mesh": [self.mesh.pts.tolist(), self.mesh.cells.tolist()], "seed": ctx.seed}
        with self.quiet():
            self.st = stm.SpaceTime(stm.OrderTime(q, qs), stm.OrderSpace(k, ks), N, self.T, 0.0, self.mesh, self.g, self.dd, self.vd, self.par)
            if build:
                self.st.setup_spacetime_finite_elements()
        self.kern = Kernels(self.mesh, self.weight)
        self.P = forms.P(q, qs, self.T / N, 5 * k**2, self.g["data"], self.g["dual"], self.g["primal"], self.g["primal-jump"], fj=fj, wp=wp)
        self.P.E = {kk: [[float(x) for x in r] for r in v] for kk, v in self.P.E.items()}
        self.deg = {0: k, 1: k, 2: ks, 3: ks}

    @staticmethod
    def quiet():
        return contextlib.redirect_stdout(io.StringIO())

    def _dg0(self, X):
        mid = self.mesh.pts[self.mesh.cells].mean(1)
        p = np.zeros((3, len(mid)))
        p[: self.dim] = mid.T
        v = self.ind(p)
        return np.broadcast_to(v[:, None], X.shape[:-1])

    def _cg1(self, X):
        V = self.ind.function_space
        from dolfinx._core import locate, RefEl  # noqa: F401
        return self.kern.values(1, self.ind.x.array)

    # layouts: independent of the tables of the code under test
    def lay(self, space, counts):
        off = np.concatenate([[0], np.cumsum(counts)])
        return lambda f, i: space.dof[off[f] + i]

    def full(self, space=None):
        a, b = (self.q + 1) * self.N, (self.qs + 1) * self.N
        return self.lay(space or self.st.fes, [a, a, b, b])

    def pre(self):
        a, b = self.q + 1, self.qs + 1
        return self.lay(self.st.fes_p, [a, a, b, b])

    def want_global(self, precond=False):
        return assemble(forms.global_terms(self.P, self.N, precond), self.kern, self.deg, self.full(), self.st.fes.ndofs)

    def want_slab(self, with_jumps):
        return assemble(forms.slab_matrix_terms(self.P, with_jumps), self.kern, self.deg, self.pre(), self.st.fes_p.ndofs)

    def want_first(self):
        return assemble(forms.first_slab_terms(self.P), self.kern, self.deg, self.pre(), self.st.fes_p.ndofs)

    def vec(self, n=None):
        v = PETSc.Vec().createSeq(n or self.st.fes.ndofs, comm=MPI.COMM_SELF)
        v.array[:] = self.ctx.np.uniform(-1, 1, v.getSize())
        return v

    def dense_solver(self, A, log=None):
        class S:
            def solve(_, b, x):  # noqa: N805
                if log is not None:
                    log.append(b.array.copy())
                x.array[:] = np.linalg.solve(A, b.array)
        return S()


CONFIGS = [
    dict(dim=1, q=1, qs=1, k=1, ks=1, N=1), dict(dim=1, q=1, qs=1, k=1, ks=1, N=3), dict(dim=1, q=2, qs=1, k=2, ks=1, N=2),
    dict(dim=1, q=1, qs=0, k=2, ks=2, N=3), dict(dim=1, q=0, qs=1, k=1, ks=2, N=3), dict(dim=1, q=3, qs=2, k=3, ks=1, N=2),
    dict(dim=2, q=1, qs=1, k=1, ks=1, N=2), dict(dim=2, q=1, qs=0, k=2, ks=1, N=2), dict(dim=1, q=2, qs=3, k=1, ks=1, N=2),
]


def configs(ctx, n=None, flags=((False, False), (False, True), (True, False), (True, True)), dims=(1, 2)):
    """A spread of configurations; every flag pair with several orders; order depends on the seed."""
    out = []
    for i, c in enumerate(CONFIGS):
        for j, (fj, wp) in enumerate(flags):
            if c["dim"] in dims:
                out.append(dict(c, fj=fj, wp=wp, fitted=(i + j) % 2 == 0))
    if ctx.deep:
        for _ in range(40):
            out.append(dict(dim=int(ctx.np.integers(1, 3)), q=int(ctx.np.integers(0, 4)), qs=int(ctx.np.integers(0, 4)), k=int(ctx.np.integers(1, 4)),
                            ks=int(ctx.np.integers(1, 3)), N=int(ctx.np.integers(1, 5)), fj=bool(ctx.np.integers(0, 2)), wp=bool(ctx.np.integers(0, 2)),
                            fitted=bool(ctx.np.integers(0, 2))))
        out.append(dict(dim=3, q=1, qs=1, k=1, ks=1, N=2, fj=False, wp=False, fitted=True))
    ctx.rng.shuffle(out)
    return out if n is None or ctx.deep else out[:n]


def reldiff(a, b):
    return float(np.max(np.abs(a - b)) / max(1e-300, np.max(np.abs(b))))
