"""Iterative solve: converged solution of its own system, or an exception."""
import contextlib
import io
import os
import sys

import numpy as np
from petsc4py import PETSc

RULE = "random dense systems and preconditioners through the real PETSc; forced convergence reasons; inputs compared before and after"
BOUND = "sizes 1..30, PETSc 3.19 GMRES"


class Op:
    def __init__(self, M):
        self.M = M.copy()

    def mult(self, mat, x, y):
        y.array[:] = self.M @ x.array_r


class Pre:
    def __init__(self, M):
        self.M = M.copy()

    def apply(self, pc, x, y):
        y.array[:] = self.M @ x.array_r


@contextlib.contextmanager
def quiet():
    """Silence C-level output as well."""
    sys.stdout.flush()
    save = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.stdout.flush()
        os.dup2(save, 1)
        os.close(save)
        os.close(nul)


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array[:] = a
    return v


def random_system(ctx, n):
    r = ctx.np
    M = np.eye(n) * (2 + n) + r.standard_normal((n, n))
    P = np.linalg.inv(M + 0.3 * r.standard_normal((n, n)))
    return M, P, r.standard_normal(n)


def solve(g, M, P, b, **kw):
    A, pre, bv = Op(M), Pre(P), vec(b)
    err = None
    with quiet():
        try:
            x, res = g(A, bv, pre, **kw)
        except Exception as e:  # noqa: BLE001
            err, x, res = e, None, None
    same = np.array_equal(bv.array, b) and np.array_equal(A.M, M) and np.array_equal(pre.M, P)
    return err, x, res, same


def run(ctx):
    import dxss.gmres as G
    g = G.get_gmres_solution
    for i in range(60 if not ctx.deep else 400):
        n = ctx.rng.randrange(1, 31)
        M, P, b = random_system(ctx, n)
        if i % 3 == 1:
            P = np.eye(n)
        kw = {}
        if i % 4 == 1:
            kw = {"tol": 1e-9, "reltol": 1e-13, "printrates": False}
        elif i % 4 == 2:
            kw = {"reltol": 1e-3, "restart": 5, "printrates": False}
        elif i % 4 == 3:
            kw = {"tol": 10.0 ** -ctx.rng.randrange(2, 9), "reltol": 0.0, "restart": 40}
        err, x, res, same = solve(g, M, P, b, **kw)
        inp = {"n": n, "case": i, "settings": kw}
        if not ctx.check("solvable system: no exception", err is None, {**inp, "exception": repr(err)}):
            continue
        r = b - M @ x.array
        lim = max(kw.get("reltol", 1e-7) * np.linalg.norm(P @ b), kw.get("tol", 1e-12))
        ctx.check("solvable system: preconditioned residual within the requested tolerance", np.linalg.norm(P @ r) <= lim * 1.01 + 1e-13,
                  {**inp, "residual": float(np.linalg.norm(P @ r)), "limit": float(lim)})
        ctx.close("returned residual is b - A x", res.array, r, 1e-8, inp)
        ctx.check("operator, preconditioner and right-hand side unmodified", same, inp)
    # a zero right-hand side
    M, P, b = random_system(ctx, 7)
    err, x, res, same = solve(g, M, P, 0 * b)
    ctx.check("zero right-hand side", err is None and not np.any(x.array) and not np.any(res.array) and same)
    # iteration limit, breakdown, not-a-number
    for i in range(12):
        n = ctx.rng.randrange(6, 25)
        M, P, b = random_system(ctx, n)
        for mx in (1, 2, 3):
            err, x, res, same = solve(g, M, np.eye(n), b, maxsteps=mx, tol=1e-30, reltol=1e-14)
            ctx.check("iteration limit raises", err is not None, {"n": n, "maxsteps": mx})
            ctx.check("right-hand side unmodified when raising", same)
    S = np.zeros((4, 4))
    S[0, 1] = 1.0
    err, x, _, _ = solve(g, S, np.eye(4), np.array([0.0, 1.0, 0, 0]))
    ctx.check("singular system raises", err is not None, {"x": None if x is None else x.array.tolist()})
    err, x, _, _ = solve(g, np.full((3, 3), np.nan), np.eye(3), np.ones(3))
    ctx.check("not-a-number raises", err is not None)
    err, x, _, _ = solve(g, np.eye(3), np.full((3, 3), np.nan), np.ones(3))
    ctx.check("not-a-number preconditioner raises", err is not None)
    # every reason code
    real = PETSc.KSP
    for code in [-2, -3, -4, -5, -6, -7, -8, -9, -10, -11, 2, 3, 4, 9, 1]:
        class K(real):
            def getConvergedReason(self, _c=code):
                return _c

            reason = property(getConvergedReason)
            converged = property(lambda s, _c=code: _c > 0)
            diverged = property(lambda s, _c=code: _c < 0)
            is_converged, is_diverged = converged, diverged
        PETSc.KSP = K
        try:
            M, P, b = random_system(ctx, 6)
            err, x, res, same = solve(g, M, P, b)
        finally:
            PETSc.KSP = real
        ctx.check(f"reason {code}: {'raises' if code < 0 else 'returns'}", (err is not None) == (code < 0), {"reason": code})
