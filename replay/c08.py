import numpy as np
from spec import forms

from replay.oracle import assemble
from replay.problem import Problem, configs, dense

RULE = "matrix-free product compared with the assembled matrix on all unit vectors and random vectors"
BOUND = "N in 1..4, degrees 0..3, all flags (forward jumps: compared with the recorded deviation)"


def known_dev(P):
    """Recorded finding: with forward jumps the matrix-free product leaves out the forward/adjoint jump and dual start terms of the
    interfaces, and for a well-posed problem adds those of the first slab matrix at the initial time."""
    t = []
    for n in range(P.N):
        s, ss = n * (P.q + 1), n * (P.qs + 1)
        t += forms.slab(P.P, s, ss)
        if n == 0 and P.wp:
            t += forms.initial(P.P) + [(1, (3, 0), (0, 0), "mass"), (1, (2, 0), (1, 0), "mass")] + forms.dual_start(P.P, 0)
        if n > 0:
            fj, P.P.fj = P.P.fj, False
            t += forms.interface(P.P, s, ss)
            P.P.fj = fj
    return assemble(t, P.kern, P.deg, P.full(), P.st.fes.ndofs)


def one(ctx, c):
    P = Problem(ctx, **c)
    st = P.st
    with P.quiet():
        st.prepare_precondition_gmres()
        A = dense(st.get_spacetime_matrix())
    x, y = P.vec(), P.vec()
    n = x.getSize()
    M = np.zeros((n, n))
    for i in range(n):
        x.array[:] = 0.0
        x.array[i] = 1.0
        y.array[:] = ctx.np.uniform(-1, 1, n)
        st.apply_spacetime_matrix(x, y)
        M[:, i] = y.array
    if not P.fj:
        ctx.close(f"{P.tag}: product with every unit vector", M, A, 1e-9, P.info)
    else:
        if P.N > 1 or P.wp:
            ctx.check(f"{P.tag}: agrees with the assembled matrix", np.allclose(M, A, rtol=0, atol=1e-9 * abs(A).max()), P.info,
                      finding="C08-forward-jumps")
        else:
            ctx.close(f"{P.tag}: product with every unit vector", M, A, 1e-9, P.info)
        if not np.allclose(M, A, rtol=0, atol=1e-9 * abs(A).max()):
            ctx.close(f"{P.tag}: product (beyond the recorded deviation)", M, known_dev(P), 1e-9, P.info)
    for _ in range(2):
        x, y = P.vec(), P.vec()
        x0 = x.array.copy()
        st.apply_spacetime_matrix(x, y)
        ctx.close(f"{P.tag}: random vector", y.array, M @ x0, 1e-9, P.info)


def run(ctx):
    for c in configs(ctx, 14):
        ctx.guard("product", lambda: one(ctx, c), c)
