import numpy as np
from spec import timebasis as tb

from replay.problem import Problem, configs

RULE = "load vector compared with the exact time integral of the region-weighted loads of a space-time polynomial (quadrature is exact up to its tabulated digits)"
BOUND = "N in 1..4, degrees 0..3, both region kinds, with and without initial data"


def want(P):
    st, dt = P.st, P.T / P.N
    out = np.zeros(st.fes.ndofs)
    full = P.full()
    # exact integration in time by a high Gauss rule
    g, w = np.polynomial.legendre.leggauss(8)
    g, w = (g + 1) / 2, w / 2
    L = tb.lagrange(P.q)
    for n in range(P.N):
        for gi, wi in zip(g, w):
            ld = P.kern.load(P.k, lambda X: P.sol.at(n * dt + dt * gi, X), P.weight)
            for i in range(P.q + 1):
                out[full(0, n * (P.q + 1) + i)] += P.g["data"] * dt * wi * float(tb.peval(L[i], gi)) * ld
    if P.wp:
        M, K = P.kern.mat("mass", P.k, P.k), P.kern.mat("stiff", P.k, P.k)
        gj = P.g["primal-jump"]
        out[full(0, 0)] += gj / dt * (M @ P.u10) + gj * dt * (K @ P.u10)
        out[full(1, 0)] += gj / dt * (M @ P.u20)
    return out


def one(ctx, c):
    P = Problem(ctx, p=min(2, c["k"] + 1), **c)
    st = P.st
    n = st.fes_u1_0.ndofs
    P.u10, P.u20 = np.zeros(n), np.zeros(n)
    if ctx.rng.random() < 0.7:
        P.u10, P.u20 = ctx.np.uniform(-1, 1, n), ctx.np.uniform(-1, 1, n)
        st.u1_0.x.array[:] = P.u10
        st.u2_0.x.array[:] = P.u20
    order = ctx.rng.choice(["direct", "prepared", "lfi"])
    with P.quiet():
        if order == "prepared":
            st.prepare_precondition_gmres()
        elif order == "lfi":
            st.get_spacetime_lfi()
        b = st.get_spacetime_rhs().array.copy()
    W = want(P)
    ctx.close(f"{P.tag}: load vector ({order})", b, W, 1.5e-5, P.info)
    z = np.abs(W) == 0
    ctx.check(f"{P.tag}: no other load", b.shape == W.shape and float(np.abs(b[z]).max(initial=0)) < 1e-13, P.info)
    # one slab at a time, relative to its own size
    full = P.full()
    if b.shape == W.shape:
        for n_ in range(P.N):
            ix = np.concatenate([full(0, n_ * (P.q + 1) + i) for i in range(P.q + 1)])
            ctx.check(f"{P.tag}: load of slab {n_}", np.allclose(b[ix], W[ix], rtol=0, atol=2e-5 * max(abs(W[ix]).max(), 1e-3)), P.info)


def run(ctx):
    for c in configs(ctx, 18, flags=((False, False), (False, True), (True, True))):
        ctx.guard("load", lambda: one(ctx, c), c)
