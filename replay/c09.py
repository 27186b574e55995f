import numpy as np

from replay.problem import Problem, configs, dense

RULE = "slab matrices compared with the specified blocks and with the diagonal blocks of the assembled block-triangular matrix"
BOUND = "N in 1..4, degrees 0..3, all flags"


def one(ctx, c):
    P = Problem(ctx, **c)
    st = P.st
    with P.quiet():
        S, F = dense(st.get_slab_matrix()), dense(st.get_slab_matrix_first_slab())
        if not st.slab_matrix_no_dg_jumps:
            st.setup_slab_matrix(with_jumps=False)
        M = dense(st.slab_matrix_no_dg_jumps)
        B = dense(st.get_spacetime_matrix(precond=True))
    ctx.close(f"{P.tag}: slab matrix", S, P.want_slab(True), 1e-9, P.info)
    ctx.close(f"{P.tag}: slab matrix of products", M, P.want_slab(False), 1e-9, P.info)
    ctx.close(f"{P.tag}: first slab matrix", F, P.want_first(), 1e-9, P.info)
    full, pre = P.full(), P.pre()

    def diag(n):
        g, l = [], []
        for f in range(4):
            o = P.q if f < 2 else P.qs
            for i in range(o + 1):
                g.append(full(f, n * (o + 1) + i))
                l.append(pre(f, i))
        g, l = np.concatenate(g), np.concatenate(l)
        D = np.zeros_like(S)
        D[np.ix_(l, l)] = B[np.ix_(g, g)]
        return D, g

    if not P.fj:
        ctx.close(f"{P.tag}: first diagonal block", F, diag(0)[0], 1e-9, P.info)
        for n in range(1, P.N):
            ctx.close(f"{P.tag}: diagonal block {n}", S, diag(n)[0], 1e-9, P.info)
            g0, g1 = diag(n - 1)[1], diag(n)[1]
            ctx.check(f"{P.tag}: block lower triangular", float(np.abs(B[np.ix_(g0, g1)]).max()) < 1e-12, P.info)


def run(ctx):
    for c in configs(ctx, 14):
        ctx.guard("slab matrices", lambda: one(ctx, c), c)
