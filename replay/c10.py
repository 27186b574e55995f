import numpy as np
from spec import forms

from replay.oracle import assemble
from replay.problem import Problem, configs, dense

RULE = "both preconditioners compared with block forward substitution built from the specified blocks; the slab solvers are random well-conditioned matrices as well as the true slab matrices"
BOUND = "N in 1..4, degrees 0..3, all flags"


def transfer(P):
    """Sub-diagonal transfer: right-hand side of slab n from the end node of slab n-1, in slab numbering (end node -> rhs)."""
    q, pre = P.q, P.pre()
    p = P.P
    t = [(p.gj * p.idt, (0, 0), (0, q), "mass"), (p.gj * p.dt, (0, 0), (0, q), "stiff"), (p.gj * p.idt, (1, 0), (1, q), "mass")]
    if P.fj:
        t += [(1, (3, 0), (0, q), "mass"), (1, (2, 0), (1, q), "mass")]
    return assemble(t, P.kern, P.deg, pre, P.st.fes_p.ndofs)


def substitution(P, S, F, b):
    full, pre = P.full(), P.pre()
    R = transfer(P)
    x = np.zeros(P.st.fes.ndofs)
    prev = None
    for n in range(P.N):
        r = np.zeros(P.st.fes_p.ndofs)
        for f in range(4):
            o = P.q if f < 2 else P.qs
            for i in range(o + 1):
                r[pre(f, i)] = b[full(f, n * (o + 1) + i)]
        if n:
            r += R @ prev
        prev = np.linalg.solve(S if n else F, r)
        for f in range(4):
            o = P.q if f < 2 else P.qs
            for i in range(o + 1):
                x[full(f, n * (o + 1) + i)] = prev[pre(f, i)]
    return x


def one(ctx, c):
    P = Problem(ctx, **c)
    st = P.st
    with P.quiet():
        st.prepare_precondition_gmres()
    m = st.fes_p.ndofs
    cases = [("random slab systems", np.eye(m) * 3 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m), np.eye(m) * 2 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m))]
    if not P.fj:
        with P.quiet():
            S, F = dense(st.get_slab_matrix()), dense(st.get_slab_matrix_first_slab())
        if max(np.linalg.cond(S), np.linalg.cond(F)) < 1e6:
            cases.append(("true slab systems", S, F))
    for name, S, F in cases:
        st.set_solver_slab(P.dense_solver(S))
        st.set_solver_first_slab(P.dense_solver(F))
        for meth in ("pre_time_marching", "pre_time_marching_improved"):
            for rep in range(2):
                b, x = P.vec(), P.vec()
                b0 = b.array.copy()
                if meth.endswith("improved") and P.fj:
                    try:
                        with P.quiet():
                            st.pre_time_marching_improved(b, x)
                        ctx.check(f"{P.tag}: {meth} refuses forward jumps", False, P.info)
                    except Exception:  # noqa: BLE001
                        ctx.check(f"{P.tag}: {meth} refuses forward jumps", True)
                    continue
                with P.quiet():
                    getattr(st, meth)(b, x)
                ctx.close(f"{P.tag}: {meth}, {name}", x.array, substitution(P, S, F, b0), 1e-8, P.info)
        # as in the block-triangular assembled matrix
        if name == "true slab systems":
            with P.quiet():
                B = dense(st.get_spacetime_matrix(precond=True))
                b, x = P.vec(), P.vec()
                st.pre_time_marching(b, x)
            ctx.close(f"{P.tag}: solves the block-triangular system", B @ x.array, b.array, 1e-6, P.info)


def run(ctx):
    for c in configs(ctx, 14):
        ctx.guard("time marching", lambda: one(ctx, c), c)
