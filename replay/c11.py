import numpy as np

from replay.problem import Problem, configs, dense, random_mesh

RULE = "every application twice with scrambled outputs and scratch, with measurements and plots in between; inputs, matrices and right-hand side compared before and after"
BOUND = "random histories of length 8 per configuration"


def one(ctx, c):
    import matplotlib.pyplot as plt
    P = Problem(ctx, **c)
    st, stm = P.st, P.stm
    with P.quiet():
        st.prepare_precondition_gmres()
        A = dense(st.get_spacetime_matrix())
    m = st.fes_p.ndofs
    S = np.eye(m) * 3 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m)
    F = np.eye(m) * 2 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m)
    st.set_solver_slab(P.dense_solver(S))
    st.set_solver_first_slab(P.dense_solver(F))
    coarse = P.fitted and ctx.rng.random() < 0.5
    if coarse:
        with P.quiet():
            st.prepare_coarse_grid_correction(random_mesh(ctx, P.dim, small=True))
        mc = st.fes_coarse.ndofs
        C = np.eye(mc) * 2 + ctx.np.uniform(-0.4, 0.4, (mc, mc)) / np.sqrt(mc)
        st.set_solver_coarse(P.dense_solver(C))
    pcw, matw = stm.SpaceTimePETScPreconditionerWrapper(st), stm.SpaceTimePETScMatrixWrapper(st)
    ops = {"apply_spacetime_matrix": st.apply_spacetime_matrix, "pre_time_marching": st.pre_time_marching, "matrix wrapper": lambda a, b: matw.mult(None, a, b)}
    if not P.fj:
        ops["pre_time_marching_improved"] = st.pre_time_marching_improved
        ops["preconditioner wrapper"] = lambda a, b: pcw.apply(None, a, b)
    if coarse:
        ops["pre_twolvl"] = st.pre_twolvl
        ops["q_op"] = st.q_op
    mats = [x for x in (st.slab_matrix, st.slab_matrix_no_dg_jumps, st.coupling_matrix_between_slices, st.scaled_mass_matrix_between_slices) if x]
    m0 = [dense(x) for x in mats]
    r0 = st.get_spacetime_rhs().array.copy()
    b = P.vec()
    b0 = b.array.copy()
    ref = {}
    names = list(ops)
    for step in range(10 if not ctx.deep else 40):
        name = names[step % len(names)] if step < len(names) else ctx.rng.choice(names)
        with P.quiet():
            if step and ctx.rng.random() < 0.35:
                other = P.vec()
                act = ctx.rng.choice(["errors", "plot", "export", "other"])
                if act == "errors" and P.N <= 3:
                    st.sample_pts_error = [0.0, P.T / 2, P.T]
                    st.measured_errors(other)
                elif act == "plot" and P.dim == 1:
                    st.plot_error(other, n_space=4, n_time_subdiv=2)
                    plt.close("all")
                elif act == "export":
                    st.plot_para_view(other)
                else:
                    o2 = P.vec()
                    ops[ctx.rng.choice(names)](other, o2)
            x = P.vec()
            ops[name](b, x)
        ctx.check(f"{P.tag}: {name} leaves its input alone", np.array_equal(b.array, b0), P.info)
        if name in ref:
            ctx.close(f"{P.tag}: {name} does not depend on history", x.array, ref[name], 1e-9, {**P.info, "step": step})
        else:
            ref[name] = x.array.copy()
    if "matrix wrapper" in ref:
        ctx.close(f"{P.tag}: matrix wrapper is the operator", ref["matrix wrapper"], ref["apply_spacetime_matrix"], 1e-12, P.info)
    if "preconditioner wrapper" in ref:
        ctx.close(f"{P.tag}: preconditioner wrapper is the time marching", ref["preconditioner wrapper"], ref["pre_time_marching"], 1e-8, P.info)
    # fresh problem, single application: the outputs do not come from the history
    for x, d in zip(mats, m0):
        ctx.check(f"{P.tag}: matrices unchanged", np.array_equal(dense(x), d), P.info)
    ctx.check(f"{P.tag}: right-hand side unchanged", np.array_equal(st.get_spacetime_rhs().array, r0), P.info)
    with P.quiet():
        st.SpaceTimeRhs = None
        ctx.close(f"{P.tag}: right-hand side rebuilt after use", st.get_spacetime_rhs().array, r0, 1e-12, P.info)
    if not P.fj:
        ctx.close(f"{P.tag}: every entry of the output is written", ref["apply_spacetime_matrix"], A @ b0, 1e-8, P.info)


def run(ctx):
    import matplotlib
    matplotlib.use("Agg")
    for c in configs(ctx, 12):
        ctx.guard("history", lambda: one(ctx, c), c)
