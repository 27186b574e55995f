import copy

import numpy as np

from replay.problem import Problem, configs, dense

RULE = "problems with random arguments; attributes and matrices compared with the arguments; arguments compared before and after"
BOUND = "all flag combinations, random N, T, weights, degrees"


def one(ctx, c):
    P = Problem(ctx, **c)
    st, stm = P.st, P.stm
    g0 = dict(P.g)
    inp = P.info
    ctx.check(f"{P.tag}: flags", (st.jumps_in_fw_problem is c["fj"]) and (st.well_posed is c["wp"]), inp)
    ctx.close(f"{P.tag}: time step", st.delta_t, P.T / P.N, 1e-14, inp)
    ctx.check(f"{P.tag}: degrees", (st.otime.q, st.otime.qstar, st.ospace.k, st.ospace.kstar) == (P.q, P.qs, P.k, P.ks), inp)
    ctx.check(f"{P.tag}: mesh", st.msh is P.mesh, inp)
    ctx.check(f"{P.tag}: solution", st.solution is P.vd or (st.solution.v == P.vd.v and st.solution.dvdt == P.vd.dvdt), inp)
    s = np.array(st.sample_pts_error, float)
    ctx.check(f"{P.tag}: samples from 0 to T", s[0] == 0.0 and abs(s[-1] - P.T) < 1e-12 and bool(np.all(np.diff(s) > 0)) and np.max(np.diff(s)) <= P.T / 50, inp)
    with P.quiet():
        A = dense(st.get_spacetime_matrix())
    ctx.close(f"{P.tag}: matrix of exactly these arguments", A, P.want_global(), 1e-9, inp)
    ctx.check(f"{P.tag}: weights unmodified", P.g == g0, inp)
    ctx.check(f"{P.tag}: parameters unmodified", P.par == stm.ProblemParameters(jumps_in_fw_problem=c["fj"], well_posed=c["wp"]), inp)
    ctx.check(f"{P.tag}: orders unmodified", st.otime == stm.OrderTime(P.q, P.qs) and st.ospace == stm.OrderSpace(P.k, P.ks), inp)
    ctx.check(f"{P.tag}: region unmodified", P.dd.indicator_function is P.ind and P.dd.fitted is P.fitted, inp)
    ctx.check(f"{P.tag}: defaults unmodified", stm.ProblemParameters() == stm.ProblemParameters(False, False), inp)
    # a second problem from the same objects, with other flags, does not change the first
    with P.quiet():
        st2 = stm.SpaceTime(st.otime, st.ospace, P.N + 1, P.T * 2, 0.0, P.mesh, P.g, P.dd, P.vd, stm.ProblemParameters(jumps_in_fw_problem=not c["fj"], well_posed=not c["wp"]))
        st2.setup_spacetime_finite_elements()
        st2.prepare_precondition_gmres()
        if P.wp is False:
            st2.u1_0.x.array[:] = 1.0
        st3 = stm.SpaceTime(st.otime, st.ospace, P.N, P.T, 0.0, P.mesh, P.g, P.dd, P.vd)
        st3.setup_spacetime_finite_elements()
        ctx.check(f"{P.tag}: default flags", st3.jumps_in_fw_problem is False and st3.well_posed is False, inp)
        ctx.check(f"{P.tag}: first problem unaffected", (st.jumps_in_fw_problem is c["fj"]) and (st.well_posed is c["wp"]) and st.N == P.N and st.delta_t == P.T / P.N, inp)
        st.spacetime_matrix.clear() if hasattr(st.spacetime_matrix, "clear") else None
        st.spacetime_bilinear_form.clear() if hasattr(st.spacetime_bilinear_form, "clear") else None
        B = dense(st.get_spacetime_matrix())
    ctx.close(f"{P.tag}: matrix after building another problem", B, A, 1e-12, inp)
    ctx.check(f"{P.tag}: weights unmodified by use", P.g == g0, inp)
    par = stm.ProblemParameters(well_posed=True)
    ctx.check("named flag", par.well_posed is True and par.jumps_in_fw_problem is False and list(par) == [False, True])


def run(ctx):
    cs = [c for c in configs(ctx, None) if c["q"] <= 2 and c["qs"] <= 1 and c["N"] <= 3]
    for c in cs[: 12 if not ctx.deep else 60]:
        ctx.guard("construction", lambda: one(ctx, c), c)
