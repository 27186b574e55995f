import numpy as np
from petsc4py import PETSc

from replay.c10 import substitution
from replay.problem import Problem, configs, dense

RULE = "random sequences of accessor and preparation calls; every returned object compared with the specified one, then all applications"
BOUND = "random histories of length 7, all flags"


def one(ctx, c):
    P = Problem(ctx, **c)
    st = P.st
    n = st.fes_u1_0.ndofs
    u0 = ctx.np.uniform(-1, 1, n)
    st.u1_0.x.array[:] = u0
    wants = {"A": P.want_global(False), "B": P.want_global(True), "S": P.want_slab(True), "F": P.want_first()}
    rhs = []
    coarse = None
    trace = []

    def mat(label, got, key):
        if got is None:
            ctx.fail(f"{P.tag}: {label}: the accessor returned nothing", {**P.info, "calls": list(trace)})
            return
        ctx.close(f"{P.tag}: {label}", dense(got), wants[key], 1e-9, {**P.info, "calls": list(trace)})

    def bfi(got, key, label):
        import dolfinx.fem.petsc as fp
        mat(label, None if got is None else fp.assemble_matrix(got), key)

    acts = {
        "get_spacetime_matrix()": lambda: mat("space-time matrix", st.get_spacetime_matrix(), "A"),
        "get_spacetime_matrix(precond=True)": lambda: mat("block-triangular matrix", st.get_spacetime_matrix(precond=True), "B"),
        "get_spacetime_bfi()": lambda: bfi(st.get_spacetime_bfi(), "A", "space-time form"),
        "get_spacetime_bfi(precond=True)": lambda: bfi(st.get_spacetime_bfi(precond=True), "B", "block-triangular form"),
        "get_slab_matrix()": lambda: mat("slab matrix", st.get_slab_matrix(), "S"),
        "get_slab_bfi()": lambda: bfi(st.get_slab_bfi(), "S", "slab form"),
        "get_slab_matrix_first_slab()": lambda: mat("first slab matrix", st.get_slab_matrix_first_slab(), "F"),
        "get_slab_bfi_first_slab()": lambda: bfi(st.get_slab_bfi_first_slab(), "F", "first slab form"),
        "get_spacetime_rhs()": lambda: rhs.append(st.get_spacetime_rhs().array.copy()),
        "get_spacetime_lfi()": lambda: rhs.append(_vec(st.get_spacetime_lfi())),
        "prepare_precondition_gmres()": lambda: st.prepare_precondition_gmres(),
        "prepare_coarse_grid_correction()": lambda: _coarse(ctx, P),
        "measured_errors()": lambda: _errors(P),
    }
    names = list(acts)
    if not P.fitted:
        names.remove("prepare_coarse_grid_correction()")
    for _ in range(7):
        nm = ctx.rng.choice(names)
        trace.append(nm)
        with P.quiet():
            acts[nm]()
    trace.append("prepare_precondition_gmres()")
    with P.quiet():
        st.prepare_precondition_gmres()
        for nm in ("get_spacetime_matrix()", "get_slab_matrix()", "get_slab_matrix_first_slab()", "get_spacetime_rhs()"):
            trace.append(nm)
            acts[nm]()
    for r in rhs[1:]:
        ctx.close(f"{P.tag}: right-hand side independent of the order", r, rhs[0], 1e-10, {**P.info, "calls": trace})
    if c["wp"]:
        K, M = P.kern.mat("stiff", P.k, P.k), P.kern.mat("mass", P.k, P.k)
        from replay.c12 import want
        P.u10, P.u20 = u0, np.zeros(n)
        if P.sol.p <= 2:
            ctx.close(f"{P.tag}: right-hand side holds the initial data", rhs[-1], want(P), 1.5e-5, {**P.info, "calls": trace})
    # applications
    m = st.fes_p.ndofs
    S = np.eye(m) * 3 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m)
    F = np.eye(m) * 2 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m)
    st.set_solver_slab(P.dense_solver(S))
    st.set_solver_first_slab(P.dense_solver(F))
    b = P.vec()
    sub = substitution(P, S, F, b.array.copy())
    for meth in ["pre_time_marching"] + ([] if P.fj else ["pre_time_marching_improved"]):
        x = P.vec()
        with P.quiet():
            getattr(st, meth)(b, x)
        ctx.close(f"{P.tag}: {meth} after any order", x.array, sub, 1e-8, {**P.info, "calls": trace})
    x = P.vec()
    st.apply_spacetime_matrix(b, x)
    if not P.fj:
        ctx.close(f"{P.tag}: operator after any order", x.array, wants["A"] @ b.array, 1e-9, {**P.info, "calls": trace})


def _vec(lfi):
    import dolfinx.fem.petsc as fp
    v = fp.create_vector(lfi)
    fp.assemble_vector(v, lfi)
    return v.array.copy()


def _coarse(ctx, P):
    from replay.problem import random_mesh
    P.st.prepare_coarse_grid_correction(random_mesh(ctx, P.dim, small=True))


def _errors(P):
    old = P.st.sample_pts_error
    P.st.sample_pts_error = [0.0, P.T]
    P.st.measured_errors(P.vec())
    P.st.sample_pts_error = old


def run(ctx):
    cs = [c for c in configs(ctx, None) if c["q"] <= 2 and c["qs"] <= 1 and c["N"] <= 3]
    for c in cs[: 22 if not ctx.deep else 80]:
        ctx.guard("order of requests", lambda: one(ctx, c), c)
