import numpy as np

from replay.problem import Problem, configs, dense

RULE = "symmetry of the assembled matrices, entrywise"
BOUND = "N in 1..4, degrees 0..3, random weights, meshes in 1D/2D, all flags"


def sym(ctx, P, label, A):
    ctx.close(f"{P.tag}: {label} symmetric", A, A.T, 1e-10, P.info)
    ctx.check(f"{P.tag}: {label} not zero", float(np.abs(A).max()) > 1e-6, P.info)


def one(ctx, c):
    P = Problem(ctx, **c)
    st = P.st
    with P.quiet():
        sym(ctx, P, "space-time matrix", dense(st.get_spacetime_matrix()))
        st.setup_coupling_matrix_between_slices()
        sym(ctx, P, "coupling matrix", dense(st.coupling_matrix_between_slices))
        st.setup_scaled_mass_matrix_between_slices()
        sym(ctx, P, "interface mass", dense(st.scaled_mass_matrix_between_slices))
        if not P.fj:
            sym(ctx, P, "slab matrix", dense(st.get_slab_matrix()))
            sym(ctx, P, "first slab matrix", dense(st.get_slab_matrix_first_slab()))
        sym(ctx, P, "slab matrix without jumps", dense(st.slab_matrix_no_dg_jumps) if st.slab_matrix_no_dg_jumps else np.eye(2))


def run(ctx):
    for c in configs(ctx, 14):
        ctx.guard("symmetry", lambda: one(ctx, c), c)
