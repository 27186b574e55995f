from replay.problem import Problem, configs, dense

RULE = "assembled global matrix compared entrywise with blocks assembled independently from the specified terms"
BOUND = "N in 1..4, degrees 0..3, random weights, meshes in 1D/2D, all flags"


def one(ctx, c):
    P = Problem(ctx, **c)
    with P.quiet():
        A = dense(P.st.get_spacetime_matrix())
    ctx.close(f"{P.tag}: space-time matrix", A, P.want_global(), 1e-9, P.info)
    return P


def run(ctx):
    for c in configs(ctx, 14):
        ctx.guard("matrix", lambda: one(ctx, c), c)
