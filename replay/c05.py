import numpy as np

from replay.problem import Problem, configs, dense

RULE = "layout tables compared with the independent layout of the stand-in spaces (random numbering)"
BOUND = "N in 1..4, degrees 0..3 in time, 1..3 in space, 1D and 2D meshes"


def same(ctx, P, label, got, want):
    got = np.asarray(got)
    ctx.check(label, got.shape == want.shape and bool(np.all(got == want)), {**P.info, "table": label, "got": got.tolist()[:12], "expected": want.tolist()[:12]})


def one(ctx, c):
    P = Problem(ctx, **c)
    st, q, qs, N = P.st, P.q, P.qs, P.N
    full = P.full()
    cover = []
    for j in range(4):
        o = q if j < 2 else qs
        if not ctx.check(f"{P.tag}: table {j} length", len(st.dofmaps_full[j]) == (o + 1) * N, P.info):
            continue
        for i in range((o + 1) * N):
            same(ctx, P, f"full[{j}][{i}]", st.dofmaps_full[j][i], full(j, i))
            cover.append(np.asarray(st.dofmaps_full[j][i]))
        for i in range(o + 1):
            same(ctx, P, f"slab[{j}][{i}]", st.dofmaps_pre[j][i], P.pre()(j, i))
    allv = np.sort(np.concatenate(cover))
    ctx.check(f"{P.tag}: disjoint and complete", np.array_equal(allv, np.arange(st.fes.ndofs)), P.info)
    cl = P.lay(st.fes_coupling, [2, 2])
    bl = P.lay(st.fes_slab_bnd, [1, 1])
    for j in range(2):
        for i in range(2):
            same(ctx, P, f"coupling[{j}][{i}]", st.dofmaps_coupling[j][i], cl(j, i))
        same(ctx, P, f"bnd[{j}]", st.dofmaps_slab_bnd[j], bl(j, 0))
    same(ctx, P, "top of slice u1", st.dofmap_fes_u1_0_pre, P.pre()(0, q))
    same(ctx, P, "top of slice u2", st.dofmap_fes_u2_0_pre, P.pre()(1, q))
    ctx.check(f"{P.tag}: space sizes", st.fes.ndofs == sum(len(full(f, 0)) * ((q if f < 2 else qs) + 1) * N for f in range(4)), P.info)
    # degrees of the spaces
    deg = [c[1] for c in st.fes.comps]
    ctx.check(f"{P.tag}: space degrees", deg == [P.k] * (2 * (q + 1) * N) + [P.ks] * (2 * (qs + 1) * N), P.info)
    # coarse
    from replay.problem import random_mesh
    with P.quiet():
        st.get_spacetime_rhs()
        mc = random_mesh(ctx, P.dim, small=True)
        st.prepare_coarse_grid_correction(mc)
    fc = P.full(st.fes_coarse)
    for j in range(4):
        o = q if j < 2 else qs
        if not ctx.check(f"{P.tag}: coarse table {j} length", len(st.dofmaps_full_coarse[j]) == (o + 1) * N, P.info):
            continue
        for i in range((o + 1) * N):
            same(ctx, P, f"coarse[{j}][{i}]", st.dofmaps_full_coarse[j][i], fc(j, i))


def run(ctx):
    for c in configs(ctx, 9, flags=((False, False),)):
        c = dict(c, fitted=True)
        ctx.guard("layout", lambda: one(ctx, c), c)
