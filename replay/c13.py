import numpy as np
from dolfinx import fem
from dolfinx._core import Mesh
from dolfinx.mesh import refine
from spec import forms

from replay.c12 import want
from replay.oracle import Kernels, assemble
from replay.problem import Problem, configs, dense, random_mesh

RULE = "matrices and load vector built from random indicators compared with the blocks weighted by those indicators; descriptions compared before and after, and reused"
BOUND = "callables and functions, fitted and unfitted, one description used for up to three problems on two meshes, and the coarse matrix"


def one(ctx, c):
    P = Problem(ctx, p=1, **c)
    st, dd, ind = P.st, P.dd, P.ind
    arr0 = None if P.fitted else ind.x.array.copy()
    n = st.fes_u1_0.ndofs
    P.u10 = P.u20 = np.zeros(n)
    P.wp = P.P.wp

    def intact(when):
        ctx.check(f"{P.tag}: description unmodified ({when})", dd.indicator_function is ind and dd.fitted is P.fitted, P.info)
        if arr0 is not None:
            ctx.check(f"{P.tag}: indicator values unmodified ({when})", np.array_equal(ind.x.array, arr0), P.info)

    intact("after construction")
    with P.quiet():
        A = dense(st.get_spacetime_matrix())
        S = dense(st.get_slab_matrix())
        M = dense(st.slab_matrix_no_dg_jumps) if st.slab_matrix_no_dg_jumps else None
        b = st.get_spacetime_rhs().array.copy()
    ctx.close(f"{P.tag}: region in the space-time matrix", A, P.want_global(), 1e-9, P.info)
    ctx.close(f"{P.tag}: region in the slab matrix", S, P.want_slab(True), 1e-9, P.info)
    if M is not None:
        ctx.close(f"{P.tag}: region in the product matrix", M, P.want_slab(False), 1e-9, P.info)
    ctx.close(f"{P.tag}: region in the load vector", b, want(P), 1.5e-5, P.info)
    intact("after assembly")
    # reuse on another problem, then on another mesh
    Q = Problem(ctx, p=1, **{**c, "mesh": P.mesh, "omega": ind})
    Q.dd.fitted = P.fitted
    st2 = ctx.guard("reuse", lambda: _again(ctx, P, P.mesh, dd))
    if st2 is not None:
        ctx.close(f"{P.tag}: region of a second problem from the same description", dense(st2.get_spacetime_matrix()).sum(), A.sum(), 1e-9, P.info)
    intact("after reuse")
    if P.fitted:
        m2 = random_mesh(ctx, P.dim)
        with P.quiet():
            st3 = ctx.guard("other mesh", lambda: _again(ctx, P, m2, dd))
            if st3 is not None:
                G = dense(st3.get_spacetime_matrix())
        if st3 is not None:
            mid = m2.pts[m2.cells].mean(1)
            pp = np.zeros((3, len(mid)))
            pp[: P.dim] = mid.T
            v = ind(pp)
            kern = Kernels(m2, lambda X: np.broadcast_to(v[:, None], X.shape[:-1]))
            a, bq = (P.q + 1) * P.N, (P.qs + 1) * P.N
            W = assemble(forms.global_terms(P.P, P.N), kern, P.deg, P.lay(st3.fes, [a, a, bq, bq]), st3.fes.ndofs)
            ctx.close(f"{P.tag}: region on another mesh", G, W, 1e-9, P.info)
        intact("after another mesh")
        # coarse matrix: fine mesh is a refinement, region fitted to both
        coarse = Mesh(np.array([[0.0], [0.35], [1.0]]), [[0, 1], [1, 2]]) if P.dim == 1 else Mesh(np.array([[0.0, 0], [1, 0], [1, 1], [0, 1]]), [[0, 1, 2], [0, 2, 3]])
        fine = refine(coarse)
        f = (lambda x: np.where(x[0] <= 0.35, 1.0, 0.2)) if P.dim == 1 else (lambda x: np.where(x[1] > x[0], 1.0, 0.2))
        R = Problem(ctx, p=1, **{**c, "mesh": fine, "omega": f})
        with P.quiet():
            R.st.prepare_coarse_grid_correction(coarse)
            C = dense(R.st.get_spacetime_matrix_coarse())
        mid = coarse.pts[coarse.cells].mean(1)
        pp = np.zeros((3, len(mid)))
        pp[: P.dim] = mid.T
        v = f(pp)
        kern = Kernels(coarse, lambda X: np.broadcast_to(v[:, None], X.shape[:-1]))
        W = assemble(forms.global_terms(R.P, R.N), kern, R.deg, R.full(R.st.fes_coarse), R.st.fes_coarse.ndofs)
        ctx.close(f"{R.tag}: region in the coarse matrix", C, W, 1e-9, R.info)
    else:
        # the coarse problem leaves the description as it is
        coarse = Mesh(np.array([[0.0], [0.35], [1.0]]), [[0, 1], [1, 2]]) if P.dim == 1 else Mesh(np.array([[0.0, 0], [1, 0], [1, 1], [0, 1]]), [[0, 1, 2], [0, 2, 3]])
        from dolfinx.fem import Function, FunctionSpace
        fine = refine(coarse)
        chi = Function(FunctionSpace(fine, ("DG", 0)))
        chi.interpolate(lambda x: np.where(x[0] <= 0.35, 1.0, 0.2))
        R = Problem(ctx, p=1, **{**c, "mesh": fine, "omega": chi})
        i0, f0 = R.dd.indicator_function, R.dd.fitted
        a0 = None if R.fitted else i0.x.array.copy()
        with P.quiet():
            R.st.prepare_coarse_grid_correction(coarse)
            R.st.get_spacetime_matrix_coarse()
        same = R.dd.indicator_function is i0 and R.dd.fitted is f0 and (a0 is None or np.array_equal(i0.x.array, a0))
        ctx.check(f"{R.tag}: description unmodified (after the coarse problem)", same, R.info)


def _again(ctx, P, mesh, dd):
    stm = P.stm
    with P.quiet():
        st = stm.SpaceTime(stm.OrderTime(P.q, P.qs), stm.OrderSpace(P.k, P.ks), P.N, P.T, 0.0, mesh, P.g, dd, P.vd, P.par)
        st.setup_spacetime_finite_elements()
        st.get_spacetime_matrix()
    return st


def run(ctx):
    cs = [c for c in configs(ctx, None, flags=((False, False), (False, True))) if c["N"] <= 3 and c["q"] <= 2]
    for i, c in enumerate(cs[: 10 if not ctx.deep else 60]):
        ctx.guard("region", lambda: one(ctx, dict(c, fitted=i % 3 != 2)), c)
