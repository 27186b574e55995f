import numpy as np
from dolfinx._core import Mesh, RefEl, locate
from dolfinx.mesh import refine
from petsc4py import PETSc

from replay.c10 import substitution
from replay.problem import Problem, configs, dense, random_mesh

RULE = "transfers of random vectors compared with nodal interpolation of every component and node; two-level result compared with its formula"
BOUND = "N in 1..3, degrees 0..3 in time, 1..3 in space (primal and dual different), nested and non-nested mesh pairs"


def interp(src, dst, k):
    """Matrix of nodal interpolation from Lagrange k on src to Lagrange k on dst."""
    key = (id(src), id(dst), k)
    cn, _, n = src.scalar("Lagrange", k)
    xy = dst.scalar("Lagrange", k)[1]
    p = np.zeros((len(xy), 3))
    p[:, : src.dim] = xy
    c, X = locate(src, p)
    B = RefEl(src.dim, k).tab(X, ())
    M = np.zeros((len(xy), n))
    for i in range(len(xy)):
        np.add.at(M[i], cn[c[i]], B[i])
    return M


def one(ctx, c, nested):
    if nested:
        coarse = random_mesh(ctx, c["dim"], small=True)
        fine = refine(coarse)
    else:
        coarse, fine = random_mesh(ctx, c["dim"], small=True), random_mesh(ctx, c["dim"])
    P = Problem(ctx, **{**c, "mesh": fine, "fitted": True})
    st = P.st
    with P.quiet():
        st.prepare_precondition_gmres()
        st.prepare_coarse_grid_correction(coarse)
    ff, fc = P.full(), P.full(st.fes_coarse)
    nf, nc = st.fes.ndofs, st.fes_coarse.ndofs
    PR, RE = np.zeros((nf, nc)), np.zeros((nc, nf))
    for f in range(4):
        up, dn = interp(coarse, fine, P.deg[f]), interp(fine, coarse, P.deg[f])
        for i in range(((P.q if f < 2 else P.qs) + 1) * P.N):
            PR[np.ix_(ff(f, i), fc(f, i))] = up
            RE[np.ix_(fc(f, i), ff(f, i))] = dn
    for rep in range(2):
        xc, xf = P.vec(nc), P.vec(nf)
        c0 = xc.array.copy()
        st.prolongation(xc, xf)
        ctx.close(f"{P.tag}: prolongation (nested={nested})", xf.array, PR @ c0, 1e-9, P.info)
        ctx.check(f"{P.tag}: prolongation source unchanged", np.array_equal(xc.array, c0), P.info)
        xc, xf = P.vec(nc), P.vec(nf)
        f0 = xf.array.copy()
        st.restriction(xc, xf)
        ctx.close(f"{P.tag}: restriction (nested={nested})", xc.array, RE @ f0, 1e-9, P.info)
        ctx.check(f"{P.tag}: restriction source unchanged", np.array_equal(xf.array, f0), P.info)
    m = st.fes_p.ndofs
    S = np.eye(m) * 3 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m)
    F = np.eye(m) * 2 + ctx.np.uniform(-0.4, 0.4, (m, m)) / np.sqrt(m)
    C = np.eye(nc) * 2 + ctx.np.uniform(-0.4, 0.4, (nc, nc)) / np.sqrt(nc)
    st.set_solver_slab(P.dense_solver(S))
    st.set_solver_first_slab(P.dense_solver(F))
    st.set_solver_coarse(P.dense_solver(C))
    with P.quiet():
        A = dense(st.get_spacetime_matrix())
    if P.fj:
        from replay.c08 import known_dev
        A = known_dev(P)
    for rep in range(2):
        b, x = P.vec(), P.vec()
        b0 = b.array.copy()
        with P.quiet():
            st.pre_twolvl(b, x)
        q = PR @ np.linalg.solve(C, RE @ b0)
        ctx.close(f"{P.tag}: two-level preconditioner", x.array, q + substitution(P, S, F, b0 - A @ q), 1e-8, P.info)
        ctx.check(f"{P.tag}: two-level input unchanged", np.array_equal(b.array, b0), P.info)
        y = P.vec()
        with P.quiet():
            st.q_op(b, y)
        ctx.close(f"{P.tag}: coarse correction", y.array, q, 1e-8, P.info)


def run(ctx):
    cs = [c for c in configs(ctx, None, flags=((False, False), (False, True))) if c["q"] <= 2]
    cs += [dict(dim=1, q=0, qs=0, k=2, ks=1, N=2, fj=False, wp=False)]
    for i, c in enumerate(cs[: 12 if not ctx.deep else 60]):
        ctx.guard("coarse grid", lambda: one(ctx, {k: v for k, v in c.items() if k != "fitted"}, i % 2 == 0), c)
