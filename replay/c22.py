"""Shipped solve procedures."""
import numpy as np

from replay import drivers

RULE = "each shipped solve procedure run on every solver path with a recording problem over small systems; sparse conversion of random matrices"
BOUND = "5x5 slabs, 3 problems x 3 solver paths x 8 systems, 60 matrices up to 9x9"


def solver_ok(ctx, label, s, M, inp):
    b = ctx.np.standard_normal(len(M))
    bv, xv = drivers.vec(b), drivers.vec(ctx.np.standard_normal(len(M)))
    if not ctx.check(f"{label}: a solver was set", s is not None, inp):
        return
    s.solve(bv, xv)
    ctx.close(f"{label}: solves its matrix into the output", M @ xv.array, b, 1e-9, inp)
    ctx.close(f"{label}: right-hand side unmodified", bv.array, b, 0, inp)


def one(ctx, dim, path, i):
    drivers.Sample.rng = np.random.default_rng([ctx.seed, dim, i])
    mod, p, _ = drivers.load(dim, pardiso=path == "pypardiso")
    inp = {"problem": dim, "path": path, "case": i}
    if path == "direct":
        mod.SOLVER_TYPE = "direct"
    else:
        ctx.check(f"{dim}d {path}: selected automatically", mod.SOLVER_TYPE == path, {**inp, "got": mod.SOLVER_TYPE})
        mod.SOLVER_TYPE = path
    with drivers.quiet():
        mod.solve_problem(measure_errors=True)
    errs = [u for k, u in p.log if k == "errors"]
    tag = f"{dim}d {path}"
    if ctx.check(f"{tag}: errors measured once", len(errs) == 1, inp):
        ctx.close(f"{tag}: measured vector solves the system", p.Ag @ errs[0], p.rhs, 1e-4 if path != "direct" else 1e-9, inp)
    for k, u in p.log:
        if k == "plot":
            ctx.close(f"{tag}: plotted vector solves the system", p.Ag @ u, p.rhs, 1e-4, inp)
    ctx.close(f"{tag}: right-hand side unmodified", p.b.array, p.rhs, 0, inp)
    if path != "direct":
        solver_ok(ctx, f"{tag} general slab", p.solver, p.S, inp)
        solver_ok(ctx, f"{tag} first slab", p.first, p.F, inp)


def run(ctx):
    import dxss.space_time as st
    for i in range(60):
        r = ctx.np
        m = ctx.rng.randrange(1, 10)
        n = m if i % 2 else ctx.rng.randrange(1, 10)
        M = r.standard_normal((m, n)) * (r.random((m, n)) < 0.5)
        if i % 7 == 3:
            M[:, -1] = 0
        S = st.get_sparse_matrix(drivers.mat(M))
        ctx.check("sparse conversion: shape", S.shape == (m, n), {"got": S.shape, "expected": (m, n)})
        ctx.check("sparse conversion: entries", S.shape == (m, n) and np.array_equal(S.toarray(), M), {"matrix": M.tolist()})
    for dim in (1, 2, 3):
        for path in ("pypardiso", "petsc-LU", "direct"):
            for i in range(3 if not ctx.deep else 12):
                ctx.guard(f"{dim}d {path}", lambda: one(ctx, dim, path, i), {"problem": dim, "path": path})
