import numpy as np
from spec import timebasis as tb

from replay.problem import Problem, configs

RULE = "arguments of every drawn colour mesh and every exported function compared with independent evaluations"
BOUND = "N in 1..4, degrees 0..3, 1..7 samples per slab, 2..9 points in space"


def values(P, vec, pts):
    """Nodal values of the displacement at points, per global time node."""
    from dolfinx._core import RefEl, locate
    c, X = locate(P.mesh, pts)
    B = RefEl(P.dim, P.k).tab(X, ())
    cn = P.mesh.scalar("Lagrange", P.k)[0][c]
    return [np.einsum("pa,pa->p", B, vec[P.full()(0, i)][cn]) for i in range((P.q + 1) * P.N)]


def fields(P, vec, ns, nt):
    xs = np.linspace(0, 1, ns)
    pts = np.zeros((ns, 3))
    pts[:, 0] = xs
    nod = values(P, vec, pts)
    q, dt = P.q, P.T / P.N
    L, D = tb.lagrange(q), [tb.pder(p) for p in tb.lagrange(q)]
    ts, U, V = [], [], []
    for n in range(P.N):
        for m in range(nt):
            s = m / nt
            ts.append(n * dt + dt * s)
            U.append(sum(float(tb.peval(L[i], s)) * nod[n * (q + 1) + i] for i in range(q + 1)))
            V.append(sum(float(tb.peval(D[i], s)) * nod[n * (q + 1) + i] for i in range(q + 1)) / dt)
    return xs, np.array(ts), np.array(U), np.array(V)


def one(ctx, c):
    import dolfinx.io as dio
    import matplotlib.axes
    import matplotlib.pyplot as plt
    P = Problem(ctx, **c)
    st = P.st
    calls = []
    orig = matplotlib.axes.Axes.pcolormesh

    def rec(self, *a, **k):
        import traceback
        if any(f.filename.endswith("matplotlib/colorbar.py") for f in traceback.extract_stack(limit=6)):
            return orig(self, *a, **k)
        C = np.ma.getdata(np.asarray(a[-1]))
        calls.append((np.array(a[0], float) if len(a) == 3 else None, np.array(a[1], float) if len(a) == 3 else None, np.array(C, float)))
        return orig(self, *a, **k)

    matplotlib.axes.Axes.pcolormesh = rec
    try:
        for kind in ("plot", "plot abs", "plot_error"):
            ns, nt = ctx.rng.randrange(2, 9), ctx.rng.randrange(1, 7)
            x = P.vec()
            x0 = x.array.copy()
            calls.clear()
            with P.quiet():
                if kind == "plot_error":
                    st.plot_error(x, n_space=ns, n_time_subdiv=nt)
                else:
                    st.plot(x, n_space=ns, n_time_subdiv=nt, abs_val=kind == "plot abs")
            plt.close("all")
            ctx.check(f"{P.tag}: {kind} leaves the vector alone", np.array_equal(x.array, x0), P.info)
            xs, ts, U, V = fields(P, x0, ns, nt)
            if kind == "plot_error":
                E = np.abs(U - np.array([[P.sol.v(t, [s]) if P.dim == 1 else 0 for s in xs] for t in ts]))
                F = np.abs(V - np.array([[P.sol.dvdt(t, [s]) if P.dim == 1 else 0 for s in xs] for t in ts]))
                W = [V, E, F]
            else:
                W = [np.abs(U), np.abs(V)] if kind == "plot abs" else [U, V]
            inp = {**P.info, "n_space": ns, "n_time_subdiv": nt}
            if not ctx.check(f"{P.tag}: {kind} number of pictures", len(calls) == len(W), inp):
                continue
            for i, (w, (gx, gt, gv)) in enumerate(zip(W, calls)):
                if gx is not None:
                    ctx.close(f"{P.tag}: {kind} {i} space axis", gx, xs, 1e-10, inp)
                    ctx.close(f"{P.tag}: {kind} {i} time axis", gt, ts, 1e-10, inp)
                ctx.close(f"{P.tag}: {kind} {i} values", gv, w, 1e-9, inp)
    finally:
        matplotlib.axes.Axes.pcolormesh = orig
    export(ctx, P, dio)


def export(ctx, P, dio):
    st = P.st
    x = P.vec()
    x0 = x.array.copy()
    dio.LOG.clear()
    name = ctx.rng.choice(["abserr", "out"])
    with P.quiet():
        st.plot_para_view(x, name) if name != "abserr" else st.plot_para_view(x)
    log = list(dio.LOG)
    ctx.check(f"{P.tag}: export leaves the vector alone", np.array_equal(x.array, x0), P.info)
    xy = P.mesh.scalar("Lagrange", P.k)[1]
    last = (P.q + 1) * P.N - 1
    W = {f"{name}-u.xdmf": np.abs(P.sol.at(P.T, xy) - x0[P.full()(0, last)]), f"{name}-ut.xdmf": np.abs(P.sol.dat(P.T, xy) - x0[P.full()(1, last)])}
    files = {}
    for e in log:
        if e[0] == "function":
            files.setdefault(e[1], []).append(e)
    ctx.check(f"{P.tag}: exported files", sorted(files) == sorted(W), {**P.info, "files": sorted(files)})
    for f, w in W.items():
        if f in files:
            ctx.check(f"{P.tag}: one field in {f}", len(files[f]) == 1, P.info)
            ctx.close(f"{P.tag}: field in {f}", files[f][0][4], w, 1e-9, P.info)
            ctx.check(f"{P.tag}: mesh written to {f}", any(e[0] == "mesh" and e[1] == f and e[2] is P.mesh for e in log), P.info)
    opened = [e[1] for e in log if e[0] == "open"]
    closed = [e[1] for e in log if e[0] == "close"]
    ctx.check(f"{P.tag}: files closed", sorted(opened) == sorted(closed), P.info)
    ctx.check(f"{P.tag}: files opened for writing", all(e[2] == "w" for e in log if e[0] == "open"), P.info)


def run(ctx):
    import matplotlib
    matplotlib.use("Agg")
    for c in configs(ctx, None, flags=((False, False),))[: 9 if not ctx.deep else 50]:
        if c["dim"] == 1:
            ctx.guard("plots", lambda: one(ctx, c), c)
        else:
            import dolfinx.io as dio
            ctx.guard("export", lambda: export(ctx, Problem(ctx, **c), dio), c)
    # uniform spacing independent of the number of samples
    ctx.guard("plots", lambda: one(ctx, dict(dim=1, q=1, qs=1, k=1, ks=1, N=5, fj=False, wp=False, fitted=True)))
