import math

import numpy as np
from mpi4py import MPI
from spec import forms
from spec import timebasis as tb

from replay.problem import Problem, configs

RULE = "reported errors compared with errors computed independently (space and time polynomials, so quadrature is exact); reductions over three identical processes"
BOUND = "N in 1..7, degrees 0..3, random coefficient vectors"


class Comm:
    """Three processes with identical contributions."""

    def __init__(self, c):
        self._c = c

    def allreduce(self, x, op=MPI.SUM):
        return 3 * x if op == MPI.SUM else x

    def __getattr__(self, n):
        return getattr(self._c, n)


def oracle(P, vec, samples, procs):
    full, q, N, dt = P.full(), P.q, P.N, P.T / P.N
    L = [[float(c) for c in p] for p in tb.lagrange(q)]
    D = [[float(c) for c in tb.pder(p)] for p in tb.lagrange(q)]
    nod = [P.kern.values(P.k, vec[full(0, i)]) for i in range((q + 1) * N)]
    X = P.kern.cell.x

    def u(n, t):
        s = (t - n * dt) / dt
        v = sum(tb.peval(L[i], s) * nod[n * (q + 1) + i] for i in range(q + 1))
        d = sum(tb.peval(D[i], s) * nod[n * (q + 1) + i] for i in range(q + 1)) / dt
        if n:
            j = nod[n * (q + 1)] - nod[n * (q + 1) - 1]
            th = 2 * s - 1
            v = v - j * th * (th - 1) / 2
            d = d - j * (th - 0.5) * 2 / dt
        return v, d

    e = {"L2-u1-T": math.sqrt(procs * P.kern.l2sq(nod[-1] - P.sol.at(P.T, X)))}
    mu, md = [], []
    for t in samples:
        for n in range(N):
            if n * dt - 1e-12 <= t <= (n + 1) * dt + 1e-12:
                v, d = u(n, t)
                mu.append((t, n, math.sqrt(procs * P.kern.l2sq(v - P.sol.at(t, X)))))
                md.append((t, n, math.sqrt(procs * P.kern.l2sq(d - P.sol.dat(t, X)))))
    e["L-infty-L2-error-u"], e["L-infty-L2-error-ut"] = max(x[2] for x in mu), max(x[2] for x in md)
    g, w = np.polynomial.legendre.leggauss(8)
    g, w = (g + 1) / 2, w / 2
    s = 0.0
    for n in range(N):
        for gi, wi in zip(g, w):
            t = n * dt + dt * gi
            s += wi * dt * procs * P.kern.l2sq(u(n, t)[1] - P.sol.dat(t, X))
    e["L2-L2-error-u_t"] = math.sqrt(s)
    return e


def one(ctx, c, samples=None, late=False):
    P = Problem(ctx, p=min(c["k"] + 1, 2), **c)
    st = P.st
    procs = 1
    if ctx.rng.random() < 0.7:
        P.mesh.comm = Comm(P.mesh.comm)
        procs = 3
    pts = st.sample_pts_error if samples is None else samples(P)
    st.sample_pts_error = list(pts)
    for rep in range(2):
        x = P.vec()
        if late:  # the error grows in time, so the final time decides the maxima
            for i in range((P.q + 1) * P.N):
                for f in (0, 1):
                    x.array[P.full()(f, i)] *= 1e-3
            x.array[P.full()(0, (P.q + 1) * P.N - 1)] = 50.0
        x0 = x.array.copy()
        with P.quiet():
            e = st.measured_errors(x, verbose=bool(rep))
        ctx.check(f"{P.tag}: vector unchanged", np.array_equal(x.array, x0), P.info)
        W = oracle(P, x0, pts, procs)
        for k, v in W.items():
            got = e.get(k)
            tol = 3e-5 if k == "L2-L2-error-u_t" else 1e-9
            ctx.check(f"{P.tag}: {k} (procs={procs}, samples={len(pts)}, late={late})", got is not None and abs(float(got) - v) <= tol * max(1e-12, abs(v)),
                      {**P.info, "got": None if got is None else float(got), "expected": v, "processes": procs})


def few(P):
    d = P.T / P.N
    return sorted([0.0, P.T, 0.37 * P.T] + [d * (n + f) for n in range(P.N) for f in (0.21, 0.83)])


def sparse(P):
    d = P.T / P.N
    n = P.ctx.rng.randrange(P.N)
    return [d * (n + P.ctx.rng.choice([0.11, 0.5, 0.93]))]


def run(ctx):
    cs = [dict(c, fj=False, wp=i % 2 == 1) for i, c in enumerate(configs(ctx, None, flags=((False, False),))) if True]
    for c in cs[: 9 if not ctx.deep else 50]:
        ctx.guard("errors", lambda: one(ctx, c, few), c)
        ctx.guard("errors", lambda: one(ctx, c, sparse), c)
    base = dict(dim=1, q=1, qs=0, k=1, ks=1)
    for N in ([6, 2] if not ctx.deep else [1, 2, 6, 14, 24]):
        ctx.guard("errors", lambda: one(ctx, dict(base, N=N, T=1.0), None, late=True), base)
    ctx.guard("errors", lambda: one(ctx, dict(base, N=3), None), base)
