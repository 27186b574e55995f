"""Generated geometries."""
import itertools

import numpy as np

from replay import meshkit as mk

RULE = "geometries built by the real generator; areas, coverage, groups and region alignment of all cells checked"
BOUND = "random admissible parameters, 3 rounds over every generator"


def vol(m):
    v = m.cells[:, : m.tdim + 1]
    X = m.x[v]
    return np.abs(np.linalg.det(X[:, 1:] - X[:, :1])) / (1, 1, 2, 6)[m.tdim]


BARY = [np.array(b) / sum(b) for b in itertools.product((0.02, 1, 5, 40), repeat=3)]


def run(ctx):
    with mk.scratch():
        mod = mk.module()
        for i in range(3 if not ctx.deep else 12):
            # low, high and any height of the data region
            for name, args, h, box, regs, kind in mk.cases(ctx.rng, ((0.27, 0.5), (0.65, 0.88), (0.3, 0.85))[i % 3]):
                args = dict(args)
                if "n_ref" in args:
                    args["n_ref"] = 1 if kind == "remesh" else 0
                ctx.guard(name, lambda: one(ctx, mod, name, args, h, box, regs), {"generator": name, "args": args})
    mk.done()


def one(ctx, mod, name, args, h, box, regs):
    inp = {"generator": name, "args": args}
    res, err, spy, _ = mk.call(mod, name, args)
    if not ctx.check(f"{name}: no exception", err is None, {**inp, "exception": repr(err)}):
        return
    m = mk.first(res)
    lo, hi = np.array(box[0], float), np.array(box[1], float)
    g = spy.gen[-1]
    d = m.tdim
    ctx.check(f"{name}: mesh of the dimension of the domain", d == len(lo) and g["dim"] == d, inp)
    ctx.check(f"{name}: requested size used", g["size"] == h, {**inp, "got": g["size"]})
    ctx.close(f"{name}: pieces fill the domain", sum(g["mass"]), np.prod(hi - lo), 1e-9, inp)
    ctx.check(f"{name}: every piece in exactly one group", all(k == 1 for k in g["groups"]) and g["groups"], {**inp, "groups": g["groups"]})
    ctx.close(f"{name}: cells fill the domain", vol(m).sum(), np.prod(hi - lo), 1e-9, inp)
    X = m.x
    ctx.check(f"{name}: cells inside the domain", bool(np.all(X >= lo - 1e-9) and np.all(X <= hi + 1e-9)), inp)
    fac = {}
    for c in m.cells:
        for f in itertools.combinations(sorted(c[: d + 1]), d):
            fac[f] = fac.get(f, 0) + 1
    inner = [f for f, k in fac.items() if k == 1 and not any(np.all(np.abs(m.x[list(f)][:, a] - e[a]) < 1e-9) for a in range(d) for e in (lo, hi))]
    ctx.check(f"{name}: no gaps or overlaps between cells", max(fac.values()) <= 2 and not inner, {**inp, "facets": len(inner)})
    for r, R in enumerate(regs):
        bad = 0
        for c in m.cells:
            V = m.x[c[: d + 1]]
            if isinstance(R, tuple):
                q = np.linalg.norm(V, axis=1)
                ok = np.all(q <= R[1] + 1e-7) or np.all(q >= R[1] - 1e-7)
            else:
                ks = {R(b @ V) for b in ([np.array(t) / sum(t) for t in itertools.product((0.05, 1, 9), repeat=d + 1)] if d == 3 else BARY)}
                ok = len(ks) == 1
            bad += not ok
        ctx.check(f"{name}: no cell crosses region {r}", bad == 0, {**inp, "region": r, "cells": bad})
