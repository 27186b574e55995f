"""Mesh hierarchies."""
import itertools

import numpy as np

from replay import meshkit as mk

RULE = "hierarchy generators run with the real mesh generator; levels compared with independently computed uniform refinements"
BOUND = "every generator with 0..3 refinements (remeshing: up to 5 levels) and random sizes; stand-in mesh refinement"


def edges(m):
    return {tuple(sorted((tuple(np.round(m.x[a], 9)), tuple(np.round(m.x[b], 9)))))
            for c in m.cells for a, b in itertools.combinations(c[: m.tdim + 1], 2)}


def run(ctx):
    with mk.scratch():
        for i in range(2 if not ctx.deep else 8):
            for api in ("0.6.0",):
                mod = mk.module(api=api)
                for name, args, h, box, regs, kind in mk.cases(ctx.rng):
                    if kind not in ("hier", "remesh"):
                        continue
                    for n in ([args["n_ref"]] if "3d" in name else sorted({0, 1, args["n_ref"], 3 if i and kind == "hier" else 2})):
                        one(ctx, mod, name, {**args, "n_ref": n}, h, kind)
        one(ctx, mk.module(), "get_mesh_convex", {"n_ref": 5, "init_h_scale": 40.0}, 40.0, "remesh")
        mod = mk.module(api="0.7.1")
        one(ctx, mod, "get_mesh_data_all_around", {"n_ref": 2, "init_h_scale": 4.0}, 4.0, "hier")
    mk.done()


def one(ctx, mod, name, args, h, kind):
    n, inp = args["n_ref"], {"generator": name, "args": args}
    res, err, spy, _ = mk.call(mod, name, args)
    if not ctx.check(f"{name}: no exception", err is None, {**inp, "exception": repr(err)}):
        return
    if kind == "remesh":
        ctx.check(f"{name}: number of levels", len(res) == n, {**inp, "got": len(res)})
        ctx.check(f"{name}: size halved at each level", [g["size"] for g in spy.gen] == [h / 2**j for j in range(n)], {**inp, "got": [g["size"] for g in spy.gen]})
        return
    if not ctx.check(f"{name}: number of levels", len(res) == n + 1, {**inp, "got": len(res)}):
        return
    ctx.check(f"{name}: one mesh generation", len(spy.gen) == 1, inp)
    ctx.check(f"{name}: first level is the initial mesh", res[0].parent is None, inp)
    ctx.check(f"{name}: distinct levels", len({id(m) for m in res}) == n + 1, inp)
    for a, b in zip(res, res[1:]):
        ctx.check(f"{name}: each level refines the previous one", b.parent is a, inp)
        ctx.check(f"{name}: refinement is uniform", b.uniform is True and len(b.cells) == 2**a.tdim * len(a.cells), inp)
