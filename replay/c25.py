"""Import of generated meshes."""
import numpy as np

from replay import meshkit as mk

RULE = "returned meshes compared node by node and cell by cell with the generator's own data, for shuffled and renumbered node listings, root and other process"
BOUND = "random parameters, 3 shuffles per generator; numberings with offsets and gaps"
PERM = {3: [0, 1, 2], 6: [0, 1, 2, 4, 5, 3], 4: [0, 1, 2, 3]}


def canon(C):
    return np.array(sorted(np.round(np.asarray(C), 9).reshape(len(C), -1).tolist()))


def cells(m, d):
    X = m.x[m.cells]
    out = np.zeros(X.shape[:2] + (3,))
    out[:, :, :d] = X
    return out


def compare(ctx, name, m, spy, inp, exact):
    want = spy.grabbed
    d = m.tdim
    ctx.check(f"{name}: number of cells", len(m.cells) == len(want), {**inp, "got": len(m.cells), "expected": len(want)})
    if len(m.cells) != len(want) or m.cells.shape[1] != want.shape[1]:
        return ctx.check(f"{name}: nodes per cell", m.cells.shape[1] == want.shape[1], inp)
    if exact:
        want = want[:, PERM[want.shape[1]]]
        ctx.close(f"{name}: every node of every cell at its own coordinates", cells(m, d), want, 1e-12, inp)
        ctx.check(f"{name}: every node kept", len(m.x) == spy.nnodes, {**inp, "got": len(m.x), "expected": spy.nnodes})
    else:
        ctx.close(f"{name}: same cells as generated", canon(cells(m, d)), canon(want), 1e-12, inp)


def run(ctx):
    import gmsh
    with mk.scratch():
        for i in range(2 if not ctx.deep else 6):
            mod = mk.module()
            for name, args, h, box, regs, kind in mk.cases(ctx.rng):
                args = dict(args)
                if "n_ref" in args:
                    args["n_ref"] = 1 if kind == "remesh" else 0
                inp = {"generator": name, "args": args}
                for how in (("as listed", None), ("reversed", lambda n: np.arange(n)[::-1]), ("shuffled", lambda n: ctx.np.permutation(n)), ("shuffled", lambda n: ctx.np.permutation(n))):
                    if how[1] is not None and kind != "import":
                        continue
                    res, err, spy, _ = mk.call(mod, name, args, mk.Spy(listing=how[1]))
                    if ctx.check(f"{name} {how[0]}: accepted", err is None, {**inp, "exception": repr(err)}):
                        m = mk.first(res)
                        compare(ctx, f"{name} {how[0]}", m, spy, {**inp, "listing": how[0]}, kind == "import")
                        if kind == "import":
                            want = {1: 2, 2: 9}[args.get("order", 1)]
                            ctx.check(f"{name}: element type and dimension", m.domain is not None and (m.domain.gmsh_cell, m.domain.gdim) == (want, 2), inp)
                if kind == "import":
                    for tag, f in (("offset", lambda t: t + 3), ("gaps", lambda t: 2 * t), ("last node moved", lambda t: np.where(t == t.max(), t + 1, t) if len(t) > 50 else t)):
                        if tag == "last node moved":
                            top = []

                            def f(t, top=top):
                                if not top:
                                    top.append(t.max())
                                return np.where(t == top[0], t + 7, t)
                        _, err, spy, _ = mk.call(mod, name, args, mk.Spy(renumber=f))
                        ctx.check(f"{name} {tag}: refused", err is not None, inp)
            # another process
            mod = mk.module(rank=1, size=2)
            for name, args, h, box, regs, kind in mk.cases(ctx.rng):
                args = dict(args)
                if "n_ref" in args:
                    args["n_ref"] = 1 if kind == "remesh" else 0
                inp = {"generator": name, "args": args, "process": 1}
                if kind == "import":
                    res, err, spy, _ = mk.call(mod, name, args)
                    if ctx.check(f"{name} other process: accepted", err is None, {**inp, "exception": repr(err)}):
                        ctx.check(f"{name} other process: contributes no cells", len(res.cells) == 0 and not spy.gen, inp)
                        ctx.check(f"{name} other process: element size", res.cells.shape[1] == (6 if args.get("order", 1) == 2 else 3), inp)
    mk.done()
