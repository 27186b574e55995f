"""Mesh generation sessions."""
import numpy as np

from replay import meshkit as mk

RULE = "generator state and session counts after each call; results inside random call sequences compared with the result alone"
BOUND = "sequences of up to 26 calls, two processes, refused numberings included"


def key(res):
    return [(m.x.copy(), m.cells.copy()) for m in (res if isinstance(res, (list, tuple)) else [res])]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(p[0], q[0]) and np.array_equal(p[1], q[1]) for p, q in zip(a, b))


def degenerate(name, args):
    if name == "get_mesh_bottom_data":
        return [{**args, "eta": 0.25}, {**args, "eta": 0.9}]
    if name == "get_mesh_hierarchy_fitted_disc":
        return [{**args, "eta": 0.25}]
    if name == "get_mesh_inclusion_square":
        return [{**args, "x_l": 0.5, "x_r": 0.5}]
    return []


def run(ctx):
    with mk.scratch():
        for rank in (0, 1):
            mod = mk.module(rank=0, size=1)
            alone = []
            for name, args, h, box, regs, kind in mk.cases(ctx.rng):
                with mk.scratch():  # no files of earlier calls
                    res, err, spy, left = mk.call(mod, name, args)
                alone.append((name, args, kind, None if err else key(res)))
            mod = mk.module(rank=rank, size=1 + rank)
            for name, args, kind, k in alone:
                if rank and "3d" in name:
                    continue
                res, err, spy, left = mk.call(mod, name, args)
                inp = {"generator": name, "args": args, "process": rank}
                ctx.check(f"{name} process {rank}: no exception", err is None, {**inp, "exception": repr(err)})
                ctx.check(f"{name} process {rank}: generator left closed", not left, inp)
                ctx.check(f"{name} process {rank}: opened and closed in pairs", spy.opened == spy.closed, {**inp, "opened": spy.opened, "closed": spy.closed})
                if kind == "import" and rank == 0:
                    _, err, spy, left = mk.call(mod, name, args, mk.Spy(renumber=lambda t: 2 * t))
                    ctx.check(f"{name} refused numbering: generator left closed", not left or err is None, inp)
                # a call that fails (zero-sized piece, failing generator) leaves the generator closed as well
                for bad in degenerate(name, args):
                    _, err, spy, left = mk.call(mod, name, bad)
                    ctx.check(f"{name} process {rank}: generator left closed", not left, {**inp, "args": bad, "exception": repr(err)})
                _, err, spy, left = mk.call(mod, name, args, mk.Failing())
                ctx.check(f"{name} process {rank}: generator left closed when meshing fails", not left, {**inp, "exception": repr(err)})
            if rank == 0:
                # the same generators with other arguments, from an empty directory as well
                for name, args, h, box, regs, kind in mk.cases(ctx.rng):
                    with mk.scratch():
                        res, err, spy, left = mk.call(mod, name, args)
                    alone.append((name, args, kind, None if err else key(res)))
                order = list(range(len(alone)))
                ctx.rng.shuffle(order)
                # sessions are not closed by the harness in between
                for j in order:
                    name, args, kind, k = alone[j]
                    res, err, spy, left = mk.call(mod, name, args)
                    ctx.check(f"{name}: same result in a sequence of calls", err is None and k is not None and same(key(res), k), {"generator": name, "args": args, "exception": repr(err)})
    mk.done()
