"""Data-region indicators."""
import numpy as np

from replay import drivers

RULE = "indicator functions of the imported problem modules (all built-in variants) on random point sets including band end points, compared with membership"
BOUND = "300 point sets of 0..40 points per indicator"


def variants():
    yield 1, {}, {"omega_ind_convex": lambda x: x[0] <= 0.2 or x[0] >= 0.8, "omega_ind_nogcc": lambda x: x[0] <= 0.2}, None
    yield 2, {}, {"omega_ind_convex": lambda x: x[0] <= 0.2 or x[0] >= 0.8 or x[1] <= 0.2 or x[1] >= 0.8}, None
    for gcc in (False, True):
        want = (lambda x: any(c <= 0.25 or c >= 0.75 for c in x)) if gcc else (lambda x: x[0] <= 0.25)
        yield 3, {"GCC": gcc}, {"omega_ind": want}, None
        yield 3, {"GCC": gcc, "REF_LVL": 0}, {"omega_ind": want}, True


def run(ctx):
    spec = [0.0, 0.2, 0.8, 0.25, 0.75, 1.0, 0.5, np.nextafter(0.2, 1), np.nextafter(0.8, 0), np.nextafter(0.25, 1), np.nextafter(0.75, 0),
            np.nextafter(0.2, 0), np.nextafter(0.8, 1), np.nextafter(0.25, 0), np.nextafter(0.75, 1)]
    for dim, consts, want, sym in variants():
        mod, p, _ = drivers.load(dim, consts)
        tag = f"{dim}d {consts}"
        used = p.args["omega"].indicator_function
        if sym:
            # a symbolic condition evaluated point by point
            for i in range(200):
                x = [ctx.rng.choice(spec) if ctx.rng.random() < 0.5 else ctx.rng.random() for _ in range(dim)]
                for f in [used]:
                    got = float(f(tuple(x)))
                    w = want["omega_ind"](x)
                    ctx.check(f"{tag}: membership", got == (1.0 if w else 0.0), {"x": x, "got": got, "expected": bool(w)})
            ctx.check(f"{tag}: symbolic region is not interpolated", p.args["omega"].fitted is False)
            continue
        for name, inside in want.items():
            f = getattr(mod, name, None)
            if f is None:
                raise drivers.FakeUnsupported(f"{tag}: no {name}")
            for i in range(300):
                n = ctx.rng.randrange(0, 41) if i else 1
                x = np.zeros((3, n))
                for a in range(dim):
                    x[a] = [ctx.rng.choice(spec) if ctx.rng.random() < 0.4 else ctx.rng.random() for _ in range(n)]
                x0 = x.copy()
                got = np.asarray(f(x))
                w = np.array([1.0 if inside(x[:dim, j]) else 0.0 for j in range(n)])
                ok = got.shape == (n,) and np.array_equal(got, w)
                ctx.check(f"{tag} {name}: membership of {'many' if n > 1 else n} points", ok,
                          {"points": x[:dim].T.tolist()[:8], "got": got.tolist()[:8], "expected": w.tolist()[:8]})
                ctx.check(f"{tag} {name}: points unmodified", np.array_equal(x, x0))
        ctx.check(f"{tag}: the problem uses a shipped indicator", any(getattr(mod, n, None) is used for n in want), {"used": repr(used)})
