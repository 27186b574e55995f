import numpy as np

from spec import timebasis as tb

RULE = "basis functions and derivatives at random reference times, nodes and after other uses"
BOUND = "degrees 0..3 (all), 40 random times each"


def run(ctx):
    import dxss.precomp_time_int as m

    for q in range(4):
        vals, ders = m.basis_in_time[q]
        ctx.check(f"degree {q}: sizes", len(vals) == q + 1 and len(ders) == q + 1)
        ts = [float(x) for x in tb.nodes(q)] + [0.0, 1.0] + list(ctx.np.uniform(-1, 2, 40))
        L = tb.lagrange(q)
        for rep in range(2):
            for t in ts:
                for i in range(q + 1):
                    ctx.close(f"degree {q}: basis {i}", vals[i](t), float(tb.peval(L[i], t)), 1e-10, {"q": q, "i": i, "t": t})
                    ctx.close(f"degree {q}: derivative {i}", ders[i](t), float(tb.peval(tb.pder(L[i]), t)), 1e-10, {"q": q, "i": i, "t": t})
            m.get_elmat_time(q, (q + 1) % 4)
