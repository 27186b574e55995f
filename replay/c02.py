from spec import timebasis as tb

RULE = "all entries of all element matrices for all pairs of degrees"
BOUND = "complete for degrees 0..3"


def run(ctx):
    import dxss.precomp_time_int as m

    pairs = [(q, qs) for q in range(4) for qs in range(4)]
    ctx.rng.shuffle(pairs)
    for q, qs in pairs:
        got = ctx.guard(f"q={q} q*={qs}", lambda: m.get_elmat_time(q, qs), {"q": q, "qstar": qs})
        if got is None:
            continue
        for k, w in tb.elmat(q, qs).items():
            ctx.close(f"q={q} q*={qs}: {k}", got[k], [[float(x) for x in r] for r in w], 1e-11, {"q": q, "qstar": qs, "matrix": k})
        t = float(ctx.np.uniform(0, 1))
        for i, f in enumerate(m.basis_in_time[q][0]):
            ctx.close(f"q={q}: same basis {i}", f(t), float(tb.peval(tb.lagrange(q)[i], t)), 1e-11, {"t": t})
