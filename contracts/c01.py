"""C01 temporal basis."""
from pyvc import loader, ring, runtime
from spec import timebasis as tb

from .util import math_world


def unit(q):
    def h(e):
        m = loader.fresh_loader(math_world()).load("dxss.precomp_time_int")
        t = ring.var("t")
        e.reachable("precondition")
        vals, ders = m.basis_in_time[q]
        e.prove("as many basis functions as nodes", len(vals) == q + 1)
        e.prove("as many derivatives as nodes", len(ders) == q + 1)
        want = tb.lagrange(q)
        tot, dtot = 0, 0
        for i in range(q + 1):
            v, d = vals[i](t), ders[i](t)
            e.prove_eq(f"basis {i} is the Lagrange polynomial, for all t", v, tb.peval(want[i], t), tol=1e-13)
            e.prove_eq(f"derivative {i} is exact, for all t", d, tb.peval(tb.pder(want[i]), t), tol=1e-12)
            tot, dtot = tot + v, dtot + d
            for j, x in enumerate(tb.nodes(q)):
                e.prove_eq(f"basis {i} at node {j}", vals[i](x), 1 if i == j else 0, tol=1e-13)
        e.prove_eq("partition of unity, for all t", tot, 1, tol=1e-13)
        e.prove_eq("derivatives sum to zero, for all t", dtot, 0, tol=1e-12)
    return h


def history(e):
    """Evaluations do not change the published table."""
    m = loader.fresh_loader(math_world()).load("dxss.precomp_time_int")
    t, u = ring.var("t"), ring.var("u")
    for q in range(4):
        a = [[f(t) for f in part] for part in m.basis_in_time[q]]
        m.get_elmat_time(q, 3 - q)
        [[f(u) for f in part] for part in m.basis_in_time[3 - q]]
        b = [[f(t) for f in part] for part in m.basis_in_time[q]]
        for x, y in zip(a, b):
            for i, (v, w) in enumerate(zip(x, y)):
                e.prove_eq(f"degree {q} entry {i} unchanged by use", w, v)


def units(tier):
    return [(f"degree {q}", unit(q)) for q in range(4)] + [("history", history)]
