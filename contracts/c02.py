"""C02 time element matrices."""
from pyvc import loader
from spec import timebasis as tb

from .util import math_world

ASSUMPTIONS = ["sympy diff/integrate are exact on polynomials (contract world.base.make_sympy)", "numpy.zeros/item assignment store the value (floats exact)"]


def unit(q, qs):
    def h(e):
        m = loader.fresh_loader(math_world()).load("dxss.precomp_time_int")
        got = m.get_elmat_time(q, qs)
        e.reachable("precondition")
        want = tb.elmat(q, qs)
        for k, w in want.items():
            g = got[k]
            e.prove(f"{k} shape", tuple(g.shape) == (len(w), len(w[0])), f"shape {g.shape}")
            if tuple(g.shape) != (len(w), len(w[0])):
                continue
            for i in range(len(w)):
                for j in range(len(w[0])):
                    e.prove_eq(f"{k}[{i},{j}]", g[i, j], w[i][j], tol=1e-13)
        # same basis as the one used for evaluation: it is the exact Lagrange basis (C01)
        from pyvc import ring
        t = ring.var("t")
        for d in (q, qs):
            for i, f in enumerate(m.basis_in_time[d][0]):
                e.prove_eq(f"published basis {d},{i} is the integrated one", f(t), tb.peval(tb.lagrange(d)[i], t), tol=1e-13)
    return h


def units(tier):
    return [(f"q={q} q*={qs}", unit(q, qs)) for q in range(4) for qs in range(4)]
