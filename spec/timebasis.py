"""Exact reference objects in time (Fractions): Lagrange basis on equispaced nodes and its integrals."""
from fractions import Fraction as F


def nodes(q):
    return [F(0)] if q == 0 else [F(i, q) for i in range(q + 1)]


def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def pder(a):
    return [i * x for i, x in enumerate(a)][1:] or [F(0)]


def pint01(a):
    return sum((x / (i + 1) for i, x in enumerate(a)), F(0))


def lagrange(q):
    """Coefficient lists (ascending powers) of the Lagrange basis of degree q on [0,1]."""
    ns = nodes(q)
    out = []
    for i, xi in enumerate(ns):
        p = [F(1)]
        for j, xj in enumerate(ns):
            if j != i:
                p = pmul(p, [-xj / (xi - xj), 1 / (xi - xj)])
        out.append(p)
    return out


def peval(p, t):
    r = 0
    for c in reversed(p):
        r = r * t + c
    return r


def elmat(q, qs):
    """Exact element matrices, rows = test, columns = trial."""
    ph, ch = lagrange(q), lagrange(qs)
    dph = [pder(p) for p in ph]
    I = lambda a, b: pint01(pmul(a, b))  # noqa: E731,E741
    return {
        "M_time_q_qstar": [[I(ph[j], ch[i]) for j in range(q + 1)] for i in range(qs + 1)],
        "M_time_q_q": [[I(ph[j], ph[i]) for j in range(q + 1)] for i in range(q + 1)],
        "M_time_qstar_qstar": [[I(ch[j], ch[i]) for j in range(qs + 1)] for i in range(qs + 1)],
        "DM_time_q_qstar": [[I(dph[j], ch[i]) for j in range(q + 1)] for i in range(qs + 1)],
        "DM_time_q_q": [[I(dph[j], ph[i]) for j in range(q + 1)] for i in range(q + 1)],
        "DDM_time_q_q": [[I(dph[j], dph[i]) for j in range(q + 1)] for i in range(q + 1)],
    }
