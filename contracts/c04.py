"""C04 lifting function."""
from fractions import Fraction as F

from pyvc import loader, ring

from .util import math_world


def h(e):
    m = loader.fresh_loader(math_world()).load("dxss.precomp_time_int")
    t = ring.var("t")
    e.reachable("precondition")
    e.prove_eq("one at -1", m.theta_ref(-1), 1)
    e.prove_eq("zero at 0", m.theta_ref(0), 0)
    e.prove_eq("zero at 1", m.theta_ref(1), 0)
    e.prove_eq("theta is the quadratic with these values, for all t", m.theta_ref(t), t * (t - 1) / 2, tol=1e-13)
    e.prove_eq("derivative is exact, for all t", m.d_theta_ref(t), t - F(1, 2), tol=1e-13)
    e.prove_eq("unchanged by earlier calls", m.theta_ref(t), t * (t - 1) / 2, tol=1e-13)
    e.prove_eq("derivative unchanged by earlier calls", m.d_theta_ref(t), t - F(1, 2), tol=1e-13)


def units(tier):
    return [("lifting", h)]
