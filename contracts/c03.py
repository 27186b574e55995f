"""C03 quadrature rules."""
from fractions import Fraction as F

from pyvc import loader, ring

from .util import le, lt, math_world

#: (name, points, degree of exactness, digits of the table or None for exact constants)
RULES = [("Gauss-Radau", 3, 4, None), ("Gauss-Radau", 4, 6, 6), ("Gauss-Radau", 5, 8, 6), ("Gauss", 1, 1, None), ("Gauss", 2, 3, None),
         ("Gauss", 3, 5, None), ("Newton-Cotes", 2, 1, None), ("Newton-Cotes", 3, 3, None), ("Midpoint-Rule", 1, 1, None)]


def unit(name, n, deg, digits):
    def h(e):
        m = loader.fresh_loader(math_world()).load("dxss.precomp_time_int")
        r = m.QuadRule(name, n)
        a, b = ring.var("a"), ring.var("b")
        e.assume(lt(a, b))
        e.reachable("precondition a < b")
        pts, w = r.current_pts(a, b), r.t_weights(b - a)
        e.prove("number of points", len(pts) == n, f"{len(pts)} points")
        e.prove("one weight per point", len(w) == len(pts), f"{len(w)} weights")
        u = F(1, 2 * 10**digits) if digits else F(1, 10**13)
        for i in range(min(len(pts), len(w))):
            e.prove(f"point {i} not left of the interval", le(a, pts[i]))
            e.prove(f"point {i} not right of the interval", le(pts[i], b))
            e.prove(f"weight {i} positive", lt(0, w[i]))
        if name == "Gauss-Radau":
            e.prove_eq("left end is the first point", pts[0], a, tol=1e-13)
        # reference interval moments, then the affine map: p_i = a + (b-a) xi_i, w_i = (b-a) omega_i
        xi = [ring.subst(ring.Poly.lift(p), {ring.atom_of(a): 0, ring.atom_of(b): 1}) for p in pts]
        om = [ring.subst(ring.Poly.lift(x), {ring.atom_of(a): 0, ring.atom_of(b): 1}) for x in w]
        for i in range(min(len(pts), len(w))):
            e.prove_eq(f"point {i} is mapped affinely", pts[i], a + (b - a) * xi[i], tol=1e-13)
            e.prove_eq(f"weight {i} scales with the length", w[i], (b - a) * om[i], tol=1e-13)
        for k in range(deg + 1):
            s = 0
            for x, c in zip(xi, om):
                s = s + c * ring.num_pow(x, k)
            d = s - F(1, k + 1)
            tol = n * u + 2 * k * u
            e.prove(f"integrates s^{k} on [0,1]", le(d, tol) if not isinstance(d, ring.Poly) else le(ring.drop_small(d, float(tol)), tol), f"error {d}")
            e.prove(f"integrates s^{k} on [0,1] (lower)", le(-tol, d), f"error {d}")
    return h


def reuse(e):
    """A rule can be mapped to several intervals, and instances do not interfere."""
    m = loader.fresh_loader(math_world()).load("dxss.precomp_time_int")
    a, b, c, d = (ring.var(x) for x in "abcd")
    for name, n, *_ in RULES:
        r = m.QuadRule(name, n)
        p1, w1 = [x + 0 for x in r.current_pts(a, b)], [x + 0 for x in r.t_weights(b - a)]
        r.current_pts(c, d), r.t_weights(d - c)
        m.QuadRule("Gauss-Radau", 3).current_pts(c, d)
        for i, (x, y) in enumerate(zip(p1, r.current_pts(a, b))):
            e.prove_eq(f"{name} {n} point {i} independent of history", y, x)
        for i, (x, y) in enumerate(zip(w1, r.t_weights(b - a))):
            e.prove_eq(f"{name} {n} weight {i} independent of history", y, x)


def units(tier):
    return [(f"{r[0]} {r[1]}", unit(*r)) for r in RULES] + [("history", reuse)]
