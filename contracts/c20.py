"""C20: reference solutions."""
import math
import random

from pyvc import ring, sym
from pyvc.ring import Poly

from world import base

from .drv import load

ASSUMPTIONS = ["ufl.sin/cos/sqrt are the mathematical functions; math.pi and math.sqrt are exact"]


def diff(x, v):
    """Derivative with respect to variable v."""
    if not isinstance(x, Poly):
        return 0
    out = 0
    for m, c in x.t.items():
        for j, (a, k) in enumerate(m):
            if v not in a.fv:
                continue
            rest = Poly({m[:j] + m[j + 1:]: c}).norm()
            inner = k * ring.num_pow(Poly.of(a), k - 1)
            if a is v:
                da = 1
            elif a.kind == "sin":
                da = base.trig("cos")(a.args[0]) * diff(a.args[0], v)
            elif a.kind == "cos":
                da = -base.trig("sin")(a.args[0]) * diff(a.args[0], v)
            elif a.kind == "sqrt":
                da = ring.num_div(diff(a.args[0], v), 2 * Poly.of(a))
            elif a.kind == "exp":
                da = Poly.of(a) * diff(a.args[0], v)
            elif a.kind == "inv":
                da = -Poly.of(a) * Poly.of(a) * diff(a.args[0], v)
            else:
                raise ring.Unsupported(f"derivative of {a.kind}")
            out = out + rest * inner * da
    return out


def ev(x, env):
    """Numeric value (for telling a genuine difference from an identity the normal form does not know)."""
    if not isinstance(x, Poly):
        return float(x)
    s = 0.0
    for m, c in x.t.items():
        p = float(c)
        for a, k in m:
            if a.kind == "var":
                b = env[a.args[0]]
            else:
                f = {"sin": math.sin, "cos": math.cos, "sqrt": math.sqrt, "exp": math.exp, "inv": lambda y: 1 / y, "abs": abs}.get(a.kind)
                if f is None:
                    raise ring.Unsupported(f"value of {a.kind}")
                b = f(ev(a.args[0], env))
            p *= b**k
        s += p
    return s


def zero(e, name, x, dim):
    x = ring.drop_small(x, 1e-12) if isinstance(x, Poly) else x
    if not isinstance(x, Poly):
        return e.prove(name, abs(x) < 1e-12, str(x))
    r = random.Random(1)
    for _ in range(5):
        env = {"pi": math.pi, "t": r.random()}
        env.update({f"x{i}": r.random() for i in range(dim)})
        if abs(ev(x, env)) > 1e-9:
            return e.prove(name, sym.mk_cmp("==", x), f"equals {x}, e.g. {ev(x, env)} at {env}")
    raise ring.Unsupported(f"{name}: {x} is numerically zero but not in normal form")


def box(d, dim):
    m = d.args["msh"]
    if m.kind == "interval" or m.kind in ("around", "unit cube", "unit square"):
        return [(0, 1)] * dim
    if m.kind in ("interval2", "box", "rectangle"):
        p = list(m.args["pos"][1] if m.kind == "interval2" else m.args["pos"][0])
        if m.kind == "interval2":
            return [(p[0], p[1])]
        return [(p[0][i], p[1][i]) for i in range(dim)]
    raise ring.Unsupported(f"domain {m.kind}")


def unit(dim, consts=None):
    def h(e):
        d = load(dim, consts=consts)
        sol = d.args["solution"]
        u, v = sol.v, sol.dvdt
        t, x = ring.var("t"), [ring.var(f"x{i}") for i in range(dim)]
        ta = ring.atom_of(t)
        e.reachable("precondition")
        w = u(t, tuple(x))
        utt = diff(diff(w, ta), ta)
        lap = 0
        for c in x:
            lap = lap + diff(diff(w, ring.atom_of(c)), ring.atom_of(c))
        zero(e, "wave equation, for all t and x", utt - lap, dim)
        zero(e, "velocity is the time derivative, for all t and x", v(t, tuple(x)) - diff(w, ta), dim)
        b = box(d, dim)
        for i in range(dim):
            for s in (0, 1):
                y = list(x)
                y[i] = b[i][s]
                zero(e, f"vanishes at x{i} = {b[i][s]}, for all t", u(t, tuple(y)), dim)
        e.prove("not identically zero", isinstance(w, Poly))
        zero(e, "unchanged by earlier evaluations", u(t, tuple(x)) - w, dim)
    return h


def units(tier):
    return [(f"{n}d", unit(n)) for n in (1, 2, 3)] + [("3d, data all around", unit(3, {"GCC": True})), ("3d, coarsest mesh", unit(3, {"REF_LVL": 0}))]
