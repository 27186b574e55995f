"""C21: data-region indicators."""
from fractions import Fraction as F

from pyvc import heap, ring, sym
from pyvc.ring import Poly, Unsupported

from world.numpy_ import I, IOTA, NArr, SArr, SMat, asarr

from .drv import Cond, load

ASSUMPTIONS = ["elementwise numpy semantics on arrays of any number of columns (world/numpy_.py)"]
C = lambda a, b, op: sym.compare(a, b, op)  # noqa: E731
band = lambda x, d: sym.lor(C(x, d, "<="), C(x, 1 - d, ">="))  # noqa: E731
W1 = {"omega_ind_convex": lambda x: band(x[0], F(1, 5)), "omega_ind_nogcc": lambda x: C(x[0], F(1, 5), "<=")}
W2 = {"omega_ind_convex": lambda x: sym.lor(band(x[0], F(1, 5)), band(x[1], F(1, 5)))}
W3 = {False: {"omega_ind": lambda x: C(x[0], F(1, 4), "<=")}, True: {"omega_ind": lambda x: sym.lor(*[band(c, F(1, 4)) for c in x])}}


def indom(x):
    return sym.land(*[c for y in x for c in (C(0, y, "<="), C(y, 1, "<="))])


def unit(dim, want, consts=None, symbolic=False):
    def h(e):
        d = load(dim, consts=consts)
        om = d.args["omega"]
        used = om.indicator_function
        e.reachable("precondition")
        if symbolic:
            e.prove("a symbolic region is not interpolated", om.fitted is False)
            x = [ring.var(f"p{i}") for i in range(dim)]
            w = want["omega_ind"](x)
            if not isinstance(used, Cond):
                raise Unsupported("symbolic indicator")
            e.assume(indom(x))
            got = used(x)
            e.prove("one exactly inside the region, zero outside, at every point", sym.ite(w, C(got, 1, "=="), C(got, 0, "==")), str(got))
            return
        e.prove("the problem uses a shipped indicator", any(getattr(d.mod, k, None) is used for k in want), str(used))
        e.prove("its region is interpolated on the mesh", om.fitted is True)
        for name, inside in want.items():
            f = getattr(d.mod, name, None)
            if f is None:
                raise Unsupported(f"no {name}")
            check(e, f, name, inside, dim)
    return h


def check(e, f, name, inside, dim):
    n = ring.var("n", "int")
    pts = [SArr(n, Poly.of(ring.mk_atom("coord", (i, I)))) for i in range(3)]

    def run():
        e.assume(C(n, 1, ">="))
        x = SMat([SArr(p.n, p.e) for p in pts])
        return x, f(x), f(x)

    def on_path(r):
        o = r[1]
        if o[0] == "exc":
            e.prove(f"{name} returns", False, f"raises {type(o[1]).__name__}: {o[1]}")
            return
        x, got, again = o[1]
        if isinstance(got, NArr) or not isinstance(got, SArr):
            raise Unsupported(f"{name} returns {type(got).__name__}")
        e.prove_eq(f"{name}: one value per point", got.n, n)
        j = ring.fresh("j")
        e.assume(sym.land(C(j, 0, ">="), C(j, n, "<")))
        at = lambda a: ring.subst(a, {IOTA: j})  # noqa: E731
        c = [at(p.e) for p in pts[:dim]]
        e.assume(indom(c))
        w = inside(c)
        v = at(got.e)
        ok = sym.ite(w, C(v, 1, "=="), C(v, 0, "=="))
        e.prove(f"{name}: one exactly inside the region, zero outside, at every point of any set", ok, str(v))
        e.prove_eq(f"{name}: same value when evaluated again", at(again.e), v)
        for a, b in zip(x.rows, pts):
            e.prove_eq(f"{name}: points unmodified", a.e, b.e)

    e.explore(run, on_path)
    for k in (0, 1):
        small(e, f, name, inside, dim, k)


def small(e, f, name, inside, dim, k):
    """Empty and one-point sets."""
    import numpy as np

    from world.numpy_ import obj
    vs = [[ring.var(f"y{i}_{j}") for j in range(k)] for i in range(3)]

    def run():
        return f(NArr(obj((3, k), [v for row in vs for v in row])))

    def on_path(r):
        o = r[1]
        if o[0] == "exc":
            e.prove(f"{name} returns for {k} points", False, f"raises {type(o[1]).__name__}: {o[1]}")
            return
        if not isinstance(o[1], NArr):
            raise Unsupported("result type")
        e.prove(f"{name}: {k} values for {k} points", o[1].shape == (k,), str(o[1].shape))
        for j in range(k):
            c = [vs[i][j] for i in range(dim)]
            e.assume(indom(c))
            v = o[1].a[j]
            e.prove(f"{name}: value at a single point", sym.ite(inside(c), C(v, 1, "=="), C(v, 0, "==")), str(v))

    e.explore(run, on_path)


def units(tier):
    out = [("1d", unit(1, W1)), ("2d", unit(2, W2))]
    for g in (False, True):
        out.append((f"3d, all around {g}", unit(3, W3[g], {"GCC": g})))
        out.append((f"3d coarsest mesh, all around {g}", unit(3, W3[g], {"GCC": g, "REF_LVL": 0}, True)))
    return out
