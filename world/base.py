"""Helpers for contract modules, and the contracts of math, sympy, sys/time/resource."""
from __future__ import annotations

import types
from fractions import Fraction

from pyvc import engine, heap, ring, sym
from pyvc.ring import Poly, Unsupported
from pyvc.values import PList


class Mod(types.ModuleType):
    """External module known through contracts only: unknown names make the run undecided."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n} has no contract")


def mod(name, **attrs):
    m = Mod(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


PI = ring.var("pi", "real")
ring.Z3_AXIOMS  # noqa: B018


def _pi_axioms():
    import z3

    a = ring.atom_of(PI)
    z = ring.z3_atom(a)
    ring.Z3_AXIOMS[a] = [z > z3.RealVal("3.14159265358979"), z < z3.RealVal("3.1415926535898")]


_pi_axioms()


def lift(x):
    p = Poly.lift(x) if not isinstance(x, sym.SymBool) else x._num()
    if p is None:
        raise TypeError(f"must be real number, not {type(x).__name__}")
    return p.norm() if isinstance(p, Poly) else p


def m_sqrt(x):
    x = lift(x)
    if isinstance(x, Poly):
        if not energy(x) and not nonneg(x):
            if bool(sym.compare(x, 0, "<")):
                raise ValueError("math domain error")
    return ring.num_sqrt(x)


def energy(x):
    """Value built from assembled integrals: integrals of squares are not recognised as such, their sign is not an obligation."""
    todo = [a for m in x.t for a, _ in m]
    while todo:
        a = todo.pop()
        if a.kind in ("int", "local"):
            return True
        if a.kind == "sum":
            todo += [b for _, it in a.args[0].items if isinstance(it, Poly) for m in it.t for b, _ in m]
    return False


def nonneg(x):
    """Obviously nonnegative (sums of squares / integrals of squares are marked by their atoms)."""
    if not isinstance(x, Poly):
        return x >= 0
    ok = True
    for m, c in x.t.items():
        if c < 0:
            ok = False
        for a, e in m:
            if e % 2 and not (a.kind in ("sqrt", "abs", "pow") or a.info == "nonneg" or _nonneg_sum(a)):
                ok = False
    return ok or sym.provable(sym.compare(x, 0, ">="))


def _nonneg_sum(a):
    if a.kind == "sum":
        return all(nonneg(d) for _, d in a.args[0].items)
    return sym.provable(sym.compare(Poly.of(a), 0, ">="))


def trig(name):
    def f(x):
        x = lift(x)
        if not isinstance(x, Poly):
            if x == 0:
                return 1 if name == "cos" else 0
            x = Poly.lift(x)
        # canonical sign: cos even, sin odd
        lead = x.t[min(x.t, key=lambda m: tuple((a.uid, e) for a, e in m))]
        s = 1
        if lead < 0:
            x = -x
            s = 1 if name == "cos" else -1
        # multiples of pi
        y = ring.num_div(x, PI)
        if not isinstance(y, Poly):
            r = Fraction(y) % 2
            tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
            if r in tab:
                return s * tab[r][0 if name == "cos" else 1]
        return s * ring.app(name, x)

    return f


def m_abs(x):
    return abs(x)


def m_isclose(a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
    d = abs(lift(a) - lift(b))
    if not isinstance(d, Poly):
        return d <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
    raise Unsupported("isclose of symbolic numbers")


def m_floor(x):
    x = lift(x)
    if isinstance(x, Poly):
        if x.is_int():
            return x
        return Poly.of(ring.mk_atom("toint", (x,), "int"))
    import math

    return math.floor(x)


def m_ceil(x):
    r = m_floor(-x)
    return -r


def make_math():
    return mod("math", sqrt=m_sqrt, pi=PI, cos=trig("cos"), sin=trig("sin"), fabs=m_abs, isclose=m_isclose, floor=m_floor,
               ceil=m_ceil, inf=float("inf"), fsum=lambda it: sum(it), pow=ring.num_pow, exp=lambda x: ring.app("exp", lift(x)),
               tau=2 * PI, prod=_prod)


def _prod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r


# ------------------------------------------------------------------------- sympy (polynomials with exact coefficients)
def sp_symbols(names, **k):
    ns = [n for n in names.replace(",", " ").split() if n]
    vs = tuple(ring.var(f"sympy_{n}", "real") for n in ns)
    return vs if len(vs) > 1 else vs[0]


def _xatom(x):
    if not isinstance(x, Poly):
        raise ValueError("not a symbol")
    return ring.atom_of(x)


def sp_diff(e, x, n=1):
    a = _xatom(x)
    for _ in range(n):
        p = Poly.lift(e)
        out = 0
        for m, c in p.t.items():
            d = dict(m)
            k = d.get(a, 0)
            if any(b is not a and a in b.fv for b, _ in m):
                raise Unsupported("sympy.diff of a non-polynomial")
            if k:
                d[a] = k - 1
                if not d[a]:
                    del d[a]
                out = out + Poly({tuple(sorted(d.items(), key=lambda y: y[0].uid)): c * k}).norm()
        e = out
    return e


def sp_integrate(e, lim):
    if isinstance(lim, Poly):
        return _antider(e, ring.atom_of(lim))
    x, lo, hi = lim
    a = _xatom(x)
    F = _antider(e, a)
    return ring.subst(F, {a: hi}) - ring.subst(F, {a: lo})


def _antider(e, a):
    p = Poly.lift(e)
    out = 0
    for m, c in p.t.items():
        d = dict(m)
        k = d.get(a, 0)
        if k < 0 or any(b is not a and a in b.fv for b, _ in m):
            raise Unsupported("sympy.integrate of a non-polynomial")
        d[a] = k + 1
        out = out + Poly({tuple(sorted(d.items(), key=lambda y: y[0].uid)): c / (k + 1)}).norm()
    return out


def sp_lambdify(x, e, *a, **k):
    xs = [x] if isinstance(x, Poly) else list(x)

    def f(*vals):
        return ring.subst(e, {ring.atom_of(s): v for s, v in zip(xs, vals)})

    return f


def sp_rational(a, b=1):
    if isinstance(a, str):
        return ring.norm_num(Fraction(a))
    return ring.num_div(a, b)


def make_sympy():
    ident = lambda e, *a, **k: e  # noqa: E731
    m = mod("sympy", symbols=sp_symbols, Symbol=sp_symbols, diff=sp_diff, integrate=sp_integrate, sqrt=m_sqrt, Rational=sp_rational,
            Integer=lambda x: x, Float=lambda x, *a: ring.norm_num(Fraction(x)), S=lambda x: x, simplify=ident, expand=ident,
            nsimplify=ident, lambdify=sp_lambdify, pi=PI, cos=trig("cos"), sin=trig("sin"), N=ident, sympify=ident, factor=ident)
    return m


def make_sys():
    return mod("sys", setrecursionlimit=lambda n: None, argv=PList(["prog"]), stdout=_Out(), stderr=_Out(), exit=_exit, maxsize=2**63 - 1,
               float_info=None, path=PList([]), modules={}, version_info=(3, 12, 3), platform="linux")


class _Out:
    def write(self, s):
        return None

    def flush(self):
        return None


def _exit(*a):
    raise SystemExit(*a)


def make_time():
    c = [0]

    def t():
        c[0] += 1
        return ring.fresh("clock", "real")

    return mod("time", time=t, perf_counter=t, sleep=lambda s: None, monotonic=t)


class _RU:
    ru_maxrss = 0


def make_resource():
    return mod("resource", getrusage=lambda w: _RU(), RUSAGE_SELF=0)


def make_itertools():
    import itertools

    from pyvc.values import SymChain, SymProduct, is_symbolic_iter

    def product(*its, repeat=1):
        its = list(its) * repeat
        if any(is_symbolic_iter(i) for i in its):
            return SymProduct(its)
        return itertools.product(*its)

    def chain(*its):
        if any(is_symbolic_iter(i) for i in its):
            return SymChain(its)
        return itertools.chain(*its)

    chain.from_iterable = lambda its: chain(*its)

    def nat(name):
        f = getattr(itertools, name)

        def g(*a, **k):
            for x in a:
                if is_symbolic_iter(x):
                    raise Unsupported(f"itertools.{name} of a symbolic sequence")
            return f(*a, **k)

        return g

    return mod("itertools", product=product, chain=chain, **{n: nat(n) for n in (
        "accumulate", "combinations", "permutations", "islice", "repeat", "count", "starmap", "takewhile", "zip_longest", "pairwise", "cycle")})
