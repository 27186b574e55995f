"""Exact symbolic numbers: Laurent polynomials with rational coefficients over hash-consed atoms.

`Poly` is the only symbolic number of the verifier (integers and reals); a Poly that is a
constant never escapes: every operation returns a plain int / Fraction in that case.
Machine floating point is interpreted as exact real arithmetic (stated in every evidence file).
"""
from __future__ import annotations

from fractions import Fraction

import z3

_ATOMS: dict = {}
_SUBST: dict = {}
_COUNT = [0]


class Unsupported(BaseException):
    """The verifier cannot reason about a construct: undecided, never a violation."""


class ContractViolation(Exception):
    """A precondition of an external contract fails on a feasible path."""


def fv(x):
    """Free variables (Atoms of kind 'var') of any immutable verifier value."""
    if x is None or isinstance(x, (int, str, Fraction, float, bool)):
        return frozenset()
    f = getattr(x, "fv", None)
    if f is not None and not callable(f):
        return f
    if isinstance(x, (tuple, list, frozenset)):
        r = frozenset()
        for y in x:
            r |= fv(y)
        return r
    return frozenset()


def subst(x, m):
    """Substitute variables (dict Atom -> number) in an immutable verifier value."""
    if x is None or isinstance(x, (int, str, Fraction, float, bool)):
        return x
    if isinstance(x, tuple):
        return tuple(subst(y, m) for y in x)
    f = getattr(x, "pv_subst", None)
    if f is not None:
        v = x.fv
        for k in m:
            if k in v:
                return f(m)
        return x
    return x


class Atom:
    __slots__ = ("kind", "args", "sort", "uid", "fv", "_z", "info")

    def __repr__(self):
        if self.kind == "var":
            return self.args[0]
        return f"{self.kind}({', '.join(map(str, self.args))})"

    def __lt__(self, o):
        return self.uid < o.uid

    def pv_subst(self, m):
        """Returns an Atom, or a number when the atom is a variable."""
        if self.kind == "var":
            return m.get(self, self)
        f = REBUILD.get(self.kind)
        if f is not None:
            return f(*subst(self.args, m))
        return mk_atom(self.kind, subst(self.args, m), self.sort)


REBUILD = {}  # kinds with a normal form: function of the arguments giving the number


def ckey(x):
    """Canonical hashable key of an immutable verifier value (never triggers symbolic ==)."""
    if isinstance(x, Poly):
        return ("P", x.key())
    if isinstance(x, tuple):
        return tuple(ckey(y) for y in x)
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    k = getattr(x, "pv_key", None)
    if k is not None:
        return k()
    return x


def mk_atom(kind, args, sort="real"):
    key = (kind, ckey(args), sort)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort = kind, args, sort
        _COUNT[0] += 1
        a.uid = _COUNT[0]
        a._z = None
        a.info = None
        a.fv = frozenset([a]) if kind == "var" else fv(args)
        _ATOMS[key] = a
    return a


def var(name, sort="real"):
    return Poly.of(mk_atom("var", (name,), sort))


_FRESH = [0]


def fresh(prefix, sort="int"):
    _FRESH[0] += 1
    return var(f"{prefix}!{_FRESH[0]}", sort)


def atom_of(p):
    """The atom of a Poly that is exactly one atom."""
    (mono, c), = p.t.items()
    assert c == 1 and len(mono) == 1 and mono[0][1] == 1
    return mono[0][0]


def app(kind, *args, sort="real"):
    """Uninterpreted (or later axiomatised) function application as a number."""
    return Poly.of(mk_atom(kind, tuple(args), sort))


def norm_num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=_mkey))


def _mkey(x):
    return x[0].uid


def _needs_reduce(m):
    for a, e in m:
        if a.kind == "sqrt" and (e >= 2 or e < 0):
            return True
        if a.kind == "inv" and e < 0:
            return True
    return False


CALL_HOOK = [None]


class Poly:
    __slots__ = ("t", "_h", "_fv", "_z", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None
        self._fv = None
        self._z = None

    # construction -----------------------------------------------------
    @staticmethod
    def of(atom):
        return Poly({((atom, 1),): Fraction(1)})

    @staticmethod
    def lift(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return Poly({(): Fraction(x)}) if x else Poly({})
        if isinstance(x, Fraction):
            return Poly({(): x}) if x else Poly({})
        if isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                raise Unsupported("non-finite float")
            return Poly.lift(Fraction(x))
        try:
            import numpy as np

            if isinstance(x, np.integer):
                return Poly.lift(int(x))
            if isinstance(x, np.floating):
                return Poly.lift(float(x))
        except ImportError:
            pass
        return None

    def norm(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return norm_num(self.t[()])
        return self

    @property
    def fv(self):
        if self._fv is None:
            r = set()
            for m in self.t:
                for a, _ in m:
                    r |= a.fv
            self._fv = frozenset(r)
        return self._fv

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def same(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def pv_subst(self, m):
        out = {}
        acc = 0
        if len(_SUBST) > 300000:
            _SUBST.clear()
        mk = [(k, ckey(v)) for k, v in m.items()]
        for mono, c in self.t.items():
            hit = False
            for a, _ in mono:
                for k in m:
                    if k in a.fv:
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                out[mono] = out.get(mono, 0) + c
                continue
            p = c
            for a, e in mono:
                fv_ = a.fv
                r = [kv for kv in mk if kv[0] in fv_]
                if not r:
                    v = Poly.of(a)
                else:
                    r = (a, tuple(r))
                    v = _SUBST.get(r)
                    if v is None:
                        v = a.pv_subst(m)
                        if isinstance(v, Atom):
                            v = Poly.of(v)
                        _SUBST[r] = v
                if e < 0 and _is0(v):
                    # quotient with a zero divisor, only met outside the guard of the value: an arbitrary number
                    p = p * Poly.of(mk_atom("inv0", (a,), "real"))
                else:
                    p = p * num_pow(v, e)
            acc = acc + p
        base = Poly({k: v for k, v in out.items() if v})
        return (base + acc) if not _is0(acc) else base.norm()

    # arithmetic ---------------------------------------------------------
    def __add__(self, o):
        o = Poly.lift(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t).norm()

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Poly.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Poly.lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = Poly.lift(o)
        if o is None:
            return NotImplemented
        t = {}
        red = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                if _needs_reduce(m):
                    red = True
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        p = Poly(t)
        return p._reduce() if red else p.norm()

    __rmul__ = __mul__

    def _reduce(self):
        acc = 0
        for m, c in self.t.items():
            if not _needs_reduce(m):
                acc = acc + Poly({m: c}).norm()
                continue
            p = norm_num(c)
            for a, e in m:
                if a.kind == "sqrt" and (e >= 2 or e < 0):
                    arg = a.args[0]
                    # sqrt(x)^e = x^(e//2) * sqrt(x)^(e%2)
                    p = p * num_pow(arg, e // 2)
                    if e % 2:
                        p = p * Poly.of(a)
                elif a.kind == "inv" and e < 0:
                    p = p * num_pow(a.args[0], -e)
                else:
                    p = p * Poly({((a, e),): Fraction(1)})
            acc = acc + p
        return acc

    def __truediv__(self, o):
        return num_div(self, o)

    def __rtruediv__(self, o):
        return num_div(o, self)

    def __pow__(self, e):
        return num_pow(self, e)

    def __rpow__(self, b):
        return num_pow(b, self)

    def __abs__(self):
        return num_abs(self)

    def __floordiv__(self, o):
        return num_floordiv(self, o)

    def __mod__(self, o):
        return num_mod(self, o)

    def __rfloordiv__(self, o):
        return num_floordiv(o, self)

    def __rmod__(self, o):
        return num_mod(o, self)

    def __divmod__(self, o):
        return num_floordiv(self, o), num_mod(self, o)

    # comparisons: SymBool through the engine --------------------------------
    def _cmp(self, o, op):
        from . import sym

        if Poly.lift(o) is None:
            return NotImplemented
        return sym.compare(self, o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        from . import sym

        if Poly.lift(o) is None:
            return False
        return sym.compare(self, o, "==")

    def __ne__(self, o):
        from . import sym

        if Poly.lift(o) is None:
            return True
        return sym.compare(self, o, "!=")

    def __call__(self, *a):
        if CALL_HOOK[0] is None:
            raise TypeError("number is not callable")
        return CALL_HOOK[0](self, *a)

    def __bool__(self):
        from . import sym

        return bool(sym.compare(self, 0, "!="))

    def __index__(self):
        raise Unsupported(f"symbolic integer used where a concrete one is needed: {self}")

    def __int__(self):
        raise Unsupported(f"int() of a symbolic number: {self}")

    def __float__(self):
        raise Unsupported(f"float() of a symbolic number: {self}")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic number")

    def __format__(self, spec):
        return f"<{self!r}>"

    def __iter__(self):
        raise TypeError("number is not iterable")

    # numpy-scalar-like conveniences used on elements of arrays
    def item(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for m, c in self.t.items():
            s = "*".join((f"{a}" if e == 1 else f"{a}^{e}") for a, e in m)
            c = norm_num(c)
            if not s:
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            else:
                parts.append(f"{c}*{s}")
        return " + ".join(parts)

    # classification ----------------------------------------------------
    def is_int(self):
        for m, c in self.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != "int" or e < 0:
                    return False
        return True

    def monos(self):
        return self.t.items()


def _is0(x):
    return not isinstance(x, Poly) and x == 0


def is_num(x):
    return isinstance(x, (int, Fraction, Poly)) and not isinstance(x, bool)


def is_const(x):
    return isinstance(x, (int, Fraction, float)) and not isinstance(x, Poly)


def same_num(a, b):
    """Structural equality of two numbers in normal form (no solver)."""
    pa, pb = isinstance(a, Poly), isinstance(b, Poly)
    if pa != pb:
        return False
    return a.t == b.t if pa else a == b


def num_div(a, b):
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, bool):
        a = int(a)
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return norm_num(Fraction(a) / Fraction(b))
        la, lb = Poly.lift(a), Poly.lift(b)
        if la is None or lb is None:
            return a / b
        return num_div(la.norm(), lb.norm())
    lb = Poly.lift(b)
    la = Poly.lift(a)
    if lb is None or la is None:
        return NotImplemented
    if not lb.t:
        raise ZeroDivisionError("division by zero")
    nb = lb.norm()
    if not isinstance(nb, Poly):
        return la * (Fraction(1) / Fraction(nb))
    if len(nb.t) == 1:
        (m, c), = nb.t.items()
        inv = Poly({tuple((x, -e) for x, e in m): 1 / c})
        if _needs_reduce(next(iter(inv.t))):
            inv = inv._reduce()
        return la * inv
    # common monomial/scalar factor first, then an opaque inverse of the primitive part
    lead = nb.t[min(nb.t, key=lambda m: tuple((x.uid, e) for x, e in m))]
    prim = Poly({m: c / lead for m, c in nb.t.items()})
    if la.t and len(la.t) == len(prim.t):
        r = _scalar_ratio(la, prim)
        if r is not None:
            return norm_num(r / lead)
    return la * Poly.of(mk_atom("inv", (prim,), "real")) * (1 / lead)


def _scalar_ratio(a, b):
    r = None
    for m, c in a.t.items():
        d = b.t.get(m)
        if d is None:
            return None
        if r is None:
            r = c / d
        elif c / d != r:
            return None
    return r


def num_pow(b, e):
    if isinstance(e, Fraction) and e.denominator == 1:
        e = e.numerator
    if isinstance(e, float) and e == int(e):
        e = int(e)
    if isinstance(e, bool):
        e = int(e)
    if isinstance(b, float):
        b = Fraction(b)
    if isinstance(e, int):
        if not isinstance(b, Poly):
            if e < 0:
                return num_div(1, num_pow(b, -e))
            return norm_num(Fraction(b) ** e) if isinstance(b, Fraction) else b**e
        if e == 0:
            return 1
        if e < 0:
            return num_div(1, num_pow(b, -e))
        r = b
        for _ in range(e - 1):
            r = r * b
        return r
    if isinstance(e, Fraction) and e == Fraction(1, 2):
        return num_sqrt(b)
    if isinstance(e, float) and e == 0.5:
        return num_sqrt(b)
    if isinstance(e, Poly) and isinstance(b, Fraction) and b.numerator == 1:
        return num_div(1, num_pow(b.denominator, e))
    if isinstance(e, Poly) and not isinstance(b, Poly) and b > 0:
        # b ** (c + p) = b**c * b**p
        c = e.t.get((), Fraction(0))
        rest = e - norm_num(c)
        if c.denominator == 1:
            return num_pow(b, c.numerator) * app("pow", norm_num(Fraction(b)), rest)
    raise Unsupported(f"power {b} ** {e}")


REBUILD["pow"] = num_pow


def num_abs(x):
    from . import sym

    if not isinstance(x, Poly):
        return abs(x)
    if not any(e == 1 and a.kind in ("ev", "refpt", "blk") for m in x.t for a, e in m):  # else values of functions: of either sign
        if sym.provable(sym.compare(x, 0, ">=")):
            return x
        if sym.provable(sym.compare(x, 0, "<=")):
            return -x
    # canonical sign: |x| = |-x|
    y = -x
    a, b = app("abs", x), app("abs", y)
    lead = x.t[min(x.t, key=lambda m: tuple((q.uid, e) for q, e in m))]
    return a if lead > 0 else b


def num_sqrt(x):
    if not isinstance(x, Poly):
        x = Fraction(x)
        if x < 0:
            raise ValueError("math domain error")
        n, d = x.numerator, x.denominator
        import math

        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return norm_num(Fraction(rn, rd))
        # sqrt(n/d) = sqrt(n*d)/d with square factors taken out
        k = n * d
        out = 1
        f = 2
        while f * f <= k and f < 1000:
            while k % (f * f) == 0:
                k //= f * f
                out *= f
            f += 1
        return app("sqrt", k) * Fraction(out, d)
    return app("sqrt", x)


def num_floordiv(a, b):
    q = _divmod(a, b)
    return q[0]


def num_mod(a, b):
    return _divmod(a, b)[1]


def _divmod(a, b):
    if isinstance(b, int) and b > 0 and isinstance(a, Poly) and a.is_int():
        qt, rt = {}, {}
        for m, c in a.t.items():
            if m == ():
                q, r = divmod(c.numerator, b)
                if q:
                    qt[m] = Fraction(q)
                if r:
                    rt[m] = Fraction(r)
            elif c.numerator % b == 0:
                qt[m] = c / b
            else:
                raise Unsupported(f"floor division of {a} by {b}")
        return Poly(qt).norm(), Poly(rt).norm()
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return norm_num(Fraction(a // b)), norm_num(Fraction(a) % b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        r = None
        if len(a.t) == len(b.t):
            r = _scalar_ratio(a, b)
        if r is not None and r.denominator == 1:
            return r.numerator, 0
    raise Unsupported(f"floor division of {a} by {b}")


# ---------------------------------------------------------------- z3 translation
Z3_AXIOMS: dict = {}  # atom -> list of z3 facts about it


def z3_atom(a):
    if a._z is None:
        name = a.args[0] if a.kind == "var" else f"{a.kind}#{a.uid}"
        a._z = z3.Int(name) if a.sort == "int" else z3.Real(name)
        ax = []
        if a.kind == "sqrt":
            x = to_z3(a.args[0], real=True)
            ax += [a._z >= 0, z3.Implies(x >= 0, a._z * a._z == x)]
        elif a.kind == "inv":
            x = to_z3(a.args[0], real=True)
            ax += [z3.Implies(x != 0, a._z * x == 1)]
        elif a.kind == "abs":
            x = to_z3(a.args[0], real=True)
            ax += [a._z == z3.If(x >= 0, x, -x)]
        elif a.kind == "pow":
            ax += [a._z > 0]
        elif a.kind in ("cos", "sin"):
            ax += [a._z >= -1, a._z <= 1]
        elif a.kind == "ite":
            c, p, q = a.args
            ax += [a._z == z3.If(c.z, to_z3(p, real=True), to_z3(q, real=True))]
        elif a.kind == "min":
            p, q = (to_z3(y, real=True) for y in a.args)
            ax += [a._z == z3.If(p <= q, p, q)]
        elif a.kind == "max":
            p, q = (to_z3(y, real=True) for y in a.args)
            ax += [a._z == z3.If(p >= q, p, q)]
        elif a.kind == "toint":
            x = to_z3(a.args[0], real=True)
            ax += [z3.ToReal(a._z) <= x, x < z3.ToReal(a._z) + 1]
        Z3_AXIOMS[a] = ax
    return a._z


def z3_axioms(atoms):
    """Axioms of all interpreted atoms below the given ones."""
    out, todo, seen = [], list(atoms), set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        z3_atom(a)
        out += Z3_AXIOMS.get(a, [])
        for arg in a.args:
            todo += list(sub_atoms(arg))
        # uninterpreted inner arguments do not matter
    return out


def sub_atoms(x):
    if isinstance(x, Poly):
        return [a for m in x.t for a, _ in m]
    if isinstance(x, Atom):
        return [x]
    at = getattr(x, "atoms", None)
    if at is not None:
        return at
    return []


def to_z3(x, real=False):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x) if real else z3.IntVal(x)
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, Poly):
        if x.is_int():
            if x._z is None:
                x._z = _sum([_z3_mono(m, c, True) for m, c in x.t.items()])
            return z3.ToReal(x._z) if real else x._z
        if x._z is None:
            x._z = _sum([_z3_mono(m, c, False) for m, c in x.t.items()])
        return x._z
    raise Unsupported(f"to_z3({type(x).__name__})")


def _sum(xs):
    r = xs[0]
    for y in xs[1:]:
        r = r + y
    return r


def _z3_mono(m, c, as_int):
    r = z3.IntVal(c.numerator) if as_int else z3.RealVal(str(c))
    first = True
    for a, e in m:
        v = z3_atom(a)
        if not as_int and a.sort == "int":
            v = z3.ToReal(v)
        if e < 0:
            v = 1 / v
            e = -e
        for _ in range(e):
            if first and c == 1:
                r = v
            else:
                r = r * v
            first = False
    return r


def poly_atoms(x):
    """All atoms occurring in numbers below x (deep)."""
    out, todo = set(), list(sub_atoms(x))
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        for arg in a.args:
            todo += list(sub_atoms(arg))
    return out


def split_const_div(x, c):
    """x = c*q + r with q a number and r an int in [0,c); None when not determined."""
    if isinstance(x, int):
        return divmod(x, c)
    try:
        return _divmod(x, c)
    except Unsupported:
        return None


def content_scale(p):
    """Largest absolute coefficient of a number."""
    if not isinstance(p, Poly):
        return abs(p)
    return max(abs(c) for c in p.t.values())


def drop_small(p, eps):
    """Drop monomials with |coefficient| <= eps (documented regularisation / rounding)."""
    if not isinstance(p, Poly):
        return 0 if abs(p) <= eps else p
    return Poly({m: c for m, c in p.t.items() if abs(c) > eps}).norm()
