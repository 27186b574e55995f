"""Symbolic booleans and the bridge to z3."""
from __future__ import annotations

from fractions import Fraction

import z3

from . import ring
from .ring import Poly, Unsupported

OPS = {"<": "<", "<=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", "<=": ">", "==": "!=", "!=": "==", ">": "<=", ">=": "<"}


class SymBool:
    """Boolean term: ('cmp', op, p) meaning p op 0, ('and',..), ('or',..), ('not',x), ('app', name, args)."""

    __slots__ = ("op", "args", "_z", "_fv", "_h")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._z = None
        self._fv = None
        self._h = None

    # structure
    @property
    def fv(self):
        if self._fv is None:
            self._fv = ring.fv(self.args)
        return self._fv

    @property
    def atoms(self):
        out = []
        for a in self.args:
            out += ring.sub_atoms(a)
        return out

    def pv_subst(self, m):
        if self.op == "cmp":
            return mk_cmp(self.args[0], ring.subst(self.args[1], m))
        if self.op == "not":
            return lnot(ring.subst(self.args[0], m))
        if self.op == "and":
            return land(*[ring.subst(a, m) for a in self.args])
        if self.op == "or":
            return lor(*[ring.subst(a, m) for a in self.args])
        return SymBool(self.op, ring.subst(self.args, m))

    def pv_key(self):
        if self._h is None:
            self._h = (self.op, ring.ckey(self.args))
        return self._h

    def __hash__(self):
        return hash(self.pv_key())

    def same(self, o):
        return isinstance(o, SymBool) and self.pv_key() == o.pv_key()

    @property
    def z(self):
        if self._z is None:
            o, a = self.op, self.args
            if o == "cmp":
                op, p = a
                l = ring.to_z3(p)
                self._z = {"<": l < 0, "<=": l <= 0, "==": l == 0, "!=": l != 0}[op]
            elif o == "not":
                self._z = z3.Not(bz(a[0]))
            elif o == "and":
                self._z = z3.And([bz(x) for x in a])
            elif o == "or":
                self._z = z3.Or([bz(x) for x in a])
            elif o == "app":
                self._z = z3.Bool(f"b#{ring.mk_atom('boolapp', a, 'bool').uid}")
            else:
                raise Unsupported(o)
        return self._z

    # Python protocol
    def __bool__(self):
        from . import engine

        return engine.cur().decide(self)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return lor(land(self, o), land(lnot(self), lnot(o)))
        if isinstance(o, (int, Fraction, Poly)):
            return bool(self) == o
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def __and__(self, o):
        return land(self, o) if isinstance(o, (SymBool, bool)) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return lor(self, o) if isinstance(o, (SymBool, bool)) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return lnot(self == o)

    def __invert__(self):
        return lnot(self)

    def _num(self):
        return ite(self, 1, 0)

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        if self.op == "cmp":
            return f"({self.args[1]} {self.args[0]} 0)"
        return f"{self.op}{self.args}"


def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x.z


def mk_cmp(op, d):
    """d op 0"""
    if not isinstance(d, Poly):
        return {"<": d < 0, "<=": d <= 0, "==": d == 0, "!=": d != 0}[op]
    if op in ("==", "!="):
        lead = min(d.t, key=lambda m: tuple((a.uid, e) for a, e in m))
        c = d.t[lead]
        if c != 1:
            d = d * (1 / c)
    return SymBool("cmp", (op, d))


def compare(a, b, op):
    if isinstance(a, float) and a in (float("inf"), float("-inf")) or isinstance(b, float) and b in (float("inf"), float("-inf")):
        x = a if isinstance(a, float) else b
        big = (x > 0) == (x is b)  # a < inf or -inf < b ordering
        return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
    if op in (">", ">="):
        a, b = b, a
        op = "<" if op == ">" else "<="
    d = Poly.lift(a) - Poly.lift(b)
    return mk_cmp(op, d)


def lnot(x):
    if isinstance(x, bool):
        return not x
    if x.op == "not":
        return x.args[0]
    if x.op == "cmp":
        op, p = x.args
        if op == "==":
            return SymBool("cmp", ("!=", p))
        if op == "!=":
            return SymBool("cmp", ("==", p))
        if op == "<":
            return mk_cmp("<=", -p)
        return mk_cmp("<", -p)
    return SymBool("not", (x,))


def _flat(op, xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool) and x.op == op:
            out += x.args
        else:
            out.append(x)
    return out


def land(*xs):
    xs = _flat("and", xs)
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else SymBool("and", tuple(xs))


def lor(*xs):
    xs = _flat("or", xs)
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else SymBool("or", tuple(xs))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    """Number or boolean if-then-else (immutable values only)."""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return lor(land(c, a), land(lnot(c), b))
    if Poly.lift(a) is not None and Poly.lift(b) is not None:
        if ring.same_num(a, b):
            return a
        srt = "int" if Poly.lift(a).is_int() and Poly.lift(b).is_int() else "real"
        return ring.app("ite", c, a, b, sort=srt)
    raise Unsupported("if-then-else of non-numeric values")


def as_bool(x):
    """Truth value as SymBool/bool without forcing a decision."""
    if isinstance(x, (bool, SymBool)):
        return x
    if isinstance(x, Poly):
        return mk_cmp("!=", x)
    return bool(x)


def provable(c):
    if isinstance(c, bool):
        return c
    from . import engine

    return engine.cur().entails(c)
