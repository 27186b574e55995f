"""The `__pv__` object and the builtins seen by transformed code."""
from __future__ import annotations

import builtins
import functools
from fractions import Fraction

from . import engine, loops, ring, sym
from .ring import Poly, Unsupported
from .values import (BRK, CONT, Fam, PList, Poison, Ret, SymChain, SymEnum, SymMap, SymProduct, SymRange, SymZip, is_symbolic_iter,
                     mkrange, pv_len, segments_of, thaw)

ENTERED = set()


def _zero(b):
    """The Python number b vanishes (decided on this path); array scalars and form expressions do not raise."""
    if any(a.kind not in ("var", "inv", "pow") for m in b.t for a, _ in m):
        return False
    if len(b.t) == 1:  # inverses do not vanish
        (m, _), = b.t.items()
        return any(bool(sym.compare(Poly.of(a), 0, "==")) for a, x in m if x > 0 and a.kind != "inv")
    return bool(sym.compare(b, 0, "=="))


class PV:
    Ret, BRK, CONT = Ret, BRK, CONT

    def __init__(self, modname):
        self.modname = modname

    def enter(self, fname, line):
        ENTERED.add(f"{self.modname}:{fname}")

    num = staticmethod(functools.lru_cache(None)(lambda s: ring.norm_num(Fraction(s)) if s not in ("inf", "nan") else float(s)))

    @staticmethod
    def unsupported(what):
        raise Unsupported(what)

    @staticmethod
    def div(a, b):
        if _isnum(a) and _isnum(b):
            b = _num(b)
            if isinstance(b, Poly) and _zero(b):
                raise ZeroDivisionError("division by zero")
            return ring.num_div(_num(a), b)
        return a / b

    @staticmethod
    def pow(a, b):
        if _isnum(a) and _isnum(b):
            return ring.num_pow(_num(a), _num(b))
        return a**b

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            return "<fmt>" + a
        if _isnum(a) and _isnum(b):
            return ring.num_mod(_num(a), _num(b))
        return a % b

    @staticmethod
    def floordiv(a, b):
        if _isnum(a) and _isnum(b):
            return ring.num_floordiv(_num(a), _num(b))
        return a // b

    @staticmethod
    def _i(name, f):
        def g(a, b):
            if _isnum(a):
                return f(a, b)
            h = getattr(type(a), name, None)
            if h is not None:
                return h(a, b)
            return f(a, b)

        return g

    @staticmethod
    def is_(a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                x._bad()
        if a is b:
            return True
        if isinstance(a, (bool, sym.SymBool)) and isinstance(b, (bool, sym.SymBool)):
            return bool(a == b)
        return False

    @staticmethod
    def key(k):
        return k

    @staticmethod
    def fmt(x):
        if isinstance(x, (Poly, sym.SymBool)):
            return _Fmt(x)
        if isinstance(x, Fraction):
            return float(x)
        if isinstance(x, Poison):
            return _Fmt(x)
        return x

    # lists and comprehensions
    @staticmethod
    def mklist(x):
        return PList(x)

    genlist = staticmethod(lambda: PList())

    @staticmethod
    def gendone(l):
        return l if not l.pv_concrete() else iter(l)

    @staticmethod
    def unpack(t, n):
        t = tuple(t)
        if len(t) != n:
            raise ValueError("not enough values to unpack")
        return t

    @staticmethod
    def listcomp(it, f, *conds):
        out = PList()

        def body(x):
            for c in conds:
                if not c(x):
                    return None
            out.append(f(x))
            return None

        loops.for_(it, body)
        return out

    @staticmethod
    def flatcomp(it, f, *conds):
        out = PList()

        def body(x):
            for c in conds:
                if not c(x):
                    return None
            out.extend(f(x))
            return None

        loops.for_(it, body)
        return out

    @staticmethod
    def genexp(it, f, *conds):
        if is_symbolic_iter(it):
            return PV.listcomp(it, f, *conds)
        return (f(x) for x in it if all(c(x) for c in conds))

    @staticmethod
    def asgen(l):
        return iter(l) if l.pv_concrete() else l

    @staticmethod
    def concrete(it):
        if is_symbolic_iter(it):
            raise Unsupported("native iteration over a symbolic sequence")
        return it

    for_ = staticmethod(loops.for_)
    while_ = staticmethod(loops.while_)

    @staticmethod
    def isret(r):
        return type(r) is Ret

    @staticmethod
    def notbrk(r):
        return r is not BRK


PV.idiv = staticmethod(PV._i("__itruediv__", PV.div))
PV.ipow = staticmethod(PV._i("__ipow__", PV.pow))
PV.imod = staticmethod(PV._i("__imod__", PV.mod))
PV.ifloordiv = staticmethod(PV._i("__ifloordiv__", PV.floordiv))


class _Fmt:
    def __init__(self, x):
        self.x = x

    def __format__(self, spec):
        return f"<{self.x!r}>"

    def __str__(self):
        return f"<{self.x!r}>"

    __repr__ = __str__


def _isnum(x):
    return isinstance(x, (int, Fraction, float, Poly, sym.SymBool))


def _num(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        return ring.norm_num(Fraction(x))
    if isinstance(x, sym.SymBool):
        return x._num()
    return x


# ------------------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, Poison):
        x._bad()
    return pv_len(x)


def b_abs(x):
    return abs(x)


def _iterate(it):
    if is_symbolic_iter(it):
        raise Unsupported("native iteration over a symbolic sequence")
    return iter(it)


def b_sum(it, start=0):
    f = getattr(it, "pv_sum", None)
    if f is not None:
        return start + f()
    if not is_symbolic_iter(it):
        r = start
        for x in it:
            r = r + x
        return r
    acc = PList([start])

    def body(x):
        acc.items = [acc.items[0] + x]

    box = _Box(start)

    def body2(x):
        box.v = box.v + x

    loops.for_(it, body2)
    return box.v


class _Box:
    __pv_repo__ = True

    def __init__(self, v):
        self.v = v


def _extremum(name, pick, args, key, default):
    if len(args) == 1:
        it = args[0]
        if is_symbolic_iter(it):
            segs = segments_of(it if isinstance(it, PList) else PV.listcomp(it, lambda x: x))
            if key is not None:
                raise Unsupported(f"{name} with key of a symbolic list")
            return extremum_of(name, segs)
        vals = list(it)
        if not vals:
            if default is not _NODEF:
                return default
            raise ValueError(f"{name}() arg is an empty sequence")
    else:
        vals = list(args)
    if key is not None:
        best = vals[0]
        kb = key(best)
        for v in vals[1:]:
            kv = key(v)
            if bool(sym.compare(kv, kb, pick)) if isinstance(kv, Poly) or isinstance(kb, Poly) else _cmp(kv, kb, pick):
                best, kb = v, kv
        return best
    if any(isinstance(v, Poly) for v in vals):
        if all(Poly.lift(v) is not None for v in vals):
            return extremum_of(name, vals)
    best = vals[0]
    for v in vals[1:]:
        if _cmp(v, best, pick):
            best = v
    return best


def _cmp(a, b, op):
    return a < b if op == "<" else a > b


def extremum_of(name, segs):
    """max/min of numbers and families of numbers, in canonical form."""
    flat = []
    for s in segs:
        if isinstance(s, Poly) and len(s.t) == 1:
            (m, c), = s.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == name + "of":
                flat += list(m[0][0].args)
                continue
        flat.append(s)
    # decide obvious dominations between plain numbers
    consts = [s for s in flat if not isinstance(s, (Fam, Poly))]
    rest = [s for s in flat if isinstance(s, (Fam, Poly))]
    if consts:
        c = max(consts) if name == "max" else min(consts)
        if not rest:
            return c
        rest.append(c)
    if len(rest) <= 4 and all(not isinstance(s, Fam) for s in rest):
        keep = []
        for j, s in enumerate(rest):
            dom = False
            for k, t in enumerate(rest):
                if k != j:
                    c = sym.compare(t, s, ">=" if name == "max" else "<=")
                    if sym.provable(c) and (k < j or not sym.provable(sym.compare(s, t, ">=" if name == "max" else "<="))):
                        dom = True
                        break
            if not dom:
                keep.append(s)
        rest = keep
        if len(rest) == 1:
            return rest[0]
        if len(rest) == 2:
            a, b = sorted(rest, key=lambda x: repr(ring.ckey(x)))
            return ring.app(name, a, b)
    uniq = {ring.ckey(s) if not isinstance(s, (int, Fraction)) else ("c", s): s for s in rest}
    items = sorted(uniq.values(), key=lambda x: repr(ring.ckey(x)))
    if len(items) == 1 and not isinstance(items[0], Fam):
        return items[0]
    return Poly.of(ring.mk_atom(name + "of", tuple(items)))


_NODEF = object()


def b_max(*args, key=None, default=_NODEF):
    return _extremum("max", ">", args, key, default)


def b_min(*args, key=None, default=_NODEF):
    return _extremum("min", "<", args, key, default)


def b_zip(*its, strict=False):
    if any(is_symbolic_iter(i) for i in its):
        return SymZip([i if hasattr(i, "pv_at") or isinstance(i, (tuple, list, PList, range)) else PList(i) for i in its])
    return zip(*its)


def b_enumerate(it, start=0):
    if is_symbolic_iter(it):
        if isinstance(it, PList):
            return SymEnum(it, start)
        if not hasattr(it, "pv_at") and not hasattr(it, "pv_segments"):
            raise Unsupported("enumerate of a symbolic iterator")
        return SymEnum(it, start)
    return enumerate(it, start)


def b_map(f, *its):
    if any(is_symbolic_iter(i) for i in its):
        if len(its) == 1:
            return SymMap(f, its[0])
        return SymMap(lambda t: f(*t), SymZip(list(its)))
    return map(f, *its)


def b_filter(f, it):
    if is_symbolic_iter(it):
        return PV.listcomp(it, lambda x: x, f if f is not None else (lambda x: x))
    return filter(f, it)


def b_sorted(it, key=None, reverse=False):
    if is_symbolic_iter(it):
        raise Unsupported("sorted of a symbolic list")
    return PList(sorted(it, key=key, reverse=reverse))


def b_reversed(x):
    if isinstance(x, SymRange):
        return SymRange(x.stop - x.step, x.start - x.step, -x.step)
    return reversed(x)


def b_all(it):
    if is_symbolic_iter(it):
        ok = quantify(it, True)
        return ok
    for x in it:
        if not x:
            return False
    return True


def b_any(it):
    if is_symbolic_iter(it):
        return quantify(it, False)
    for x in it:
        if x:
            return True
    return False


def quantify(it, univ):
    l = it if isinstance(it, PList) else PV.listcomp(it, lambda x: x)
    res = univ
    for s in l.items:
        if isinstance(s, Fam):
            raise Unsupported("quantifier over a symbolic list")
        if bool(s) != univ:
            return not univ
    return res


def b_print(*a, **k):
    return None


def b_divmod(a, b):
    return (ring.num_floordiv(a, b), ring.num_mod(a, b))


def b_pow(a, b, m=None):
    if m is not None:
        return pow(a, b, m)
    return PV.pow(a, b)


def b_round(x, n=None):
    if isinstance(x, Poly):
        raise Unsupported("round of a symbolic number")
    if isinstance(x, Fraction):
        if n is None:
            return round(x)
        return ring.norm_num(Fraction(round(x * 10**n), 10**n))
    return round(x, n) if n is not None else round(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or isinstance(o, Poly) and o.is_int()

    def __eq__(cls, o):
        return cls is o or o is int

    def __hash__(cls):
        return hash(int)


class b_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if a:
            return int(x, *a)
        if isinstance(x, Poly):
            if x.is_int():
                return x
            # truncation towards zero of a real: only the nonnegative case is modelled
            if sym.provable(sym.compare(x, 0, ">=")):
                return Poly.of(ring.mk_atom("toint", (x,), "int"))
            raise Unsupported(f"int() of {x}")
        if isinstance(x, sym.SymBool):
            return x._num()
        if isinstance(x, Fraction):
            return int(x)
        f = getattr(x, "pv_int", None)
        if f is not None:
            return f()
        return int(x)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Fraction)) or isinstance(o, Poly) and not o.is_int()

    def __eq__(cls, o):
        return cls is o or o is float

    def __hash__(cls):
        return hash(float)


class b_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, str):
            if x.strip().lower() in ("inf", "-inf", "nan", "infinity"):
                return float(x)
            return ring.norm_num(Fraction(x))
        if isinstance(x, (Poly, Fraction)):
            return x
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, sym.SymBool):
            return x._num()
        f = getattr(x, "pv_float", None)
        if f is not None:
            return f()
        return ring.norm_num(Fraction(float(x)))


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, sym.SymBool))

    def __eq__(cls, o):
        return cls is o or o is bool

    def __hash__(cls):
        return hash(bool)


class b_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return bool(x)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, str)


def b_isinstance(o, c):
    if isinstance(o, Poison):
        o._bad()
    if isinstance(c, tuple):
        return any(b_isinstance(o, x) for x in c)
    if c is int:
        c = b_int
    elif c is float:
        c = b_float
    return isinstance(o, c)


def b_tuple(it=()):
    if is_symbolic_iter(it):
        return PList(it) if not hasattr(it, "pv_at") or isinstance(it, PList) else PV.listcomp(it, lambda x: x)
    return tuple(it)


class _TupleMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, tuple)

    def __eq__(cls, o):
        return cls is o or o is tuple

    def __hash__(cls):
        return hash(tuple)


class b_tuple_t(metaclass=_TupleMeta):
    def __new__(cls, it=()):
        return b_tuple(it)


def b_list_new(it=()):
    if is_symbolic_iter(it) and not hasattr(it, "pv_segments"):
        return PV.listcomp(it, lambda x: x)
    return PList(it)


class _LMeta(type):
    def __call__(cls, it=()):
        return b_list_new(it)

    def __instancecheck__(cls, o):
        return isinstance(o, (PList, list))

    def __eq__(cls, o):
        return cls is o or o is list or o is PList

    def __hash__(cls):
        return hash(list)


class b_list(metaclass=_LMeta):
    pass


def b_next(it, *d):
    if isinstance(it, PList):
        if it.items and not isinstance(it.items[0], Fam):
            return it.items[0]
        raise Unsupported("next() of a symbolic list")
    return next(it, *d)


def b_iter(x, *a):
    if is_symbolic_iter(x):
        return x
    return iter(x, *a)


def b_open(*a, **k):
    raise Unsupported("open()")


OVERRIDES = {
    "range": mkrange, "len": b_len, "sum": b_sum, "max": b_max, "min": b_min, "zip": b_zip, "enumerate": b_enumerate,
    "map": b_map, "filter": b_filter, "sorted": b_sorted, "reversed": b_reversed, "all": b_all, "any": b_any,
    "print": b_print, "divmod": b_divmod, "pow": b_pow, "round": b_round, "int": b_int, "float": b_float, "bool": b_bool,
    "isinstance": b_isinstance, "tuple": b_tuple_t, "list": b_list, "next": b_next, "iter": b_iter, "open": b_open,
}


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update(OVERRIDES)
    d["__import__"] = importer
    orig = builtins.__build_class__

    def build_class(func, name, *bases, **kw):
        c = orig(func, name, *bases, **kw)
        try:
            c.__pv_repo__ = True
        except (AttributeError, TypeError):
            pass
        return c

    d["__build_class__"] = build_class
    return d
