"""Lists of symbolic length, poison, symbolic iterables, loop signals."""
from __future__ import annotations

from fractions import Fraction

from . import ring, sym
from .ring import Poly, Unsupported


class Ret:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class _Sig:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BRK, CONT = _Sig("BRK"), _Sig("CONT")


class Poison:
    """A value the loop invariant does not determine; any use makes the run undecided."""

    fv = frozenset()

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported(f"use of an undetermined value ({self.why})")

    def __getattr__(self, n):
        if n.startswith("pv_") or n in ("atoms",):
            raise AttributeError(n)
        self._bad()

    __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __eq__ = __ne__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __iadd__ = __isub__ = __contains__ = __hash__ = __setattr__ = _bad
    __enter__ = __exit__ = __pow__ = __truediv__ = __rtruediv__ = __index__ = __float__ = __int__ = __str__ = _bad

    def __repr__(self):
        return f"Poison({self.why})"


def canon_bvar(depth_hint, sort="int"):
    return ring.atom_of(ring.var(f"β{depth_hint}", sort))


class Fam:
    """Immutable family: for var in [lo, hi): the chunk `items` (a tuple of (guard, item); item may be a Fam)."""

    __slots__ = ("var", "lo", "hi", "items", "_fv", "_key")

    def __init__(self, v, lo, hi, items):
        self.var, self.lo, self.hi, self.items = v, lo, hi, tuple(items)
        self._fv = None
        self._key = None

    @property
    def fv(self):
        if self._fv is None:
            self._fv = (ring.fv(self.items) - {self.var}) | ring.fv(self.lo) | ring.fv(self.hi)
        return self._fv

    def pv_subst(self, m):
        m = {k: v for k, v in m.items() if k is not self.var}
        if any(self.var in ring.fv(v) for v in m.values()):
            nv = ring.atom_of(ring.fresh("j"))
            items = ring.subst(self.items, {self.var: Poly.of(nv)})
            return Fam(nv, ring.subst(self.lo, m), ring.subst(self.hi, m), ring.subst(items, m))
        return Fam(self.var, ring.subst(self.lo, m), ring.subst(self.hi, m), ring.subst(self.items, m))

    def pv_key(self):
        if self._key is None:
            # binder renamed and shifted so that every family starts at 0
            b = canon_bvar(height(self.items))
            it = ring.subst(self.items, {self.var: Poly.of(b) + self.lo})
            self._key = ("fam", ring.ckey(self.hi - self.lo), ring.ckey(it))
        return self._key

    def chunk_len(self):
        """Number of items per binder value, when the same for all; else None."""
        n = 0
        for g, it in self.items:
            if g is not True:
                return None
            if isinstance(it, Fam):
                k = it.chunk_len()
                if k is None:
                    return None
                k = k * (it.hi - it.lo)
                if self.var in ring.fv(k):
                    return None
                n = n + k
            else:
                n = n + 1
        return n

    def __repr__(self):
        return f"Fam({self.var} in [{self.lo},{self.hi}): {list(self.items)})"


def height(x):
    if isinstance(x, Fam):
        return 1 + height(x.items)
    if isinstance(x, tuple):
        return max((height(y) for y in x), default=0)
    h = getattr(x, "pv_height", None)
    if h is not None:
        return h()
    if isinstance(x, Poly):
        r = 0
        for m in x.t:
            for a, _ in m:
                if a.kind != "var":
                    r = max(r, height(a.args))
        return r
    if isinstance(x, sym.SymBool):
        return height(x.args)
    if isinstance(x, ring.Atom) and x.kind != "var":
        return height(x.args)
    return 0


class Frozen:
    """An immutable list template stored in a family (instantiated on read)."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def fv(self):
        return ring.fv(self.items)

    def pv_subst(self, m):
        return Frozen(ring.subst(self.items, m))

    def pv_key(self):
        return ("frozen", ring.ckey(self.items))

    def pv_height(self):
        return height(self.items)


def freeze(x, fresh_ok):
    """Immutable image of x for storage in a family; raises Unsupported for shared mutable objects."""
    if isinstance(x, PList):
        return Frozen(freeze(y, fresh_ok) for y in x.items)
    if isinstance(x, tuple):
        return tuple(freeze(y, fresh_ok) for y in x)
    f = getattr(x, "pv_freeze", None)
    if f is not None:
        return f()
    return x


def thaw(x):
    if isinstance(x, Frozen):
        l = PList(thaw(y) for y in x.items)
        l.ro = True
        return l
    if isinstance(x, tuple):
        return tuple(thaw(y) for y in x)
    f = getattr(x, "pv_thaw", None)
    if f is not None:
        return f()
    return x


class PList:
    """Python list whose items may include families."""

    def __init__(self, it=()):
        self.ro = False
        if isinstance(it, PList):
            self.items = list(it.items)
        elif hasattr(it, "pv_segments"):
            self.items = list(it.pv_segments())
        else:
            self.items = list(it)

    # state for the loop engine
    def pv_get(self):
        return tuple(self.items)

    def pv_set(self, v):
        self.items = list(v)

    def _w(self):
        if self.ro:
            raise Unsupported("mutation of a list read from a family")

    def pv_concrete(self):
        return not any(isinstance(x, Fam) for x in self.items)

    def pv_segments(self):
        return self.items

    def pv_len(self):
        n = 0
        for x in self.items:
            if isinstance(x, Fam):
                c = x.chunk_len()
                if c is None:
                    raise Unsupported("length of a guarded family")
                n = n + c * (x.hi - x.lo)
            else:
                n = n + 1
        return n

    def __len__(self):
        n = self.pv_len()
        if isinstance(n, Poly):
            raise Unsupported("native len() of a symbolic list")
        return n

    def __bool__(self):
        if self.pv_concrete():
            return bool(self.items)
        if any(not isinstance(x, Fam) for x in self.items):
            return True
        return bool(sym.compare(self.pv_len(), 0, ">"))

    def __iter__(self):
        if not self.pv_concrete():
            raise Unsupported("native iteration over a symbolic list")
        return iter([thaw(x) for x in self.items])

    def __reversed__(self):
        return reversed(list(iter(self)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.pv_concrete() and not any(isinstance(x, Poly) for x in (i.start, i.stop, i.step)):
                return PList(self.items[i])
            return self._slice(i)
        if isinstance(i, sym.SymBool):
            i = int(bool(i))
        return thaw(index_segments(self.items, i))

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("strided slice of a symbolic list")
        n = self.pv_len()
        a = 0 if s.start is None else s.start
        b = n if s.stop is None else s.stop
        if sym.compare(a, 0, "<") if isinstance(a, Poly) else a < 0:
            a = a + n
        if sym.compare(b, 0, "<") if isinstance(b, Poly) else b < 0:
            b = b + n
        cnt = b - a
        if not isinstance(cnt, Poly):
            if cnt > 64:
                raise Unsupported("large slice")
            if not (sym.provable(sym.compare(a, 0, ">=")) and sym.provable(sym.compare(b, n, "<="))):
                raise Unsupported("slice bounds of a symbolic list")
            return PList([index_segments(self.items, a + k) for k in range(max(cnt, 0))])
        if not isinstance(a, Poly) and not isinstance(s.start, Poly):
            # drop a concrete prefix
            out = []
            for x in self.items:
                if a == 0 or isinstance(x, Fam):
                    out.append(x)
                else:
                    a -= 1
            if a:
                raise Unsupported("slice of a symbolic list")
            if s.stop is None:
                return PList(out)
        raise Unsupported("slice of a symbolic list")

    def __setitem__(self, i, v):
        self._w()
        if not self.pv_concrete() or isinstance(i, Poly):
            raise Unsupported("item assignment in a symbolic list")
        if isinstance(i, slice):
            self.items[i] = list(PList(v).items)
        else:
            self.items[i] = v

    def __delitem__(self, i):
        self._w()
        if not self.pv_concrete():
            raise Unsupported("del in a symbolic list")
        del self.items[i]

    def append(self, x):
        self._w()
        self.items.append(x)

    def extend(self, it):
        self._w()
        self.items += list(segments_of(it))

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        if isinstance(o, (PList, list)):
            return PList(self.items + list(segments_of(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return PList(list(o) + self.items)
        return NotImplemented

    def __mul__(self, k):
        if isinstance(k, int):
            return PList(self.items * k)
        if isinstance(k, Poly) and k.is_int():
            v = ring.atom_of(ring.fresh("r"))
            if not self.pv_concrete():
                raise Unsupported("repetition of a symbolic list")
            return PList([Fam(v, 0, k, [(True, freeze(x, True)) for x in self.items])])
        return NotImplemented

    __rmul__ = __mul__

    def insert(self, i, x):
        self._w()
        if not self.pv_concrete():
            if i == 0:
                self.items.insert(0, x)
                return
            raise Unsupported("insert in a symbolic list")
        self.items.insert(i, x)

    def pop(self, i=-1):
        self._w()
        if isinstance(i, int) and self.items and i in (-1, 0) and not isinstance(self.items[i], Fam):
            return thaw(self.items.pop(i))
        if not self.pv_concrete():
            raise Unsupported("pop of a symbolic list")
        return thaw(self.items.pop(i))

    def index(self, x, *a):
        return list(iter(self)).index(x, *a)

    def count(self, x):
        return list(iter(self)).count(x)

    def copy(self):
        return PList(self.items)

    def clear(self):
        self._w()
        self.items = []

    def reverse(self):
        self._w()
        if not self.pv_concrete():
            raise Unsupported("reverse of a symbolic list")
        self.items.reverse()

    def sort(self, key=None, reverse=False):
        self._w()
        self.items = sorted(iter(self), key=key, reverse=reverse)

    def remove(self, x):
        self._w()
        l = list(iter(self))
        l.remove(x)
        self.items = l

    def __contains__(self, x):
        for y in iter(self):
            if y is x or y == x:
                return True
        return False

    def __eq__(self, o):
        if not isinstance(o, (PList, list)):
            return False
        a, b = list(iter(self)), list(iter(o))
        if len(a) != len(b):
            return False
        return all(bool(x == y) for x, y in zip(a, b))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return f"PList{self.items}"

    def tolist(self):
        raise AttributeError("'list' object has no attribute 'tolist'")


def segments_of(it):
    if hasattr(it, "pv_segments"):
        return it.pv_segments()
    if isinstance(it, Poison):
        it._bad()
    return list(it)


def seg_len(x):
    if isinstance(x, Fam):
        c = x.chunk_len()
        if c is None:
            raise Unsupported("length of a guarded family")
        return c * (x.hi - x.lo)
    return 1


def index_segments(items, i):
    """items[i] with Python semantics (IndexError, negative indices)."""
    if not any(isinstance(x, Fam) for x in items) and not isinstance(i, Poly):
        return items[i]
    n = 0
    lens = []
    for x in items:
        l = seg_len(x)
        lens.append(l)
        n = n + l
    if bool(sym.compare(i, 0, "<")) if isinstance(i, Poly) or isinstance(n, Poly) else i < 0:
        i = i + n
        if bool(sym.compare(i, 0, "<")) if isinstance(i, Poly) else i < 0:
            raise IndexError("list index out of range")
    if bool(sym.compare(i, n, ">=")) if isinstance(i, Poly) or isinstance(n, Poly) else i >= n:
        raise IndexError("list index out of range")
    off = 0
    for x, l in zip(items, lens):
        end = off + l
        inside = sym.compare(i, end, "<") if isinstance(i, Poly) or isinstance(end, Poly) else i < end
        if bool(inside):
            if not isinstance(x, Fam):
                return x
            return _index_fam(x, i - off)
        off = end
    raise IndexError("list index out of range")


def _index_fam(f, r):
    c = f.chunk_len()
    if isinstance(c, int) and c > 0:
        d = ring.split_const_div(r, c)
        if d is None:
            d = _div_search(r, c)
        q, rem = d
        items = ring.subst(tuple(it for _, it in f.items), {f.var: f.lo + q})
        return index_segments(list(items), rem)
    if isinstance(c, Poly):
        q, rem = mixed_radix(r, c)
        items = ring.subst(tuple(it for _, it in f.items), {f.var: f.lo + q})
        return index_segments(list(items), rem)
    raise Unsupported("index into a guarded family")


def _div_search(r, c):
    """divmod of an int term by a constant: fork on the remainder of the part not divisible by c."""
    from . import engine

    q = Poly.of(ring.mk_atom("idiv", (r, c), "int"))
    e = engine.cur()
    e.pc.append(sym.compare(c * q, r, "<="))
    e.pc.append(sym.compare(r, c * q + c, "<"))
    for k in range(c):
        if k == c - 1 or bool(sym.compare(r, c * q + k, "==")):
            return q, k


def mixed_radix(r, c):
    """r = c*q + rem, 0 <= rem < c, for a symbolic radix c (proved)."""
    if not isinstance(r, Poly):
        if sym.provable(sym.compare(r, c, "<")) and r >= 0:
            return 0, r
        raise Unsupported(f"division of {r} by {c}")
    # quotient: monomials divisible by the leading monomial of c
    if isinstance(c, Poly) and len(c.t) == 1:
        (cm, cc), = c.t.items()
        q, rem = {}, {}
        for m, k in r.t.items():
            dm = dict(m)
            ok = all(dm.get(a, 0) >= e for a, e in cm)
            if ok and (k / cc).denominator == 1:
                for a, e in cm:
                    dm[a] -= e
                    if not dm[a]:
                        del dm[a]
                q[tuple(sorted(dm.items(), key=lambda x: x[0].uid))] = k / cc
            else:
                rem[m] = k
        q, rem = Poly(q).norm(), Poly(rem).norm()
        if sym.provable(sym.compare(rem, 0, ">=")) and sym.provable(sym.compare(rem, c, "<")):
            return q, rem
        if sym.provable(sym.compare(rem, 0, "<")) and sym.provable(sym.compare(rem + c, 0, ">=")):
            return q - 1, rem + c
    raise Unsupported(f"division of {r} by {c}")


# ---------------------------------------------------------------- symbolic iterables
class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if step not in (1, -1):
            raise Unsupported("symbolic range with a step")

    @property
    def fv(self):
        return ring.fv((self.start, self.stop))

    def pv_subst(self, m):
        return mkrange(ring.subst(self.start, m), ring.subst(self.stop, m), self.step)

    def pv_len(self):
        d = (self.stop - self.start) * self.step
        if isinstance(d, Poly):
            if sym.provable(sym.compare(d, 0, ">=")):
                return d
            if bool(sym.compare(d, 0, ">=")):
                return d
            return 0
        return max(d, 0)

    def pv_at(self, i):
        return self.start + i * self.step

    def pv_segments(self):
        n = self.pv_len()
        if not isinstance(n, Poly):
            return [self.pv_at(i) for i in range(n)]
        v = ring.atom_of(ring.fresh("r"))
        return [Fam(v, 0, n, [(True, self.pv_at(Poly.of(v)))])]

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None and not isinstance(i.start, Poly) and (i.start is None or i.start >= 0) and i.stop is None:
                return mkrange(self.start + (i.start or 0) * self.step, self.stop, self.step)
            return PList(self.pv_segments())[i]
        return index_segments(self.pv_segments(), i)

    def __contains__(self, x):
        if self.step == 1:
            return bool(sym.land(sym.compare(x, self.start, ">="), sym.compare(x, self.stop, "<")))
        return bool(sym.land(sym.compare(x, self.start, "<="), sym.compare(x, self.stop, ">")))

    def __len__(self):
        n = self.pv_len()
        if isinstance(n, Poly):
            raise Unsupported("native len() of a symbolic range")
        return n

    def __iter__(self):
        n = self.pv_len()
        if isinstance(n, Poly):
            raise Unsupported("native iteration over a symbolic range")
        return iter([self.pv_at(i) for i in range(n)])

    def __bool__(self):
        return bool(sym.compare(self.pv_len(), 0, ">"))

    def __repr__(self):
        return f"range({self.start}, {self.stop}, {self.step})"


def _asint(x):
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, Poly):
        if not x.is_int() and not getattr(x, "t", None):
            raise TypeError("not an integer")
        if not x.is_int():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return x
    if isinstance(x, sym.SymBool):
        return int(bool(x))
    if hasattr(x, "__index__"):
        return x.__index__()
    raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")


def mkrange(*a):
    a = [_asint(x) for x in a]
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = [a[0], a[1], 1]
    if not any(isinstance(x, Poly) for x in a):
        return range(*a)
    n = (a[1] - a[0]) * a[2] if a[2] in (1, -1) else None
    if n is not None and not isinstance(n, Poly):
        # range(m, m+3): concrete length
        return PList([a[0] + i * a[2] for i in range(max(n, 0))])
    return SymRange(*a)


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def pv_len(self):
        return pv_len(self.it)

    def pv_at(self, i):
        return (self.start + i, pv_at(self.it, i))


class SymZip:
    def __init__(self, its):
        self.its = its

    def pv_len(self):
        ls = [pv_len(i) for i in self.its]
        n = ls[0]
        for l in ls[1:]:
            if not (ring.same_num(n, l) or not isinstance(n, Poly) and not isinstance(l, Poly) and n == l):
                if bool(sym.compare(l, n, "<")):
                    n = l
        return n

    def pv_at(self, i):
        return tuple(pv_at(x, i) for x in self.its)


class SymMap:
    def __init__(self, f, it):
        self.f, self.it = f, it

    def pv_len(self):
        return pv_len(self.it)

    def pv_at(self, i):
        return self.f(pv_at(self.it, i))


class SymProduct:
    """itertools.product with at least one symbolic factor: iterated as nested loops."""

    def __init__(self, its):
        self.its = its

    def pv_for(self, loop, body):
        def rec(k, acc):
            if k == len(self.its):
                return body(acc)
            return loop(self.its[k], lambda x: rec(k + 1, acc + (x,)))

        return rec(0, ())


class SymChain:
    def __init__(self, its):
        self.its = its

    def pv_for(self, loop, body):
        for it in self.its:
            r = loop(it, body)
            if r is BRK or isinstance(r, Ret):
                return r
        return None


def pv_len(x):
    f = getattr(x, "pv_len", None)
    if f is not None:
        return f()
    return len(x)


def pv_at(x, i):
    f = getattr(x, "pv_at", None)
    if f is not None:
        return f(i)
    if isinstance(x, (tuple, list)):
        return index_segments(list(x), i)
    if isinstance(x, range):
        return x.start + i * x.step
    return x[i]


def is_symbolic_iter(x):
    """True when iterating x natively is impossible."""
    if isinstance(x, PList):
        return not x.pv_concrete()
    if isinstance(x, SymRange):
        return isinstance(x.pv_len(), Poly)
    if isinstance(x, (SymEnum, SymMap, SymZip)):
        subs = x.its if isinstance(x, SymZip) else [x.it]
        return any(is_symbolic_iter(s) for s in subs)
    if isinstance(x, (SymProduct, SymChain)):
        return True
    f = getattr(x, "pv_symbolic", None)
    return bool(f()) if f is not None else False


def frac(x):
    return Fraction(x)
