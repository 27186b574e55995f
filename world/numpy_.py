"""Contract of numpy: exact elementwise semantics on arrays of symbolic numbers.

NArr: concrete shape, entries are verifier numbers. SArr: one-dimensional array of symbolic length whose
entry at index IOTA is an expression. Rounding is ignored (numbers are exact reals)."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from pyvc import engine, heap, ring, sym
from pyvc.ring import Poly, Unsupported, subst
from pyvc.runtime import PV, extremum_of
from pyvc.values import Fam, PList, Poison, is_symbolic_iter, pv_len, thaw

from .base import lift, m_sqrt, mod, trig

IOTA = ring.atom_of(ring.var("iota", "int"))
I = Poly.of(IOTA)


def obj(shape, vals):
    a = np.empty(shape, dtype=object)
    f = a.reshape(-1)
    for i, v in enumerate(vals):
        f[i] = v
    return a


class NArr(heap.WObj):
    __array_ufunc__ = None
    fill_of = None

    def __init__(self, a, base=None):
        self.a = a
        self.base = base

    # heap protocol
    def pv_get(self):
        if self.base is not None:
            return None
        return (self.a.shape, tuple(self.a.reshape(-1)))

    def pv_set(self, v):
        if v is None:
            return
        sh, vals = v
        if sh != self.a.shape:
            raise Unsupported("array shape changes in a loop")
        f = self.a.reshape(-1)
        for i, x in enumerate(vals):
            f[i] = x

    def pv_kids(self):
        return (self.base,) if self.base is not None else tuple(x for x in self.a.reshape(-1) if isinstance(x, heap.WObj))

    # shape
    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return self._view(self.a.T)

    dtype = None

    @property
    def flat(self):
        return iter(list(self.a.reshape(-1)))

    def _view(self, b):
        return NArr(b, self.base or self)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter([_wrap(x, self) for x in self.a])

    def __getitem__(self, i):
        if isinstance(i, NArr):
            return NArr(self.a[_idx(i)])
        r = self.a[_idx(i)]
        if isinstance(r, np.ndarray):
            return self._view(r)
        return r

    def __setitem__(self, i, v):
        heap.GUARDS and heap.touch(self)
        if isinstance(i, NArr) and i.a.size and isinstance(i.a.reshape(-1)[0], (bool, sym.SymBool)) and i.shape == self.shape:
            f, mk = self.a.reshape(-1), i.a.reshape(-1)
            if isinstance(v, (NArr, SArr, PList, list, tuple)):
                c = v.fill_of if isinstance(v, NArr) and v.fill_of is not None else getattr(v, "full_of", None)
                cnt = b_count(mk)
                if c is None or not sym.provable(sym.compare(pv_len(v), cnt, "==")):
                    if isinstance(v, NArr) and all(isinstance(b, bool) for b in mk):
                        self.a[i.a.astype(bool)] = v.a
                        return
                    raise Unsupported("masked assignment of an array")
                v = c
            for j in range(len(f)):
                f[j] = sym.ite(mk[j], v, f[j])
            return
        if isinstance(v, (NArr, PList, list, tuple)):
            v = asarr(v).a
            self.a[_idx(i)] = v
        else:
            if isinstance(self.a[_idx(i)], np.ndarray):
                self.a[_idx(i)].fill(v)
            else:
                self.a[_idx(i)] = v

    def tolist(self):
        def rec(x):
            if isinstance(x, (list,)):
                return PList([rec(y) for y in x])
            return x

        return rec(self.a.tolist())

    def copy(self):
        return NArr(self.a.copy())

    def flatten(self, *a):
        return NArr(self.a.flatten())

    def ravel(self, *a):
        return self._view(self.a.reshape(-1))

    def reshape(self, *s, **k):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, PList, list)) else s
        return self._view(self.a.reshape(tuple(s)))

    def transpose(self, *a):
        return self._view(self.a.transpose(*a))

    def astype(self, t, **k):
        return NArr(self.a.copy())

    def fill(self, v):
        self.a.fill(v)

    def item(self, *i):
        return self.a.reshape(-1)[i[0] if i else 0]

    def sum(self, axis=None, **k):
        return np_sum(self, axis)

    def max(self, axis=None, **k):
        return np_max(self, axis)

    def min(self, axis=None, **k):
        return np_min(self, axis)

    def mean(self, axis=None):
        return PV.div(np_sum(self, axis), self.a.size)

    def dot(self, o):
        return np_dot(self, o)

    def any(self, *a):
        return np_any(self)

    def all(self, *a):
        return np_all(self)

    def squeeze(self, *a):
        return self._view(self.a.squeeze(*a))

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.a.reshape(-1)[0])

    def __matmul__(self, o):
        return np_dot(self, o)

    def __rmatmul__(self, o):
        return np_dot(o, self)

    def __repr__(self):
        return f"NArr({self.a.tolist()})"

    def pv_float(self):
        return lift(self.item())

    def pv_int(self):
        return self.item()


def _idx(i):
    if isinstance(i, tuple):
        return tuple(_idx(x) for x in i)
    if isinstance(i, NArr):
        v = i.a
        if v.size and all(isinstance(x, bool) for x in v.reshape(-1)):
            return v.astype(bool)
        return np.vectorize(_ci, otypes=[int])(v) if v.size else v.astype(int)
    if isinstance(i, PList):
        return [_ci(x) for x in i]
    if isinstance(i, slice):
        return slice(_ci(i.start), _ci(i.stop), _ci(i.step))
    return _ci(i)


def _ci(i):
    if isinstance(i, Poly):
        raise Unsupported("symbolic array index")
    if isinstance(i, sym.SymBool):
        return bool(i)
    if isinstance(i, Fraction):
        raise IndexError("only integers, slices are valid indices")
    return i


def _wrap(x, parent):
    return parent._view(x) if isinstance(x, np.ndarray) else x


class SArr(heap.WObj):
    """1-D array with n (symbolic) entries; entry at IOTA is `e` (immutable expression)."""

    __array_ufunc__ = None

    def __init__(self, n, e):
        self._st = (n, e)

    @property
    def n(self):
        return self._st[0]

    @property
    def e(self):
        return self._st[1]

    @property
    def shape(self):
        return (self.n,)

    ndim = 1
    dtype = None

    @property
    def size(self):
        return self.n

    def pv_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, Poly):
            raise Unsupported("native len() of a symbolic array")
        return self.n

    def pv_at(self, i):
        return subst(self.e, {IOTA: i})

    def pv_sum(self):
        return np_sum(self)

    def pv_symbolic(self):
        return True

    def pv_segments(self):
        v = ring.atom_of(ring.fresh("r"))
        return [Fam(v, 0, self.n, [(True, subst(self.e, {IOTA: Poly.of(v)}))])]

    def pv_freeze(self):
        return ("sarr", self.n, self.e)

    def __getitem__(self, i):
        if isinstance(i, (SArr,)):
            if is_bool_e(i.e):
                raise Unsupported("selection by a mask")
            return SArr(i.n, subst(self.e, {IOTA: i.e}))
        if isinstance(i, slice):
            if i.start in (None, 0) and i.stop is None and i.step in (None, 1):
                return self
            if not isinstance(i.start, Poly) and i.start is not None and i.start > 0 and i.stop is None and i.step in (None, 1):
                return SArr(self.n - i.start, subst(self.e, {IOTA: I + i.start}))
            if i.start in (None, 0) and i.step in (None, 1) and not isinstance(i.stop, Poly) and i.stop < 0:
                return SArr(self.n + i.stop, self.e)
            raise Unsupported("slice of a symbolic array")
        if isinstance(i, tuple):
            raise IndexError("too many indices for array")
        if isinstance(i, sym.SymBool):
            raise Unsupported("boolean scalar index")
        neg = sym.compare(i, 0, "<") if isinstance(i, Poly) else i < 0
        if bool(neg):
            i = self.n + i
        if bool(sym.lor(sym.compare(i, self.n, ">="), sym.compare(i, 0, "<"))):
            raise IndexError("index out of bounds")
        return subst(self.e, {IOTA: i})

    def __setitem__(self, i, v):
        heap.GUARDS and heap.touch(self)
        n, e = self._st
        if isinstance(i, SArr) and is_bool_e(i.e):
            if not same_len(i.n, n):
                raise Unsupported("mask length")
            if isinstance(v, SArr):
                if isinstance(v.e, tuple) and v.e and v.e[0] == "sel":
                    pass
                # x[mask] = y : y must already be the selection (length = number of selected entries)
                if getattr(v, "full_of", None) is not None and sym.provable(sym.compare(v.n, count(i), "==")):
                    self._st = (n, sym.ite(i.e, v.full_of, e))
                    return
                raise Unsupported("masked assignment of a symbolic array")
            self._st = (n, sym.ite(i.e, lift_any(v), e))
            return
        if isinstance(i, slice) and i.start is None and i.stop is None:
            if isinstance(v, SArr):
                self._st = (n, v.e)
            else:
                self._st = (n, lift_any(v))
            return
        if isinstance(i, (Poly, int)):
            if isinstance(i, int) and i < 0:
                i = n + i
            self._st = (n, sym.ite(sym.mk_cmp("==", Poly.lift(I - i)) if isinstance(I - i, Poly) else (I - i == 0), v, e))
            return
        raise Unsupported("assignment to a symbolic array")

    def tolist(self):
        return PList(self.pv_segments())

    def copy(self):
        return SArr(self.n, self.e)

    def astype(self, t, **k):
        return self.copy()

    def flatten(self):
        return self.copy()

    ravel = flatten

    def sum(self, **k):
        return np_sum(self)

    def max(self, **k):
        return np_max(self)

    def min(self, **k):
        return np_min(self)

    def all(self):
        return np_all(self)

    def any(self):
        return np_any(self)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __repr__(self):
        return f"SArr({self.n}; {self.e})"


def lift_any(v):
    if isinstance(v, (bool, sym.SymBool)):
        return v
    return lift(v)


def is_bool_e(e):
    return isinstance(e, (bool, sym.SymBool))


def same_len(a, b):
    if ring.same_num(a, b):
        return True
    return sym.provable(sym.compare(a, b, "=="))


def count(m):
    """Number of true entries of a mask."""
    if m.e is True:
        return m.n
    if m.e is False:
        return 0
    v = ring.atom_of(ring.fresh("r"))
    from pyvc.loops import num_sum

    return num_sum(v, 0, m.n, [(subst(m.e, {IOTA: Poly.of(v)}), 1)])


def asarr(x):
    """Array image of an array-like."""
    if isinstance(x, (NArr, SArr, SMat, SMatT, SList)):
        return x
    if isinstance(x, np.ndarray):
        return NArr(x.astype(object))
    if isinstance(x, Poison):
        x._bad()
    if is_symbolic_iter(x):
        return from_symlist(x)
    if isinstance(x, (PList, list, tuple, range)):
        kids = [asarr(y) if isinstance(y, (PList, list, tuple, NArr, SArr, range, np.ndarray)) else y for y in x]
        if not kids:
            return NArr(np.empty((0,), dtype=object))
        if all(isinstance(k, NArr) for k in kids):
            sh = kids[0].shape
            if any(k.shape != sh for k in kids):
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            return NArr(np.stack([k.a for k in kids]))
        if any(isinstance(k, (NArr, SArr)) for k in kids):
            if all(isinstance(k, SArr) for k in kids):
                return SMat([k for k in kids])
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        return NArr(obj((len(kids),), [k if not isinstance(k, float) else lift(k) for k in kids]))
    if hasattr(x, "pv_array"):
        return x.pv_array()
    return NArr(obj((), [x]))


GRID = []  # class of arrays with two symbolic dimensions
FROM_SYMLIST = []  # hooks: symbolic list -> array


def from_symlist(x):
    if not isinstance(x, PList):
        x = PV.listcomp(x, lambda y: y)
    for h in FROM_SYMLIST:
        r = h(x)
        if r is not None:
            return r
    if len(x.items) == 1 and isinstance(x.items[0], Fam):
        f = x.items[0]
        if len(f.items) == 1 and f.items[0][0] is True:
            it = f.items[0][1]
            if isinstance(it, (int, Fraction, Poly)):
                return SArr(f.hi - f.lo, subst(it, {f.var: I + f.lo}))
    return SList(x)


class SList(heap.WObj):
    """np.array of a symbolic list whose shape is irregular: only stored and compared."""

    def __init__(self, l):
        self.l = l

    def pv_get(self):
        return self.l.pv_get()

    def pv_set(self, v):
        self.l.pv_set(v)

    def pv_segments(self):
        return self.l.items

    def pv_len(self):
        return self.l.pv_len()

    @property
    def shape(self):
        return (self.l.pv_len(),)

    def tolist(self):
        return self.l

    def pv_symbolic(self):
        return True

    def __getitem__(self, i):
        return self.l[i]

    def reshape(self, *s, **k):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, PList, list)) else s
        s = tuple(s)
        it = self.l.items
        if len(s) == 2 and len(it) == 1 and isinstance(it[0], Fam):
            f = it[0]
            w = f.chunk_len()
            if isinstance(w, int) and w == s[1] and not any(isinstance(x, Fam) for _, x in f.items):
                n = f.hi - f.lo
                if s[0] == -1 or isinstance(s[0], Poly) and ring.same_num(s[0], n):
                    return SMatT(SMat([SArr(n, subst(x, {f.var: I + f.lo})) for _, x in f.items]))
        raise Unsupported("reshape of a symbolic array")


class SMat(heap.WObj):
    """rows x symbolic columns."""

    __array_ufunc__ = None

    def __init__(self, rows):
        self.rows = list(rows)

    def pv_get(self):
        return None

    def pv_set(self, v):
        pass

    def pv_kids(self):
        return tuple(self.rows)

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].n)

    ndim = 2

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            r = self.rows[i[0]]
            if isinstance(i[0], slice):
                if isinstance(i[1], slice) and i[1] == slice(None):
                    return SMat(r)
                return NArr(obj((len(r),), [x[i[1]] for x in r]))
            return r[i[1]]
        if isinstance(i, slice):
            return SMat(self.rows[i])
        return self.rows[i]

    def __setitem__(self, i, v):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], int):
            self.rows[i[0]][i[1]] = v
            return
        if isinstance(i, int):
            self.rows[i][:] = v
            return
        raise Unsupported("assignment to a symbolic array")

    @property
    def T(self):
        return SMatT(self)


class SMatT(heap.WObj):
    """symbolic rows x columns."""

    __array_ufunc__ = None

    def __init__(self, m):
        self.m = m

    def pv_kids(self):
        return (self.m,)

    def pv_get(self):
        return None

    def pv_set(self, v):
        pass

    ndim = 2
    dtype = None

    @property
    def T(self):
        return self.m

    @property
    def rows(self):
        return self.m.rows

    @rows.setter
    def rows(self, v):
        self.m.rows = v

    @property
    def shape(self):
        return (self.m.rows[0].n, len(self.m.rows))

    def pv_len(self):
        return self.m.rows[0].n

    def __len__(self):
        raise Unsupported("native len() of a symbolic array")

    def pv_symbolic(self):
        return True

    def pv_at(self, i):
        return NArr(obj((len(self.m.rows),), [r.pv_at(i) for r in self.m.rows]))

    def copy(self):
        return SMatT(SMat([r.copy() for r in self.m.rows]))

    def astype(self, t, **k):
        return self.copy()

    def __getitem__(self, i):
        if isinstance(i, SArr):
            return SMatT(SMat([r[i] for r in self.m.rows]))
        if isinstance(i, (int, Poly)):
            return NArr(obj((len(self.m.rows),), [r[i] for r in self.m.rows]))
        if isinstance(i, tuple) and len(i) == 2:
            a, b = i
            if isinstance(a, slice) and a == slice(None):
                a = None
            if a is not None and not isinstance(a, (int, Poly, SArr)):
                raise Unsupported("index of a symbolic array")
            rows = self.m.rows
            if isinstance(b, slice):
                rows = rows[_idx(b)]
            elif isinstance(b, (NArr, PList, list, tuple)):
                b = [_ci(x) for x in (b.a.reshape(-1) if isinstance(b, NArr) else b)]
                if isinstance(a, SArr):
                    raise Unsupported("index of a symbolic array")
                rows = [rows[x].copy() for x in b]
            else:
                r = rows[_ci(b)]
                return r if a is None else r[a]
            if a is None:
                return SMatT(SMat(rows))
            return SMatT(SMat([r[a] for r in rows])) if isinstance(a, SArr) else NArr(obj((len(rows),), [r[a] for r in rows]))
        raise Unsupported("index of a symbolic array")


def ew(f, *args, out=None):
    """Elementwise application with broadcasting."""
    args = [asarr(a) if isinstance(a, (PList, list, tuple, range, np.ndarray)) else a for a in args]
    for a in args:
        if isinstance(a, Poison):
            a._bad()
    if any(isinstance(a, SMatT) for a in args):
        if any(isinstance(a, (SArr, SMat)) or isinstance(a, NArr) and a.size != 1 for a in args):
            raise Unsupported("broadcast of symbolic arrays")
        return SMatT(ew(f, *[a.m if isinstance(a, SMatT) else a for a in args]))
    if any(isinstance(a, SMat) for a in args):
        ns = next(a for a in args if isinstance(a, SMat))
        return SMat([ew(f, *[a.rows[i] if isinstance(a, SMat) else a for a in args]) for i in range(len(ns.rows))])
    sa = [a for a in args if isinstance(a, SArr)]
    if sa:
        n = sa[0].n
        for a in sa[1:]:
            if not same_len(a.n, n):
                raise Unsupported("broadcast of arrays with different symbolic lengths")
        es = []
        for a in args:
            if isinstance(a, SArr):
                es.append(a.e)
            elif isinstance(a, NArr):
                if a.size != 1:
                    raise Unsupported("broadcast of symbolic and concrete arrays")
                es.append(a.item())
            else:
                es.append(a)
        return SArr(n, f(*es))
    na = [a for a in args if isinstance(a, NArr)]
    if na:
        ufn = np.frompyfunc(f, len(args), 1)
        r = ufn(*[a.a if isinstance(a, NArr) else obj((), [a]) for a in args])
        if not isinstance(r, np.ndarray):
            return r
        return NArr(r)
    return f(*args)


def _add(a, b):
    return a + b


def _bop(name, f, r=False):
    def g(self, o):
        if not _ok(o):
            return NotImplemented
        return ew(f, o, self) if r else ew(f, self, o)

    g.__name__ = name
    return g


def _ok(o):
    return isinstance(o, (NArr, SArr, SMat, SMatT, PList, list, tuple, int, Fraction, float, Poly, sym.SymBool, bool))


def _iop(f):
    def g(self, o):
        if not _ok(o):
            return NotImplemented
        r = ew(f, self, o)
        if isinstance(self, SArr):
            self._st = r._st
        elif isinstance(self, NArr):
            if not isinstance(r, NArr):
                r = NArr(obj((), [r]))
            self.a[...] = r.a
        else:
            self.rows = r.rows
        return self

    return g


def _eqn(a, b):
    return sym.compare(a, b, "==") if Poly.lift(a) is not None and Poly.lift(b) is not None else a == b


_OPS = {
    "add": _add, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "truediv": PV.div, "pow": PV.pow, "mod": PV.mod, "floordiv": PV.floordiv,
    "and": lambda a, b: sym.land(bl(a), bl(b)), "or": lambda a, b: sym.lor(bl(a), bl(b)), "xor": lambda a, b: sym.lnot(bl(a) == bl(b)),
}
_CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}


def bl(x):
    return sym.as_bool(x)


for _C in (NArr, SArr, SMat, SMatT):
    for _n, _f in _OPS.items():
        setattr(_C, f"__{_n}__", _bop(_n, _f))
        setattr(_C, f"__r{_n}__", _bop(_n, _f, True))
        setattr(_C, f"__i{_n}__", _iop(_f))
    for _n, _o in _CMP.items():
        setattr(_C, f"__{_n}__", _bop(_n, (lambda o: lambda a, b: sym.compare(a, b, o))(_o)))
    _C.__eq__ = _bop("eq", _eqn)
    _C.__ne__ = _bop("ne", lambda a, b: sym.lnot(_eqn(a, b)))
    _C.__hash__ = object.__hash__
    _C.__neg__ = lambda self: ew(lambda a: -a, self)
    _C.__pos__ = lambda self: self
    _C.__abs__ = lambda self: ew(abs, self)
    _C.__invert__ = lambda self: ew(lambda a: sym.lnot(bl(a)), self)


def b_count(mask):
    n = 0
    for b in mask:
        n = n + (sym.ite(b, 1, 0) if isinstance(b, sym.SymBool) else int(b))
    return n


def shape_of(s):
    if isinstance(s, (PList, list, tuple)):
        return tuple(s)
    return (s,)


def full(shape, v, **k):
    s = shape_of(shape)
    if any(isinstance(x, Poly) for x in s):
        if any(isinstance(x, Poly) and not x.is_int() for x in s):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if len(s) == 1:
            r = SArr(s[0], v)
            r.full_of = v
            return r
        if len(s) == 2 and isinstance(s[0], int):
            return SMat([SArr(s[1], v) for _ in range(s[0])])
        if len(s) == 2 and GRID:
            return GRID[0](tuple(s), v)
        raise Unsupported("array of symbolic shape")
    a = np.empty(tuple(int(x) for x in s), dtype=object)
    a.fill(v)
    r = NArr(a)
    r.fill_of = v
    return r


def zeros(shape, *a, **k):
    return full(shape, 0)


def ones(shape, *a, **k):
    return full(shape, 1)


def eye(n, *a, **k):
    r = full((n, n), 0)
    for i in range(n):
        r.a[i, i] = 1
    return r


def array(x, *a, copy=True, **k):
    r = asarr(x)
    if isinstance(r, (NArr, SArr)) and r is x:
        return r.copy()
    return r


def arange(a, b=None, st=1, **k):
    if b is None:
        a, b = 0, a
    if any(isinstance(x, Poly) for x in (a, b, st)):
        if st == 1 and (b - a).is_int():
            return SArr(b - a, I + a)
        raise Unsupported("symbolic arange")
    out = []
    x = a
    while x < b:
        out.append(x)
        x = x + st
    return asarr(PList(out))


LINSPACE_SYMBOLIC = 40


def linspace(start, stop, num=50, endpoint=True, dtype=None):
    a, b, n = start, stop, num
    if isinstance(n, Poly) or n > LINSPACE_SYMBOLIC:
        d = (n - 1) if endpoint else n
        return SArr(n, a + I * PV.div(b - a, d))
    d = n - 1 if endpoint else n
    return asarr(PList([a + PV.div(i * (b - a), d) if d else a for i in range(n)]))


def np_sum(x, axis=None, **k):
    if not isinstance(x, (NArr, SArr)):
        x = asarr(x)
    if isinstance(x, SArr):
        if is_bool_e(x.e):
            return count(x)
        v = ring.atom_of(ring.fresh("r"))
        from pyvc.loops import num_sum

        return num_sum(v, 0, x.n, [(True, subst(x.e, {IOTA: Poly.of(v)}))])
    if isinstance(x, SList):
        raise Unsupported("sum of a symbolic array")
    if axis is None:
        r = 0
        for v in x.a.reshape(-1):
            r = r + v
        return r
    return NArr(np.sum(x.a, axis=axis))


def _np_ext(name):
    def f(x, axis=None, **k):
        x = asarr(x)
        if isinstance(x, SArr):
            return extremum_of(name, x.pv_segments())
        if isinstance(x, SList):
            return extremum_of(name, x.l.items)
        if axis is not None:
            raise Unsupported("axis reduction")
        if x.size == 0:
            raise ValueError(f"zero-size array to reduction operation {name}imum which has no identity")
        return extremum_of(name, list(x.a.reshape(-1)))

    return f


np_max, np_min = _np_ext("max"), _np_ext("min")


WITNESS = []  # indices at which a universal statement is tried first


def np_all(x, *a, **k):
    x = asarr(x)
    if isinstance(x, SArr):
        if isinstance(x.e, bool):
            return x.e
        for w in WITNESS:
            if engine.cur().entails(sym.land(sym.compare(w, 0, ">="), sym.compare(w, x.n, "<"), sym.lnot(subst(x.e, {IOTA: w})))):
                return False
        v = ring.atom_of(ring.fresh("r"))
        return sym.SymBool("app", ("all", Fam(v, 0, x.n, [(True, subst(x.e, {IOTA: Poly.of(v)}))])))
    return sym.land(*[bl(v) for v in x.a.reshape(-1)])


def np_any(x, *a, **k):
    x = asarr(x)
    if isinstance(x, SArr):
        return sym.lnot(np_all(ew(lambda y: sym.lnot(bl(y)), x)))
    return sym.lor(*[bl(v) for v in x.a.reshape(-1)])


def np_dot(a, b):
    a, b = asarr(a), asarr(b)
    if isinstance(a, NArr) and isinstance(b, NArr):
        r = np.dot(a.a, b.a)
        return NArr(r) if isinstance(r, np.ndarray) else r
    raise Unsupported("dot of symbolic arrays")


def f_isclose(x, y, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **k):
    """|x-y| <= atol + rtol*|y|."""
    def f(p, q):
        d, q = p - q, q
        b = atol + rtol * abs(q)
        return sym.land(sym.compare(d, b, "<="), sym.compare(-d, b, "<="))

    return ew(f, x, y)


def f_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    return ew(lambda p, q, r: sym.ite(bl(p), q, r), c, a, b)


def stack_(name):
    def f(arrs, *a, **k):
        arrs = [asarr(x) for x in arrs]
        if all(isinstance(x, NArr) for x in arrs):
            return NArr(getattr(np, name)([x.a for x in arrs], *a, **k))
        if name in ("vstack", "stack") and all(isinstance(x, SArr) for x in arrs):
            return SMat(arrs)
        raise Unsupported(f"np.{name} of symbolic arrays")

    return f


def unary(f):
    return lambda x, *a, **k: ew(f, x)


def vectorize(f, *a, **k):
    return lambda *x: ew(f, *x)


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (NArr, SArr, SMat, SMatT, SList))


class ndarray(metaclass=_Meta):
    pass


class _Linalg:
    @staticmethod
    def norm(x, *a):
        x = asarr(x)
        return m_sqrt(np_sum(ew(lambda y: y * y, x)))


ARGSORT = []  # hooks: arrays whose sorting permutation has a contract


def argsort(x, *a, **k):
    x = asarr(x)
    if isinstance(x, SArr):
        # a permutation sorting x: known only by name
        for h in ARGSORT:
            r = h(x)
            if r is not None:
                return r
        return SArr(x.n, Poly.of(ring.mk_atom("argsort", (Fam(IOTA, 0, x.n, [(True, x.e)]), I), "int")))
    v = list(x.a.reshape(-1))
    return asarr(PList(sorted(range(len(v)), key=lambda i: v[i])))


def make():
    from .base import PI

    m = mod(
        "numpy", zeros=zeros, ones=ones, full=full, empty=zeros, eye=eye, identity=eye, array=array, asarray=asarr, arange=arange, linspace=linspace,
        sum=np_sum, max=np_max, min=np_min, amax=np_max, amin=np_min, all=np_all, any=np_any, dot=np_dot, matmul=np_dot,
        abs=unary(abs), absolute=unary(abs), fabs=unary(abs), sqrt=unary(m_sqrt), cos=unary(trig("cos")), sin=unary(trig("sin")),
        exp=unary(lambda x: ring.app("exp", lift(x))), square=unary(lambda x: x * x),
        logical_or=lambda a, b, **k: ew(_OPS["or"], a, b), logical_and=lambda a, b, **k: ew(_OPS["and"], a, b),
        logical_not=unary(lambda a: sym.lnot(bl(a))), invert=unary(lambda a: sym.lnot(bl(a))),
        logical_xor=lambda a, b: ew(_OPS["xor"], a, b),
        isclose=f_isclose, allclose=lambda *a, **k: np_all(f_isclose(*a, **k)), where=f_where,
        maximum=lambda a, b: ew(lambda p, q: extremum_of("max", [p, q]), a, b),
        minimum=lambda a, b: ew(lambda p, q: extremum_of("min", [p, q]), a, b),
        power=lambda a, b: ew(PV.pow, a, b), add=lambda a, b: ew(_add, a, b), multiply=lambda a, b: ew(_OPS["mul"], a, b),
        subtract=lambda a, b: ew(_OPS["sub"], a, b), divide=lambda a, b: ew(PV.div, a, b),
        greater=lambda a, b: ew(lambda p, q: sym.compare(p, q, ">"), a, b), less=lambda a, b: ew(lambda p, q: sym.compare(p, q, "<"), a, b),
        greater_equal=lambda a, b: ew(lambda p, q: sym.compare(p, q, ">="), a, b),
        less_equal=lambda a, b: ew(lambda p, q: sym.compare(p, q, "<="), a, b),
        zeros_like=lambda x, *a, **k: ew(lambda y: 0, x), ones_like=lambda x, *a, **k: ew(lambda y: 1, x),
        full_like=lambda x, v, *a, **k: ew(lambda y: v, x),
        stack=stack_("stack"), vstack=stack_("vstack"), hstack=stack_("hstack"), concatenate=stack_("concatenate"), column_stack=stack_("column_stack"),
        transpose=lambda x: asarr(x).T, ravel=lambda x: asarr(x).ravel(), vectorize=vectorize, argsort=argsort, copy=lambda x: asarr(x).copy(),
        outer=lambda a, b: NArr(np.multiply.outer(asarr(a).a, asarr(b).a)), size=lambda x: asarr(x).size, shape=lambda x: asarr(x).shape,
        ndarray=ndarray, pi=PI, inf=float("inf"), float64=lambda x=0: lift(x), int64=lambda x=0: x, int32=lambda x=0: x, linalg=_Linalg,
        float32=lambda x=0: lift(x), **{t: (lambda x=0: x) for t in ("uint64", "uint32", "uint8", "int8", "intp")}, bool_=bool, newaxis=None,
        flatnonzero=_nz, nonzero=lambda x: (_nz(x),), prod=lambda x: _prod(asarr(x)), isscalar=lambda x: not isinstance(x, (NArr, SArr, PList)),
        polynomial=None, diff=lambda x: x[1:] - x[:-1], append=lambda a, b: asarr(PList(list(asarr(a)) + list(asarr(b)))),
        clip=lambda x, a, b: ew(lambda y: extremum_of("max", [extremum_of("min", [y, b]), a]), x),
    )
    return m


def _nz(x):
    raise Unsupported("np.nonzero")


def _prod(x):
    r = 1
    for v in x.a.reshape(-1):
        r = r * v
    return r
