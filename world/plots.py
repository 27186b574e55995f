"""Contracts of matplotlib, dxh and the XDMF writer: what is drawn or written is recorded; grids with symbolic numbers of rows and columns."""
from __future__ import annotations

from pyvc import engine, heap, ring, sym
from pyvc.ring import ContractViolation, Poly, Unsupported, mk_atom
from pyvc.values import Fam, PList

from . import fe, numpy_
from .base import mod
from .numpy_ import I, SArr


# ------------------------------------------------------------------------------------------------------------ grids
def radix(p, base):
    """(a, b) with p == a * base + b, collected by the powers of base (a single atom or a number)."""
    if not isinstance(base, Poly):
        qr = ring.split_const_div(Poly.lift(p), int(base))
        if qr is None:
            raise Unsupported("position in a grid")
        return qr
    at = ring.atom_of(base)
    a, b = {}, {}
    for m, c in Poly.lift(p).t.items():
        d = dict(m)
        k = d.pop(at, 0)
        if k >= 1:
            if k > 1:
                d[at] = k - 1
            a[tuple(sorted(d.items()))] = c
        else:
            b[m] = c
    return Poly(a).norm(), Poly(b).norm()


class Place:
    """Position (a * base + b, col) with 0 <= b < base known on the path."""

    def __init__(self, a, b, base, col):
        self.a, self.b, self.base, self.col = a, b, base, col


def _unit(e, v, target):
    """Binder value with e == target, for e = +-v + rest."""
    d = e - target
    lin = ring.subst(d, {v: 1}) - ring.subst(d, {v: 0})
    lin = Poly.lift(lin).norm()
    if isinstance(lin, Poly) or lin not in (1, -1):
        raise Unsupported(f"index {e} is not of the form binder plus offset")
    r = ring.subst(d, {v: 0}) * (-lin)
    if not ring._is0(Poly.lift(ring.subst(d, {v: r})).norm()):
        raise Unsupported("index is not linear")
    return r


def lookup(recs, pl):
    """(found, value): last record written at the place; records are (row, col, value) under nested families."""
    for r in reversed(recs):
        hit = _match(r, (), {}, pl)
        if len(hit) > 1:
            if any(ring.ckey(h) != ring.ckey(hit[0]) for h in hit[1:]):
                raise Unsupported("several writes to one place in one loop")
        if hit:
            return True, hit[0]
    return False, None


def _match(r, chain, env, pl):
    if isinstance(r, Fam):
        out = []
        for g, it in r.items:
            out += _match(it, (*chain, (r.var, r.lo, r.hi, g)), env, pl)
        return out
    op, row, col, val = r
    sol = {}
    left = [c[0] for c in chain]

    def eq(expr, target):
        expr = ring.subst(expr, sol)
        vs = [v for v in left if v in ring.fv(expr)]
        if not vs:
            return fe.truth(sym.compare(expr, target, "=="))
        if len(vs) > 1:
            raise Unsupported("index depends on several loops")
        sol[vs[0]] = _unit(expr, vs[0], target)
        left.remove(vs[0])
        return True

    if col is not None and not eq(col, pl.col):
        return []
    a, b = radix(row, pl.base)
    e = engine.cur()
    if not eq(b, pl.b):
        # a remainder outside [0, base) would belong to another row
        pass_ = [c for v, lo, hi, g in chain for c in (sym.compare(Poly.of(v), lo, ">="), sym.compare(Poly.of(v), hi, "<")) if v in ring.fv(b)]
        if e._check([*pass_, sym.lnot(sym.land(sym.compare(b, 0, ">="), sym.compare(b, pl.base, "<")))]) != "unsat":
            raise Unsupported("row index is not in mixed radix form")
        return []
    if not eq(a, pl.a):
        return []
    if left:
        raise Unsupported("a place is written in every iteration")
    for v, lo, hi, g in chain:
        it = sol[v]
        lo, hi = ring.subst(lo, sol), ring.subst(hi, sol)
        if not fe.truth(sym.land(sym.compare(it, lo, ">="), sym.compare(it, hi, "<"))):
            return []
        if g is not True and not fe.truth(ring.subst(g, sol)):
            return []
    return [ring.subst(val, sol)]


class Grid(heap.WObj):
    """Two-dimensional array with symbolic numbers of rows and columns: a log of writes."""

    __array_ufunc__ = None

    def __init__(self, shape, v):
        self.shape = shape
        self._st = (("fill", v),)

    ndim = 2

    def _chk(self, i, n):
        """0 <= i < n, by the solver or in mixed radix."""
        if not isinstance(i, (int, Poly)):
            raise Unsupported(f"grid index {type(i).__name__}")
        if sym.provable(sym.land(sym.compare(i, 0, ">="), sym.compare(i, n, "<"))):
            return
        # n == a0 * base + 0 and i == a * base + b
        p = Poly.lift(n)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            for at, k in m:
                if k != 1:
                    continue
                base = Poly.of(at)
                if not sym.provable(sym.compare(base, 1, ">=")):
                    continue
                a0, b0 = radix(n, base)
                a, b = radix(i, base)
                if ring._is0(b0) and sym.provable(sym.land(sym.compare(b, 0, ">="), sym.compare(b, base, "<"))) and sym.provable(
                        sym.land(sym.compare(a, 0, ">="), sym.compare(a, a0, "<"))):
                    return
            if c > 1 and c.denominator == 1:
                qr = ring.split_const_div(Poly.lift(i), int(c))
                if qr is not None and sym.provable(sym.land(sym.compare(qr[0], 0, ">="), sym.compare(qr[0] * int(c), n, "<"))):
                    return
        raise Unsupported(f"index {i} not shown to be within {n}")

    def __setitem__(self, k, v):
        heap.GUARDS and heap.touch(self)
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported("grid index")
        i, j = k
        self._chk(i, self.shape[0])
        if isinstance(j, slice) and j == slice(None):
            if not isinstance(v, SArr):
                raise Unsupported("row of a grid")
            if not numpy_.same_len(v.n, self.shape[1]):
                raise ValueError("could not broadcast input array")
            w = ring.atom_of(ring.fresh("c"))
            self._st = (*self._st, Fam(w, 0, v.n, ((True, ("w", i, Poly.of(w), v.pv_at(Poly.of(w)))),)))
            return
        self._chk(j, self.shape[1])
        p = Poly.lift(v)
        if p is None:
            raise Unsupported(f"grid entry {type(v).__name__}")
        self._st = (*self._st, ("w", i, j, p.norm()))

    def __getitem__(self, k):
        raise Unsupported("read of a grid")

    def copy(self):
        g = Grid(self.shape, 0)
        g._st = self._st
        return g

    def _ext(self, n):
        return ring.app("gridextremum", n, ring.mk_atom("gst", (self._st,)))

    def min(self, *a, **k):
        return self._ext("min")

    def max(self, *a, **k):
        return self._ext("max")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"grid.{n}")


numpy_.GRID[:] = [Grid]


def entry(st, a, b, base, col):
    """Entry of a grid state at row a * base + b."""
    ok, v = lookup(st[1:], Place(a, b, base, col))
    return v if ok else st[0][1]


def seq_entry(items, a, b, base):
    """Entry of a (nested) list state at position a * base + b."""
    recs, off = [], 0

    def walk(it, off):
        """(record, length)"""
        if not isinstance(it, Fam):
            return ("w", off, None, it), 1
        out, n = [], 0
        for g, x in it.items:
            if g is not True:
                raise Unsupported("guarded list entries")
            out.append(x)
        # length of a chunk
        ln = 0
        for x in out:
            ln = ln + length(x)
        v = Poly.of(it.var)
        its, o = [], off + (v - it.lo) * ln
        for x in out:
            r, k = walk(x, o)
            its.append((True, r))
            o = o + k
        return Fam(it.var, it.lo, it.hi, its), (it.hi - it.lo) * ln

    def length(x):
        if not isinstance(x, Fam):
            return 1
        n = 0
        for _, y in x.items:
            n = n + length(y)
        if x.var in ring.fv(n):
            raise Unsupported("chunks of different length")
        return n * (x.hi - x.lo)

    for it in items:
        r, k = walk(it, off)
        recs.append(r)
        off = off + k
    ok, v = lookup(recs, Place(a, b, base, None))
    return off, (v if ok else None)


# ------------------------------------------------------------------------------------------------------------ recorders
class Record(heap.WObj):
    def __init__(self):
        self.st = ()

    def pv_get(self):
        return self.st

    def pv_set(self, v):
        self.st = v

    def add(self, *x):
        self.st = (*self.st, x)


class Cmap:
    pv_immutable = True
    N = 256


class Locator:
    pv_immutable = True

    def __init__(self, *a, **k):
        pass

    def tick_values(self, a, b):
        for x in (a, b):
            if Poly.lift(x) is None:
                raise Unsupported("levels")
        return Opaque()


class Opaque:
    pv_immutable = True

    def __init__(self, *a, **k):
        pass


def grid_state(x):
    if isinstance(x, Grid):
        return ("grid", x.shape, x._st)
    raise Unsupported(f"drawing of {type(x).__name__}")


def axis_state(x):
    if isinstance(x, SArr):
        return tuple(x.pv_segments())
    if isinstance(x, numpy_.NArr):
        return tuple(x.tolist().items)
    if isinstance(x, PList):
        return tuple(x.items)
    raise Unsupported(f"axis {type(x).__name__}")


def plt_mod(rec):
    def pcolormesh(*a, **k):
        if len(a) != 3:
            raise Unsupported("colour mesh without axes")
        rec.add("draw", axis_state(a[0]), axis_state(a[1]), grid_state(a[2]))
        return Opaque()

    quiet = lambda *a, **k: None  # noqa: E731
    m = mod("matplotlib.pyplot", pcolormesh=pcolormesh, colorbar=quiet, xlabel=quiet, ylabel=quiet, show=lambda *a, **k: rec.add("show"), title=quiet,
            get_cmap=lambda *a, **k: Cmap(), figure=quiet, close=quiet, savefig=quiet, tight_layout=quiet, clf=quiet)
    colors = mod("matplotlib.colors", BoundaryNorm=Opaque, LogNorm=Opaque, Normalize=Opaque)
    ticker = mod("matplotlib.ticker", MaxNLocator=Locator)
    top = mod("matplotlib", pyplot=m, colors=colors, ticker=ticker)
    return {"matplotlib": top, "matplotlib.pyplot": m, "matplotlib.colors": colors, "matplotlib.ticker": ticker}


def evaluate_function_at_points(fn, pts):
    """dxh: values of a scalar function at a list of points."""
    if not isinstance(fn, fe.Function):
        raise Unsupported("evaluation of something that is not a function")
    sk = fn.function_space.sk()
    blk = fe.read(fn.store.st, 0, 0)

    def val(pt):
        if isinstance(pt, PList):
            pt = tuple(pt.items)
        if not (isinstance(pt, tuple) and len(pt) == 3):
            raise ContractViolation("points must have three coordinates")
        return fe.linmap(blk, lambda b: Poly.of(mk_atom("ev", (sk, b, tuple(Poly.lift(x).norm() for x in pt)))), lambda c: c)

    if isinstance(pts, numpy_.SList):
        its = pts.l.items
        if not (len(its) == 1 and isinstance(its[0], Fam) and len(its[0].items) == 1 and its[0].items[0][0] is True):
            raise Unsupported("points of irregular structure")
        f = its[0]
        return SArr(f.hi - f.lo, val(ring.subst(f.items[0][1], {f.var: I + f.lo})))
    if isinstance(pts, numpy_.NArr):
        if pts.ndim != 2 or pts.shape[1] != 3:
            raise ContractViolation("points must be an array of rows of three coordinates")
        return numpy_.asarr(PList([val(tuple(pts.a[k])) for k in range(pts.shape[0])]))
    raise Unsupported(f"points {type(pts).__name__}")


def io_mod(rec):
    class XDMFFile:
        pv_immutable = True

        def __init__(self, comm, name, mode, *a):
            if not isinstance(comm, fe.Comm):
                raise ContractViolation("XDMFFile needs a communicator")
            self.name = str(name)
            rec.add("open", self.name, mode)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            rec.add("close", self.name)

        def close(self):
            rec.add("close", self.name)

        def write_mesh(self, mesh):
            rec.add("mesh", self.name, mesh)

        def write_function(self, f, t=0, *a):
            if not isinstance(f, fe.Function):
                raise ContractViolation("only functions can be written")
            rec.add("function", self.name, f.function_space, f.store.st)

    return mod("dolfinx.io", XDMFFile=XDMFFile)


def make(rec):
    w = plt_mod(rec)
    w["dxh"] = mod("dxh", evaluate_function_at_points=evaluate_function_at_points)
    w["dolfinx.io"] = io_mod(rec)
    return w
