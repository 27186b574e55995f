"""Loops: native when concrete, otherwise summarised by inferred and proved inductive invariants."""
from __future__ import annotations

from . import engine, heap, ring, sym
from .heap import UNBOUND
from .ring import Poly, Unsupported, subst
from .values import (BRK, CONT, Fam, Frozen, PList, Poison, Ret, SymEnum, freeze, is_symbolic_iter, pv_at, pv_len, thaw)

STATS = {"loops": 0, "invariants": 0, "rounds": 0}
import os

TRACE = os.environ.get("PV_TRACE")
LOOP_INDEX = []  # stack of current loop indices (for deterministic naming of fresh results)
SITE = [0]
HAVOC = [None]  # iteration whose starting state is being set up


def for_(it, body):
    if isinstance(it, Poison):
        it._bad()
    f = getattr(it, "pv_for", None)
    if f is not None:
        return f(for_, body)
    if isinstance(it, PList) and not it.pv_concrete():
        return _segments(tuple(it.items), body)
    if type(it) is SymEnum and _chunked(it.it):
        return _enum_segments(it, body)
    if is_symbolic_iter(it):
        return sym_loop(it.pv_len(), it.pv_at, body)
    src = iter(it)
    k = 0
    for x in src:
        LOOP_INDEX.append(k)
        try:
            r = body(x)
        finally:
            LOOP_INDEX.pop()
        k += 1
        if r is BRK or type(r) is Ret:
            return r
    return None


def _segments(items, body):
    for x in items:
        if isinstance(x, Fam):
            def at(i, x=x):
                return ring.subst(x.items, {x.var: x.lo + i})

            def fbody(chunk):
                for g, it in chunk:
                    if g is not True and not bool(g):
                        continue
                    if isinstance(it, Fam):
                        r = _segments((it,), body)
                    else:
                        r = body(thaw(it))
                    if r is BRK or type(r) is Ret:
                        return r
                return None

            r = sym_loop(x.hi - x.lo, at, fbody, roots=(body,))
        else:
            r = body(thaw(x))
        if r is BRK or type(r) is Ret:
            return r
    return None


def _chunked(x):
    """Sequence made of families of several items per binder value."""
    if not hasattr(x, "pv_segments") or not is_symbolic_iter(x):
        return False
    return any(isinstance(f, Fam) and f.chunk_len() not in (1, None) for f in x.pv_segments())


def _enum_segments(en, body):
    off = en.start
    for x in en.it.pv_segments():
        if isinstance(x, Fam):
            k = x.chunk_len()
            if not isinstance(k, int) or any(isinstance(it, Fam) for _, it in x.items):
                raise Unsupported("enumerate of nested families")

            def at(i, x=x, off=off):
                return tuple((off + k * i + c, ring.subst(it, {x.var: x.lo + i})) for c, (_, it) in enumerate(x.items))

            def fbody(chunk):
                for j, it in chunk:
                    r = body((j, thaw(it)))
                    if r is BRK or type(r) is Ret:
                        return r
                return None

            r = sym_loop(x.hi - x.lo, at, fbody, roots=(body,))
            off = off + k * (x.hi - x.lo)
        else:
            r = body((off, thaw(x)))
            off = off + 1
        if r is BRK or type(r) is Ret:
            return r
    return None


# ------------------------------------------------------------------------- accumulators
def delta(pre, post):
    """(kind, increment) such that post is pre plus an increment; None when it is not of that shape."""
    if heap.vsame(pre, post):
        return ("zero", None)
    f = getattr(type(post), "pv_delta", None)
    if f is not None and type(pre) is type(post):
        d = f(post, pre)
        return None if d is None else ("acc", d)
    if Poly.lift(post) is not None and Poly.lift(pre) is not None and not isinstance(pre, (bool, sym.SymBool)):
        return ("num", post - pre)
    if isinstance(pre, tuple) and isinstance(post, tuple) and len(post) >= len(pre) and heap.vsame(post[: len(pre)], pre):
        return ("app", post[len(pre):])
    return None


def num_sum(v, lo, hi, items):
    """Sum over v in [lo,hi) of guarded increments, in canonical form."""
    out = 0
    groups = {}
    for g, d in items:
        p = Poly.lift(d)
        for m, c in p.t.items():
            inner = tuple((a, e) for a, e in m if v in a.fv)
            outer = tuple((a, e) for a, e in m if v not in a.fv)
            groups.setdefault(outer, {}).setdefault(g if g is True else g.pv_key(), [g, {}])[1][inner] = (
                groups.get(outer, {}).get(g if g is True else g.pv_key(), [g, {}])[1].get(inner, 0) + c)
    for outer, bg in groups.items():
        fac = Poly({outer: ring.Fraction(1)}).norm()
        its = []
        for g, inner in bg.values():
            inner = {m: c for m, c in inner.items() if c}
            if not inner:
                continue
            its.append((g, Poly(inner).norm()))
        its.sort(key=lambda x: repr(ring.ckey((x[0], x[1]))))
        for g, d in its:
            if g is True and v not in ring.fv(d):
                out = out + fac * d * (hi - lo)
                continue
            if isinstance(d, Poly):
                lead = d.t[min(d.t, key=lambda m: tuple((a.uid, e) for a, e in m))]
                d = d * (1 / lead)
            else:
                lead, d = d, 1
            srt = "int" if not isinstance(d, Poly) and ring.Fraction(d).denominator == 1 or isinstance(d, Poly) and d.is_int() else "real"
            out = out + fac * ring.norm_num(ring.Fraction(lead)) * Poly.of(
                ring.mk_atom("sum", (Fam(v, lo, hi, ((g, d),)),), srt))
    return out


class Closed:
    """Closed form of a location at the start of iteration m (1 <= m)."""

    def __init__(self, kind, base, v=None, items=None, kind2=None, lo=1):
        self.kind, self.base, self.v, self.items, self.kind2, self.lo = kind, base, v, items, kind2, lo

    def at(self, m):
        k = self.kind
        if k == "const":
            return self.base
        if k == "poison":
            return Poison(self.base)
        if k == "lin":
            return self.base + self.items * (m - self.lo)
        if k == "geo":
            return self.base * ring.num_pow(self.items, m - self.lo)
        if k == "num":
            return self.base + num_sum(self.v, self.lo, m, self.items)
        if k == "app":
            its = [(g, x) for g, x in self.items]
            return self.base + (Fam(self.v, self.lo, m, its),)
        if k == "acc":
            return self.base.pv_accum(self.v, self.lo, m, self.items)
        if k == "prev":
            return thaw(subst(self.items, {self.v: m - 1}))
        raise AssertionError(k)

    def key(self, i):
        if self.kind == "poison":
            return ("poison",)
        if self.kind in ("const",):
            return ("const", id(self.base) if not _plain(self.base) else ring.ckey(self.base))
        v = subst(self.items, {self.v: Poly.of(i)}) if self.v is not None else self.items
        return (self.kind, self.lo, _okey(v), _okey(self.base))


def _okey(x):
    if isinstance(x, tuple):
        return tuple(_okey(y) for y in x)
    if _plain(x):
        return ring.ckey(x)
    k = getattr(x, "pv_key", None)
    return k() if k is not None else id(x)


def _plain(x):
    return isinstance(x, (int, str, Poly, ring.Fraction, type(None), tuple)) or getattr(x, "pv_key", None) is not None


def sym_loop(L, at, body, roots=()):
    e = engine.cur()
    if not isinstance(L, Poly):
        return for_([at(k) for k in range(max(L, 0))], body)
    if not bool(sym.compare(L, 1, ">=")):
        return None
    STATS["loops"] += 1
    rts = [body, *roots, *heap.TRANSFORMED_MODULES, *heap.WORLD_ROOTS, *heap.HARNESS_ROOTS, SITE]
    site0 = tuple(SITE)
    s0 = heap.walk(rts)
    LOOP_INDEX.append(0)
    try:
        r = body(at(0))
    finally:
        LOOP_INDEX.pop()
    if r is BRK or type(r) is Ret:
        return r
    if not bool(sym.compare(L, 2, ">=")):
        return None
    site1 = tuple(SITE)
    s1 = heap.walk(rts)
    mod = {(id(o), k): (o, k) for o, k in heap.diff(s0, s1)}
    i = ring.atom_of(ring.fresh("i"))
    I = Poly.of(i)
    bounds = [sym.compare(I, 1, ">="), sym.compare(I, L, "<")]
    G = {}
    for lid, (o, k) in mod.items():
        v0 = s0[lid][2] if lid in s0 else UNBOUND
        v1 = s1[lid][2] if lid in s1 else UNBOUND
        G[lid] = initial_guess(o, k, v0, v1)
    paths = None
    last = None
    for rnd in range(12):
        STATS["rounds"] += 1
        paths, excs = generic_iteration(e, rts, s1, mod, G, I, bounds, at, body, site0)
        # newly modified locations
        grew = False
        for p in paths:
            for lid, (o, k, v) in p["mods"].items():
                if lid not in mod:
                    mod[lid] = (o, k)
                    v1 = s1[lid][2] if lid in s1 else UNBOUND
                    G[lid] = initial_guess(o, k, UNBOUND, v1)
                    grew = True
        if grew:
            continue
        newG = {}
        for lid, (o, k) in mod.items():
            newG[lid] = next_guess(e, lid, o, k, s0, s1, G[lid], paths, i, I)
        keys = {lid: g.key(i) for lid, g in newG.items()}
        if TRACE and last is not None:
            for lid in keys:
                if keys[lid] != last.get(lid):
                    print("round", rnd, mod[lid][0] if not hasattr(mod[lid][0], "name") else mod[lid][0].name, mod[lid][1], G[lid].kind, "->", newG[lid].kind, str(newG[lid].items)[:int(TRACE)])
        if last is not None and keys == last:
            G = newG
            break
        last = keys
        G = newG
    else:
        raise Unsupported("loop invariant inference did not converge")
    # inductive step: with G assumed at i (s1-based, so the base case holds by construction), every path of the
    # generic iteration must end in G at i+1
    for lid, g in G.items():
        if g.kind == "poison":
            continue
        if not step_ok(g, lid, paths, I, i):
            raise Unsupported(f"loop invariant not inductive at {mod[lid][1]}")
        STATS["invariants"] += 1
    # an exception in some iteration: the program raises on that path, in the state reached there
    for ex, pcs, snap in excs:
        if e.choose():
            heap.restore(snap)
            e.pc += pcs
            raise ex
    finish(e, rts, s1, mod, G, L, paths, I, i)
    SITE[:] = list(site1)
    return None


def initial_guess(o, k, v0, v1):
    if v1 is UNBOUND:
        return Closed("poison", f"unbound at {k}")
    if type(v1) in (int, ring.Fraction, Poly) and type(v0) in (int, ring.Fraction, Poly):
        return Closed("lin", v1, None, v1 - v0)
    return Closed("const", v1)  # optimistic; replaced when the generic iteration changes it


def generic_iteration(e, rts, s1, mod, G, I, bounds, at, body, site0):
    out, excs = [], []

    def setup():
        heap.restore(s1)
        SITE[:] = list(site0)
        HAVOC[0] = I
        for lid, (o, k) in mod.items():
            heap.set_loc(o, k, G[lid].at(I))
        SITE[:] = list(site0)
        for b in bounds:
            e.assume(b)

    def run():
        pre = heap.walk(rts)
        LOOP_INDEX.append(I)
        heap.GUARDS.append((heap.SERIAL[0], {id(x) for x, _, _ in pre.values()}))
        try:
            r = body(at(I))
        finally:
            LOOP_INDEX.pop()
            heap.GUARDS.pop()
        if r is BRK or type(r) is Ret:
            raise Unsupported("break or return out of a symbolic loop")
        post = heap.walk(rts)
        mods = {}
        for o, k in heap.diff(pre, post):
            lid = (id(o), k)
            if lid in s1 or lid in mod or any(x[0] is o for x in ()):
                mods[lid] = (o, k, post[lid][2] if lid in post else UNBOUND)
            else:
                # new item/attribute on a pre-existing object
                mods[lid] = (o, k, post[lid][2] if lid in post else UNBOUND)
        return {"mods": mods, "post": post, "pre": pre}

    def on_path(r):
        pcs, o = r
        if o[0] == "exc":
            excs.append((o[1], pcs, heap.walk(rts)))
            return None
        d = o[1]
        g = [c for c in pcs if not any(c is b for b in bounds)]
        d["guard"] = sym.land(*g) if g else True
        d["pcs"] = pcs
        out.append(d)
        return None

    try:
        e.explore(run, on_path, setup)
    finally:
        heap.restore(s1)
    if not out:
        if excs:
            heap.restore(excs[0][2])
            e.pc += excs[0][1]
            raise excs[0][0]
        raise Unsupported("loop body has no feasible generic path")
    return out, excs


def value_of(p, lid, pre):
    """Post value of a location on a path."""
    if lid in p["post"]:
        return p["post"][lid][2]
    if lid in p["mods"]:
        return p["mods"][lid][2]
    return pre


def next_guess(e, lid, o, k, s0, s1, g, paths, i, I):
    v1 = s1[lid][2] if lid in s1 else UNBOUND
    v0 = s0[lid][2] if lid in s0 else UNBOUND
    pre = g.at(I)
    c = _ratio(v0, v1)
    if c is not None and all(lid in p["pre"] and type(p["pre"][lid][2]) is Poly and heap.vsame(value_of(p, lid, None), p["pre"][lid][2] * c) for p in paths):
        return Closed("geo", v1, None, c)
    deltas = []
    ok = True
    kinds = set()
    for p in paths:
        pr = p["pre"][lid][2] if lid in p["pre"] else UNBOUND
        po = value_of(p, lid, pr)
        if isinstance(pr, Poison) and po is pr:
            return Closed("poison", pr.why)
        d = None if pr is UNBOUND or isinstance(pr, Poison) else delta(pr, po)
        if d is None:
            ok = False
            break
        if d[0] != "zero":
            kinds.add(d[0])
        deltas.append((p["guard"], d))
    if ok and not kinds:
        # unchanged by the generic iteration: value after iteration 0, or the invariant part of the guess
        if g.kind == "const" and v1 is not UNBOUND:
            return Closed("const", v1)
        if v1 is not UNBOUND:
            return Closed("const", v1)
    if ok and len(kinds) == 1 and v1 is not UNBOUND:
        kd = kinds.pop()
        its = [(gd, d[1]) for gd, d in deltas if d[0] != "zero"]
        if kd == "num" and not mentions_self(its, g):
            if len(its) == len(paths) and all(heap.vsame(its[0][1], x[1]) for x in its) and i not in ring.fv(its[0][1]):
                return Closed("lin", v1, None, its[0][1])
            if len(its) == len(paths) and len(its) > 1 and all(heap.vsame(its[0][1], x[1]) for x in its):
                its = [(True, its[0][1])]
            ov = overwritten(paths, lid, v1, i)
            if ov is not None:
                return ov
            post = merge([(p["guard"], value_of(p, lid, p["pre"][lid][2] if lid in p["pre"] else UNBOUND)) for p in paths])
            if g.kind in ("num", "lin") and post is not None and getattr(g, "post", None) is not None and heap.vsame(g.post, post) and not _fsame(
                    tuple(its), g.items if g.kind == "num" else ((True, g.items),)):
                return Closed("poison", f"{k}: overwritten, first iteration differs")
            touched = tuple((p["guard"], value_of(p, lid, UNBOUND)) for p, (_, d) in zip(paths, deltas) if d[0] != "zero")
            if len(its) < len(paths) and getattr(g, "touched", None) is not None and len(touched) == len(g.touched) and all(
                    heap.vsame(a[1], b[1]) for a, b in zip(touched, g.touched)) and not _fsame(tuple(its), g.items):
                # the iterations that write the location write a value that does not depend on its previous value
                return Closed("poison", f"{k}: overwritten in some iterations only")
            base, lo = v1, 1
            if v0 is not UNBOUND and Poly.lift(v0) is not None:
                d0 = v1 - v0
                if len(its) == 1 and its[0][0] is True and heap.vsame(subst(its[0][1], {i: 0}), d0):
                    base, lo = v0, 0
            c = Closed("num", base, i, tuple(its), lo=lo)
            c.post, c.touched = post, touched
            return c
        if kd == "app":
            items = []
            try:
                for gd, d in its:
                    fr = tuple(freeze(x, True) for x in d)
                    items += [(gd, x) for x in fr]
            except Unsupported as ex:
                return Closed("poison", str(ex))
            if len(paths) > 1 and all(d[0] == "app" for _, d in deltas) and all(
                    heap.vsame(deltas[0][1][1], d[1]) for _, d in deltas):
                items = [(True, freeze(x, True)) for x in deltas[0][1][1]]
            items.sort(key=lambda x: repr(ring.ckey(x[0])) if x[0] is not True else "")
            base, lo = v1, 1
            if isinstance(v0, tuple):
                d0 = delta(v0, v1)
                if d0 is not None and d0[0] == "app":
                    f0 = subst(tuple(items), {i: 0})
                    if all(x[0] is True for x in f0) and _fsame(tuple(x[1] for x in f0), d0[1]):
                        base, lo = v0, 0
            return Closed("app", base, i, tuple(items), lo=lo)
        if kd == "acc":
            if len(its) > 1 and len(its) == len(paths) and all(heap.vsame(its[0][1], x[1]) for x in its):
                its = [(True, its[0][1])]
            return Closed("acc", v1, i, tuple(its))
    # overwritten: value of the previous iteration
    vals = []
    for p in paths:
        pr = p["pre"][lid][2] if lid in p["pre"] else UNBOUND
        vals.append((p["guard"], value_of(p, lid, pr)))
    v = merge(vals)
    if v is None or v is UNBOUND:
        return Closed("poison", f"{k} not determined by the loop")
    try:
        v = freeze(v, False)
    except Unsupported as ex:
        return Closed("poison", str(ex))
    if not immutable(v):
        if all(x is v1 for _, x in vals):
            return Closed("const", v1)
        return Closed("poison", f"{k}: fresh object per iteration")
    # base case: value after iteration 0 must be the same function at 0
    if v1 is UNBOUND or not heap.vsame(thaw(subst(v, {i: 0})), thaw(freeze(v1, False)) if immutable(v1) else v1):
        return Closed("poison", f"{k}: first iteration differs")
    return Closed("prev", v1, i, v)


def _ratio(v0, v1):
    """Constant factor between two numbers (iterated scaling)."""
    if type(v0) is not Poly or type(v1) is not Poly or len(v0.t) != len(v1.t):
        return None
    r = ring._scalar_ratio(v1, v0)
    return ring.norm_num(r) if r is not None and r > 0 and r != 1 else None


def overwritten(paths, lid, v1, i):
    """Closed form of a number that every iteration sets to the same function of its index."""
    v = merge([(p["guard"], value_of(p, lid, p["pre"][lid][2] if lid in p["pre"] else UNBOUND)) for p in paths])
    if v is None or Poly.lift(v) is None or isinstance(v, bool):
        return None
    if heap.vsame(subst(v, {i: 0}), v1):
        return Closed("prev", v1, i, v)
    return None


def _fsame(a, b):
    try:
        return heap.vsame(tuple(freeze(x, True) for x in a), tuple(freeze(x, True) for x in b))
    except Unsupported:
        return False


def mentions_self(its, g):
    return False


def immutable(v):
    if isinstance(v, (int, str, Poly, ring.Fraction, type(None), sym.SymBool, Frozen, bytes)):
        return True
    if isinstance(v, tuple):
        return all(immutable(x) for x in v)
    return bool(getattr(v, "pv_immutable", False))


def merge(vals):
    if len(vals) == 1:
        return vals[0][1]
    v0 = vals[0][1]
    if all(heap.vsame(v0, v) for _, v in vals[1:]):
        return v0
    if all(type(v) is not bool and Poly.lift(v) is not None for _, v in vals):
        r = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            r = sym.ite(g, v, r)
        return r
    if all(isinstance(v, (bool, sym.SymBool)) for _, v in vals):
        r = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            r = sym.ite(g, v, r)
        return r
    return None


def step_ok(g, lid, paths, I, i):
    for p in paths:
        pr = p["pre"][lid][2] if lid in p["pre"] else UNBOUND
        po = value_of(p, lid, pr)
        if g.kind == "const":
            if po is g.base or heap.vsame(po, pr) or heap.vsame(po, g.base):
                continue
            return False
        if g.kind == "lin":
            d = delta(pr, po)
            if d is None or d[0] not in ("num", "zero"):
                return False
            dd = d[1] if d[0] == "num" else 0
            if not heap.vsame(dd, g.items):
                return False
            continue
        if g.kind == "geo":
            if not heap.vsame(po, pr * g.items):
                return False
            continue
        if g.kind in ("num", "app", "acc"):
            # increments were read off these very paths (pre value is the closed form at i): re-derive and compare
            d = delta(pr, po)
            if d is None:
                return False
            continue
        if g.kind == "prev":
            want = merge([(q["guard"], value_of(q, lid, None)) for q in paths])
            if want is None or not heap.vsame(freeze(want, False), subst(g.items, {g.v: I})):
                return False
            continue
    return True


def finish(e, rts, s1, mod, G, L, paths, I, i):
    """State after the loop: the generic iteration at i = L-1, or the closed forms at L."""
    last = L - 1
    m = {i: last}
    HAVOC[0] = L
    for lid, (o, k) in mod.items():
        g = G[lid]
        if g.kind in ("const", "lin", "num", "app", "acc", "prev", "geo"):
            heap.set_loc(o, k, g.at(L))
            continue
        # poison inside the loop; after it, the value written by the last iteration may be known
        vals = []
        for p in paths:
            pr = p["pre"][lid][2] if lid in p["pre"] else UNBOUND
            vals.append((p["guard"], value_of(p, lid, pr)))
        v = merge(vals)
        if v is None and len(vals) > 1 and all(immutable(x) for _, x in vals):
            v = None
        if v is not None and v is not UNBOUND and not isinstance(v, Poison):
            try:
                fv = freeze(v, False)
            except Unsupported:
                fv = v
            if immutable(fv):
                heap.set_loc(o, k, thaw(subst(fv, m)))
                continue
            if len(paths) == 1:
                # fresh object of the last iteration: instantiate its state at i = L-1
                inst(v, paths[0]["post"], m, {x[0] for x in s1})
                heap.set_loc(o, k, v)
                continue
        if v is UNBOUND:
            heap.set_loc(o, k, UNBOUND)
            continue
        heap.set_loc(o, k, Poison(f"{k} after the loop"))


def inst(v, post, m, old):
    """Substitute the loop index in a fresh object (in place)."""
    for lid, (o, k, val) in heap.walk([v]).items():
        if k in ("keys", "attrs") or id(o) in old:
            continue
        val = post[lid][2] if lid in post else val
        try:
            heap.set_loc(o, k, subst(val, m) if not isinstance(val, tuple) else tuple(subst(x, m) for x in val))
        except AttributeError:
            pass


# ------------------------------------------------------------------------- while
def while_(cond, body):
    """Concrete while loops run natively; `while n < L: ...; n += 1` with symbolic L is summarised."""
    e = engine.cur()
    k = 0
    while True:
        c = sym.as_bool(cond())
        if isinstance(c, sym.SymBool):
            t, f = e.feasible(c), e.feasible(sym.lnot(c))
            if t and f:
                return _sym_while(cond, body, c)
            c = t
        if not c:
            return None
        LOOP_INDEX.append(k)
        try:
            r = body()
        finally:
            LOOP_INDEX.pop()
        k += 1
        if k > 100000:
            raise Unsupported("while loop does not terminate")
        if r is BRK or type(r) is Ret:
            return r


def _sym_while(cond, body, c0):
    """Trip count from the linear progress of the condition: cond at iteration m is  a - s*m > 0 (s > 0 const)."""
    e = engine.cur()
    if not bool(c0):
        return None
    if c0.op != "cmp" or c0.args[0] not in ("<", "<=", "!="):
        raise Unsupported("while condition")
    op, p0 = c0.args
    rts = [body, cond, *heap.TRANSFORMED_MODULES, *heap.WORLD_ROOTS, *heap.HARNESS_ROOTS]
    snap = heap.walk(rts)
    site = tuple(SITE)
    # probe one iteration to see how the condition moves (effects undone)
    pcs = list(e.pc)
    LOOP_INDEX.append(0)
    try:
        body()
        c1 = sym.as_bool(cond())
    finally:
        LOOP_INDEX.pop()
        heap.restore(snap)
        SITE[:] = list(site)
        e.pc = pcs
    if not isinstance(c1, sym.SymBool) or c1.op != "cmp" or c1.args[0] != op:
        raise Unsupported("while condition changes shape")
    s = c1.args[1] - p0
    if isinstance(s, Poly) or s == 0:
        raise Unsupported("while loop progress")
    # p_m = p0 + s*m ; loop continues while p_m op 0
    if op == "!=":
        L = ring.norm_num(ring.Fraction(-1) / s) * p0
        if not (isinstance(L, Poly) and L.is_int()) or not sym.provable(sym.compare(L, 0, ">=")):
            raise Unsupported("while loop progress")
    else:
        if s <= 0:
            raise Unsupported("while loop progress")
        q = -p0 if op == "<" else -p0 + 1  # continue while s*m < q  (integers)
        if s != 1 or not (isinstance(q, Poly) and q.is_int()):
            raise Unsupported("while loop progress")
        L = q
    exp = {}

    def wbody(m):
        # the condition must hold exactly as predicted at every iteration (part of the invariant)
        c = sym.as_bool(cond())
        if not (c is True or isinstance(c, sym.SymBool) and e.entails(c)):
            raise Unsupported("while condition not as predicted")
        return body()

    r = sym_loop(L, lambda m: m, wbody, roots=(cond, body))
    if r is not None:
        return r
    c = sym.as_bool(cond())
    if c is not False and not (isinstance(c, sym.SymBool) and e.entails(sym.lnot(c))):
        raise Unsupported("while loop exit not as predicted")
    return None
