"""Contracts of gmsh, meshio, mpi4py and the mesh part of dolfinx: geometry as regions of points, meshes as named tables, sessions as state."""
from __future__ import annotations

import functools
from fractions import Fraction

from pyvc import engine, heap, loops, ring, sym
from pyvc.ring import Poly, Unsupported, mk_atom
from pyvc.values import Fam, Frozen, PList, freeze

from . import numpy_
from .base import Mod, mod
from .numpy_ import I, IOTA, NArr, SArr, SMat, SMatT, obj

# --------------------------------------------------------------------------------------------------------- regions
# ("box", lo, hi) | ("disk", centre, radii) | ("diff", A, (B, ...)) | ("or", (A, ...)) | ("and", (A, ...))


def member(r, p):
    """The generic point p (on no boundary) lies in the region."""
    k = r[0]
    if k == "box":
        return sym.land(*[c for lo, hi, x in zip(r[1], r[2], p) for c in (sym.compare(lo, x, "<"), sym.compare(x, hi, "<"))])
    if k == "disk":
        s = 0
        for c, a, x in zip(r[1], r[2], p):
            d = ring.num_div(x - c, a)
            s = s + d * d
        return sym.compare(s, 1, "<")
    if k == "diff":
        return sym.land(member(r[1], p), *[sym.lnot(member(b, p)) for b in r[2]])
    if k == "or":
        return sym.lor(*[member(b, p) for b in r[1]])
    if k == "and":
        return sym.land(*[member(b, p) for b in r[1]])
    raise Unsupported(k)


def closed_member(r, p):
    """The point p lies in the closure (of a region with nonempty interior)."""
    if r[0] == "box":
        return sym.land(*[c for lo, hi, x in zip(r[1], r[2], p) for c in (sym.compare(lo, x, "<="), sym.compare(x, hi, "<="))])
    if r[0] == "or":
        return sym.lor(*[closed_member(b, p) for b in r[1]])
    return closed_member(r[1], p) if r[0] == "diff" else member(r, p)


def coords(r, d):
    if r[0] == "box":
        return [r[1][d], r[2][d]]
    if r[0] == "disk":
        return []
    if r[0] == "diff":
        return coords(r[1], d) + [c for b in r[2] for c in coords(b, d)]
    return [c for b in r[1] for c in coords(b, d)]


def numeric(r, dim):
    return not has_disk(r) and not any(isinstance(c, Poly) for d in range(dim) for c in coords(r, d))


def has_disk(r):
    if r[0] in ("box", "disk"):
        return r[0] == "disk"
    return any(has_disk(b) for b in ((r[1], *r[2]) if r[0] == "diff" else r[1]))


def pieces(inputs, dim):
    """Connected sets of grid cells with the same membership: list of (membership, cells)."""
    axes = [sorted({Fraction(c) for r in inputs for c in coords(r, d)}) for d in range(dim)]
    sig = {}

    def rec(d, ix):
        if d == dim:
            mid = tuple((axes[k][i] + axes[k][i + 1]) / 2 for k, i in enumerate(ix))
            s = tuple(bool(member(r, mid)) for r in inputs)
            if any(s):
                sig[ix] = s
            return
        for i in range(len(axes[d]) - 1):
            rec(d + 1, (*ix, i))

    rec(0, ())
    out, seen = [], set()
    for ix in sorted(sig):
        if ix in seen:
            continue
        comp, todo = [], [ix]
        seen.add(ix)
        while todo:
            a = todo.pop()
            comp.append(a)
            for d in range(dim):
                for s in (-1, 1):
                    b = (*a[:d], a[d] + s, *a[d + 1:])
                    if b not in seen and sig.get(b) == sig[ix]:
                        seen.add(b)
                        todo.append(b)
        cells = [("box", tuple(ring.norm_num(axes[d][i]) for d, i in enumerate(a)), tuple(ring.norm_num(axes[d][i + 1]) for d, i in enumerate(a)))
                 for a in sorted(comp)]
        out.append((sig[ix], ("or", tuple(cells))))
    return out


def centroid(region, dim):
    if region[0] == "box":
        region = ("or", (region,))
    vol, m = Fraction(0), [Fraction(0)] * dim
    for _, lo, hi in region[1]:
        v = Fraction(1)
        for a, b in zip(lo, hi):
            v *= Fraction(b) - Fraction(a)
        vol += v
        for d in range(dim):
            m[d] += v * (Fraction(lo[d]) + Fraction(hi[d])) / 2
    return [ring.norm_num(x / vol) for x in m] + [0] * (3 - dim)


# ---------------------------------------------------------------------------------------------------------- tables
MODE = ["seq"]
GAP = ring.var("gap", "int")
FAILS = [False]


def may_fail(f):
    """Any call of the libraries can fail, when FAILS is set."""
    def g(*a, **k):
        if FAILS[0]:
            loops.SITE[0] += 1
            if bool(sym.compare(Poly.of(mk_atom("fails", (loops.SITE[0], *loops.LOOP_INDEX))), 0, "<")):
                raise Exception("library call fails")
        return f(*a, **k)
    return g


def ntag(g, k):
    """Tag of the k-th node listed."""
    if isinstance(k, Poly) and len(k.t) == 1:
        (m, c), = k.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "norder" and ring.ckey(m[0][0].args[0]) == ring.ckey(g):
            j = m[0][0].args[1]
            return j + 1 if MODE[0] == "seq" else stag(g, j)
    return positive(mk_atom("ntag", (g, k), "int"), 1)


def norder(g, j):
    """Listing position of the node with the j-th smallest tag."""
    d = j + 1
    if MODE[0] == "seq" and isinstance(d, Poly) and len(d.t) == 1:
        (m, c), = d.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ntag" and ring.ckey(m[0][0].args[0]) == ring.ckey(g):
            return m[0][0].args[1]
    return Poly.of(mk_atom("norder", (g, j), "int"))


def stag(g, j):
    return positive(mk_atom("stag", (g, j), "int"), 1)


ring.REBUILD.update(ntag=ntag, norder=norder)


def nent(key, dim):
    return positive(mk_atom("nent", (key, dim), "int"), LEAST[dim] if key[0] == "skeleton" else 1)


def etagd(key, dim, i):
    return positive(mk_atom("etagd", (key, dim, i), "int"), 1)


def nnodes(g):
    return positive(mk_atom("nnodes", (g,), "int"), 3)


def ncells(g, dim):
    return positive(mk_atom("ncells", (g, dim), "int"), 1)


def cell(g, dim, i, a):
    return positive(mk_atom("cell", (g, dim, i, a), "int"), 1)


ring.REBUILD.update(nent=nent, etagd=etagd, nnodes=nnodes, ncells=ncells, cell=cell, stag=stag)


def positive(a, least):
    if a not in ring.Z3_AXIOMS:
        z = ring.z3_atom(a)
        ring.Z3_AXIOMS[a] = [z >= least]
    return Poly.of(a)


def _argsort(x):
    if isinstance(x.e, Poly):
        for m in x.e.t:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ntag":
                a = m[0][0]
                if ring.same_num(Poly.lift(a.args[1]).norm(), I) and not isinstance(x.e - Poly.of(a), Poly):
                    return SArr(x.n, norder(a.args[0], I))
    return None


class Flat(heap.WObj):
    """One-dimensional array of n blocks of width len(f); entry c of block IOTA is f[c]."""

    __array_ufunc__ = None
    ndim = 1
    dtype = None

    def __init__(self, n, f, name):
        self._st = (n, tuple(f), name)

    @property
    def n(self):
        return self._st[0]

    @property
    def f(self):
        return self._st[1]

    def pv_len(self):
        return self.n * len(self.f)

    @property
    def shape(self):
        return (self.pv_len(),)

    @property
    def size(self):
        return self.pv_len()

    def __len__(self):
        raise Unsupported("native len() of a symbolic array")

    def pv_symbolic(self):
        return True

    def pv_segments(self):
        v = ring.atom_of(ring.fresh("r"))
        return [Fam(v, 0, self.n, [(True, ring.subst(x, {IOTA: Poly.of(v)})) for x in self.f])]

    def copy(self):
        return Flat(self.n, self.f, self._st[2])

    def astype(self, t, **k):
        return self.copy()

    flatten = ravel = lambda self, *a: self.copy()

    def reshape(self, *s, **k):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, PList, list)) else s
        s = tuple(s)
        w = len(self.f)
        if len(s) != 2 or not isinstance(s[1], int) or s[1] < 1:
            raise Unsupported("reshape of a symbolic array")
        k = s[1]
        if k == w:
            n = self.n
        else:
            n = ring.num_div(self.pv_len(), k)
            if not isinstance(n, Poly) or not n.is_int():
                raise ValueError(f"cannot reshape array of size {self.pv_len()} into shape {s}")
        if s[0] != -1 and not (isinstance(s[0], Poly) and ring.same_num(s[0], n)):
            raise Unsupported("reshape of a symbolic array")
        if k == w:
            return SMatT(SMat([SArr(n, x) for x in self.f]))
        return SMatT(SMat([SArr(n, Poly.of(mk_atom("flat", (self._st[2], k * I + c)))) for c in range(k)]))

    def __getitem__(self, i):
        w = len(self.f)
        if isinstance(i, slice) and i.step == w and i.stop is None and isinstance(i.start or 0, int) and 0 <= (i.start or 0) < w:
            return SArr(self.n, self.f[i.start or 0])
        if isinstance(i, (int, Poly)):
            return PList(self.pv_segments())[i]
        raise Unsupported("index of a symbolic array")


def _fbop(name, f, r=False):
    def g(self, o):
        if not isinstance(o, (int, Fraction, Poly)):
            return NotImplemented
        return Flat(self.n, [f(o, x) if r else f(x, o) for x in self.f], ("op", name, r, o, self._st[2]))
    return g


for _n, _f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b)):
    setattr(Flat, f"__{_n}__", _fbop(_n, _f))
    setattr(Flat, f"__r{_n}__", _fbop(_n, _f, True))


def _flat_isub(self, o):
    self._st = (self - o)._st
    return self


def _flat_iadd(self, o):
    self._st = (self + o)._st
    return self


Flat.__isub__, Flat.__iadd__ = _flat_isub, _flat_iadd


class Tok:
    """Immutable named object."""

    pv_immutable = True

    def __init__(self, *key):
        self.key = key

    @property
    def fv(self):
        return ring.fv(self.key)

    def pv_subst(self, m):
        return type(self)(*ring.subst(self.key, m))

    def pv_key(self):
        return ("tok", type(self).__name__, ring.ckey(self.key))

    def pv_height(self):
        from pyvc.values import height

        return height(self.key)

    def __repr__(self):
        return f"{type(self).__name__}{str(self.key)[:200]}"


class Points(Tok):
    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and isinstance(i[1], slice) and i[1].start in (None, 0) and i[1].step in (None, 1) and isinstance(i[1].stop, int):
            return Points("columns", i[1].stop, self.key)
        raise Unsupported("selection of mesh points")


class Comm:
    def __init__(self, rank, size, name):
        self.rank, self.size, self.name = rank, size, name

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        return None

    Barrier = barrier


class State(heap.WObj):
    def __init__(self, v):
        self._st = v


class MeshTok:
    """Mesh: origin and number of uniform refinements."""

    pv_immutable = True

    def __init__(self, w, src, level=0):
        self.w, self.src, self.level = w, src, level

    @property
    def fv(self):
        return ring.fv((self.src, self.level))

    def pv_subst(self, m):
        return MeshTok(self.w, ring.subst(self.src, m), ring.subst(self.level, m))

    def pv_key(self):
        return ("mesh", ring.ckey(self.src), ring.ckey(self.level))

    def pv_height(self):
        from pyvc.values import height

        return height((self.src, self.level))

    def pv_delta(self, pre):
        if ring.ckey(self.src) != ring.ckey(pre.src):
            return None
        return (self.level - pre.level,)

    def pv_accum(self, v, lo, hi, items):
        from pyvc.loops import num_sum

        return MeshTok(self.w, self.src, self.level + num_sum(v, lo, hi, [(g, d[0]) for g, d in items]))

    @property
    def topology(self):
        return Topo(self)

    @property
    def comm(self):
        return self.w.comm

    def __repr__(self):
        return f"Mesh({str(self.src)[:160]}, level {self.level})"

    def __getattr__(self, n):
        if n.startswith("_") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"mesh.{n} has no contract")


class Topo:
    pv_immutable = True

    def __init__(self, m):
        self.m = m

    @property
    def fv(self):
        return self.m.fv

    def pv_subst(self, m):
        return Topo(ring.subst(self.m, m))

    def pv_key(self):
        return ("topology", self.m.pv_key())

    @property
    def dim(self):
        return self.m.w.dim

    def create_entities(self, d):
        if d in self.m.w.made:
            self.m.w.made[d]._st = self.m

    def create_connectivity(self, a, b):
        return None

    def __getattr__(self, n):
        if n.startswith("_") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"topology.{n} has no contract")


class Gmsh(Mod):
    """gmsh also offers every function under its snake_case name."""

    def __getattr__(self, n):
        if "_" in n and not n.startswith("_"):
            a, *b = n.split("_")
            m = a + "".join(x[:1].upper() + x[1:] for x in b)
            if m in self.__dict__:
                return self.__dict__[m]
        return super().__getattr__(n)


# open, modeller entities, model entities, options, generated mesh, order, current model
CLOSED = (False, (), (), (), None, 1, "")
PERM = {3: (0, 1, 2), 6: (0, 1, 2, 5, 3, 4), 10: (0, 1, 2, 7, 8, 3, 4, 6, 5, 9)}
TRI = {1: 2, 2: 9, 3: 21}
QUAD = {1: 3, 2: 10, 3: 36}
LEAST = {0: 4, 1: 4, 2: 6}


class World:
    """All mesh contracts with their state, seen by the process `rank`."""

    def __init__(self, dim=2, rank=0, size=2, api="0.6.0", box=None):
        self.dim, self.box, self.api = dim, box, api
        self.comm = Comm(rank, size, "world")
        self.self_comm = Comm(0, 1, "self")
        self.s = State(CLOSED)
        self.groups = State(())
        self.log = State(())
        self.files = State(tuple((f, ("stale", f) if rank == 0 else ("root", f)) for f in ("mesh.msh", "mesh.xdmf", "mt.xdmf")))
        self.made = {1: State(None), 2: State(None)}
        heap.WORLD_ROOTS[:] = [self.s, self.groups, self.log, self.files, *self.made.values()]
        numpy_.ARGSORT[:] = [_argsort]
        numpy_.WITNESS[:] = [GAP] if MODE[0] == "gap" else []

    # ------------------------------------------------------------------------------------------------- session
    def open(self):
        if not self.s._st[0]:
            raise Exception("Gmsh has not been initialized")
        return self.s._st

    def put(self, **k):
        names = ("open", "occ", "sync", "opts", "gen", "order", "model")
        d = dict(zip(names, self.s._st))
        d.update(k)
        self.s._st = tuple(d[n] for n in names)

    def note(self, *r):
        self.log._st = (*self.log._st, tuple(freeze(x, True) for x in r))

    def initialize(self, *a, **k):
        self.note("initialize", self.s._st[0])
        if not self.s._st[0]:
            self.s._st = (True, *CLOSED[1:])
            self.groups._st = ()

    def finalize(self):
        self.open()
        self.note("finalize")
        self.s._st = CLOSED
        self.groups._st = ()

    def is_initialized(self):
        return int(self.s._st[0])

    def add_model(self, name):
        self.open()
        self.put(occ=(), sync=(), gen=None, order=1, model=name)
        self.groups._st = ()

    def set_number(self, name, v):
        o = dict(self.open()[3])
        o[name] = v
        self.put(opts=tuple(sorted(o.items(), key=lambda x: x[0])))

    def get_number(self, name):
        o = dict(self.open()[3])
        if name not in o:
            raise Unsupported(f"default of {name}")
        return o[name]

    # ------------------------------------------------------------------------------------------------ modeller
    def occ_of(self, dim):
        return [x for x in self.open()[1] if x[1] == dim]

    def opaque(self, dim):
        return any(x[0] == "fam" or isinstance(x[2], Poly) for x in self.occ_of(dim))

    def new_tag(self, dim, tag):
        ents = self.occ_of(dim)
        if isinstance(tag, int) and tag >= 0:
            if any(x[0] == "ent" and x[2] == tag for x in ents if not isinstance(x[2], Poly)):
                raise Exception(f"OpenCASCADE entity of dimension {dim} with tag {tag} already exists")
            return tag
        if isinstance(tag, Poly):
            raise Unsupported("symbolic entity tag")
        if self.opaque(dim):
            return positive(mk_atom("autotag", (dim, tuple(x[1:] for x in ents)), "int"), 1)
        return max([x[2] for x in ents], default=0) + 1

    def add(self, dim, tag, region):
        tag = self.new_tag(dim, tag)
        self.put(occ=(*self.s._st[1], ("ent", dim, tag, region, ("alone", tag))))
        return tag

    def span(self, x, d, what):
        if bool(sym.compare(d, 0, "==")):
            raise Exception(f"{what} with zero width or height")
        return (x, x + d) if bool(sym.compare(d, 0, ">")) else (x + d, x)

    def add_rectangle(self, x, y, z, dx, dy, tag=-1, roundedRadius=0.0, **k):  # noqa: N803
        self.open()
        if k or roundedRadius or isinstance(z, Poly) or z != 0:
            raise Unsupported("rectangle off the plane")
        a, b = self.span(x, dx, "Rectangle"), self.span(y, dy, "Rectangle")
        return self.add(2, tag, ("box", (a[0], b[0]), (a[1], b[1])))

    def add_box(self, x, y, z, dx, dy, dz, tag=-1):
        self.open()
        a, b, c = self.span(x, dx, "Box"), self.span(y, dy, "Box"), self.span(z, dz, "Box")
        return self.add(3, tag, ("box", (a[0], b[0], c[0]), (a[1], b[1], c[1])))

    def add_disk(self, xc, yc, zc, rx, ry, tag=-1, **k):
        self.open()
        if k or isinstance(zc, Poly) or zc != 0:
            raise Unsupported("disk off the plane")
        if any(not bool(sym.compare(r, 0, ">")) for r in (rx, ry)):
            raise Exception("Disk with non-positive radius")
        return self.add(2, tag, ("disk", (xc, yc), (rx, ry)))

    def take(self, tags):
        """Entities named by (dim, tag) pairs."""
        out = []
        for dt in list(tags):
            d, t = tuple(dt)
            hit = [x for x in self.occ_of(d) if x[0] == "ent" and ring.ckey(x[2]) == ring.ckey(t)]
            if not hit:
                if isinstance(t, Poly) or self.opaque(d) or any(x[1] > d for x in self.open()[1]):
                    raise Unsupported("entity known by its place only")
                raise Exception(f"Unknown OpenCASCADE entity of dimension {d} with tag {t}")
            out.append(hit[0])
        return out

    def boolean(self, kind, objs, tools, tag=-1, removeObject=True, removeTool=True):  # noqa: N803
        self.open()
        A, B = self.take(objs), self.take(tools)
        if not A or not B:
            raise Unsupported("boolean operation without operands")
        dim = A[0][1]
        if any(x[1] != dim for x in A + B):
            raise Unsupported("boolean operation across dimensions")
        union = lambda xs: xs[0][3] if len(xs) == 1 else ("or", tuple(x[3] for x in xs))  # noqa: E731
        reg = {"cut": lambda: ("diff", union(A), tuple(x[3] for x in B)), "fuse": lambda: ("or", tuple(x[3] for x in A + B)),
               "intersect": lambda: ("and", (union(A), union(B)))}[kind]()
        if len(A) > 1 and kind != "fuse":
            raise Unsupported("boolean operation on several objects")
        gone = {ring.ckey(x) for x in (A if removeObject else []) + (B if removeTool else [])}
        if isinstance(tag, int) and tag < 0 and len(A) == 1:
            if not removeObject:
                raise Unsupported("boolean operation keeping its object")
            t = A[0][2]
        else:
            t = self.new_tag(dim, tag)
        self.put(occ=(*[x for x in self.s._st[1] if ring.ckey(x) not in gone], ("ent", dim, t, reg, ("alone", t))))
        r = (dim, t)
        return PList([r]), PList([PList([r]), *[PList([]) for _ in B]])

    def fragment(self, objs, tools, tag=-1, removeObject=True, removeTool=True):  # noqa: N803
        self.open()
        pairs = [tuple(x) for x in list(objs) + list(tools)]
        top = max((x[1] for x in self.s._st[1]), default=0)
        if pairs and all(d < top for d, _ in pairs):
            # faces of solids that are already joined: each is its own piece
            return PList(pairs), PList([PList([p]) for p in pairs])
        if not (removeObject and removeTool) or tag != -1:
            raise Unsupported("fragment keeping its operands")
        ins = self.take(objs) + self.take(tools)
        dim = ins[0][1]
        if any(x[1] != dim for x in ins):
            raise Unsupported("fragment across dimensions")
        regs = tuple(x[3] for x in ins)
        gone = {ring.ckey(x) for x in ins}
        rest = [x for x in self.s._st[1] if ring.ckey(x) not in gone]
        key = ("frag", dim, regs)
        if all(numeric(r, dim) for r in regs):
            new, maps = [], [PList([]) for _ in ins]
            for n, (sig, reg) in enumerate(pieces(list(regs), dim)):
                mine = [j for j, s in enumerate(sig) if s]
                t = positive(mk_atom("etag", (key, n), "int"), 1)
                if len(mine) == 1 and not any(isinstance(t_, Poly) for t_ in [ins[mine[0]][2]]):
                    # an input that meets no other one keeps its tag
                    whole = [q for q in pieces([regs[mine[0]]], dim)]
                    if len(whole) == 1 and area(whole[0][1], dim) == area(reg, dim):
                        t = ins[mine[0]][2]
                new.append(("ent", dim, t, reg, key))
                for j in mine:
                    maps[j].append((dim, t))
            self.put(occ=(*rest, *new))
            return PList([(dim, x[2]) for x in new]), PList(maps)
        fam = ("fam", dim, key, regs, key)
        self.put(occ=(*rest, fam))
        return PList(self.listing(fam)), PList([PList(self.listing(fam)) for _ in ins])

    def listing(self, x, sub=None):
        if sub is None and x[0] == "ent":
            return [(x[1], x[2])]
        key, dim = (x[2], x[1]) if sub is None else sub
        n = nent(key, dim)
        v = ring.atom_of(ring.fresh("r"))
        return [Fam(v, 0, n, [(True, (dim, self.etag(key, dim, Poly.of(v))))])]

    def etag(self, key, dim, i):
        return etagd(key, dim, i)

    def synchronize(self):
        self.put(sync=self.open()[1])

    def get_entities(self, dim=-1, occ=False):
        st = self.open()
        ents = st[1] if occ else st[2]
        top = max((x[1] for x in ents), default=-1)
        if dim == -1:
            raise Unsupported("entities of all dimensions")
        if not ents or dim > top:
            return PList([])
        if dim < top:
            return PList(self.listing(None, (("skeleton", tuple(x[1:4] for x in ents)), dim)))
        out = []
        for x in ents:
            if x[1] == dim:
                out += self.listing(x)
        return PList(out)

    def mass_centre(self, dim, tag):
        ents = self.open()[1]
        for x in ents:
            if x[0] == "ent" and x[1] == dim and ring.ckey(x[2]) == ring.ckey(tag) and numeric(x[3], dim):
                r = x[3]
                if r[0] not in ("box", "or"):
                    r = ("or", tuple(b for _, q in pieces([r], dim) for b in q[1]))
                return tuple(centroid(r, dim))
        if not isinstance(tag, Poly) and not any(x[1] > dim for x in ents) and not self.opaque(dim) and not any(x[0] == "ent" and x[2] == tag for x in ents if x[1] == dim):
            raise Exception(f"Unknown OpenCASCADE entity of dimension {dim} with tag {tag}")
        return tuple(Poly.of(mk_atom("centre", (tuple(x[1:4] for x in ents), dim, tag, k))) for k in range(3))

    # --------------------------------------------------------------------------------------------------- model
    def add_group(self, dim, tags, tag=-1, name=""):
        self.open()
        if isinstance(tag, int) and tag < 0:
            used = [g[2] for g in self.groups._st if not isinstance(g, Fam) and g[1] == dim]
            if any(isinstance(g, Fam) for g in self.groups._st) or any(isinstance(t, Poly) for t in used):
                tag = positive(mk_atom("autogroup", (dim, tuple(self.groups._st)), "int"), 1)
            else:
                tag = max(used, default=0) + 1
        elif any(not isinstance(g, Fam) and g[1] == dim and ring.ckey(g[2]) == ring.ckey(tag) for g in self.groups._st):
            raise Exception(f"Physical group {tag} of dimension {dim} already exists")
        if not isinstance(tags, (PList, list, tuple)):
            raise Unsupported("tags of a physical group")
        self.groups._st = (*self.groups._st, ("group", dim, tag, freeze(PList(tags), True)))
        return tag

    def generate(self, dim=3):
        st = self.open()
        top = max((x[1] for x in st[2]), default=0)
        ents = tuple(x for x in st[2] if x[1] == top)
        gen = ("gen", tuple(x[1:4] for x in ents), st[3], dim)
        self.put(gen=gen)
        self.note("generate", dim, ents, self.groups._st, st[3], gen)

    def mesh_key(self):
        st = self.open()
        return None if st[4] is None else ("mesh", st[4], st[5])

    def set_order(self, o):
        self.open()
        self.put(order=o)

    def get_nodes(self, *a, **k):
        if a or k:
            raise Unsupported("getNodes with arguments")
        g = self.mesh_key() if self.open() else None
        if g is None:
            return empty(), empty(), empty()
        n = nnodes(g)
        if MODE[0] == "gap":
            # the sorted tags are not 1, 2, ..., n
            for c in (sym.compare(0, GAP, "<="), sym.compare(GAP, n, "<"), sym.lnot(sym.compare(stag(g, GAP), GAP + 1, "=="))):
                engine.cur().assume(c)
        xs = [coord(g, ntag(g, I), c) for c in range(3)]
        ps = [Poly.of(mk_atom("param", (g, I, c))) for c in range(3)]
        return SArr(n, ntag(g, I)), Flat(n, xs, ("nodes", g)), Flat(n, ps, ("params", g))

    def get_elements(self, dim=-1, tag=-1):
        g = self.mesh_key() if self.open() else None
        if g is None:
            return PList([]), PList([]), PList([])
        order = self.s._st[5]
        top = self.dim
        if tag != -1 or dim not in (1, top) or top != 2 or order not in TRI:
            raise Unsupported("selection of elements")
        if dim == 1:
            n, w, t = ncells(g, 1), order + 1, {1: 1, 2: 8, 3: 26}[order]
        else:
            n, w, t = ncells(g, 2), {1: 3, 2: 6, 3: 10}[order], TRI[order]
        f = [cell(g, dim, I, a) for a in range(w)]
        return PList([t]), PList([SArr(n, Poly.of(mk_atom("elemtag", (g, dim, I), "int")))]), PList([Flat(n, f, ("cells", g, dim))])

    def element_type(self, family, order, serendip=False):
        self.open()
        tab = {"triangle": TRI, "quadrangle": QUAD, "line": {1: 1, 2: 8, 3: 26}, "tetrahedron": {1: 4, 2: 11, 3: 29}}
        if serendip or family.lower() not in tab or isinstance(order, Poly) or order not in tab[family.lower()]:
            raise Unsupported("element type")
        return tab[family.lower()][order]

    def element_properties(self, t):
        self.open()
        for name, tab, dim, nn in (("Triangle", TRI, 2, {1: 3, 2: 6, 3: 10}), ("Quadrilateral", QUAD, 2, {1: 4, 2: 9, 3: 16}),
                                   ("Line", {1: 1, 2: 8, 3: 26}, 1, {1: 2, 2: 3, 3: 4}), ("Tetrahedron", {1: 4, 2: 11, 3: 29}, 3, {1: 4, 2: 10, 3: 20})):
            for o, x in tab.items():
                if x == t:
                    return name, dim, o, nn[o], empty(), nn[1]
        raise Unsupported("element type")

    # --------------------------------------------------------------------------------------------------- files
    def write_file(self, name, content):
        f = dict(self.files._st)
        f[name] = content
        self.files._st = tuple(sorted(f.items()))

    def write(self, name):
        self.open()
        self.note("write", name)
        self.write_file(name, ("msh", self.mesh_key()))

    def content(self, name):
        f = dict(self.files._st)
        if name not in f:
            raise FileNotFoundError(name)
        return f[name]

    def exists(self, name):
        c = dict(self.files._st).get(name)
        if c is not None and c[0] != "stale":
            return True
        return bool(sym.compare(Poly.of(mk_atom("exists", (name,))), 0, "<"))

    def mio_read(self, name, *a, **k):
        self.note("meshio read", name)
        return MioMesh("msh", self.content(name))

    def mio_write(self, name, m, *a, **k):
        self.note("meshio write", name)
        self.write_file(name, ("xdmf", m.key[1], m.key[2]))


def area(reg, dim):
    v = Fraction(0)
    for _, lo, hi in reg[1]:
        u = Fraction(1)
        for a, b in zip(lo, hi):
            u *= Fraction(b) - Fraction(a)
        v += u
    return v


def empty():
    return NArr(obj((0,), []))


def coord(g, tag, c):
    return Poly.of(mk_atom("coord", (g, tag, c)))


class MioMesh(Tok):
    """meshio.Mesh: ("msh", content) as read, ("made", points, cells) as built."""

    @property
    def points(self):
        return Points("points", self.key[1]) if self.key[0] == "msh" else self.key[1]

    def get_cells_type(self, ct):
        return Tok("cells", self.key[1], ct)

    def get_cell_data(self, name, ct):
        return Tok("data", self.key[1], name, ct)


def mio_mesh(points, cells, point_data=None, cell_data=None, **k):
    cs = list(cells.items()) if isinstance(cells, dict) else [tuple(x) for x in cells]
    return MioMesh("made", points, tuple(cs))


class Enum_:
    def __init__(self, *names):
        for n in names:
            setattr(self, n, Tok(n))

    def __getattr__(self, n):
        raise Unsupported(f"{n} has no contract")


class XDMF:
    def __init__(self, w, comm, name, mode, *a, **k):
        if not isinstance(comm, Comm):
            raise TypeError("not a communicator")
        self.w, self.name, self.mode = w, name, mode
        w.note("xdmf", comm.name, name, mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        return None

    def _r(self, name):
        c = self.w.content(self.name)
        if self.mode != "r":
            raise RuntimeError("file not open for reading")
        if name != ("Grid" if c[0] in ("xdmf", "root", "stale") else "mesh"):
            raise RuntimeError(f"<Grid> with name '{name}' not found.")
        return c

    def read_mesh(self, ghost_mode=None, name="mesh", xpath=None):
        return MeshTok(self.w, ("file", self._r(name)))

    def read_meshtags(self, mesh, name="mesh", *a, **k):
        return Tok("tags", self._r(name), mesh)

    def write_mesh(self, mesh, *a, **k):
        if self.mode != "w":
            raise RuntimeError("file not open for writing")
        self.w.write_file(self.name, ("dolfinx", mesh))


@functools.total_ordering
class Ver:
    def __init__(self, s):
        self.t = tuple(int(c) for c in str(s).split(".") if c.isdigit())

    def _k(self):
        t = list(self.t)
        while t and t[-1] == 0:
            t.pop()
        return t

    @property
    def release(self):
        return self.t

    @property
    def major(self):
        return self.t[0]

    @property
    def minor(self):
        return self.t[1]

    def __eq__(self, o):
        return self._k() == o._k()

    def __lt__(self, o):
        return self._k() < o._k()

    __hash__ = None


def make(w):
    def m(name, **k):
        return _ns(name, {n: may_fail(f) if callable(f) and n not in ("initialize", "finalize", "isInitialized") else f for n, f in k.items()})

    occ = m("gmsh.model.occ", addRectangle=w.add_rectangle, addDisk=w.add_disk, addBox=w.add_box,
            cut=functools.partial(w.boolean, "cut"), fuse=functools.partial(w.boolean, "fuse"), intersect=functools.partial(w.boolean, "intersect"),
            fragment=w.fragment, synchronize=w.synchronize, getCenterOfMass=w.mass_centre, getEntities=lambda dim=-1: w.get_entities(dim, True))
    mesh = m("gmsh.model.mesh", generate=w.generate, setOrder=w.set_order, getNodes=w.get_nodes, getElements=w.get_elements,
             getElementType=w.element_type, getElementProperties=w.element_properties)
    model = m("gmsh.model", occ=occ, mesh=mesh, add=w.add_model, getEntities=w.get_entities, addPhysicalGroup=w.add_group)
    opt = m("gmsh.option", setNumber=w.set_number, getNumber=w.get_number, setString=lambda *a: w.open() and None)
    g = m("gmsh", initialize=w.initialize, finalize=w.finalize, isInitialized=w.is_initialized, model=model, option=opt, write=w.write)
    cell_type = Enum_("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")

    def perm_gmsh(ct, n):
        if ct is not cell_type.triangle or isinstance(n, Poly) or n not in PERM:
            raise RuntimeError("Unknown cell type or number of nodes")
        return NArr(obj((n,), list(PERM[n])))

    def create_mesh(comm, cells, x, domain, *a, **k):
        w.note("create_mesh", comm.name, table(cells), table(x), domain)
        return MeshTok(w, ("import", comm.name, table(cells), table(x), domain))

    def ufl_mesh(cid, gdim):
        return Tok("element", cid, gdim)

    def locate_entities(mesh, dim, f):
        e = engine.cur()
        p = [ring.var(f"cell_x{i}", "real") for i in range(w.dim)]
        n = ring.var("cell_n", "int")
        r = f(SMat([SArr(n, q) for q in p] + [SArr(n, 0)] * (3 - w.dim)))
        c = r.e if isinstance(r, SArr) else None
        if not isinstance(c, (bool, sym.SymBool)):
            raise Unsupported("marker of cells")
        inside = [x for q, (a, b) in zip(p, w.box) for x in (sym.compare(a, q, "<="), sym.compare(q, b, "<="))]
        every = e._check([*inside, sym.lnot(c)]) == "unsat"
        return Tok("entities", dim, mesh, "all" if every else ("marked", c))

    def incident(m_, ents, d0, d1):
        old = Ver(w.api) < Ver("0.7")
        if not isinstance(m_, MeshTok if old else Topo):
            raise TypeError("compute_incident_entities(): incompatible function arguments")
        me = m_ if old else m_.m
        _, dim, src, which = ents.key
        if src.pv_key() != me.pv_key() or dim != d0:
            raise RuntimeError("entities of another mesh")
        if d1 in w.made and (w.made[d1]._st is None or w.made[d1]._st.pv_key() != me.pv_key()):
            raise RuntimeError(f"entities of dimension {d1} not created")
        return Tok("entities", d1, me, which)

    def refine(mesh, edges=None, redistribute=True, ghost_mode=None, partitioner=None, option=None, **k):
        made = w.made[1]._st
        if made is None or made.pv_key() != mesh.pv_key():
            raise RuntimeError("edges must be initialised")
        if edges is None:
            return MeshTok(w, mesh.src, mesh.level + 1)
        _, dim, src, which = edges.key
        if dim != 1 or src.pv_key() != mesh.pv_key():
            raise RuntimeError("edges of another mesh")
        if which == "all":
            return MeshTok(w, mesh.src, mesh.level + 1)
        return MeshTok(w, ("partly refined", mesh, which))

    def model_to_mesh(model, comm, rank, gdim=3, partitioner=None, dtype=None):
        w.note("model_to_mesh", comm.name, rank, gdim)
        if bool(sym.compare(comm.rank, rank, "==")):
            src = ("model", w.mesh_key(), gdim)
        else:
            src = ("model from", rank, gdim)
        return MeshTok(w, src), Tok("cell tags", src), Tok("facet tags", src)

    class Path:
        """A file name, only asked whether the file exists."""

        def __init__(self, *parts):
            self.name = "/".join(str(getattr(p, "name", p)) for p in parts)

        def __str__(self):
            return self.name

        def exists(self):
            return w.exists(self.name)

        is_file = exists

    ospath = mod("os.path", exists=lambda n: w.exists(getattr(n, "name", n)), isfile=lambda n: w.exists(getattr(n, "name", n)))
    mpi = mod("mpi4py.MPI", COMM_WORLD=w.comm, COMM_SELF=w.self_comm)
    gio = mod("dolfinx.io.gmshio", ufl_mesh=ufl_mesh, model_to_mesh=model_to_mesh)
    return {
        "gmsh": g, "numpy": numpy_.make(), "mpi4py": mod("mpi4py", MPI=mpi), "mpi4py.MPI": mpi,
        "dolfinx.cpp.io": mod("dolfinx.cpp.io", perm_gmsh=perm_gmsh), "dolfinx.cpp": mod("dolfinx.cpp"),
        "dolfinx.io": mod("dolfinx.io", XDMFFile=functools.partial(XDMF, w), gmshio=gio), "dolfinx.io.gmshio": gio,
        "dolfinx.mesh": mod("dolfinx.mesh", CellType=cell_type, GhostMode=Enum_("none", "shared_facet", "shared_vertex"),
                            compute_incident_entities=incident, create_mesh=create_mesh, locate_entities=locate_entities, refine=refine),
        "dolfinx": mod("dolfinx"), "packaging.version": mod("packaging.version", Version=Ver, parse=Ver), "packaging": mod("packaging"),
        "importlib.metadata": mod("importlib.metadata", version=lambda p: w.api if p == "fenics-dolfinx" else _nover(p)), "importlib": mod("importlib"),
        "pathlib": mod("pathlib", Path=Path), "os": mod("os", path=ospath), "os.path": ospath,
        "meshio": mod("meshio", read=w.mio_read, write=w.mio_write, Mesh=mio_mesh),
    }


def _nover(p):
    raise Unsupported(f"version of {p}")


def _ns(name, attrs):
    g = Gmsh(name)
    for k, v in attrs.items():
        setattr(g, k, v)
    return g


def table(x):
    """Immutable image of an array."""
    if isinstance(x, SMatT):
        return ("rows", x.m.rows[0].n, tuple(r.e for r in x.m.rows))
    if isinstance(x, NArr):
        return ("array", x.shape, tuple(x.a.reshape(-1)))
    raise Unsupported("mesh table")
