"""Time marching: ghost log of the slab solves."""
from pyvc import engine, heap, ring, sym
from pyvc.ring import Poly, Unsupported
from pyvc.values import Fam, PList

from world import fe


class Log(heap.WObj):
    """Sequence of solves (solver, right-hand side content, name of the solution)."""

    def __init__(self):
        self.st = ()

    def pv_get(self):
        return self.st

    def pv_set(self, v):
        self.st = v


class Solver:
    """Exact solver of a slab system: the solution is a new vector, named by the solve."""

    def __init__(self, tag, space, log, numbered=False):
        self.tag, self.space, self.log, self.numbered = tag, space, log, numbered

    pv_immutable = True

    def pv_kids(self):
        return (self.log,)

    def solve(self, b, x):
        for v in (b, x):
            if not isinstance(v, fe.Vec):
                raise ring.ContractViolation("solve needs vectors")
            if not self.space.same_layout(v.store.space):
                raise ring.ContractViolation("vector does not fit the slab system")
        if b.store is x.store:
            raise ring.ContractViolation("solve: right-hand side and solution must be different vectors")
        # outside loops solves are numbered
        name = ("sol", self.tag, len(self.log.st)) if self.numbered else fe.fresh_name("sol")
        self.log.st = (*self.log.st, (self.tag, b.store.st, name))
        x.store.st = (("name", name),)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"solver.{n}")


def per_index(fam):
    """Number of entries a family contributes per index; guarded entries must be exclusive and exhaustive."""
    gs = [g for g, _ in fam.items if g is not True]
    if not gs:
        return len(fam.items)
    e = engine.cur()
    rng = sym.land(sym.compare(Poly.of(fam.var), fam.lo, ">="), sym.compare(Poly.of(fam.var), fam.hi, "<"))
    one = e._check([rng, sym.lnot(sym.lor(*gs))]) == "unsat" and all(
        e._check([rng, a, b]) == "unsat" for k, a in enumerate(gs) for b in gs[:k])
    if not one or len(gs) != len(fam.items):
        raise Unsupported("solve under a condition of the slab index")
    return 1


def seq_len(st):
    n = 0
    for x in st:
        n = n + ((x.hi - x.lo) * per_index(x) if isinstance(x, Fam) else 1)
    return n


def seq_at(st, n):
    """n-th entry of the log; None when the position is not determined."""
    off = 0
    for x in st:
        if isinstance(x, Fam):
            k = per_index(x)
            ln = (x.hi - x.lo) * k
            d = n - off
            if fe.truth(sym.compare(d, ln, "<")):
                if k != 1:
                    qr = ring.split_const_div(Poly.lift(d), k)
                    if qr is None:
                        raise Unsupported("position in the log")
                    q, r = qr
                else:
                    q, r = d, 0
                m = {x.var: x.lo + q}
                its = [it for g, it in x.items if g is True or fe.truth(ring.subst(g, m))]
                return ring.subst(its[int(r)], m)
            off = off + ln
        else:
            if fe.truth(sym.compare(n, off, "==")):
                return x
            off = off + 1
    return None


def havoc_scratch(s, keep=("u1_0", "u2_0", "SpaceTimeRhs")):
    """Arbitrary content of all work vectors and functions."""
    n = 0
    for k, v in sorted(vars(s).items()):
        for j, x in enumerate(v.items if isinstance(v, PList) else v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(x, (fe.Vec, fe.Function)) and k not in keep:
                x.store.st = (("name", ("junk", k, j)),)
                n += 1
    return n


def transfer(p, f, ell, prev):
    """Specified contribution of the previous slab's end values (solution content prev) to row (f, ell) of a slab."""
    P, q = p.P, p.P.q
    if ell != 0:
        return 0
    sk = p.st.fes_p.sk(0)
    u = [fe.nfun(sk, Poly.of(ring.mk_atom("blk", (prev, j, q)))) for j in (0, 1)]
    V = Poly.of(ring.mk_atom("V*", ()))
    dx = Poly.of(ring.mk_atom("meas", ("dx", "mesh", None)))
    out = 0
    if f < 2:
        out = P.gj * P.idt * u[f] * V * dx
    if f == 0:
        out = out + P.gj * P.dt * vin(u[0]) * dx
    if P.fj and f == 2:
        out = u[1] * V * dx
    if P.fj and f == 3:
        out = u[0] * V * dx
    return fe.integrate(out) if not (isinstance(out, int) and out == 0) else 0


def vin(u):
    """grad u . grad V*"""
    (a, _), = [(a, k) for m in Poly.lift(u).t for a, k in m if a.kind == "N"]
    return fe.dot(("g", a, None), ("g", ring.mk_atom("V*", ()), None))


def check_march(e, p, log, b, y, tag, slab_cases, raised, TOL, mats=None, rhs_of=None, out_of=None):
    """The log holds one solve per slab, each with the right-hand side rhs_of (default: the vector b) plus the transfer of the previous
    solution; the solutions are out_of (default: the blocks of y)."""
    cnt = p.counts()
    if b is not None:
        e.prove(f"{tag}: right-hand side unchanged", b.store.st == (("name", ("b",)),))
    rhs_of = rhs_of or (lambda f, i: Poly.of(ring.mk_atom("blk", (("b",), f, i))))
    out_of = out_of or (lambda f, i: fe.read(y.store.st, f, i))

    def rows():
        n, first, last = slab_cases(e, second=True)()
        where = "only slab" if first and last else "first slab" if first else "last slab" if last else "interior slab"
        e.reachable(f"{tag}: {where}")
        from .st import N
        e.prove_eq(f"{tag}: one solve per slab", seq_len(log.st), N)
        ent = seq_at(log.st, n)
        if ent is None:
            e.prove(f"{tag}: solve of the {where}", False, "no solve")
            return
        solver, rhs, sol = ent
        e.prove(f"{tag}: solver of the {where}", solver == ("first" if first else "slab"), solver)
        prev = None if first else seq_at(log.st, n - 1)[2]
        for f in range(4):
            for ell in range(cnt[f]):
                i = n * cnt[f] + ell
                bi = rhs_of(f, i)
                tr = 0 if first else transfer(p, f, ell, prev)
                e.prove_eq(f"{tag}: slab right-hand side of component {f} node {ell}, {where}", fe.read(rhs, f, ell), bi + tr, tol=TOL)
                e.prove_eq(f"{tag}: solution of component {f} node {ell}, {where}", out_of(f, i),
                           Poly.of(ring.mk_atom("blk", (sol, f, ell))), tol=TOL)
                if mats is None:
                    continue
                # row of the block-triangular matrix applied to the returned vector = row of the slab system + transfer, so the
                # exact slab solve makes it equal to b
                S, F, B = mats
                want = fe.mv_row((F if first else S).p, p.st.fes_p.uid, (("name", sol),), f, ell) - tr
                e.prove_eq(f"{tag}: block-triangular row of component {f} node {ell}, {where}",
                           fe.mv_row(B.p, p.st.fes.uid, y.store.st, f, i), want, tol=TOL)

    e.explore(rows, raised(e, tag))
