"""C16 measured errors: every reported number is a norm of the error of the lifted reconstruction, all slabs, all samples, all processes."""
from fractions import Fraction as F

from pyvc import ring, sym
from pyvc.ring import Poly
from pyvc.values import Fam

from spec import timebasis as tb
from world import fe

from .st import ASSUMPTIONS, T, TOL, N, Cfg, Prob, assume, ok, raised, slab_cases

ASSUMPTIONS = [*ASSUMPTIONS, "two sample times stand for the list of samples (each sample is treated by the same loop body; the list itself: C27)",
               "assembled integrals of squares are nonnegative (no obligation at their square roots)",
               "the rule found in the time integral is compared with the exact moments up to its six tabulated digits"]
DIG = F(1, 10**5)
SAMPLES = [ring.var("ts0"), ring.var("ts1")]


class Spec:
    """Squared norms of the error of the lifted reconstruction."""

    def __init__(self, p):
        self.p, self.q = p, p.P.q
        self.dt = ring.num_div(T, N)
        self.sk = p.st.fes_p.sk(0)
        self.dx = Poly.of(ring.mk_atom("meas", ("dx", p.mesh.name, None)))

    def node(self, i):
        return fe.nfun(self.sk, Poly.of(ring.mk_atom("blk", (("x",), 0, i))))

    def ref(self, name, t):
        return Poly.of(ring.mk_atom("ref", (name, t)))

    def at(self, n, t, jump, dot):
        """Squared L2 norm of the error at time t in slab n; jump: the slab has a predecessor."""
        q, dt = self.q, self.dt
        s = ring.num_div(t - n * dt, dt)
        L = tb.lagrange(q)
        U = [self.node(n * (q + 1) + j) for j in range(q + 1)]
        th = 2 * s - 1
        val = lambda c: tb.peval([ring.norm_num(x) for x in c], s)  # noqa: E731
        if dot:
            v = sum((val(tb.pder(L[j])) * U[j] for j in range(q + 1)), 0)
        else:
            v = sum((val(L[j]) * U[j] for j in range(q + 1)), 0)
        if jump:
            d = U[0] - self.node(n * (q + 1) - 1)
            v = v - d * ((th - F(1, 2)) * 2 if dot else th * (th - 1) * F(1, 2))
        if dot:
            v = v * ring.num_div(1, dt)
        r = v - self.ref("dtu" if dot else "u", t)
        return fe.integrate(r * r * self.dx)


def same(a, b):
    d = Poly.lift(a) - Poly.lift(b)
    d = ring.drop_small(d, TOL)
    return d == 0 if not isinstance(d, Poly) else False


def square(e, name, x):
    """Square of a reported number, which must be a square root."""
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == "sqrt":
            return x * x
    if not isinstance(x, Poly) and x == 0:
        return 0
    e.prove(f"{name} is a square root", False, str(x)[:300])
    return None


def entries(x):
    """Numbers over which a maximum ranges: (binder, range, guard, value)."""
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("max", "maxof"):
            out = []
            for a in m[0][0].args:
                out += family(a)
            return out
    return [(None, None, True, x)]


def family(a, outer=()):
    if not isinstance(a, Fam):
        return entries(a)
    out = []
    for g, it in a.items:
        for v, r, g2, x in family(it):
            if v is not None:
                raise ring.Unsupported("nested families of samples")
            out.append((a.var, (a.lo, a.hi), sym.land(*[c for c in (g, g2) if c is not True]) if (g, g2) != (True, True) else True, x))
    return out


def rate(e, p, S, x, dot, tag, SAMPLES):
    """A maximum over the samples: only errors of the reconstruction at samples of their slab, and all of them."""
    cands = []
    for v, r, g, val in entries(x):
        sq = square(e, tag, val)
        if sq is None:
            return
        if v is None:
            # computed outside the general iteration: first slab
            hit = [ts for ts in SAMPLES if same(sq, S.at(0, ts, False, dot))]
            e.prove(f"{tag}: entry is an error at a sample in the first slab", bool(hit), str(val)[:300])
            cands += [(None, None, True, ts) for ts in hit[:1]]
            continue
        i = Poly.of(v)
        hit = [ts for ts in SAMPLES if same(sq, S.at(i, ts, True, dot))]
        e.prove(f"{tag}: entry is an error of the lifted reconstruction at a sample", bool(hit), str(val)[:300])
        cands += [(v, r, g, ts) for ts in hit[:1]]

    def sound():
        for v, r, g, ts in cands:
            if v is None:
                e.prove(f"{tag}: only samples of the slab are used", sym.compare(ts, S.dt, "<="))
        return None

    e.explore(sound, raised(e, tag))
    for v, r, g, ts in cands:
        if v is None:
            continue

        def inside(v=v, r=r, g=g, ts=ts):
            i = Poly.of(v)
            e.assume(sym.compare(i, r[0], ">="))
            e.assume(sym.compare(i, r[1], "<"))
            e.assume(g)
            e.prove(f"{tag}: general slabs have a predecessor", sym.compare(i, 1, ">="))
            e.prove(f"{tag}: only existing slabs", sym.compare(i, N - 1, "<="))
            e.prove(f"{tag}: only samples of the slab are used", sym.land(sym.compare(ts * N, i * T, ">="), sym.compare(ts * N, (i + 1) * T, "<=")))

        e.explore(inside, raised(e, tag))

    for ts in SAMPLES:
        def complete(ts=ts):
            n, first, last = slab_cases(e)()
            # position in the slab as its own variable: ts = (n + s) T/N
            e.assume(sym.compare(ts * N, n * T, ">="))
            e.assume(sym.compare(ts * N, (n + 1) * T, "<="))
            where = "only slab" if first and last else "first slab" if first else "last slab" if last else "interior slab"
            conds = []
            for v, r, g, t2 in cands:
                if t2 is not ts:
                    continue
                if v is None:
                    if first:
                        conds.append(True)
                    continue
                gi = ring.subst(g, {v: Poly.lift(n)}) if g is not True else True
                conds.append(sym.land(sym.compare(n, r[0], ">="), sym.compare(n, r[1], "<"), *([] if gi is True else [gi])))
            e.prove(f"{tag}: every sample of a slab enters the maximum, {where}", any(c is True for c in conds) or sym.lor(*conds) if conds else False)

        e.explore(complete, raised(e, tag))


def integral(e, p, S, x, tag):
    """Time integral of the squared error of the derivative by a positive rule."""
    sq = square(e, tag, x)
    if sq is None:
        return
    rule = {}
    for m, c in Poly.lift(sq).t.items():
        ints = [(a, k) for a, k in m if a.kind == "int"]
        if len(ints) != 1 or ints[0][1] != 1:
            continue
        (sm, sc), = ints[0][0].args[0].t.items()
        refs = [(a, k) for a, k in sm if a.kind == "ref" and a.args[0] == "dtu"]
        if len(refs) != 1 or refs[0][1] != 2:
            continue
        t = refs[0][0].args[1]
        tau = Poly.lift(ring.num_div(t, S.dt)).norm()
        om = Poly.lift(ring.num_div(Poly({tuple(y for y in m if y[0] is not ints[0][0]): c}) * sc, S.dt)).norm()
        if isinstance(tau, Poly) or isinstance(om, Poly):
            e.prove(f"{tag}: samples of the first slab at fixed positions with fixed weights", False, f"{t}: {om}")
            return
        rule[F(tau)] = rule.get(F(tau), 0) + F(om)
    e.prove(f"{tag}: first slab integrated", bool(rule))
    for tau, om in rule.items():
        e.prove(f"{tag}: sample inside the slab", -F(1, 10**12) <= tau <= 1 + F(1, 10**12), str(tau))
        e.prove(f"{tag}: weight positive", om > 0, str(om))
    deg = 2 * max(S.q - 1, 1)
    for m in range(deg + 1):
        d = sum((w * t**m for t, w in rule.items()), F(0)) - F(1, m + 1)
        e.prove(f"{tag}: rule integrates time^{m}", abs(d) < DIG, f"error {float(d):.3g} with {len(rule)} samples")

    def slab(n, jump):
        return sum((ring.norm_num(w) * S.dt * S.at(n, (n + ring.norm_num(t)) * S.dt, jump, True) for t, w in rule.items()), 0)

    from pyvc.loops import num_sum
    i = ring.atom_of(ring.fresh("i"))
    want = slab(0, False)
    one = not bool(sym.compare(N, 2, ">="))
    if not one:
        want = want + num_sum(i, 1, N, ((True, slab(Poly.of(i), True)),))
    e.prove_eq(f"{tag}: sum over all slabs of the squared error of the derivative", sq, want, tol=TOL)


KEYS = ("L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t")


def check_errors(e, p, r, tag, samples=SAMPLES):
    S = Spec(p)
    if not all(k in r for k in KEYS):
        e.prove(f"{tag}: the four errors are reported", False, str(list(r)))
        return

    def final():
        x = square(e, f"{tag}: error at final time", r["L2-u1-T"])
        if x is not None:
            last = N if bool(sym.compare(N, 2, ">=")) else 1
            d = S.node(last * (S.q + 1) - 1) - S.ref("u", T)
            e.prove_eq(f"{tag}: error at final time is that of the last node of the last slab", x, fe.integrate(d * d * S.dx), tol=TOL)

    e.explore(final, raised(e, tag))
    rate(e, p, S, r[KEYS[1]], False, f"{tag}: maximal error", samples)
    rate(e, p, S, r[KEYS[2]], True, f"{tag}: maximal error of the derivative", samples)
    e.explore(lambda: integral(e, p, S, r[KEYS[3]], f"{tag}: integrated error of the derivative"), raised(e, tag))


def unit(c, verbose, two):
    def h(e):
        assume(e)
        samples = SAMPLES[: 1 + two]
        for t in samples:
            e.assume(sym.compare(t, 0, ">="))
            e.assume(sym.compare(t, T, "<="))

        def run():
            p = Prob(c)
            s = p.st
            s.sample_pts_error = list(samples)
            x = p.vec("x")
            r = s.measured_errors(x, verbose) if verbose else s.measured_errors(x)
            return p, r, x

        def on_path(o):
            if not ok(e, o[1]):
                return
            p, r, x = o[1][1]
            e.prove("input vector unchanged", x.store.st == (("name", ("x",)),), str(x.store.st)[:200])
            check_errors(e, p, r, "errors", samples)

        e.explore(run, on_path)
    return h


def units(tier):
    out = []
    for q in range(4):
        for qs in range(4):
            for two in (False, True) if q < 2 or tier == "thorough" else (False,):
                c = Cfg(q, qs, (q + qs) % 2 == 1, qs % 2 == 1)
                out.append((f"{c} samples={1 + two}", unit(c, qs != q, two)))
    return out
