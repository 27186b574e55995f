"""C12 load vector: data term against a positive rule exact for the products of discrete functions, initial data, zero otherwise."""
from fractions import Fraction as F

from pyvc import ring, sym
from pyvc.ring import Poly

from spec import timebasis as tb
from world import fe

from .march import vin
from .st import ASSUMPTIONS, T, TOL, N, Prob, W, assume, cfgs, ok, raised, slab_cases

ASSUMPTIONS = [*ASSUMPTIONS, "the rule found in the load vector is compared with the exact moments up to its six tabulated digits"]
DIG = F(1, 10**5)


def samples(got, e, tag):
    """Load entry -> {time: {spatial integrand: coefficient}} and the part without the user's solution."""
    out, rest = {}, 0
    for m, c in Poly.lift(got).t.items():
        ints = [(a, k) for a, k in m if a.kind == "int"]
        if len(ints) != 1 or ints[0][1] != 1:
            rest = rest + Poly({m: c})
            continue
        sp = ints[0][0].args[0]
        (sm, sc), = sp.t.items()
        refs = [(a, k) for a, k in sm if a.kind == "ref" and a.args[0] == "u"]
        if not refs:
            rest = rest + Poly({m: c})
            continue
        if len(refs) != 1 or refs[0][1] != 1:
            e.prove(f"{tag}: linear in the solution", False, str(sp)[:200])
            continue
        t = refs[0][0].args[1]
        sm = tuple(x for x in sm if x[0] is not refs[0][0])
        w = Poly({sm: sc})
        co = Poly({tuple(x for x in m if x[0] is not ints[0][0]): c}).norm()
        d = out.setdefault(ring.ckey(t), (t, {}))[1]
        k = ring.ckey(w)
        d[k] = (w, d[k][1] + co) if k in d else (w, co)
    return out, rest


def check_rhs(e, p, b, tag, initial):
    """initial: names of the initial data entering a well-posed problem."""
    P, cnt = p.P, p.counts()
    L = tb.lagrange(P.q)
    star = Poly.of(ring.mk_atom("V*", ()))
    dx = Poly.of(ring.mk_atom("meas", ("dx", p.mesh.name, None)))
    sk = p.st.fes_p.sk(0)

    def rows():
        n, first, last = slab_cases(e)()
        where = "only slab" if first and last else "first slab" if first else "last slab" if last else "interior slab"
        e.reachable(f"{tag}: {where}")
        per = []
        for f in range(4):
            for ell in range(cnt[f]):
                got = fe.read(b.store.st, f, n * cnt[f] + ell)
                s, rest = samples(got, e, f"{tag}: component {f} node {ell}")
                want = 0
                if first and P.wp and f < 2 and ell == 0:
                    u = fe.nfun(sk, Poly.of(ring.mk_atom("blk", ((initial[f],), 0, 0))))
                    want = P.gj * P.idt * u * star * dx
                    if f == 0:
                        want = want + P.gj * P.dt * vin(u) * dx
                    want = fe.integrate(want)
                e.prove_eq(f"{tag}: entry without data of component {f} node {ell}, {where}", rest, want, tol=TOL)
                if f == 0:
                    per.append(s)
                else:
                    e.prove(f"{tag}: no data in component {f} node {ell}, {where}", not s, str(sorted(s))[:200])
        times = {}
        for s in per:
            for k, (t, d) in s.items():
                times[k] = t
        integrand = p.indicator() * star * dx
        rule = []
        for k, t in times.items():
            tau = ring.num_div(t - n * P.dt, P.dt)
            tau = Poly.lift(tau).norm()
            if isinstance(tau, Poly):
                e.prove(f"{tag}: sample times are fixed positions in their slab, {where}", False, f"{t} in slab {n}")
                continue
            e.prove(f"{tag}: sample time inside the slab, {where}", -F(1, 10**12) <= F(tau) <= 1 + F(1, 10**12), str(tau))
            co = []
            for ell, s in enumerate(per):
                d = s.get(k, (t, {}))[1]
                ig = ring.ckey(integrand)
                for kk, (w, c) in d.items():
                    if kk != ig:
                        e.prove_eq(f"{tag}: integrand of the load of node {ell}, {where}", w, integrand)
                co.append(d[ig][1] if ig in d else 0)
            om = Poly.lift(ring.num_div(sum(co[1:], co[0]), W["data"] * P.dt)).norm()
            if isinstance(om, Poly):
                om = Poly.lift(ring.drop_small(om, TOL)).norm()
            if isinstance(om, Poly):
                e.prove(f"{tag}: sample weight is data weight times step times a number, {where}", False, str(om))
                continue
            e.prove(f"{tag}: sample weight positive, {where}", F(om) > 0, str(om))
            rule.append((F(tau), F(om)))
            for ell, c in enumerate(co):
                e.prove_eq(f"{tag}: load of node {ell} at a sample, {where}", c, W["data"] * P.dt * F(om) * F(tb.peval(L[ell], F(tau))), tol=TOL)
        for m in range(2 * P.q + 1):
            d = sum((w * t**m for t, w in rule), F(0)) - F(1, m + 1)
            e.prove(f"{tag}: rule integrates time^{m}, {where}", abs(d) < DIG, f"error {float(d):.3g} with {len(rule)} samples")

    e.explore(rows, raised(e, tag))


def unit(c):
    def h(e):
        assume(e)
        for order in ("rhs first", "form first") if c.wp else ("rhs first",):
            def run(order=order):
                p = Prob(c)
                p.set_initial()
                if order == "form first":
                    p.st.get_spacetime_lfi()
                b = p.st.get_spacetime_rhs()
                return p, b

            def on_path(r, order=order):
                if not ok(e, r[1]):
                    return
                p, b = r[1][1]
                e.prove("a vector over the global space", isinstance(b, fe.Vec) and p.st.fes.same_layout(b.store.space))
                check_rhs(e, p, b, f"load ({order})", ("u1_0", "u2_0"))

            e.explore(run, on_path)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier, fitted=(True, False))]
