"""C17 plots and exports: every drawn value and every written field is an evaluation of the supplied vector."""
from pyvc import ring, sym
from pyvc.ring import Poly

from spec import timebasis as tb
from world import fe, plots

from .st import ASSUMPTIONS, N, T, TOL, Cfg, Prob, assume, ok, raised, slab_cases

ASSUMPTIONS = [*ASSUMPTIONS, "evaluate_function_at_points returns the values of the function at the points, in their order",
               "pcolormesh(x, y, C) draws C[i, j] at (x[j], y[i]); XDMFFile.write_function stores the function",
               "at least two sample points in space and one sample per slab in time"]
S = ring.var("S", "int")
M = ring.var("M", "int")
M_ = ring.var("m", "int")
J_ = ring.var("j", "int")


def problem(c):
    rec = plots.Record()
    w = plots.make(rec)
    p = Prob(c, extra=lambda ww: patch(ww, w))
    return p, rec


def patch(ww, w):
    ww.update(w)
    ww["dolfinx"].io = w["dolfinx.io"]
    return ww


class Spec:
    def __init__(self, p):
        self.q, self.dt, self.sk = p.P.q, ring.num_div(T, N), p.st.fes_p.sk(0)

    def ev(self, n, j, x):
        pt = (Poly.lift(x).norm(), Poly.lift(0).norm(), Poly.lift(0).norm())
        return Poly.of(ring.mk_atom("ev", (self.sk, ring.mk_atom("blk", (("x",), 0, n * (self.q + 1) + j)), pt)))

    def value(self, n, s, x, dot):
        out = 0
        for j, L in enumerate(tb.lagrange(self.q)):
            out = out + tb.peval([ring.norm_num(c) for c in (tb.pder(L) if dot else L)], s) * self.ev(n, j, x)
        return ring.num_div(out, self.dt) if dot else out

    def ref(self, n, s, x, dot):
        return Poly.of(ring.mk_atom("refpt", ("dtu" if dot else "u", Poly.lift((n + s) * self.dt).norm(), (Poly.lift(x).norm(),))))


def check(e, p, rec, tag, want):
    draws = [r for r in rec.st if r[0] == "draw"]
    e.prove(f"{tag}: number of pictures", len(draws) == len(want), str(len(draws)))
    if len(draws) != len(want):
        return
    sp = Spec(p)
    dt = sp.dt

    def entries():
        n, first, last = slab_cases(e)()
        where = "only slab" if first and last else "first slab" if first else "last slab" if last else "interior slab"
        e.assume(sym.compare(M_, 0, ">="))
        e.assume(sym.compare(M_, M, "<"))
        e.assume(sym.compare(J_, 0, ">="))
        e.assume(sym.compare(J_, S, "<"))
        e.reachable(f"{tag}: {where}")
        NN = 1 if first and last else N
        m = 0 if bool(sym.compare(M_, 0, "==")) else M_
        base, fix = M, (lambda r: r)
        if m == 0 and bool(sym.compare(M, 1, "==")):
            base, fix = 1, (lambda r: ring.subst(r, {ring.atom_of(M): 1}))
        j = 0 if bool(sym.compare(J_, 0, "==")) else J_
        s = ring.num_div(m, M)
        x = ring.num_div(j, S - 1)
        t = (n + s) * dt
        for k, (_, xs, ts, g) in enumerate(draws):
            ts, g = fix(ts), fix(g)
            w = f"{tag}: picture {k + 1}"
            ln, v = plots.seq_entry(xs, 0, j, S)
            e.prove_eq(f"{w}: length of the space axis", ln, S)
            e.prove_eq(f"{w}: space axis, {where}", v, x) if v is not None else e.prove(f"{w}: space axis, {where}", False)
            ln, v = plots.seq_entry(ts, n, m, base)
            e.prove_eq(f"{w}: length of the time axis", ln, NN * base)
            e.prove_eq(f"{w}: time axis, {where}", v, t) if v is not None else e.prove(f"{w}: time axis, {where}", False)
            _, shape, st = g
            e.prove_eq(f"{w}: one row per sample time", shape[0], NN * base)
            e.prove_eq(f"{w}: one column per point", shape[1], S)
            e.prove_eq(f"{w}: value drawn, {where}", plots.entry(st, n, m, base, j), want[k](sp, n, s, x), tol=TOL)

    e.explore(entries, raised(e, tag))


def _abs(f):
    return lambda *a: ring.num_abs(f(*a))


def _val(dot):
    return lambda sp, n, s, x: sp.value(n, s, x, dot)


def _err(dot):
    return lambda sp, n, s, x: ring.num_abs(sp.value(n, s, x, dot) - sp.ref(n, s, x, dot))


KINDS = {
    "plot": (lambda s, x: s.plot(x, n_space=S, n_time_subdiv=M), [_val(False), _val(True)]),
    "plot abs_val": (lambda s, x: s.plot(x, n_space=S, n_time_subdiv=M, abs_val=True), [_abs(_val(False)), _abs(_val(True))]),
    "plot_error": (lambda s, x: s.plot_error(x, n_space=S, n_time_subdiv=M), [_val(True), _err(False), _err(True)]),
}


def drawn(c, kind):
    call, want = KINDS[kind]

    def h(e):
        assume(e)
        e.assume(sym.compare(S, 2, ">="))
        e.assume(sym.compare(M, 1, ">="))

        def run():
            p, rec = problem(c)
            x = p.vec("x")
            call(p.st, x)
            return p, rec, x

        def on_path(o):
            if not ok(e, o[1]):
                return
            p, rec, x = o[1][1]
            e.prove("supplied vector unchanged", x.store.st == (("name", ("x",)),), str(x.store.st)[:200])
            check(e, p, rec, kind, want)

        e.explore(run, on_path)
    return h


def exported(c, name):
    def h(e):
        assume(e)

        def run():
            p, rec = problem(c)
            x = p.vec("x")
            p.st.plot_para_view(x, name) if name else p.st.plot_para_view(x)
            return p, rec, x

        def on_path(o):
            if not ok(e, o[1]):
                return
            p, rec, x = o[1][1]
            e.prove("supplied vector unchanged", x.store.st == (("name", ("x",)),), str(x.store.st)[:200])
            log = rec.st
            base = name or "abserr"
            files = {f"{base}-u.xdmf": (0, "u", p.st.fes_p.sk(0)), f"{base}-ut.xdmf": (1, "dtu", p.st.fes_p.sk(1))}
            opened = [r for r in log if r[0] == "open"]
            e.prove("one file each for displacement and velocity, opened for writing", sorted(r[1:] for r in opened) == sorted((f, "w") for f in files), str(opened))
            last = 1 if not bool(sym.compare(N, 2, ">=")) else N
            for f, (comp, ref, sk) in files.items():
                mine = [r for r in log if r[1:2] == (f,)]
                kinds = [r[0] for r in mine]
                e.prove(f"{f}: mesh and one field, then closed", kinds == ["open", "mesh", "function", "close"], str(kinds))
                if kinds != ["open", "mesh", "function", "close"]:
                    continue
                e.prove(f"{f}: mesh of the problem", mine[1][2] is p.mesh)
                _, _, V, st = mine[2]
                e.prove(f"{f}: field on the space of its component", ring.ckey(V.sk()) == ring.ckey(sk), str(V.sk()))
                b = fe.read(st, 0, 0)
                interp = Poly.of(ring.mk_atom("interp", (sk, ring.mk_atom("ref", (ref, T)))))
                node = Poly.of(ring.mk_atom("blk", (("x",), comp, last * (p.P.q + 1) - 1)))
                e.prove_eq(f"{f}: absolute difference to the reference at the end time", b, fe.nabs(interp - node))

        e.explore(run, on_path)
    return h


def units(tier):
    out = []
    for q in range(4):
        for qs in range(4):
            c = Cfg(q, qs, (q + qs) % 2 == 1, qs % 2 == 1)
            for kind in KINDS:
                out.append((f"{c} {kind}", drawn(c, kind)))
            for name in (None, "out"):
                out.append((f"{c} export {name}", exported(c, name)))
    return out
