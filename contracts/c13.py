"""C13 data region: the region-weighted part of every matrix and of the load vector; the description stays the caller's."""
from pyvc import ring
from pyvc.ring import Poly

from spec import forms
from world import fe

from .c12 import samples
from .st import ASSUMPTIONS, TOL, Cfg, Prob, assume, cfgs, global_row_terms, ok, raised, slab_cases, star, thin  # noqa: F401

FREE = {"T", "V", "V*", "meas", "h", "lap", "side", "dot"}


def weighted(r):
    """Monomials of a row that contain a function other than test and trial."""
    out = 0
    for m, c in Poly.lift(r).t.items():
        if any(fe.spatial(a) and a.kind not in FREE for a, _ in m):
            out = out + Poly({m: c})
    return out


def only(terms):
    return [t for t in terms if t[3] == "omega"]


def check_matrix(e, p, mat, tag, space, mesh=None):
    cnt = p.counts()

    def rows():
        n, first, last = slab_cases(e)()
        e.reachable(tag)
        terms = only(global_row_terms(p, n, first, last, False))
        for f in range(4):
            for ell in range(cnt[f]):
                i = n * cnt[f] + ell
                e.prove_eq(f"{tag}: region in row of component {f} node {ell}", weighted(fe.row(mat.p, f, i)), star(p.spec_row(terms, f, i, space.uid, mesh)), tol=TOL)

    e.explore(rows, raised(e, tag))


def check_slab(e, p, mat, terms, tag):
    def rows():
        for f, c in enumerate(p.counts()):
            for i in range(c):
                e.prove_eq(f"{tag}: region in row of component {f} node {i}", weighted(fe.row(mat.p, f, i)),
                           star(p.spec_row(only(terms), f, i, p.st.fes_p.uid)), tol=TOL)

    e.explore(rows, raised(e, tag))


def check_load(e, p, b, tag):
    """Every part of the load vector that contains the user's solution has the region as its weight."""
    want = p.indicator() * Poly.of(ring.mk_atom("V*", ())) * Poly.of(ring.mk_atom("meas", ("dx", p.mesh.name, None)))

    def rows():
        n, first, last = slab_cases(e)()
        e.reachable(tag)
        for f, k in enumerate(p.counts()):
            for ell in range(k):
                s, rest = samples(fe.read(b.store.st, f, n * k + ell), e, tag)
                for t, d in s.values():
                    for w, _ in d.values():
                        e.prove_eq(f"{tag}: region in the load of component {f} node {ell}", w, want)

    e.explore(rows, raised(e, tag))


def check_all(e, p, tag, A, S, F, M, b):
    check_matrix(e, p, A, f"{tag} system matrix", p.st.fes)
    check_slab(e, p, S, forms.slab_matrix_terms(p.P, True), f"{tag} slab matrix")
    check_slab(e, p, M, forms.slab_matrix_terms(p.P, False), f"{tag} slab matrix of products")
    check_slab(e, p, F, forms.first_slab_terms(p.P), f"{tag} first slab matrix")
    check_load(e, p, b, f"{tag} load")


def unit(c, expr):
    def h(e):
        assume(e)

        def run():
            p = Prob(c, expr=expr)
            before = (p.dd.indicator_function, p.dd.fitted, dict(vars(p.dd)), None if c.fitted or expr else p.ind.store.st)

            def build(q):
                q.set_initial()
                s = q.st
                s.prepare_precondition_gmres()
                return q, s.get_spacetime_matrix(), s.get_slab_matrix(), s.get_slab_matrix_first_slab(), s.slab_matrix_no_dg_jumps, s.get_spacetime_rhs()

            def intact(when):
                d = p.dd
                e.prove(f"description unchanged {when}", d.indicator_function is before[0] and d.fitted is before[1] and sorted(vars(d)) == sorted(before[2]),
                        f"{vars(d)}")
                if before[3] is not None:
                    e.prove(f"values of the region unchanged {when}", p.ind.store.st == before[3])

            intact("by construction")
            one = build(p)
            intact("by assembly")
            coarse = None
            if not expr:
                p.st.prepare_coarse_grid_correction(fe.Mesh("coarse", p.mesh.comm))
                coarse = p.st.get_spacetime_matrix_coarse()
                intact("by the coarse problem")
            # the description is used again, on another mesh when the region is given by a function of space
            two = build(p.again(fe.Mesh("other", p.mesh.comm) if c.fitted else p.mesh))
            intact("by a second problem")
            return p, one, two, coarse

        def on_path(r):
            if not ok(e, r[1]):
                return
            p, one, two, coarse = r[1][1]
            check_all(e, one[0], "first problem:", *one[1:])
            check_all(e, two[0], "second problem:", *two[1:])
            if coarse is not None:
                check_matrix(e, p, coarse, "coarse matrix", p.st.fes_coarse, "coarse")

        e.explore(run, on_path)
    return h


def units(tier):
    out = []
    for c in cfgs(tier, fitted=(True, False)):
        if not thin(tier, c):
            continue
        for expr in ((False,) if c.fitted else (False, True)):
            out.append((f"{c}{' expression' if expr else ''}", unit(c, expr)))
    return out
