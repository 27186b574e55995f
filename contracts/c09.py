"""C09 slab matrices."""
from spec import forms
from world import fe

from .st import (ASSUMPTIONS, TOL, Prob, assume, cfgs, check_global, check_local, local_row, ok, raised, slab_cases,  # noqa: F401
                 split_trials)


def unit(c):
    def h(e):
        assume(e)

        def run():
            p = Prob(c)
            s = p.st
            S, F = s.get_slab_matrix(), s.get_slab_matrix_first_slab()
            if not s.slab_matrix_no_dg_jumps:
                s.setup_slab_matrix(with_jumps=False)
            return p, S, F, s.slab_matrix_no_dg_jumps, s.get_spacetime_matrix(precond=True)

        def on_path(r):
            if not ok(e, r[1]):
                return
            p, S, F, M, B = r[1][1]
            cnt, sp = p.counts(), p.st.fes_p

            def loc():
                check_local(e, p, S, forms.slab_matrix_terms(p.P, True), "slab matrix", sp, cnt)
                check_local(e, p, M, forms.slab_matrix_terms(p.P, False), "slab matrix of products", sp, cnt)
                check_local(e, p, F, forms.first_slab_terms(p.P), "first slab matrix", sp, cnt)

            e.explore(loc, raised(e, "slab matrices"))
            check_global(e, p, B, True, "block-triangular matrix")
            if c.fj:
                return

            def diag():
                n, first, last = slab_cases(e)()
                e.reachable("slab position")
                for f in range(4):
                    for ell in range(cnt[f]):
                        bl = split_trials(fe.row(B.p, f, n * cnt[f] + ell), cnt, n)
                        loc = local_row(F if first else S, f, ell)
                        e.prove_eq(f"diagonal block of slab: row {f},{ell}{' (first)' if first else ''}", bl.get(0, 0), loc, tol=TOL)
                        e.prove("block lower triangular, one sub-diagonal", set(bl) <= ({0} if first else {-1, 0}), str(set(bl)))

            e.explore(diag, raised(e, "diagonal blocks"))

        e.explore(run, on_path)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier, fitted=(True, False) if tier == "thorough" else (True,))]
