"""C08 matrix-free product against the assembled matrix, row by row for an arbitrary vector."""
from pyvc import ring
from pyvc.ring import Poly

from spec import forms
from world import fe

from .st import ASSUMPTIONS, TOL, Prob, assume, cfgs, ok, raised, slab_cases, star  # noqa: F401


def apply_row(p, r, x):
    """Row of a form over the global space applied to the vector x."""
    sp = p.st.fes

    def g(a):
        if a.kind != "T":
            return None
        return fe.nfun(sp.sk(a.args[1]), fe.read(x, a.args[1], a.args[2]))

    return fe.integrate(fe.subst_fn(r, g))


def product_terms(p, n, first, last):
    """Recorded finding (forward jumps): what the slab-wise product computes on the rows of slab n."""
    P = p.P
    q1, s1 = P.q + 1, P.qs + 1
    t = list(forms.slab(P, n * q1, n * s1))
    fj, P.fj = P.fj, False
    if first:
        t += forms.initial(P)
        if P.wp:
            t += [(1, (3, 0), (0, 0), "mass"), (1, (2, 0), (1, 0), "mass")] + forms.dual_start(P, 0)
    else:
        t += forms.interface(P, n * q1, n * s1)
    if not last:
        t += forms.interface(P, (n + 1) * q1, (n + 1) * s1)
    P.fj = fj
    return t


def unit(c):
    def h(e):
        assume(e)

        def run():
            p = Prob(c)
            s = p.st
            s.prepare_precondition_gmres()
            x, y = p.vec("x"), p.vec("y0")
            s.apply_spacetime_matrix(x, y)
            return p, x, y, s.get_spacetime_matrix()

        def on_path(r):
            if not ok(e, r[1]):
                return
            p, x, y, A = r[1][1]
            cnt = p.counts()
            e.prove("input vector unchanged", x.store.st == (("name", ("x",)),))
            x0 = (("name", ("x",)),)

            def rows():
                n, first, last = slab_cases(e)()
                where = "only slab" if first and last else "first slab" if first else "last slab" if last else "interior slab"
                e.reachable(where)
                for f in range(4):
                    for ell in range(cnt[f]):
                        i = n * cnt[f] + ell
                        got = fe.read(y.store.st, f, i)
                        want = apply_row(p, fe.row(A.p, f, i), x0)
                        if c.fj and not (first and last and not c.wp) and not e.entails_eq(got, want, TOL):
                            want = apply_row(p, star(p.spec_row(product_terms(p, n, first, last), f, i, p.st.fes.uid)), x0)
                        e.prove_eq(f"product row of component {f} node {ell}, {where}", got, want, tol=TOL)

            e.explore(rows, raised(e, "product"))

        e.explore(run, on_path)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier, fitted=(True, False) if tier == "thorough" else (True,))]
