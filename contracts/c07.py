"""C07 symmetry."""
from world import fe

from .st import ASSUMPTIONS, TOL, Prob, assume, cfgs, ok, raised, slab_cases, swapped  # noqa: F401


def sym_rows(e, mat, tag, cnt):
    e.prove(f"{tag}: assembled matrix", isinstance(mat, fe.Mat) and mat.done)
    s = swapped(mat.p)
    for f, c in enumerate(cnt):
        for i in range(c):
            r = fe.row(mat.p, f, i)
            e.prove_eq(f"{tag}: row and column of component {f} node {i}", r, fe.row(s, f, i), tol=TOL)


def unit(c):
    def h(e):
        assume(e)

        def run():
            p = Prob(c)
            s = p.st
            out = {"a": s.get_spacetime_matrix()}
            s.setup_coupling_matrix_between_slices()
            s.setup_scaled_mass_matrix_between_slices()
            out["coupling"] = s.coupling_matrix_between_slices
            out["interface mass"] = s.scaled_mass_matrix_between_slices
            if not c.fj:
                out["slab"] = s.get_slab_matrix()
                out["first slab"] = s.get_slab_matrix_first_slab()
                out["slab of products"] = s.slab_matrix_no_dg_jumps
            return p, out

        def on_path(r):
            if not ok(e, r[1]):
                return
            p, m = r[1][1]
            cnt = p.counts()
            e.prove("one space for rows and columns", m["a"].form.test is m["a"].form.trial)

            def rows():
                n, first, last = slab_cases(e)()
                e.reachable("slab position")
                sw = swapped(m["a"].p)
                for f in range(4):
                    for ell in range(cnt[f]):
                        i = n * cnt[f] + ell
                        r = fe.row(m["a"].p, f, i)
                        e.prove(f"row of component {f} node {ell} is not empty", not (isinstance(r, int) and r == 0))
                        e.prove_eq(f"row and column of component {f} node {ell}", r, fe.row(sw, f, i), tol=TOL)

            e.explore(rows, raised(e, "rows"))

            def loc():
                sym_rows(e, m["coupling"], "coupling", [2, 2])
                sym_rows(e, m["interface mass"], "interface mass", [1, 1])
                for k in ("slab", "first slab", "slab of products"):
                    if k in m:
                        sym_rows(e, m[k], k, cnt)

            e.explore(loc, raised(e, "local matrices"))

        e.explore(run, on_path)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier, fitted=(True, False) if tier == "thorough" else (True,))]
