"""C15 coarse-grid transfers and the two-level preconditioner."""
from pyvc import ring
from pyvc.ring import Poly

from world import fe

from .march import Log, Solver, check_march, havoc_scratch
from .st import ASSUMPTIONS, TOL, Prob, assume, cfgs, ok, raised, slab_cases, thin

ASSUMPTIONS = [*ASSUMPTIONS, "the coarse and the two slab solvers given by the user solve their systems exactly and leave the right-hand side alone",
               "interpolation between meshes is the nodal interpolation of dolfinx"]


def moved(space, f, src_space, blk):
    """Specified nodal values in component f of `space` of the function of component f of `src_space` with nodal values blk."""
    sk, s0 = space.sk(f), src_space.sk(f)
    return fe.linmap(blk, lambda b: Poly.of(ring.mk_atom("interp", (sk, ring.mk_atom("N", (s0, b))))), lambda c: c)


def check_transfer(e, p, tag, tgt, src, space, src_space):
    """tgt holds every block of src moved to the other mesh."""
    def rows():
        n, first, last = slab_cases(e)()
        e.reachable(tag)
        for f, c in enumerate(p.counts()):
            for ell in range(c):
                i = n * c + ell
                e.prove_eq(f"{tag}: component {f} node {ell}", fe.read(tgt, f, i), moved(space, f, src_space, fe.read(src, f, i)), tol=TOL)

    e.explore(rows, raised(e, tag))


def setup(c, extra=()):
    p = Prob(c, extra=extra)
    s = p.st
    p.coarse = fe.Mesh("coarse", p.mesh.comm)
    s.prepare_precondition_gmres()
    s.prepare_coarse_grid_correction(p.coarse)
    p.log, p.clog = Log(), Log()
    s.set_solver_slab(Solver("slab", s.fes_p, p.log))
    s.set_solver_first_slab(Solver("first", s.fes_p, p.log))
    s.set_solver_coarse(Solver("coarse", s.fes_coarse, p.clog, numbered=True))
    return p


NAMED = lambda n: (("name", (n,)),)  # noqa: E731


def unit(c):
    def h(e):
        assume(e)

        def coarse_solve(p, log, tag):
            """The first coarse solve has the restricted input as its right-hand side."""
            e.prove(f"{tag}: a coarse solve", len(log) >= 1, str(len(log)))
            if len(log) >= 1:
                check_transfer(e, p, f"{tag}: right-hand side of the coarse solve", log[0][1], NAMED("b"), p.st.fes_coarse, p.st.fes)
            return len(log) >= 1

        def transfers():
            p = setup(c)
            s = p.st
            out = []
            for r in range(2):
                havoc_scratch(s)
                xc, xf = p.vec("xc", s.fes_coarse), p.vec("y0")
                s.prolongation(xc, xf)
                xf2, xc2 = p.vec("xf"), p.vec("y0", s.fes_coarse)
                s.restriction(xc2, xf2)
                out.append((xc.store.st, xf.store.st, xc2.store.st, xf2.store.st))
            return p, out

        def on_transfers(r):
            if not ok(e, r[1], "transfers return"):
                return
            p, out = r[1][1]
            s = p.st
            for k, (xc, xf, xc2, xf2) in enumerate(out):
                t = "" if k == 0 else " (again)"
                e.prove(f"prolongation leaves its input alone{t}", xc == NAMED("xc"))
                e.prove(f"restriction leaves its input alone{t}", xf2 == NAMED("xf"))
                check_transfer(e, p, f"prolongation{t}", xf, NAMED("xc"), s.fes, s.fes_coarse)
                check_transfer(e, p, f"restriction{t}", xc2, NAMED("xf"), s.fes_coarse, s.fes)

        def correction():
            p = setup(c)
            s = p.st
            havoc_scratch(s)
            b, x = p.vec("b"), p.vec("y0")
            s.q_op(b, x)
            return p, b.store.st, x.store.st

        def on_correction(r):
            if not ok(e, r[1], "q_op returns"):
                return
            p, b, x = r[1][1]
            s = p.st
            e.prove("coarse correction leaves its input alone", b == NAMED("b"))
            if coarse_solve(p, p.clog.st, "coarse correction"):
                check_transfer(e, p, "coarse correction", x, (("name", p.clog.st[0][2]),), s.fes, s.fes_coarse)

        def two():
            p = setup(c)
            s = p.st
            b, q, aq = p.vec("b"), p.vec("y1"), p.vec("y2")
            s.q_op(b, q)
            s.apply_spacetime_matrix(q, aq)
            out = []
            for r in range(2):
                p.log.st, p.clog.st = (), ()
                havoc_scratch(s)
                b, x = p.vec("b"), p.vec("y0")
                s.pre_twolvl(b, x)
                out.append((p.log.st, p.clog.st, b, x))
            return p, q.store.st, aq.store.st, out

        def on_two(r):
            if not ok(e, r[1], "two-level preconditioner returns"):
                return
            p, q, aq, out = r[1][1]
            for k, (log, clog, b, x) in enumerate(out):
                l = Log()
                l.st = log
                tag = f"two-level{'' if k == 0 else ' (again)'}"
                coarse_solve(p, clog, tag)
                check_march(e, p, l, b, x, tag, slab_cases, raised, TOL,
                            rhs_of=lambda f, i: Poly.of(ring.mk_atom("blk", (("b",), f, i))) - fe.read(aq, f, i),
                            out_of=lambda f, i: fe.read(x.store.st, f, i) - fe.read(q, f, i))

        e.explore(transfers, on_transfers)
        e.explore(correction, on_correction)
        e.explore(two, on_two)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier) if thin(tier, c)]
