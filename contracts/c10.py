"""C10 time marching is block forward substitution."""
from .march import Log, Solver, check_march, havoc_scratch
from .st import ASSUMPTIONS, TOL, Prob, assume, cfgs, ok, raised, slab_cases  # noqa: F401

ASSUMPTIONS = [*ASSUMPTIONS, "the two slab solvers given by the user solve their systems exactly (a solve is a new vector; its right-hand side is recorded)"]


def unit(c):
    def h(e):
        assume(e)

        def start(improved):
            p = Prob(c)
            s = p.st
            s.prepare_precondition_gmres()
            log = Log()
            s.set_solver_slab(Solver("slab", s.fes_p, log))
            s.set_solver_first_slab(Solver("first", s.fes_p, log))
            mats = None if c.fj else (s.get_slab_matrix(), s.get_slab_matrix_first_slab(), s.get_spacetime_matrix(precond=True))
            havoc_scratch(s)
            b, y = p.vec("b"), p.vec("y0")
            if improved:
                s.pre_time_marching_improved(b, y)
            else:
                s.pre_time_marching(b, y)
            return p, log, b, y, mats

        for improved in (False, True):
            tag = "improved" if improved else "plain"

            def on_path(r, tag=tag, improved=improved):
                if improved and c.fj:
                    e.prove("improved: refuses forward jumps", r[1][0] == "exc" and isinstance(r[1][1], Exception))
                    return
                if not ok(e, r[1], f"{tag}: returns"):
                    return
                p, log, b, y, mats = r[1][1]
                check_march(e, p, log, b, y, tag, slab_cases, raised, TOL, mats)

            e.explore(lambda improved=improved: start(improved), on_path)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier, fitted=(True, False) if tier == "thorough" else (True,))]
