"""C27 construction: arguments take effect under their own names, are left alone, and problems do not share state."""
from fractions import Fraction as F

from pyvc import heap, ring, sym
from pyvc.ring import Poly
from pyvc.values import pv_at, pv_len

from spec import forms
from world import fe

from .st import ASSUMPTIONS, K, KS, T, N, W, Prob, assume, cfgs, check_global, check_local, ok, raised, thin  # noqa: F401

W2 = {k: ring.var(f"other_{k}", "real") for k in W}


def args_of(p):
    return [p.dd, p.sol, p.weights, p.par, p.mesh, p.ind]


def use(s, c):
    """Ordinary use of a problem."""
    s.get_spacetime_matrix()
    s.get_spacetime_matrix(precond=True)
    s.get_spacetime_rhs()
    s.prepare_precondition_gmres()
    s.sample_pts_error = [ring.num_div(T, 3)]
    s.measured_errors(fe.new_vec(s.fes, (("name", ("x",)),), "harness"))


def attributes(e, p, s, c, fj, wp, tag):
    def eq(name, got, want):
        e.prove(f"{tag}: {name}", got is want or (Poly.lift(got) is not None and Poly.lift(want) is not None and ring.same_num(got, want)), f"{str(got)[:100]} instead of {str(want)[:100]}")

    e.prove(f"{tag}: flag of forward jumps under its own name", s.jumps_in_fw_problem is fj, str(s.jumps_in_fw_problem))
    e.prove(f"{tag}: flag of well-posedness under its own name", s.well_posed is wp, str(s.well_posed))
    eq("number of slabs", s.N, N)
    eq("end time", s.T, T)
    eq("time step", s.delta_t, ring.num_div(T, N))
    eq("degree in time", s.otime.q, c.q)
    eq("dual degree in time", s.otime.qstar, c.qs)
    eq("degree in space", s.ospace.k, K)
    eq("dual degree in space", s.ospace.kstar, KS)
    e.prove(f"{tag}: mesh", s.msh is p.mesh)
    e.prove(f"{tag}: reference solution", s.solution is p.sol or s.solution.v is p.sol.v and s.solution.dvdt is p.sol.dvdt)


def sample_times(e, s, tag):
    pts = s.sample_pts_error
    n = pv_len(pts)

    def run():
        e.prove(f"{tag}: at least two sample times", sym.compare(n, 2, ">="))
        e.prove_eq(f"{tag}: first sample time is the initial time", pv_at(pts, 0), 0)
        e.prove_eq(f"{tag}: last sample time is the end time", pv_at(pts, n - 1), T)
        j = ring.var("sample", "int")
        e.assume(sym.compare(j, 0, ">="))
        e.assume(sym.compare(j, n - 1, "<"))
        a, b = pv_at(pts, j), pv_at(pts, j + 1)
        e.prove(f"{tag}: sample times increase", sym.compare(a, b, "<"))
        e.prove(f"{tag}: no gap longer than a fiftieth of the interval", sym.compare((b - a) * 50, T, "<="))

    e.explore(run, raised(e, tag))


def unit(c):
    def h(e):
        assume(e)
        for v in W2.values():
            e.assume(sym.compare(v, 0, ">"))

        def frame(name, before, roots):
            d = [f"{getattr(o, 'name', type(o).__name__)} {k}" for o, k in heap.diff(before, heap.walk(roots))]
            e.prove(name, not d, "; ".join(d)[:500])

        def run():
            p = Prob(c, setup=False)
            m = p.mod
            e.prove("region argument left alone", p.dd.indicator_function is p.ind and p.dd.fitted is c.fitted)
            e.prove("weights argument left alone", sorted(p.weights) == sorted(W) and all(p.weights[k] is W[k] for k in W))
            e.prove("parameters argument left alone", p.par.jumps_in_fw_problem is c.fj and p.par.well_posed is c.wp)
            e.prove("default flags", m.ProblemParameters().jumps_in_fw_problem is False and m.ProblemParameters().well_posed is False)
            for a in ("jumps_in_fw_problem", "well_posed"):
                q = m.ProblemParameters(**{a: True})
                e.prove(f"named flag {a}", getattr(q, a) is True and not getattr(q, "well_posed" if a[0] == "j" else "jumps_in_fw_problem"))
            e.prove("region fitted by default", m.DataDomain(p.ind).fitted is True)
            attributes(e, p, p.st, c, c.fj, c.wp, "first problem")
            sample_times(e, p.st, "sample times")
            roots = args_of(p)
            before = heap.walk(roots)
            s = p.st
            s.setup_spacetime_finite_elements()
            p.set_initial()
            use(s, c)
            frame("use leaves the arguments alone", before, roots)
            # a second problem from the same description with the other flags and other weights, a third with default flags
            before = heap.walk([s, *args_of(p)])
            par2 = m.ProblemParameters(jumps_in_fw_problem=not c.fj, well_posed=not c.wp)
            s2 = m.SpaceTime(m.OrderTime(c.q, c.qs), m.OrderSpace(K, KS), N, T, p.t, p.mesh, dict(W2), p.dd, p.sol, par2)
            s3 = m.SpaceTime(m.OrderTime(c.q, c.qs), m.OrderSpace(K, KS), N, T, p.t, p.mesh, dict(W2), p.dd, p.sol)
            heap.HARNESS_ROOTS[:] = [s, s2, s3]
            attributes(e, p, s2, c, not c.fj, not c.wp, "second problem")
            attributes(e, p, s3, c, False, False, "third problem")
            for x in (s2, s3):
                x.setup_spacetime_finite_elements()
                x.u1_0.store.st = (("name", ("other",)),)
            use(s2, c)
            frame("constructing and using another problem changes neither the arguments nor the first problem", before, [s, *args_of(p)])
            return p, (s.get_spacetime_matrix(), s2.get_spacetime_matrix(), s3.get_spacetime_matrix()), (s, s2, s3)

        def on_path(r):
            if not ok(e, r[1], "construction and use"):
                return
            p, mats, sts = r[1][1]
            base = p.st, p.P
            for nm, mat, s, fj, wp, w in (("first", mats[0], sts[0], c.fj, c.wp, W), ("second", mats[1], sts[1], not c.fj, not c.wp, W2), ("third", mats[2], sts[2], False, False, W2)):
                p.st = s
                p.P = forms.P(c.q, c.qs, ring.num_div(T, N), 5 * K * K, w["data"], w["dual"], w["primal"], w["primal-jump"], fj=fj, wp=wp, div=ring.num_div)
                check_global(e, p, mat, False, f"matrix of the {nm} problem")
            p.st, p.P = base

        e.explore(run, on_path)
    return h


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier, fitted=(True, False)) if thin(tier, c)]
