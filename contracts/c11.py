"""C11 applications are functions of their input: two-run noninterference and frame conditions."""
from pyvc import heap, loops, ring, sym
from pyvc.values import PList

from world import fe, plots

from .c15 import setup
from .c17 import M, S, patch
from .march import check_march, havoc_scratch, seq_at, seq_len
from .st import ASSUMPTIONS, T, TOL, assume, cfgs, ok, raised, slab_cases, thin

ASSUMPTIONS = [*ASSUMPTIONS, "the solvers given by the user are functions of their right-hand side and leave it alone (a solve is named by its position in the sweep)",
               "at least three sample points in space and two samples per slab in time in the plots drawn in between"]
KEEP = ("u1_0", "u2_0", "SpaceTimeRhs")


def vecs(s):
    """(attribute, object) of all vectors and functions held by the problem."""
    for k, v in sorted(vars(s).items()):
        for x in v.items if isinstance(v, PList) else v if isinstance(v, (list, tuple)) else [v]:
            if isinstance(x, (fe.Vec, fe.Function)):
                yield k, x


def frame(e, p, tag, before, after, y):
    """Only work vectors, the output and the solver logs may have changed."""
    s = p.st
    fixed = {id(x.store) for k, x in vecs(s) if k in KEEP} | {id(f.store) for f in p.inputs}
    work = {id(x.store) for k, x in vecs(s) if k not in KEEP} | ({id(y.store)} if y is not None else set())
    bad = []
    for o, k in heap.diff(before, after):
        if o is p.log or o is p.clog:
            continue
        if id(o) in work and id(o) not in fixed:
            continue
        lid = (id(o), k)
        if o is s and isinstance(k, tuple) and k[0] == "attr" and lid not in before:
            continue  # a new attribute: the comparison of the two runs shows whether a result depends on it
        new = after[lid][2] if lid in after else None
        old = before[lid][2] if lid in before else None
        if o is s and isinstance(k, tuple) and k[0] == "attr" and isinstance(new, (fe.Vec, fe.Function)) and (
                old is None or isinstance(old, (fe.Vec, fe.Function))) and k[1] not in KEEP and id(new.store) not in fixed:
            continue  # work vector created on demand
        bad.append(f"{getattr(o, 'name', type(o).__name__)} {k}")
    e.prove(f"{tag}: inputs, matrices, right-hand side and configuration unchanged", not bad, "; ".join(bad)[:600])


def junk(s, run):
    havoc_scratch(s)
    for k, x in vecs(s):
        if k not in KEEP and len(x.store.st) == 1 and x.store.st[0][0] == "name" and x.store.st[0][1][0] == "junk":
            x.store.st = (("name", (*x.store.st[0][1], run)),)


def operations(p, mod):
    s = p.st
    mw, pw = mod.SpaceTimePETScMatrixWrapper(s), mod.SpaceTimePETScPreconditionerWrapper(s)
    p.wrappers = (mw, pw)
    ops = {
        "apply_spacetime_matrix": s.apply_spacetime_matrix,
        "pre_time_marching": s.pre_time_marching,
        "matrix wrapper": lambda b, y: mw.mult(None, b, y),
        "pre_twolvl": s.pre_twolvl,
        "q_op": s.q_op,
    }
    if not p.c.fj:
        ops["pre_time_marching_improved"] = s.pre_time_marching_improved
        ops["preconditioner wrapper"] = lambda b, y: pw.apply(None, b, y)
    return ops


def apply(e, p, op, run, tag):
    """One application; returns the output and the solves it made."""
    s = p.st
    p.log.st, p.clog.st = (), ()
    junk(s, run)
    b, y = p.vec("b"), p.vec(f"old{run}")
    p.inputs = [b]
    roots = [s, p.dd, p.sol, p.weights, p.par, p.mesh, p.coarse, p.ind, b, y, *p.wrappers]
    before = heap.walk(roots)
    loops.SITE[0] = 1000
    op(b, y)
    frame(e, p, tag, before, heap.walk(roots), y)
    return b, y, y.store.st, p.log.st, p.clog.st


BETWEEN = {
    "measured_errors": lambda s, x: s.measured_errors(x),
    "plot": lambda s, x: s.plot(x, n_space=S, n_time_subdiv=M),
    "plot_error": lambda s, x: s.plot_error(x, n_space=S, n_time_subdiv=M),
    "plot_para_view": lambda s, x: s.plot_para_view(x),
}


def equal_runs(e, p, tag, a, b):
    """Same output and same solves."""
    def rows():
        n, first, last = slab_cases(e)()
        where = "only slab" if first and last else "first slab" if first else "last slab" if last else "interior slab"
        e.reachable(f"{tag}: {where}")
        for f, c in enumerate(p.counts()):
            for ell in range(c):
                i = n * c + ell
                e.prove_eq(f"{tag}: component {f} node {ell}, {where}", fe.read(a[2], f, i), fe.read(b[2], f, i), tol=TOL)
        if a[3] or b[3]:
            e.prove_eq(f"{tag}: number of slab solves", seq_len(a[3]), seq_len(b[3]))
            x, z = seq_at(a[3], n), seq_at(b[3], n)
            same = x is not None and z is not None and x[0] == z[0] and ring.ckey(x[2]) == ring.ckey(z[2])
            e.prove(f"{tag}: the same solve, {where}", same, f"{str(x)[:150]} / {str(z)[:150]}")
            if same:
                for f, c in enumerate(p.counts()):
                    for ell in range(c):
                        e.prove_eq(f"{tag}: slab right-hand side of component {f} node {ell}, {where}", fe.read(x[1], f, ell), fe.read(z[1], f, ell), tol=TOL)
        e.prove(f"{tag}: number of coarse solves", len(a[4]) == len(b[4]))
        for x, z in zip(a[4], b[4]):
            e.prove(f"{tag}: the same coarse solve", x[0] == z[0] and x[2] == z[2])
            for f, c in enumerate(p.counts()):
                for ell in range(c):
                    i = n * c + ell
                    e.prove_eq(f"{tag}: coarse right-hand side of component {f} node {ell}, {where}", fe.read(x[1], f, i), fe.read(z[1], f, i), tol=TOL)

    e.explore(rows, raised(e, tag))


def unit(c):
    def h(e):
        assume(e)
        e.assume(sym.compare(S, 3, ">="))
        e.assume(sym.compare(M, 2, ">="))

        def run():
            drawn = plots.make(plots.Record())
            p = setup(c, lambda w: patch(w, drawn))
            s = p.st
            p.set_initial()
            s.get_spacetime_rhs()
            p.inputs = []
            s.sample_pts_error = [ring.num_div(T, 3)]
            ops = operations(p, p.mod)
            snap = heap.walk([s, p.log, p.clog, loops.SITE, p.dd, p.weights, p.par, *heap.WORLD_ROOTS])
            fresh = {}
            for nm, op in ops.items():
                fresh[nm] = apply(e, p, op, "A", f"{nm}, first use")
                heap.restore(snap)
            # a history with every operation, a measurement, and outputs of its own
            for k, (nm, op) in enumerate(ops.items()):
                op(p.vec(f"c{k}"), p.vec(f"d{k}"))
            x = p.vec("measured")
            p.inputs = [x]
            roots = [s, p.dd, p.sol, p.weights, p.par, p.mesh, p.coarse, p.ind, x, *p.wrappers]
            for nm, use in BETWEEN.items():
                before = heap.walk(roots)
                use(s, x)
                frame(e, p, nm, before, heap.walk(roots), None)
            again = {nm: apply(e, p, op, "B", f"{nm}, after other operations") for nm, op in ops.items()}
            return p, fresh, again

        def on_path(r):
            if not ok(e, r[1], "applications return"):
                return
            p, fresh, again = r[1][1]
            for nm in fresh:
                equal_runs(e, p, f"{nm}: independent of history, scratch and old output", fresh[nm], again[nm])
            equal_runs(e, p, "matrix wrapper is the operator", fresh["apply_spacetime_matrix"], fresh["matrix wrapper"])
            if not c.fj:
                b, y, yst, log, _ = fresh["preconditioner wrapper"]
                p.log.st, y.store.st = log, yst
                check_march(e, p, p.log, b, y, "preconditioner wrapper", slab_cases, raised, TOL)

        e.explore(run, on_path)
    return h


UNIT_LIMIT = 300


def units(tier):
    return [(str(c), unit(c)) for c in cfgs(tier) if thin(tier, c)]
