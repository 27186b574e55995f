"""C19: the settings in force during the solve are the caller's."""
import itertools
from fractions import Fraction as F

from pyvc import engine, ring, sym

from world import krylov

from .gm import Caller, setup

ASSUMPTIONS = ["contract of petsc4py/PETSc 3.19 in world/krylov.py (setter semantics, options database, monitor calls)",
               "no PETSc command-line options are given by the user"]
DEF = {"tol": F(1, 10**12), "reltol": F(1, 10**7), "restart": 1000, "maxsteps": 100}


def args_for(given, tag=""):
    return {k: ring.var(k + tag, "int" if k in ("maxsteps", "restart") else "real") for k in given}


def check(e, s, A, M, args, rates, pre):
    get = lambda k: args.get(k, DEF[k])  # noqa: E731
    e.prove_eq(pre + "absolute tolerance", s["settings"]["atol"], get("tol"))
    e.prove_eq(pre + "relative tolerance", s["settings"]["rtol"], get("reltol"))
    e.prove_eq(pre + "iteration limit", s["settings"]["max_it"], get("maxsteps"))
    e.prove_eq(pre + "restart length", s["restart"], get("restart"))
    e.prove(pre + "method is GMRES", s["type"] == "gmres", s["type"])
    e.prove(pre + "operator is the supplied one", s["A"].kind == "shell" and s["A"].ctx is A and s["P"] is not None and s["P"].ctx is A)
    e.prove(pre + "preconditioner is the supplied one", s["pc"] == "python" and s["pcctx"] is M, f"{s['pc']}")
    e.prove(pre + "starts from zero", not s["guess"] or ring.same_num(s["x0"], 0))
    e.prove(pre + "standard convergence test", not s["extra"].get("convergence test") and not s["extra"].get("ksp_convergence_test"))
    e.prove(pre + "progress printed exactly when requested", s["shown"] == (1 if rates else 0), f"{s['shown']} lines per iteration, {s['monitors']} monitors")


def unit(given, rates, second=False):
    def h(e):
        w, P, g, n, b = setup()
        A, M = Caller("A"), Caller("P")
        e.assume(sym.compare(n, 1, ">="))
        args = args_for(given)
        args2 = args_for([k for k in DEF if k not in given], "'")
        for k, v in [*args.items(), *args2.items()]:
            e.assume(sym.compare(v, 1 if k == "restart" else 0, ">="))
        e.reachable("precondition")
        kw = dict(args) if rates is None else dict(args, printrates=rates)
        log0, k0 = list(w.log), w.n
        n_solves = [0]

        def reset():
            w.log[:], w.n = log0, k0
            w.printed.clear()
            w.options.clear()
            b.__dict__["_st"] = krylov.vecatom("b")

        def run():
            try:
                g.get_gmres_solution(A, b, M, **kw)
            except Exception as ex:  # noqa: BLE001
                engine.genuine(ex)
            k = len(w.log)
            if second:
                A2, M2 = Caller("A2"), Caller("P2")
                try:
                    g.get_gmres_solution(A2, b, M2, **dict(args2, printrates=not (rates is None or rates)))
                except Exception as ex:  # noqa: BLE001
                    engine.genuine(ex)
                return k, A2, M2
            return k, None, None

        def on_path(r):
            o = r[1]
            if o[0] == "exc":
                raise o[1]
            k, A2, M2 = o[1]
            s1 = [x[1] for x in w.log[:k] if x[0] == "solve"]
            if e.prove("a solve takes place", bool(s1)):
                for s in s1:
                    check(e, s, A, M, args, rates is None or rates, "")
                    n_solves[0] += 1
            if second:
                s2 = [x[1] for x in w.log[k:] if x[0] == "solve"]
                if e.prove("second call: a solve takes place", bool(s2)):
                    for s in s2:
                        check(e, s, A2, M2, args2, not (rates is None or rates), "second call: ")
            return None

        e.explore(run, on_path, reset)
        e.prove("solves observed", n_solves[0] > 0)
    return h


def units(tier):
    out = []
    for r in range(5):
        for given in itertools.combinations(DEF, r):
            for rates in (None, True, False):
                if rates is True and r not in (0, 4):
                    continue
                out.append((f"given {given or 'nothing'}, printrates {rates}", unit(given, rates, second=rates is not True)))
    out.append(("positional arguments", positional))
    return out


def positional(e):
    """The documented order of the parameters."""
    w, P, g, n, b = setup()
    A, M = Caller("A"), Caller("P")
    a = args_for(["maxsteps", "tol", "restart", "reltol"])
    for k, v in a.items():
        e.assume(sym.compare(v, 1 if k == "restart" else 0, ">="))
    e.reachable("precondition")

    def run():
        w.log.clear()
        g.get_gmres_solution(A, b, M, a["maxsteps"], a["tol"], a["restart"], False, a["reltol"])

    def on_path(r):
        for x in [x[1] for x in w.log if x[0] == "solve"]:
            check(e, x, A, M, a, False, "")

    e.explore(run, on_path)
