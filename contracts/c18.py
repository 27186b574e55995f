"""C18: the iterative solve returns a converged solution of its system together with its residual, or raises."""
from pyvc import engine, ring, sym

from world import krylov

from .gm import Caller, setup

ASSUMPTIONS = ["contract of petsc4py/PETSc 3.19 in world/krylov.py (KSP type state; a solve ends with a non-zero reason, positive when converged)"]


def unit(kw):
    def h(e):
        w, P, g, n, b = setup()
        A, M = Caller("A"), Caller("P")
        e.assume(sym.compare(n, 1, ">="))
        e.reachable("precondition")
        args = {k: (ring.var(k, "int" if k in ("maxsteps", "restart") else "real") if v is ... else v) for k, v in kw.items()}
        for k in ("tol", "reltol", "maxsteps"):
            if isinstance(args.get(k), ring.Poly):
                e.assume(sym.compare(args[k], 0, ">="))
        if "restart" in args and isinstance(args["restart"], ring.Poly):
            e.assume(sym.compare(args["restart"], 1, ">="))
        log0, pr0, op0 = list(w.log), list(w.printed), dict(w.options)
        k0 = w.n

        def run():
            return g.get_gmres_solution(A, b, M, **args)

        seen = {"ret": 0, "exc": 0}

        def reset():
            w.log[:], w.printed[:], w.n = log0, pr0, k0
            w.options.clear()
            w.options.update(op0)
            b.__dict__["_st"] = krylov.vecatom("b")

        def on_path(r):
            pcs, o = r
            solves = [x[1] for x in w.log if x[0] == "solve"]
            e.prove("right-hand side unchanged", ring.same_num(b.val, krylov.vecatom("b")), str(b.val))
            e.prove("operator unchanged", A.__dict__ == {"n": "A"} and M.__dict__ == {"n": "P"})
            if o[0] == "exc":
                seen["exc"] += 1
                neg = [s for s in solves if e.entails(sym.compare(s["reason"], 0, "<"))]
                e.prove("raises only when the iteration did not converge", bool(neg), f"raises {type(o[1]).__name__}: {o[1]}")
                e.prove("the error is an exception of the solver library or a subclass of Exception", isinstance(o[1], Exception))
                return None
            seen["ret"] += 1
            out = o[1]
            ok = e.prove("returns a pair", isinstance(out, tuple) and len(out) == 2, str(out))
            if not ok:
                return None
            x, res = out
            hit = [s for s in solves if isinstance(x, krylov.Vec) and ring.same_num(x.val, krylov.vecatom(f"solution of {s['tag']}"))]
            if not e.prove("the returned vector is the result of a solve", bool(hit), f"{getattr(x, 'val', x)}"):
                return None
            s = hit[-1]
            e.prove("convergence was reported for it", sym.compare(s["reason"], 0, ">"))
            e.prove("it solves with the supplied operator", s["A"].kind == "shell" and s["A"].ctx is A)
            e.prove("the operator has the size of the right-hand side", all(ring.same_num(z, n) for z in s["A"].size_), str(s["A"].size_))
            e.prove("it solves with the supplied right-hand side", ring.same_num(s["bval"], krylov.vecatom("b")), str(s["bval"]))
            want = krylov.vecatom("b") - krylov.lin_apply(("ctx", id(A)), x.val)
            e.prove_eq("the second value is the residual of the returned vector", res.val if isinstance(res, krylov.Vec) else res, want)
            e.prove("distinct result vectors", x is not res and x is not b and res is not b)
            return None

        e.explore(run, on_path, reset)
        e.prove("the converged outcome is reachable and returns", seen["ret"] > 0)
        e.prove("the divergent outcome raises", seen["exc"] > 0)
    return h


def units(tier):
    return [("defaults", unit({})), ("silent", unit({"printrates": False})),
            ("given settings", unit({"tol": ..., "reltol": ..., "maxsteps": ..., "restart": ..., "printrates": True})),
            ("zero tolerances", unit({"tol": 0, "reltol": 0, "restart": 1}))]
