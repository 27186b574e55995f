"""Iterative solve: the settings in force are the caller's."""
import os
import re
import tempfile

import numpy as np
from petsc4py import PETSc

from replay.c18 import Op, Pre, quiet, random_system, vec

RULE = "settings read back from the PETSc solver object at the moment of the solve"
BOUND = "all combinations of given and omitted settings with random values; PETSc 3.19"


def run(ctx):
    import dxss.gmres as G
    real, rsys = PETSc.KSP, PETSc.Sys
    log = {}

    class K(real):
        def solve(self, b, x):
            A, Pm = self.getOperators()
            log["tol"] = self.getTolerances()
            log["type"] = self.getType()
            log["A"] = A.getPythonContext()
            log["P"] = Pm.getPythonContext()
            pc = self.getPC()
            log["pc"], log["pctx"] = pc.getType(), pc.getPythonContext()
            log["side"] = self.getPCSide()
            log["guess"] = self.getInitialGuessNonzero()
            log["x0"] = x.array.copy()
            fd, name = tempfile.mkstemp()
            os.close(fd)
            v = PETSc.Viewer().createASCII(name, "w")
            self.view(v)
            v.destroy()
            log["view"] = open(name).read()
            os.unlink(name)
            n0 = len(printed)
            super().solve(b, x)
            log["its"] = self.getIterationNumber()
            log["during"] = printed[n0:]

    printed = []

    class Sys(rsys):
        @classmethod
        def Print(cls, *a, **k):
            printed.append(" ".join(map(str, a)))

    opts = PETSc.Options()
    before = dict(opts.getAll())
    PETSc.KSP, PETSc.Sys = K, Sys
    try:
        for i in range(140 if not ctx.deep else 800):
            n = ctx.rng.randrange(3, 20)
            M, P, b = random_system(ctx, n)
            kw, want = {}, {"rtol": 1e-7, "atol": 1e-12, "max": 100, "restart": 1000, "rates": True}
            if i % 2:
                v = ctx.rng.choice([0.0, 1e-3, 1e-9, 0.5, 3e-5])
                kw["tol"] = want["atol"] = v
            if (i // 2) % 2:
                v = ctx.rng.choice([0.0, 1e-2, 1e-10, 3e-6]) if kw.get("tol") != 0.0 else ctx.rng.choice([1e-2, 3e-6])
                kw["reltol"] = want["rtol"] = v
            if (i // 4) % 2:
                kw["restart"] = want["restart"] = ctx.rng.choice([1, 2, 3, 5, 17, 30, 999, 2000])
            if (i // 8) % 2:
                kw["maxsteps"] = want["max"] = ctx.rng.choice([1, 2, 7, 50, 1000, 10**6])
            if (i // 16) % 2 or ctx.rng.random() < 0.3:
                kw["printrates"] = want["rates"] = bool(ctx.rng.randrange(2))
            A, pre, bv = Op(M), Pre(P), vec(b)
            printed.clear()
            log.clear()
            with quiet():
                try:
                    G.get_gmres_solution(A, bv, pre, **kw)
                except PETSc.Error:
                    pass
            inp = {"settings": kw, "case": i}
            if not ctx.check("the solver was run", "tol" in log, inp):
                continue
            rt, at, dt, mx = log["tol"]
            ctx.check("relative tolerance", rt == want["rtol"], {**inp, "in force": rt})
            ctx.check("absolute tolerance", at == want["atol"], {**inp, "in force": at})
            ctx.check("iteration limit", mx == want["max"], {**inp, "in force": mx})
            m = re.search(r"restart=(\d+)", log["view"])
            ctx.check("restart length", m is not None and int(m.group(1)) == want["restart"], {**inp, "in force": m and m.group(1)})
            ctx.check("GMRES", log["type"] == "gmres", {**inp, "in force": log["type"]})
            ctx.check("the supplied operator", log["A"] is A, inp)
            ctx.check("the supplied preconditioner", log["pctx"] is pre and log["pc"] == "python", inp)
            ctx.check("zero initial guess", not np.any(log["x0"]) or not log["guess"], inp)
            rates = [p for p in log["during"]]
            ctx.check("progress printed exactly when requested", (len(rates) >= log["its"] + 1) if want["rates"] else not rates,
                      {**inp, "printed": len(rates), "iterations": log["its"]})
        after = dict(opts.getAll())
        # settings of one call do not leak into the options database as something a later call would obey
        bad = [k for k in set(after) - set(before) if re.search(r"rtol|atol|max_it|restart|pc_type|ksp_type", k)]
        ctx.check("no setting left behind for later calls", not bad, {"options": bad})
    finally:
        PETSc.KSP, PETSc.Sys = real, rsys
