"""C22: shipped solve procedures."""
from pyvc import engine, loader, ring, sym
from pyvc.ring import Unsupported
from pyvc.values import PList

from world import base, krylov, numpy_

from .drv import Sparse, load

ASSUMPTIONS = ["contracts of SpaceTime (C05-C17), of the iterative solve (C18) and of the mesh generators (C23) at the driver's call sites",
               "PETSc preonly+LU and the Pardiso solver phases solve exactly (world/krylov.py, contracts/drv.py)"]


def inv(op, v):
    return krylov.lin_apply(("inv", op), v)


def try_solver(e, d, s, op, tag, k):
    w = d.w
    b = krylov.Vec(w, krylov.vecatom(f"b{k}"), ring.var("ns", "int"))
    x = krylov.Vec(w, krylov.vecatom(f"old{k}"), ring.var("ns", "int"))
    s.solve(b, x)
    e.prove_eq(f"{tag}: writes the solution of its slab system into its output", x.val, inv(op, krylov.vecatom(f"b{k}")))
    e.prove_eq(f"{tag}: leaves its right-hand side", b.val, krylov.vecatom(f"b{k}"))


def unit(dim, path, errors):
    def h(e):
        def run():
            d = load(dim, pardiso=path == "pypardiso")
            if path == "direct":
                d.mod.SOLVER_TYPE = "direct"
            d.auto = d.mod.SOLVER_TYPE
            d.mod.SOLVER_TYPE = path
            d.mod.solve_problem(measure_errors=errors)
            return d

        def on_path(r):
            o = r[1]
            if o[0] == "exc":
                e.prove("returns", False, f"raises {type(o[1]).__name__}: {o[1]}")
                return
            d = o[1]
            p = d.problem
            e.reachable("precondition")
            e.prove("one problem is built", len(d.problems) == 1)
            if path != "direct":
                e.prove("path selected by availability of the direct solver", d.auto == path, d.auto)
            G, S, Fst = ("G", id(p)), ("S", id(p)), ("F", id(p))
            rhs = krylov.vecatom("rhs")
            want = inv(G, rhs)
            errs = [x for x in d.log if x[0] == "errors"]
            e.prove("errors measured exactly when asked", len(errs) == (1 if errors else 0), str(len(errs)))
            for x in d.log:
                if x[0] in ("errors", "plot"):
                    e.prove_eq(f"{x[0]}: vector shown is the solution of the assembled system", x[2], want)
            gm = [x for x in d.log if x[0] == "gmres"]
            dr = [x[1] for x in d.w.log if x[0] == "solve"]
            if path == "direct":
                e.prove("one direct solve", len(dr) == 1 and not gm, f"{len(dr)}, {len(gm)}")
                for s in dr:
                    e.prove("direct solve of the assembled matrix by LU", s["type"] == "preonly" and s["pc"] == "lu" and s["A"].op == G, str(s["A"].op))
                    e.prove("direct solve has the system's right-hand side", ring.same_num(s["bval"], rhs))
            else:
                e.prove("one iterative solve", len(gm) == 1, str(len(gm)))
                for g in gm:
                    _, A, pre, b, bval, (sl, fi), a, k = g
                    e.prove("operator and preconditioner wrap the problem", A.st is p and pre.st is p)
                    e.prove("its right-hand side is the problem's", ring.same_num(bval, rhs), str(bval))
                    e.prove("slab solvers are set before solving", sl is not None and fi is not None)
                    e.prove("problem prepared before solving", "pre" in p.ready)
                e.prove("general slab solver set", p.slab is not None)
                e.prove("first slab solver set", p.first is not None)
                if p.slab is not None and p.first is not None:
                    try_solver(e, d, p.slab, S, "general slab", 1)
                    try_solver(e, d, p.first, Fst, "first slab", 2)
                    try_solver(e, d, p.slab, S, "general slab again", 3)
                    try_solver(e, d, p.first, Fst, "first slab again", 4)
            e.prove_eq("the problem's right-hand side is unchanged", p.get_spacetime_rhs().val, rhs)

        e.explore(run, on_path)
    return h


class Lazy:
    """Placeholder for names get_sparse_matrix does not use."""

    def __init__(self, n):
        self._n = n

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        return Lazy(f"{self._n}.{n}")

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._n}")


class LazyMod(base.Mod):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Lazy(f"{self.__name__}.{n}")


class Tok:
    """One of the three CSR arrays."""

    def __init__(self, what, n, src):
        self.what, self.n, self.src = what, n, src

    def pv_len(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def copy(self):
        return Tok(self.what, self.n, self.src)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"csr array.{n}")


class CSR:
    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if not (isinstance(arg, tuple) and len(arg) == 3 and all(isinstance(t, Tok) for t in arg)):
            raise Unsupported("csr_matrix argument")
        self.arg, self.given = arg, shape
        if shape is None:
            self.shape = (arg[2].n - 1, ring.app("maxcol", ring.app("entries"), sort="int") + 1)
        else:
            self.shape = tuple(shape)

    def tocsr(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"csr_matrix.{n}")


def sparse(e):
    names = ["numpy", "matplotlib", "matplotlib.pyplot", "matplotlib.ticker", "matplotlib.colors", "ufl", "dolfinx", "dolfinx.fem", "dolfinx.io",
             "dolfinx.fem.petsc", "dxh", "mpi4py", "petsc4py", "petsc4py.PETSc", "mpi4py.MPI"]
    world = {n: LazyMod(n) for n in names}
    sp = base.mod("scipy.sparse", csr_matrix=CSR, csr_array=CSR)
    world.update({"math": base.make_math(), "sympy": base.make_sympy(), "numpy": numpy_.make(), "scipy": base.mod("scipy", sparse=sp), "scipy.sparse": sp})
    m = loader.fresh_loader(world).load("dxss.space_time")
    r, c, z = ring.var("rows", "int"), ring.var("cols", "int"), ring.var("nnz", "int")
    for v in (r, c, z):
        e.assume(sym.compare(v, 0, ">="))
    e.reachable("precondition")

    class M:
        def getValuesCSR(self):  # noqa: N802
            return Tok("ai", r + 1, self), Tok("aj", z, self), Tok("av", z, self)

        def getSize(self):  # noqa: N802
            return (r, c)

        size = property(getSize)

        def getLocalSize(self):  # noqa: N802
            return (r, c)

        def __getattr__(self, n):
            raise Unsupported(f"Mat.{n}")

    a = M()

    def on_path(x):
        o = x[1]
        if o[0] == "exc":
            e.prove("returns", False, f"raises {type(o[1]).__name__}: {o[1]}")
            return
        s = o[1]
        if not isinstance(s, CSR):
            raise Unsupported(f"returns {type(s).__name__}")
        for t, k in zip(s.arg, ("av", "aj", "ai")):
            e.prove(f"{k} is passed in its place", t.what == k and t.src is a, t.what)
        e.prove_eq("number of rows preserved", s.shape[0], r)
        e.prove_eq("number of columns preserved", s.shape[1], c)

    e.explore(lambda: m.get_sparse_matrix(a), on_path)


def units(tier):
    out = [("sparse conversion", sparse)]
    for dim in (1, 2, 3):
        for path in ("pypardiso", "petsc-LU", "direct"):
            for errs in (True, False):
                out.append((f"{dim}d {path}, errors {errs}", unit(dim, path, errs)))
    return out
