"""Harness of the SpaceTime contracts: the real class over the ufl/dolfinx contracts, symbolic N, T, degrees in space, weights."""
import copy
from fractions import Fraction as F

from pyvc import engine, heap, loader, loops, ring, sym
from pyvc.ring import Poly, Unsupported
from pyvc.values import PList

from spec import forms, timebasis as tb
from world import base, fe, numpy_

ASSUMPTIONS = [
    "ufl, dolfinx and PETSc follow their contracts (world/fe.py): forms are integrals of the products written, assembly is exact, MatMult is the matrix-vector product, serial vectors",
    "get_elmat_time and basis_in_time are used through their contracts (exact integrals and Lagrange basis: C01, C02); coefficients equal up to 1e-12",
    "numbers are real numbers (no rounding)",
    "dual degree in space at most one above the primal degree (the assembly quadrature 2k+3 is then exact)",
]
TOL = F(1, 10**12)

N = ring.var("N", "int")
T = ring.var("T", "real")
K = ring.var("k", "int")
KS = ring.var("kstar", "int")
W = {k: ring.var(f"gamma_{k}", "real") for k in ("data", "dual", "primal", "primal-jump")}


def elmat_contract(q, qs):
    E = tb.elmat(q, qs)
    return {k: numpy_.NArr(numpy_.obj((len(v), len(v[0])), [ring.norm_num(x) for r in v for x in r])) for k, v in E.items()}


def _basis(q):
    ps = tb.lagrange(q)
    mk = lambda p: (lambda t: tb.peval([ring.norm_num(c) for c in p], t))  # noqa: E731
    return [mk(p) for p in ps], [mk(tb.pder(p)) for p in ps]


class Cfg:
    def __init__(self, q=1, qs=1, fj=False, wp=False, fitted=True):
        self.q, self.qs, self.fj, self.wp, self.fitted = q, qs, fj, wp, fitted

    def __str__(self):
        return f"q={self.q} q*={self.qs} fj={int(self.fj)} wp={int(self.wp)} {'fitted' if self.fitted else 'unfitted'}"


def world(extra=()):
    w = fe.make()
    lazy = ["matplotlib", "matplotlib.pyplot", "matplotlib.ticker", "matplotlib.colors", "scipy", "scipy.sparse", "dxh", "petsc4py", "petsc4py.PETSc"]
    w.update({n: fe.LazyMod(n) for n in lazy})
    w.update({"math": base.make_math(), "sympy": base.make_sympy(), "numpy": numpy_.make(), "itertools": base.make_itertools()})
    return extra(w) if callable(extra) else w | dict(extra)


def assume(e):
    e.assume(sym.compare(N, 1, ">="))
    e.assume(sym.compare(T, 0, ">"))
    e.assume(sym.compare(K, 1, ">="))
    e.assume(sym.compare(KS, 1, ">="))
    e.assume(sym.compare(KS, K + 1, "<="))
    for v in W.values():
        e.assume(sym.compare(v, 0, ">"))


class Prob:
    """One constructed problem and the contract objects around it."""

    def __init__(self, c, extra=(), setup=True, mesh=None, expr=False):
        self.c, self.expr = c, expr
        heap.WORLD_ROOTS[:] = [fe.AllFunctions()]
        heap.HARNESS_ROOTS.clear()
        loops.SITE[0] = 0
        self.ld = loader.fresh_loader(world(extra))
        pt = self.ld.load("dxss.precomp_time_int")
        pt.get_elmat_time = elmat_contract
        pt.basis_in_time = {q: _basis(q) for q in range(4)}
        self.pt = pt
        self.mod = self.ld.load("dxss.space_time")
        fe.KDEG[:] = [K, KS]
        self.mesh = mesh or fe.Mesh("mesh", fe.Comm())
        self.ind = fe.UserFn("indicator")
        if not c.fitted and expr:
            self.ind = Poly.of(ring.mk_atom("ref", ("indicator",)))
        elif not c.fitted:
            V = fe.function_space(self.mesh, ("CG", 1))
            f = fe.Function(V)
            f.store.st = (("name", ("omega",)),)
            self.ind = f
        m = self.mod
        self.dd = m.DataDomain(indicator_function=self.ind, fitted=c.fitted)
        self.sol = m.ValueAndDerivative(fe.UserFn("u", True), fe.UserFn("dtu", True))
        self.weights = dict(W)
        self.par = m.ProblemParameters(jumps_in_fw_problem=c.fj, well_posed=c.wp)
        self.t = fe.Lazy("t")
        self.st = m.SpaceTime(m.OrderTime(c.q, c.qs), m.OrderSpace(K, KS), N, T, self.t, self.mesh, self.weights, self.dd, self.sol, self.par)
        heap.HARNESS_ROOTS[:] = [self.st]
        if setup:
            self.st.setup_spacetime_finite_elements()
        self.P = forms.P(c.q, c.qs, ring.num_div(T, N), 5 * K * K, W["data"], W["dual"], W["primal"], W["primal-jump"], fj=c.fj, wp=c.wp, div=ring.num_div)

    def counts(self):
        c = self.c
        return [c.q + 1, c.q + 1, c.qs + 1, c.qs + 1]

    def vec(self, name, space=None):
        v = fe.new_vec(space or self.st.fes, (("name", (name,)),), "harness")
        return v

    def set_initial(self):
        """User's initial data."""
        self.st.u1_0.store.st = (("name", ("u1_0",)),)
        self.st.u2_0.store.st = (("name", ("u2_0",)),)

    # ---------------------------------------------------------------- spec side
    def indicator(self, mesh=None):
        """Specified weight of the data term as a scalar expression on a mesh."""
        home = self.mesh.name
        mesh = mesh or home
        if self.c.fitted:
            sk = (home, "DG", 0)
            n = Poly.of(ring.mk_atom("N", (sk, ring.mk_atom("interp", (sk, ring.mk_atom("ref", ("indicator",)))))))
        elif self.expr:
            n = Poly.of(ring.mk_atom("ref", ("indicator",)))
        else:
            n = Poly.of(ring.mk_atom("N", ((home, "CG", 1), ring.mk_atom("blk", (("omega",), 0, 0)))))
        if mesh == home:
            return n
        sk = (mesh, "DG", 0)
        return Poly.of(ring.mk_atom("N", (sk, ring.mk_atom("interp", (sk, ring.atom_of(n))))))

    def again(self, mesh):
        """A second problem from the same description."""
        p = copy.copy(self)
        m = self.mod
        p.mesh = mesh
        p.st = m.SpaceTime(m.OrderTime(p.c.q, p.c.qs), m.OrderSpace(K, KS), N, T, fe.Lazy("t"), mesh, p.weights, p.dd, p.sol, p.par)
        heap.HARNESS_ROOTS.append(p.st)
        p.st.setup_spacetime_finite_elements()
        return p

    def kern(self, name, tr, te, mesh=None):
        """Integrand of a named kernel applied to trial and test expressions."""
        mesh = mesh or self.mesh.name
        h = Poly.of(ring.mk_atom("h", (mesh,)))
        M = {k: Poly.of(ring.mk_atom("meas", (k, mesh, None))) for k in ("dx", "ds", "dS")}
        n = fe.facet_normal(None)
        g = fe.grad
        if name == "mass":
            return tr * te * M["dx"]
        if name == "stiff":
            return fe.inner(g(tr), g(te)) * M["dx"]
        if name == "nit":
            return fe.inner(n, g(tr)) * te * M["ds"]
        if name == "nitT":
            return tr * fe.inner(n, g(te)) * M["ds"]
        if name == "omega":
            return self.indicator(mesh) * tr * te * M["dx"]
        if name == "bmass":
            return ring.num_div(1, h) * tr * te * M["ds"]
        if name == "hjump":
            return (fe.restrict(h, "+") + fe.restrict(h, "-")) * F(1, 2) * fe.inner(fe.jump(g(tr)), fe.jump(g(te))) * M["dS"]
        if name == "h2mass":
            return h**2 * tr * te * M["dx"]
        if name == "h2_u_lapw":
            return h**2 * tr * fe.div(g(te)) * M["dx"]
        if name == "h2_lapu_w":
            return h**2 * fe.div(g(tr)) * te * M["dx"]
        if name == "h2laplap":
            return h**2 * fe.div(g(tr)) * fe.div(g(te)) * M["dx"]
        raise KeyError(name)

    def spec_row(self, terms, field, idx, uid, mesh=None):
        """Row (field, idx) of the matrix given by terms, trial functions of space uid."""
        star = Poly.of(ring.mk_atom("V*", ()))
        out = 0
        for co, (tf, ti), (rf, ri), kn in terms:
            if tf != field or not ring.same_num(ti, idx):
                continue
            out = out + co * self.kern(kn, Poly.of(ring.mk_atom("T", (uid, rf, ri))), VS, mesh)
        return out

    def near(self, n, e):
        """Terms that may touch the rows of slab n (cases on n are decided by the path)."""
        P = self.P
        q1, s1 = P.q + 1, P.qs + 1
        t = list(forms.slab(P, n * q1, n * s1))
        return t


class _Star(fe.UScalar):
    pass


VS = Poly.of(ring.mk_atom("V", ("*", 0, 0)))


def star(p):
    """Specification rows are written with the placeholder test function VS."""
    return fe.replace_fn(p, ring.atom_of(VS), ring.mk_atom("V*", ()))


def slab_cases(e, second=False):
    """Explore the positions of a slab: first, interior, last; also N == 1. With second, slab 1 is a case of its own."""
    n = ring.var("slab", "int")

    def pick():
        e.assume(sym.compare(n, 0, ">="))
        e.assume(sym.compare(n, N, "<"))
        first = bool(sym.compare(n, 0, "=="))
        last = bool(sym.compare(n, N - 1, "=="))
        if second and not first and bool(sym.compare(n, 1, "==")):
            return 1, first, last
        return (0 if first else n), first, last

    return pick


def same(e, name, got, want, tol=TOL):
    return e.prove_eq(name, got, want, tol=tol)


def global_row_terms(p, n, first, last, precond):
    """Specified terms that can touch the rows of slab n (position decided by the caller)."""
    P = p.P
    q1, s1 = P.q + 1, P.qs + 1
    t = list(forms.slab(P, n * q1, n * s1))
    if first:
        t += forms.initial(P)
    else:
        t += forms.interface(P, n * q1, n * s1, precond)
    if not last:
        t += forms.interface(P, (n + 1) * q1, (n + 1) * s1, precond)
    return t


def check_global(e, p, mat, precond, tag, space=None, mesh=None):
    """mat is the (block-triangular when precond) space-time matrix: row by row, at the first, an interior and the last slab."""
    space = space or p.st.fes
    if not isinstance(mat, fe.Mat):
        e.prove(f"{tag}: is an assembled matrix", False, type(mat).__name__)
        return
    e.prove(f"{tag}: assembly completed", mat.done)
    e.prove(f"{tag}: on the global space", mat.form.test is space and mat.form.trial is space)
    if mat.form.test is not space:
        return
    cnt = p.counts()

    def rows():
        n, first, last = slab_cases(e)()
        where = "only slab" if first and last else "first slab" if first else "last slab" if last else "interior slab"
        e.reachable(f"{tag}: {where}")
        terms = global_row_terms(p, n, first, last, precond)
        for f in range(4):
            for ell in range(cnt[f]):
                i = n * cnt[f] + ell
                got = fe.row(mat.p, f, i)
                want = star(p.spec_row(terms, f, i, space.uid, mesh))
                e.prove_eq(f"{tag}: row of component {f} node {ell}, {where}", got, want, tol=TOL)

    e.explore(rows, raised(e, tag))


def raised(e, tag):
    def f(r):
        if r[1][0] == "exc":
            e.prove(f"{tag}: no error", False, f"raises {type(r[1][1]).__name__}: {r[1][1]}")
        return r
    return f


def ok(e, o, tag="returns"):
    if o[0] == "exc":
        e.prove(tag, False, f"raises {type(o[1]).__name__}: {o[1]}")
        return False
    return True


def cfgs(tier, pairs=None, fitted=(True,)):
    """Degree pairs and flags of a run; every pair in {0..3}^2 at the thorough tier."""
    full = [(q, qs) for q in range(4) for qs in range(4)]
    pairs = full if tier == "thorough" or pairs is None else pairs
    return [Cfg(q, qs, fj, wp, ft) for q, qs in pairs for fj in (False, True) for wp in (False, True) for ft in fitted]


def thin(tier, c):
    """Half of the flag combinations for every pair of degrees at the quick tier, so that each pair meets each value of each flag."""
    return tier == "thorough" or (c.fj == c.wp) == ((c.q + c.qs) % 2 == 0)


def swapped(p):
    """The form with test and trial functions exchanged."""
    def sw(x):
        if isinstance(x, ring.Atom):
            if x.kind in ("T", "V"):
                return ring.mk_atom("V" if x.kind == "T" else "T", x.args)
            if x.kind in ("lap", "side"):
                return ring.mk_atom(x.kind, tuple(sw(y) for y in x.args))
        if isinstance(x, tuple):
            return tuple(sw(y) for y in x)
        return x

    def f(a):
        if a.kind in ("T", "V", "lap", "side"):
            b = sw(a)
            return None if b is a else Poly.of(b)
        if a.kind == "dot":
            return fe.dot(*sw(a.args))
        return None

    return fe.map_atoms(p, f)


def check_local(e, p, mat, terms, tag, space, cnt):
    """A matrix over a small space against its specified block terms."""
    if not isinstance(mat, fe.Mat):
        e.prove(f"{tag}: is an assembled matrix", False, type(mat).__name__)
        return
    e.prove(f"{tag}: assembly completed", mat.done)
    e.prove(f"{tag}: on its space", mat.form.test is space and mat.form.trial is space)
    if mat.form.test is not space:
        return
    for f, c in enumerate(cnt):
        for i in range(c):
            e.prove_eq(f"{tag}: row of component {f} node {i}", fe.row(mat.p, f, i), star(p.spec_row(terms, f, i, space.uid)), tol=TOL)


def split_trials(r, cnt, n):
    """Row polynomial -> {slab offset: polynomial with local trial indices}; None where a trial function is not in slabs n-1..n+1."""
    out = {}
    for en in fe.flatten(r) if False else [fe.Entry((), m, c) for m, c in Poly.lift(r).t.items()]:
        (t, _), = en.T
        _, g, j = t.args
        d = j - n * cnt[g]
        if isinstance(d, Poly):
            raise Unsupported("trial index of a row")
        off, loc = divmod(d, cnt[g])
        q = fe.replace_fn(en.poly(), t, ring.mk_atom("T", ("loc", g, int(loc))))
        out[int(off)] = out.get(int(off), 0) + q
    return out


def local_row(mat, f, i):
    r = fe.row(mat.p, f, i)
    out = 0
    for m, c in Poly.lift(r).t.items():
        en = fe.Entry((), m, c)
        (t, _), = en.T
        out = out + fe.replace_fn(en.poly(), t, ring.mk_atom("T", ("loc", t.args[1], t.args[2])))
    return out
