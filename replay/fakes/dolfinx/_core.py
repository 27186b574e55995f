"""Small serial stand-in for DOLFINx: affine simplex meshes, Lagrange/DG elements, direct evaluation of UFL forms.

Dof numbering is a random permutation per space, so code that confuses unknowns shows up. Forms are evaluated from
the UFL expression itself (real UFL), no form compiler involved."""
from __future__ import annotations

import itertools
import math

import numpy as np
import ufl
from mpi4py import MPI
from petsc4py import PETSc
from fake_errors import FakeUnsupported
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from ufl.core.multiindex import FixedIndex, Index, MultiIndex

RNG = np.random.default_rng(20261119)


def lattice(dim, k):
    if k == 0:
        return [np.full(dim, 1.0 / (dim + 1))]
    out = []
    for c in itertools.product(range(k + 1), repeat=dim):
        if sum(c) <= k:
            out.append(np.array(c, float) / k)
    return out


class RefEl:
    """Lagrange element of degree k on the reference simplex (monomial coefficients)."""

    _cache = {}

    def __new__(cls, dim, k):
        key = (dim, k)
        if key not in cls._cache:
            o = object.__new__(cls)
            o.dim, o.k = dim, k
            o.nodes = np.array(lattice(dim, k)).reshape(-1, dim)
            o.exps = [c for c in itertools.product(range(k + 1), repeat=dim) if sum(c) <= k]
            V = np.array([[np.prod([x[i] ** e[i] for i in range(dim)]) for e in o.exps] for x in o.nodes])
            o.C = np.linalg.inv(V)  # columns: basis functions
            cls._cache[key] = o
        return cls._cache[key]

    def tab(self, X, der):
        """Derivative (tuple of reference directions) of all basis functions at points X (..., dim) -> (..., nb)."""
        M = []
        for e in self.exps:
            e = list(e)
            c = 1.0
            for d in der:
                c *= e[d]
                e[d] -= 1
            if c == 0:
                M.append(np.zeros(X.shape[:-1]))
                continue
            v = np.full(X.shape[:-1], c)
            for i in range(self.dim):
                v = v * X[..., i] ** e[i]
            M.append(v)
        return np.stack(M, -1) @ self.C


def simplex_quad(dim, deg):
    n = deg // 2 + 1 + (dim - 1)
    g, w = np.polynomial.legendre.leggauss(n)
    g, w = (g + 1) / 2, w / 2
    if dim == 0:
        return np.zeros((1, 0)), np.ones(1)
    if dim == 1:
        return g[:, None], w
    pts, ws = [], []
    for idx in itertools.product(range(n), repeat=dim):
        u = [g[i] for i in idx]
        wt = np.prod([w[i] for i in idx])
        x = []
        rem = 1.0
        for i, ui in enumerate(u):
            x.append(rem * ui)
            wt *= rem if i < dim - 1 else 1.0
            if i < dim - 1:
                pass
            rem = rem * (1 - ui)
        # Jacobian of the conical map
        J = 1.0
        r = 1.0
        for i in range(dim - 1):
            r *= 1 - u[i]
            J *= r
        pts.append(x)
        ws.append(np.prod([w[i] for i in idx]) * J)
    return np.array(pts), np.array(ws)


CELLS = {1: ufl.interval, 2: ufl.triangle, 3: ufl.tetrahedron}


class _Geom:
    def __init__(self, x):
        self.x = np.hstack([x, np.zeros((len(x), 3 - x.shape[1]))]) if x.shape[1] < 3 else x
        self.dim = x.shape[1]


class _Topo:
    def __init__(self, m):
        self.dim = m.dim
        self._m = m

    def create_connectivity(self, *a):
        pass

    def index_map(self, d):
        class IM:
            size_local = len(self._m.cells)
            num_ghosts = 0
        return IM()


class Mesh:
    def __init__(self, points, cells, comm=MPI.COMM_WORLD):
        self.pts = np.asarray(points, float)
        self.cells = np.asarray(cells, int)
        self.dim = self.pts.shape[1]
        self.comm = comm
        self._dom = ufl.Mesh(ufl.VectorElement("CG", CELLS[self.dim], 1))
        self._dom._ufl_cargo = self
        self._dom._fake_mesh = self
        self.geometry = _Geom(self.pts)
        self.topology = _Topo(self)
        self._num = {}
        self.X0 = self.pts[self.cells[:, 0]]
        self.J = np.stack([self.pts[self.cells[:, i + 1]] - self.X0 for i in range(self.dim)], -1)
        self.K = np.linalg.inv(self.J)
        self.detJ = np.abs(np.linalg.det(self.J))
        d = np.zeros(len(self.cells))
        for a, b in itertools.combinations(range(self.dim + 1), 2):
            d = np.maximum(d, np.linalg.norm(self.pts[self.cells[:, a]] - self.pts[self.cells[:, b]], axis=1))
        self.diam = d
        fac = {}
        for c, v in enumerate(self.cells):
            for o in range(self.dim + 1):
                key = tuple(sorted(np.delete(v, o)))
                fac.setdefault(key, []).append((c, v[o]))
        self.ext = [(k, v[0]) for k, v in fac.items() if len(v) == 1]
        self.int = [(k, v[0], v[1]) for k, v in fac.items() if len(v) == 2]

    def ufl_cell(self):
        return self._dom.ufl_cell()

    def ufl_domain(self):
        return self._dom

    # scalar numbering
    def scalar(self, fam, k):
        key = (fam, k)
        if key not in self._num:
            el = RefEl(self.dim, k)
            disc = fam in ("DG", "Discontinuous Lagrange", "DQ") or k == 0
            ids, coords = {}, []
            cell = np.zeros((len(self.cells), len(el.nodes)), int)
            for c in range(len(self.cells)):
                for a, X in enumerate(el.nodes):
                    x = self.X0[c] + self.J[c] @ X
                    kk = (c, a) if disc else tuple(np.round(x, 9))
                    if kk not in ids:
                        ids[kk] = len(coords)
                        coords.append(x)
                    cell[c, a] = ids[kk]
            n = len(coords)
            perm = RNG.permutation(n)
            co = np.zeros((n, self.dim))
            co[perm] = np.array(coords)
            self._num[key] = (perm[cell], co, n)
        return self._num[key]


def elements(e):
    """Flatten a UFL element into its scalar pieces [(family, degree)]."""
    if isinstance(e, tuple):
        return [(e[0], e[1])]
    subs = list(e.sub_elements) if not callable(getattr(e, "sub_elements", None)) else list(e.sub_elements())
    if subs:
        out = []
        for s in subs:
            out += elements(s)
        return out
    return [(e.family() if callable(e.family) else e.family(), e.degree())]


class _El:
    def __init__(self, sp):
        self._sp = sp

    def interpolation_points(self):
        return RefEl(self._sp.mesh.dim, self._sp.comps[0][1]).nodes


class _DM:
    def __init__(self, sp):
        self._sp = sp

    @property
    def index_map(self):
        sp = self._sp

        class IM:
            size_global = sp.ndofs
            size_local = sp.ndofs
        return IM()

    index_map_bs = 1

    def cell_dofs(self, c):
        return np.concatenate([self._sp.dof[i][self._sp.mesh.scalar(*self._sp.comps[i])[0][c]] for i in range(len(self._sp.comps))])


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, element, *a, _parent=None, _comps=None, _dof=None, _uel=None):
        self.mesh = mesh
        if isinstance(element, tuple) and isinstance(element[0], str):
            if len(element) > 2 and element[2]:
                sh = element[2]
                element = ufl.VectorElement(element[0], mesh.ufl_cell(), element[1], int(np.prod(sh)))
            else:
                element = ufl.FiniteElement(element[0], mesh.ufl_cell(), element[1])
        self.uel = element
        self.comps = elements(element)
        if _dof is None:
            sizes = [mesh.scalar(*c)[2] for c in self.comps]
            self.ndofs = sum(sizes)
            # a scalar space keeps the numbering of its nodes (as collapsed spaces of the same element do)
            perm = RNG.permutation(self.ndofs) if len(self.comps) > 1 else np.arange(self.ndofs)
            off = np.concatenate([[0], np.cumsum(sizes)])
            self.dof = [perm[off[i]:off[i + 1]] for i in range(len(sizes))]
            self.root, self.offset = self, 0
        else:
            self.dof, self.ndofs = _dof, _parent.root.ndofs
            self.root = _parent.root
        super().__init__(mesh._dom, element)
        self.ufl_space = self
        self.element = _El(self)
        self.dofmap = _DM(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    @property
    def num_sub_spaces(self):
        return self.uel.num_sub_elements()

    def sub(self, i):
        subs = self.uel.sub_elements
        subs = list(subs() if callable(subs) else subs)
        if i >= len(subs) or i < 0:
            raise IndexError("subspace index out of range")
        lens = [len(elements(s)) for s in subs]
        o = sum(lens[:i])
        return FunctionSpace(self.mesh, subs[i], _parent=self, _dof=self.dof[o:o + lens[i]])

    def collapse(self):
        sp = FunctionSpace(self.mesh, self.uel)
        m = np.zeros(sp.ndofs, int)
        for d, p in zip(sp.dof, self.dof):
            m[d] = p
        return sp, m

    def tabulate_dof_coordinates(self):
        out = np.zeros((self.ndofs, 3))
        for c, d in zip(self.comps, self.dof):
            out[d, : self.mesh.dim] = self.mesh.scalar(*c)[1]
        return out


class _X:
    def __init__(self, arr):
        self._a = arr

    @property
    def array(self):
        return self._a

    @array.setter
    def array(self, v):
        self._a[:] = v

    petsc_vec = None

    def scatter_forward(self):
        pass

    def scatter_reverse(self, *a):
        pass

    def set(self, v):
        self._a[:] = v


class Function(ufl.Coefficient):
    def __init__(self, V, x=None, name=None, dtype=None, _share=None):
        super().__init__(V.ufl_space)
        self._V = V
        arr = _share if _share is not None else np.zeros(V.root.ndofs if V.root is not V else V.ndofs)
        self._x = x if x is not None else _X(arr)
        self.name = name or "f"
        self._vec = None

    @property
    def function_space(self):
        return self._V

    @property
    def x(self):
        return self._x

    @property
    def vector(self):
        if self._vec is None:
            self._vec = PETSc.Vec().createWithArray(self._x._a, comm=MPI.COMM_SELF)
        return self._vec

    def split(self):
        subs = self._V.uel.sub_elements
        n = len(list(subs() if callable(subs) else subs))
        return tuple(Function(self._V.sub(i), x=self._x) for i in range(n))

    def sub(self, i):
        return Function(self._V.sub(i), x=self._x)

    def collapse(self):
        sp, m = self._V.collapse()
        f = Function(sp)
        f.x.array[:] = self.x.array[m]
        return f

    def copy(self):
        f = Function(self._V)
        f.x.array[:] = self.x.array
        return f

    def interpolate(self, u, cells=None, **k):
        V = self._V
        if len(V.comps) != 1:
            raise FakeUnsupported("interpolation into a blocked space")
        xy = V.mesh.scalar(*V.comps[0])[1]
        p = np.zeros((3, len(xy)))
        p[: V.mesh.dim] = xy.T
        if isinstance(u, Function):
            vals = evaluate(u, p.T)
        elif isinstance(u, Expression):
            vals = u.eval_nodes(V)
        elif callable(u):
            vals = np.asarray(u(p), float).reshape(-1)
            if vals.size == 1:
                vals = np.full(len(xy), float(vals[0]))
        else:
            raise RuntimeError("cannot interpolate this object")
        if vals.shape != (len(xy),):
            raise RuntimeError("Interpolation data has the wrong shape/size.")
        self.x.array[V.dof[0]] = vals

    def eval(self, x, cells):
        return evaluate(self, np.atleast_2d(x))[:, None]


class Constant(ufl.Constant):
    def __init__(self, domain, c):
        super().__init__(domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain, np.shape(c))
        self.value = np.asarray(c, float)


def locate(mesh, p):
    """Cell and reference point of physical points (nearest cell by barycentric violation)."""
    X = np.einsum("cij,pcj->pci", mesh.K, p[:, None, : mesh.dim] - mesh.X0[None])
    viol = np.maximum(np.max(-X, axis=2), X.sum(2) - 1)
    c = np.argmin(viol, axis=1)
    return c, X[np.arange(len(p)), c]


def evaluate(f, pts):
    V = f._V
    c, X = locate(V.mesh, np.asarray(pts, float))
    el = RefEl(V.mesh.dim, V.comps[0][1])
    cn = V.mesh.scalar(*V.comps[0])[0]
    B = el.tab(X, ())
    return np.einsum("pa,pa->p", B, f.x.array[V.dof[0][cn[c]]])


class Expression:
    def __init__(self, e, pts, *a, **k):
        self.e = e

    def eval_nodes(self, V):
        mesh = V.mesh
        el = RefEl(mesh.dim, V.comps[0][1])
        cn = mesh.scalar(*V.comps[0])[0]
        ctx = CellCtx(mesh, el.nodes)
        v = Ev(ctx).ev(lower(self.e), (), {}).get((None, None), 0.0)
        v = np.broadcast_to(v, (len(mesh.cells), len(el.nodes)))
        out = np.zeros(V.ndofs)
        out[cn] = v
        return out


def lower(e):
    return apply_derivatives(apply_algebra_lowering(ufl.as_ufl(e)))


# ---------------------------------------------------------------- contexts: points of integration entities
class CellCtx:
    sides = (0,)

    def __init__(self, mesh, Xq):
        self.mesh = mesh
        n = len(mesh.cells)
        self.cells = {0: np.arange(n)}
        self.X = {0: np.broadcast_to(Xq[None], (n, *Xq.shape))}
        self.x = mesh.X0[:, None] + np.einsum("cij,qj->cqi", mesh.J, Xq)
        self.n = {}


class FacetCtx:
    def __init__(self, mesh, facets, Xq):
        self.mesh = mesh
        self.sides = tuple(range(len(facets[0]) - 1)) if facets else (0,)
        self.cells, self.X, self.n = {}, {}, {}
        fv = np.array([mesh.pts[list(f[0])] for f in facets]).reshape(len(facets), mesh.dim, mesh.dim)
        x = fv[:, :1, :] + np.einsum("fij,qi->fqj", fv[:, 1:, :] - fv[:, :1, :], Xq) if mesh.dim > 1 else fv[:, :1, :]
        self.x = x
        T = fv[:, 1:, :] - fv[:, :1, :]
        if mesh.dim == 1:
            self.area = np.ones(len(facets))
        else:
            G = np.einsum("fij,fkj->fik", T, T)
            self.area = np.sqrt(np.linalg.det(G))
        for s in self.sides:
            c = np.array([f[1 + s][0] for f in facets], int)
            o = np.array([f[1 + s][1] for f in facets], int)
            self.cells[s] = c
            self.X[s] = np.einsum("fij,fqj->fqi", mesh.K[c], x - mesh.X0[c][:, None])
            # outward normal: remove tangential part of (facet point - opposite vertex)
            d = fv[:, 0, :] - mesh.pts[o]
            if mesh.dim > 1:
                G = np.einsum("fij,fkj->fik", T, T)
                co = np.linalg.solve(G, np.einsum("fij,fj->fi", T, d)[..., None])[..., 0]
                d = d - np.einsum("fi,fij->fj", co, T)
            self.n[s] = d / np.linalg.norm(d, axis=1)[:, None]


class Ev:
    """expr -> {(test_key, trial_key): values over (entities, points)}; keys are (side, comp, node) or None."""

    def __init__(self, ctx):
        self.c = ctx
        self.side = 0 if len(ctx.sides) == 1 else None
        self.memo = {}

    def sc(self, v):
        return {(None, None): v}

    def ev(self, e, comp, env):
        fi = tuple((i.count(), env[i]) for i in e.ufl_free_indices_obj()) if False else tuple(sorted((k.count(), v) for k, v in env.items()))
        key = (id(e), comp, fi, self.side)
        r = self.memo.get(key)
        if r is None:
            r = (e, self._ev(e, comp, env))
            self.memo[key] = r
        return r[1]

    def idx(self, mi, env):
        return tuple(int(i) if isinstance(i, FixedIndex) else env[i] for i in mi)

    def _ev(self, e, comp, env):
        n = type(e).__name__
        o = e.ufl_operands
        if n == "Zero":
            return {}
        if n in ("IntValue", "FloatValue", "RealValue"):
            return self.sc(float(e))
        if n == "ComplexValue":
            return self.sc(complex(e).real)
        if n == "Sum":
            return _add(self.ev(o[0], comp, env), self.ev(o[1], comp, env))
        if n == "Product":
            return _mul(self.ev(o[0], comp if o[0].ufl_shape else (), env), self.ev(o[1], comp if o[1].ufl_shape else (), env))
        if n == "Division":
            d = self.ev(o[1], (), env)[(None, None)]
            return {k: v / d for k, v in self.ev(o[0], comp, env).items()}
        if n == "Power":
            b, x = self.num(o[0], env), self.num(o[1], env)
            return self.sc(b**x)
        if n == "Abs":
            return self.sc(abs(self.num(o[0], env)))
        if n in ("Conj", "Real"):
            return self.ev(o[0], comp, env)
        if n == "Indexed":
            return self.ev(o[0], self.idx(o[1].indices(), env), env)
        if n == "ListTensor":
            return self.ev(o[comp[0]], comp[1:], env)
        if n == "ComponentTensor":
            en = dict(env)
            for i, c in zip(o[1].indices(), comp):
                en[i] = c
            return self.ev(o[0], comp[len(o[1].indices()):], en)
        if n == "IndexSum":
            i = o[1].indices()[0]
            r = {}
            for c in range(e.dimension()):
                r = _add(r, self.ev(o[0], comp, {**env, i: c}))
            return r
        if n in ("PositiveRestricted", "NegativeRestricted"):
            old = self.side
            self.side = 0 if n[0] == "P" else 1
            r = self.ev(o[0], comp, env)
            self.side = old
            return r
        if n == "Grad":
            der = []
            f = e
            while type(f).__name__ == "Grad":
                der.append(None)
                f = f.ufl_operands[0]
            k = len(der)
            return self.term(f, comp[: len(comp) - k], comp[len(comp) - k:], env)
        if n in ("Coefficient", "Argument", "Function"):
            return self.term(e, comp, (), env)
        if n == "Constant":
            return self.sc(float(np.asarray(e.value)[comp] if comp else e.value))
        if n == "SpatialCoordinate":
            return self.sc(self.c.x[..., comp[0]])
        if n == "FacetNormal":
            if self.side is None:
                raise RuntimeError("unrestricted normal on interior facets")
            return self.sc(self.c.n[self.side][:, None, comp[0]])
        if n in ("CellDiameter", "CellVolume", "Circumradius", "FacetArea"):
            if self.side is None:
                raise RuntimeError("unrestricted cell quantity on interior facets")
            m = self.c.mesh
            cl = self.c.cells[self.side]
            if n == "CellDiameter":
                return self.sc(m.diam[cl][:, None])
            if n == "CellVolume":
                return self.sc((m.detJ / math.factorial(m.dim))[cl][:, None])
            raise FakeUnsupported(n)
        if n == "Conditional":
            c = self.cond(o[0], env)
            a, b = self.ev(o[1], comp, env), self.ev(o[2], comp, env)
            r = {k: np.where(c, v, 0.0) for k, v in a.items()}
            return _add(r, {k: np.where(c, 0.0, v) for k, v in b.items()})
        if n == "MaxValue":
            return self.sc(np.maximum(self.num(o[0], env), self.num(o[1], env)))
        if n == "MinValue":
            return self.sc(np.minimum(self.num(o[0], env), self.num(o[1], env)))
        fn = {"Sqrt": np.sqrt, "Exp": np.exp, "Ln": np.log, "Cos": np.cos, "Sin": np.sin, "Tan": np.tan}.get(n)
        if fn is not None:
            return self.sc(fn(self.num(o[0], env)))
        raise FakeUnsupported(f"fake dolfinx: cannot evaluate {n}")

    def num(self, e, env):
        r = self.ev(e, (), env)
        if any(k != (None, None) for k in r):
            raise RuntimeError("nonlinear use of an argument")
        return r.get((None, None), 0.0)

    def cond(self, e, env):
        n = type(e).__name__
        o = e.ufl_operands
        if n == "AndCondition":
            return self.cond(o[0], env) & self.cond(o[1], env)
        if n == "OrCondition":
            return self.cond(o[0], env) | self.cond(o[1], env)
        if n == "NotCondition":
            return ~self.cond(o[0], env)
        a, b = self.num(o[0], env), self.num(o[1], env)
        return {"LT": np.less, "GT": np.greater, "LE": np.less_equal, "GE": np.greater_equal, "EQ": np.equal, "NE": np.not_equal}[n](a, b)

    def term(self, f, comp, der, env):
        n = type(f).__name__
        if n == "SpatialCoordinate":
            return self.sc(1.0 if len(der) == 1 and der[0] == comp[0] else 0.0) if der else self.sc(self.c.x[..., comp[0]])
        if n in ("Indexed", "ListTensor"):
            raise FakeUnsupported("derivative of a non-terminal")
        if n == "Constant":
            return {}
        m = self.c.mesh
        V = f._V if hasattr(f, "_V") else None
        uel = V.uel if V is not None else f.ufl_element()
        cs = elements(uel)
        ci = comp[0] if comp else 0
        if len(comp) > 1:
            raise FakeUnsupported("tensor components")
        if len(cs) == 1:
            ci = 0
        fam, k = cs[ci]
        if self.side is None:
            raise RuntimeError("unrestricted argument on interior facets")
        s = self.side
        el = RefEl(m.dim, k)
        X, K = self.c.X[s], m.K[self.c.cells[s]]
        # physical derivatives: sum over reference directions
        B = 0.0
        for rd in itertools.product(range(m.dim), repeat=len(der)):
            t = el.tab(X, rd)
            c = 1.0
            for r, p in zip(rd, der):
                c = c * K[:, r, p]
            B = B + t * (c[:, None, None] if len(der) else 1.0)
        nb = B.shape[-1]
        if V is not None and hasattr(f, "_x"):
            if V.mesh is not m:
                raise RuntimeError("coefficient on another mesh")
            cn = m.scalar(fam, k)[0][self.c.cells[s]]
            vals = f.x.array[V.dof[ci][cn]]
            return self.sc(np.einsum("cqa,ca->cq", B, vals))
        num = f.number()
        r = {}
        for a in range(nb):
            kk = (s, ci, a)
            r[(kk, None) if num == 0 else (None, kk)] = B[..., a]
        return r


def _add(a, b):
    if not a:
        return b
    r = dict(a)
    for k, v in b.items():
        r[k] = r[k] + v if k in r else v
    return r


def _mul(a, b):
    r = {}
    for (t1, u1), v1 in a.items():
        for (t2, u2), v2 in b.items():
            if t1 is not None and t2 is not None or u1 is not None and u2 is not None:
                raise RuntimeError("not linear in an argument")
            k = (t1 if t1 is not None else t2, u1 if u1 is not None else u2)
            v = v1 * v2
            r[k] = r[k] + v if k in r else v
    return r


class Form:
    def __init__(self, f, **k):
        if not isinstance(f, ufl.Form):
            raise TypeError("not a form")
        args = f.arguments()
        self.ufl_form = f
        self.rank = len(args)
        self.args = sorted(args, key=lambda a: a.number())
        self.low = None

    def lowered(self):
        if self.low is None:
            self.low = apply_derivatives(apply_algebra_lowering(self.ufl_form))
        return self.low

    @property
    def function_spaces(self):
        return [space_of(a) for a in self.args]


def space_of(arg):
    return arg.ufl_function_space()


def integrate(form):
    """{(test dofs, trial dofs)} COO contributions: yields (test_space-dof array, trial-dof array, values)."""
    low = form.lowered()
    spaces = form.function_spaces
    for itg in low.integrals():
        dom = itg.ufl_domain()
        mesh = dom._fake_mesh
        deg = itg.metadata().get("quadrature_degree", 8)
        deg = 8 if deg in (None, -1, "default") else int(deg)
        it = itg.integral_type()
        if it == "cell":
            X, w = simplex_quad(mesh.dim, deg)
            ctx = CellCtx(mesh, X)
            wt = w[None, :] * mesh.detJ[:, None]
        elif it in ("exterior_facet", "interior_facet"):
            fs = mesh.ext if it == "exterior_facet" else mesh.int
            if not fs:
                continue
            X, w = simplex_quad(mesh.dim - 1, deg)
            ctx = FacetCtx(mesh, fs, X)
            wt = w[None, :] * ctx.area[:, None]
        else:
            raise FakeUnsupported(it)
        res = Ev(ctx).ev(itg.integrand(), (), {})
        ne = wt.shape
        for (t, u), v in res.items():
            val = np.einsum("cq,cq->c", np.broadcast_to(v, ne), wt)
            dofs = []
            for key, sp in zip((t, u), spaces):
                if key is None:
                    raise RuntimeError("form term misses an argument")
                s, ci, a = key
                cn = mesh.scalar(*sp.comps[ci])[0][ctx.cells[s]][:, a]
                dofs.append(sp.dof[ci][cn])
            if len(spaces) < 2 and (u is not None) or len(spaces) < 1 and t is not None:
                raise RuntimeError("rank")
            yield dofs, val


def form(f, **k):
    return Form(f)


def create_vector(L):
    v = PETSc.Vec().createSeq(L.function_spaces[0].ndofs)
    return v


def assemble_vector(b, L=None):
    if L is None:
        L, b = b, create_vector(b)
    a = b.array
    for d, v in integrate(L):
        np.add.at(a, d[0], v)
    b.array[:] = a
    return b


def assemble_matrix(A, *rest, bcs=(), **k):
    import scipy.sparse as sp

    f = A
    r, c, v = [], [], []
    n, m = f.function_spaces[0].ndofs, f.function_spaces[1].ndofs
    for d, val in integrate(f):
        r.append(d[0])
        c.append(d[1])
        v.append(val)
    M = sp.coo_matrix((np.concatenate(v), (np.concatenate(r), np.concatenate(c))), shape=(n, m)).tocsr()
    M.sort_indices()
    P = PETSc.Mat().createAIJ(size=(n, m), csr=(M.indptr.astype(np.int32), M.indices.astype(np.int32), M.data), comm=MPI.COMM_SELF)
    return P


def assemble_scalar(f):
    s = 0.0
    for _, v in integrate(f):
        s += float(np.sum(v))
    return s


def _strict(cls):
    def ga(self, name):
        if name.startswith(("_", "ufl")):
            raise AttributeError(name)
        raise FakeUnsupported(f"{cls.__name__}.{name}")
    cls.__getattr__ = ga


for _c in (Mesh, FunctionSpace, Function, Form, _X, _El, _DM, _Topo, _Geom, Expression):
    _strict(_c)
