"""Contracts of ufl and dolfinx: variational forms are polynomials over spatial atoms, vectors are write histories.

Spatial atoms: T/V (trial/test function of a space, field, component), C (component of a fem.Function, resolved when the form is
assembled), N (finite element function with given nodal values), lap, dot (inner product of gradients / the facet normal), side
(one-sided restriction), h (cell diameter), ref (reference solution), meas (measure). A form is a polynomial each monomial of which
contains one measure. Nodal blocks are linear combinations of block atoms (blk, int, interp).
A vector is a state tuple (base, record, ...): base is what the whole vector was last set to, records are ("set"|"inc", field, index, value),
families of records for loops of symbolic length. Serial semantics (one process owns all entries)."""
from __future__ import annotations

from fractions import Fraction

from pyvc import engine, heap, loops, ring, runtime, sym
from pyvc.loops import num_sum
from pyvc.ring import ContractViolation, Poly, Unsupported, app, atom_of, mk_atom
from pyvc.values import Fam, PList, Poison

from .base import Mod, mod

RANK = {"T": 0, "V": 1, "N": 2, "C": 3, "ref": 4}
VSTAR = None  # test function of the row read off


def fresh_name(kind):
    loops.SITE[0] += 1
    return (kind, loops.SITE[0], *loops.LOOP_INDEX)


# ------------------------------------------------------------------------------------------------------------ scalar expressions
def leaf(a):
    """The function atom below lap/side."""
    while a.kind in ("lap", "side"):
        a = a.args[-1]
    return a


def _rank(key):
    k, a, s = key
    return (9, "") if k == "n" else (RANK.get(leaf(a).kind, 8), repr(a))


def dot(k1, k2):
    if k1[0] == "n" and k2[0] == "n":
        return 1
    if _rank(k2) < _rank(k1):
        k1, k2 = k2, k1
    return Poly.of(mk_atom("dot", (k1, k2)))


def spatial(a):
    return a.kind in ("T", "V", "C", "N", "lap", "dot", "side", "h", "ref", "meas", "coord", "V*", "expr")


def map_atoms(p, f):
    """Rebuild a polynomial with atoms replaced by f(atom) (None: keep); goes through sums."""
    p = Poly.lift(p)
    out = 0
    for m, c in p.t.items():
        r = c
        for a, e in m:
            v = f(a)
            if v is None and a.kind == "sum":
                fam, = a.args
                v = num_sum(fam.var, fam.lo, fam.hi, tuple((g, map_atoms(x, f)) for g, x in fam.items))
            if v is None:
                v = Poly.of(a)
            r = r * (v if e == 1 else ring.num_pow(v, e))
        out = out + r
    return ring.norm_num(out) if not isinstance(out, Poly) else out


def restrict(x, s):
    if s not in ("+", "-"):
        raise ContractViolation(f"restriction {s!r}")
    if isinstance(x, VExpr):
        r = {}
        for (k, a, old), c in x.d.items():
            r[(k, a, s)] = restrict(c, s)
        return VExpr(r)

    def f(a):
        if a.kind in ("T", "V", "C", "N", "lap", "h", "ref", "coord"):
            return Poly.of(mk_atom("side", (s, a)))
        if a.kind == "dot":
            return dot(*((k, b, s) for k, b, _ in a.args))
        if a.kind in ("side", "meas", "V*"):
            raise ContractViolation("restriction of a restricted expression")
        return None

    return map_atoms(num(x), f)


ring.CALL_HOOK[0] = restrict


class VExpr:
    """Vector field: linear combination of gradients and the facet normal."""

    pv_immutable = True

    def __init__(self, d):
        self.d = {k: c for k, c in d.items() if not ring._is0(c)}

    @property
    def fv(self):
        return ring.fv(tuple(self.d)) | ring.fv(tuple(self.d.values()))

    def pv_subst(self, m):
        return VExpr({ring.subst(k, m): ring.subst(c, m) for k, c in self.d.items()})

    def pv_key(self):
        return ("vexpr", frozenset((ring.ckey(k), ring.ckey(c)) for k, c in self.d.items()))

    def _lin(self, o, s):
        if not isinstance(o, VExpr):
            if not isinstance(o, Poly) and o == 0 and not isinstance(o, bool):
                return self
            raise ValueError("Can't add expressions with different shapes.")
        r = dict(self.d)
        for k, c in o.d.items():
            r[k] = r.get(k, 0) + s * c
        return VExpr(r)

    def __add__(self, o):
        return self._lin(o, 1)

    def __radd__(self, o):
        return self._lin(o, 1)

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return (-self)._lin(o, 1)

    def __neg__(self):
        return self * -1

    def __mul__(self, o):
        if isinstance(o, VExpr):
            raise ValueError("product of two vectors")
        if isinstance(o, Meas):
            raise ValueError("Can only integrate scalar expressions.")
        o = num(o)
        return VExpr({k: c * o for k, c in self.d.items()})

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = num(o)
        return VExpr({k: ring.num_div(c, o) for k, c in self.d.items()})

    def __call__(self, s):
        return restrict(self, s)

    def __getitem__(self, i):
        raise Unsupported("component of a vector field")


def num(x):
    """Scalar UFL value as a polynomial."""
    if isinstance(x, (Function, Comp)):
        return x.pv_expr()
    if isinstance(x, ArgVec):
        raise ValueError("scalar expected, got a vector-valued argument")
    p = Poly.lift(x) if not isinstance(x, sym.SymBool) else x._num()
    if p is None:
        raise Unsupported(f"{type(x).__name__} in a variational form")
    return p.norm() if isinstance(p, Poly) else p


class UScalar:
    """Operators of objects that stand for a scalar expression."""

    def __add__(self, o):
        return num(self) + num(o)

    __radd__ = __add__

    def __sub__(self, o):
        return num(self) - num(o)

    def __rsub__(self, o):
        return num(o) - num(self)

    def __neg__(self):
        return -num(self)

    def __mul__(self, o):
        if isinstance(o, (VExpr, Meas)):
            return o.__rmul__(num(self))
        return num(self) * num(o)

    def __rmul__(self, o):
        if isinstance(o, VExpr):
            return o * num(self)
        return num(self) * num(o)

    def __truediv__(self, o):
        return ring.num_div(num(self), num(o))

    def __rtruediv__(self, o):
        return ring.num_div(num(o), num(self))

    def __pow__(self, n):
        return ring.num_pow(num(self), n)

    def __abs__(self):
        return abs(num(self))


# ------------------------------------------------------------------------------------------------------------ spaces
class Mesh:
    pv_immutable = True

    def __init__(self, name, comm=None):
        self.name = name
        self.comm = comm

    def ufl_cell(self):
        return ("cell", self.name)

    def ufl_domain(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"mesh.{n}")


class Elem:
    pv_immutable = True

    def __init__(self, kind, cell, fields):
        self.kind, self.cell, self.fields = kind, cell, fields  # fields: tuple of (family, degree, ncomp)


_FAM = {"CG": "CG", "P": "CG", "Lagrange": "CG", "Q": "CG", "DG": "DG", "Discontinuous Lagrange": "DG", "DP": "DG"}


def family(f):
    if f not in _FAM:
        raise Unsupported(f"element family {f!r}")
    return _FAM[f]


def vector_element(fam, cell=None, degree=None, dim=None, **k):
    if isinstance(fam, Elem):
        if fam.kind != "scalar":
            raise Unsupported("vector of vectors")
        f = fam.fields[0]
        dim = cell if dim is None else dim
        return Elem("vector", fam.cell, ((f[0], f[1], dim),))
    if dim is None:
        raise Unsupported("vector element of default dimension")
    return Elem("vector", cell, ((family(fam), degree, dim),))


def finite_element(fam, cell, degree, **k):
    return Elem("scalar", cell, ((family(fam), degree, 1),))


def mixed_element(*els, **k):
    if len(els) == 1 and not isinstance(els[0], Elem):
        els = tuple(els[0])
    if any(x.kind == "mixed" for x in els):
        raise Unsupported("nested mixed element")
    return Elem("mixed", els[0].cell, tuple(x.fields[0] for x in els))


class Space:
    pv_immutable = True

    def __init__(self, mesh, elem, name=None):
        self.mesh, self.elem = mesh, elem
        self.fields = elem.fields
        self.uid = name or fresh_name("V")

    def sk(self, j=0):
        f = self.fields[j]
        return (self.mesh.name, f[0], f[1])

    @property
    def scalar(self):
        return self.elem.kind == "scalar"

    @property
    def fv(self):
        return frozenset()

    def pv_key(self):
        return ("space", self.uid)

    @property
    def num_sub_spaces(self):
        return len(self.fields) if self.elem.kind == "mixed" else (0 if self.scalar else self.fields[0][2])

    def sub(self, j):
        if self.elem.kind == "mixed":
            if isinstance(j, Poly):
                raise Unsupported("symbolic component of a mixed space")
            if not 0 <= j < len(self.fields):
                raise ContractViolation(f"component {j} of {len(self.fields)}")
            return SubSpace(self, j, None)
        if self.scalar:
            raise ContractViolation("component of a scalar space")
        return SubSpace(self, 0, None).sub(j)

    def same_layout(self, o):
        return self is o or self.mesh is o.mesh and self.elem.kind == o.elem.kind and ring.ckey(self.fields) == ring.ckey(o.fields)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        if n == "element":
            return ElemPts(self)
        if n == "dofmap":
            return DofInfo(self)
        if n == "ufl_element":
            return lambda: self.elem
        raise Unsupported(f"FunctionSpace.{n}")


class DofInfo:
    def __init__(self, s):
        self.s = s

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"dofmap.{n}")


class ElemPts:
    def __init__(self, s):
        self.s = s

    def interpolation_points(self):
        return ("ipts", self.s)

    def __getattr__(self, n):
        raise Unsupported(f"element.{n}")


def inrange(i, n, what):
    c = sym.land(sym.compare(i, 0, ">="), sym.compare(i, n, "<"))
    if not bool(c):
        raise ContractViolation(f"{what} {i} out of range (size {n})")


class SubSpace:
    pv_immutable = True

    def __init__(self, parent, j, i):
        self.parent, self.j, self.i = parent, j, i

    @property
    def mesh(self):
        return self.parent.mesh

    @property
    def fv(self):
        return ring.fv(self.i)

    def pv_subst(self, m):
        return SubSpace(self.parent, self.j, ring.subst(self.i, m))

    def pv_key(self):
        return ("sub", self.parent.uid, self.j, ring.ckey(self.i))

    def sub(self, i):
        if self.i is not None:
            raise ContractViolation("component of a scalar space")
        inrange(i, self.parent.fields[self.j][2], "component")
        return SubSpace(self.parent, self.j, i)

    def collapse(self):
        f = self.parent.fields[self.j]
        if self.i is None:
            s = Space(self.mesh, Elem("vector", self.parent.elem.cell, (f,)), ("c", self.parent.uid, self.j))
            one = not isinstance(f[2], Poly) and f[2] == 1
            return s, DofMap(self.parent, self.j, 0 if one else None)
        s = Space(self.mesh, Elem("scalar", self.parent.elem.cell, ((f[0], f[1], 1),)), ("s", self.mesh.name, f[0], ring.ckey(f[1])))
        return s, DofMap(self.parent, self.j, self.i)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"subspace.{n}")


class DofMap:
    """Positions of component (field, idx) in vectors over `space`; entry order is that of the collapsed space."""

    pv_immutable = True

    def __init__(self, space, field, idx):
        self.space, self.field, self.idx = space, field, idx

    @property
    def fv(self):
        return ring.fv(self.idx)

    def pv_subst(self, m):
        return DofMap(self.space, self.field, ring.subst(self.idx, m))

    def pv_key(self):
        return ("dof", self.space.uid, self.field, ring.ckey(self.idx))

    @property
    def sk(self):
        return self.space.sk(self.field)

    def pv_len(self):
        return app("ndof", self.sk, sort="int")

    def copy(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"dof array.{n}")

    def __repr__(self):
        return f"dofs({self.field},{self.idx})"


# ------------------------------------------------------------------------------------------------------------ arguments
class ArgVec:
    """Test/trial/coefficient field with components."""

    def __init__(self, role, space, j, ident):
        self.role, self.space, self.j, self.ident = role, space, j, ident
        self.n = space.fields[j][2]

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of an argument")
        inrange(i, self.n, "component")
        return Poly.of(mk_atom(self.role, (self.ident, self.j, i)))

    def pv_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, Poly):
            raise Unsupported("len of a symbolic vector")
        return self.n

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    @property
    def ufl_shape(self):
        return (self.n,)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"argument.{n}")


class GradVec:
    """Gradient of a vector-valued argument (component-wise)."""

    def __init__(self, v):
        self.v = v


def arguments(role):
    def f(space):
        if isinstance(space, SubSpace):
            space = space.collapse()[0]
        if not isinstance(space, Space):
            raise Unsupported("arguments of this space")
        SPACES[space.uid] = space
        if space.elem.kind == "mixed":
            return tuple(ArgVec(role, space, j, space.uid) for j in range(len(space.fields)))
        v = ArgVec(role, space, 0, space.uid)
        return v[0] if space.scalar else v

    return f


SPACES = {}
FUNCS = {}


def split(f):
    return f.split()


# ------------------------------------------------------------------------------------------------------------ operators
def grad(x):
    if isinstance(x, ArgVec):
        return GradVec(x)
    if isinstance(x, VExpr):
        raise Unsupported("gradient of a vector field")
    x = Poly.lift(num(x))
    out = {}
    for m, c in x.t.items():
        for n, (a, e) in enumerate(m):
            if not spatial(a):
                if a.kind == "sum" and any(spatial(b) for b in _deep(a)):
                    raise Unsupported("gradient of a symbolic sum")
                continue
            if a.kind == "h":
                continue  # cell-wise constant
            if a.kind not in ("T", "V", "C", "N", "ref"):
                raise Unsupported(f"gradient of {a.kind}")
            rest = Poly({tuple((b, k) for b, k in m if b is not a): c}).norm()
            k = ("g", a, None)
            out[k] = out.get(k, 0) + rest * e * ring.num_pow(Poly.of(a), e - 1)
    return VExpr(out)


def _deep(a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if isinstance(x, ring.Atom):
            if x in seen:
                continue
            seen.add(x)
            todo += list(x.args)
        elif isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, Poly):
            for m in x.t:
                todo += [b for b, _ in m]
        elif isinstance(x, Fam):
            todo += [i for _, i in x.items]
    return seen


def div(x):
    if not isinstance(x, VExpr):
        raise Unsupported("divergence of a non-vector")
    out = 0
    for (k, a, s), c in x.d.items():
        if k == "n":
            raise Unsupported("divergence of the normal")
        out = out + c * Poly.of(mk_atom("lap", (a,)) if s is None else mk_atom("side", (s, mk_atom("lap", (a,)))))
        g = grad(c) if not ring.is_num(c) and isinstance(c, Poly) else VExpr({})
        for k2, c2 in g.d.items():
            out = out + c2 * dot(k2, (k, a, s))
    return out


def vinner(x, y):
    out = 0
    for k1, c1 in x.d.items():
        for k2, c2 in y.d.items():
            out = out + c1 * c2 * dot(k1, k2)
    return out


def inner(x, y):
    if isinstance(x, VExpr) and isinstance(y, VExpr):
        return vinner(x, y)
    for cls, get in ((ArgVec, lambda v, i: v[i]), (GradVec, lambda v, i: grad(v.v[i]))):
        if isinstance(x, cls) and isinstance(y, cls):
            n = x.n if cls is ArgVec else x.v.n
            m = y.n if cls is ArgVec else y.v.n
            if not ring.same_num(n, m):
                raise ContractViolation("inner product of vectors of different length")
            f = lambda i: inner(get(x, i), get(y, i))  # noqa: E731
            if not isinstance(n, Poly):
                return sum((f(i) for i in range(n)), 0)
            v = ring.fresh("c")
            engine.cur().assume(sym.land(sym.compare(v, 0, ">="), sym.compare(v, n, "<")))
            return num_sum(atom_of(v), 0, n, ((True, f(v)),))
    if isinstance(x, (VExpr, ArgVec, GradVec)) or isinstance(y, (VExpr, ArgVec, GradVec)):
        raise ValueError("Shapes do not match in inner product")
    return num(x) * num(y)


def u_dot(x, y):
    return inner(x, y)


def jump(v, n=None):
    if n is None:
        if isinstance(v, VExpr):
            return restrict(v, "+") - restrict(v, "-")
        return restrict(num(v), "+") - restrict(num(v), "-")
    if isinstance(v, VExpr):
        return vinner(restrict(v, "+"), restrict(n, "+")) + vinner(restrict(v, "-"), restrict(n, "-"))
    return restrict(n, "+") * restrict(num(v), "+") + restrict(n, "-") * restrict(num(v), "-")


def avg(v):
    r = restrict(v, "+") + restrict(v, "-")
    return r * Fraction(1, 2)


class Meas:
    pv_immutable = True

    def __init__(self, kind, domain=None, degree=None):
        self.kind, self.domain, self.degree = kind, domain, degree

    @property
    def fv(self):
        return ring.fv(self.degree)

    def pv_key(self):
        return ("meas", self.kind, self.domain and self.domain.name, ring.ckey(self.degree))

    def __rmul__(self, x):
        if isinstance(x, (ArgVec, VExpr, GradVec)):
            raise ValueError("Can only integrate scalar expressions.")
        return num(x) * Poly.of(mk_atom("meas", (self.kind, self.domain.name if self.domain else None, self.degree)))

    def __call__(self, *a, metadata=None, domain=None, degree=None, **k):
        if a or k:
            raise Unsupported("subdomain measure")
        return measure(self.kind, domain or self.domain, metadata if metadata is not None else ({"quadrature_degree": degree} if degree else
                       ({"quadrature_degree": self.degree} if self.degree is not None else None)))


def measure(kind, domain=None, metadata=None, subdomain_data=None, subdomain_id="everywhere", **k):
    if kind not in ("dx", "ds", "dS") or subdomain_data is not None or subdomain_id != "everywhere" or k:
        raise Unsupported("measure")
    d = None
    if metadata:
        md = dict(metadata.items())
        d = md.pop("quadrature_degree", None)
        if md:
            raise Unsupported(f"measure metadata {sorted(md)}")
    return Meas(kind, domain, d)


# ------------------------------------------------------------------------------------------------------------ flattening
class Entry:
    """coef * mono inside the families fams (outermost first)."""

    __slots__ = ("fams", "mono", "coef", "V", "T", "M")

    def __init__(self, fams, mono, coef):
        self.fams, self.mono, self.coef = fams, mono, coef
        self.V, self.T, self.M = [], [], []
        for a, e in mono:
            if a.kind == "meas":
                self.M.append((a, e))
                continue
            todo = [a]
            while todo:
                x = todo.pop()
                if isinstance(x, ring.Atom):
                    if x.kind in ("V", "T"):
                        (self.V if x.kind == "V" else self.T).append((x, e))
                    elif x.kind in ("lap", "side", "dot"):
                        todo += list(x.args)
                elif isinstance(x, tuple):
                    todo += list(x)

    def poly(self):
        return Poly({self.mono: self.coef})


_FLAT = {}


def flatten(p):
    """Entries of a form polynomial."""
    p = Poly.lift(p)
    k = p.key()
    r = _FLAT.get(k)
    if r is None:
        r = []
        _flat(p, (), r)
        if len(_FLAT) > 300:
            _FLAT.clear()
        _FLAT[k] = r
    return r


def _flat(p, fams, out):
    for m, c in p.t.items():
        sums = [(a, e) for a, e in m if a.kind == "sum" and any(spatial(b) for b in _deep(a))]
        if not sums:
            out.append(Entry(fams, m, c))
            continue
        if len(sums) != 1 or sums[0][1] != 1:
            raise Unsupported("product of symbolic sums in a form")
        fam, = sums[0][0].args
        rest = Poly({tuple((a, e) for a, e in m if a is not sums[0][0]): c})
        for g, x in fam.items:
            _flat(Poly.lift(rest * x), (*fams, (fam.var, fam.lo, fam.hi, g)), out)


class Form:
    """Compiled form: polynomial, argument spaces (test, trial)."""

    pv_immutable = True

    def __init__(self, p, test, trial, mesh):
        self.p, self.test, self.trial, self.mesh = p, test, trial, mesh
        self.rank = (test is not None) + (trial is not None)

    @property
    def fv(self):
        return ring.fv(self.p)

    def pv_subst(self, m):
        return Form(ring.subst(self.p, m), self.test, self.trial, self.mesh)

    def pv_key(self):
        return ("form", ring.ckey(self.p))

    def resolved(self):
        """Coefficients replaced by their values at the time of assembly."""
        return resolve(self.p)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"form.{n}")


KDEG = [None, None]  # degrees (k, kstar) for the sufficiency of the quadrature degree


def fem_form(p, *a, **k):
    if isinstance(p, Form):
        return p
    if isinstance(p, (VExpr, ArgVec, Function)) or not isinstance(p, Poly):
        raise ValueError("not a form")
    tests, trials, meshes = {}, {}, {}
    for en in flatten(p):
        if len(en.M) != 1 or en.M[0][1] != 1:
            raise ContractViolation("form term without exactly one measure")
        if len(en.V) > 1 or len(en.T) > 1 or any(e != 1 for _, e in en.V + en.T):
            raise ContractViolation("form is not linear in its arguments")
        for (x, _), d in [(v, tests) for v in en.V] + [(v, trials) for v in en.T]:
            d[x.args[0]] = d.get(x.args[0], 0) + 1
        if not en.V and en.T:
            raise ContractViolation("trial function without test function")
        if en.M[0][0].args[1] is not None:
            meshes[en.M[0][0].args[1]] = 1
    n = {(len(e.V), len(e.T)) for e in flatten(p)}
    if len(n) != 1:
        raise ContractViolation("terms of different arity in one form")
    if len(tests) > 1 or len(trials) > 1:
        raise ContractViolation("arguments of different spaces in one form")
    test = SPACES[next(iter(tests))] if tests else None
    trial = SPACES[next(iter(trials))] if trials else None
    for s in (test, trial):
        if s is not None:
            meshes[s.mesh.name] = 1
    for c in coefs(p):
        meshes[FUNCS[ring.ckey(c.args[0])].function_space.mesh.name] = 1
    if len(meshes) != 1:
        raise ContractViolation(f"form over {len(meshes)} meshes")
    mesh = next(iter(meshes))

    def fix(a):
        if a.kind != "meas":
            return None
        kind, dom, deg = a.args
        if deg is not None and KDEG[0] is not None and all(sym.provable(sym.compare(deg, 2 * k, ">=")) for k in KDEG):
            deg = None
        return Poly.of(mk_atom("meas", (kind, mesh, deg)))

    return Form(map_atoms(p, fix), test, trial, mesh)


def coefs(p):
    out = set()
    for m in Poly.lift(p).t:
        for a, _ in m:
            out |= {b for b in _deep(a) if b.kind == "C"}
    return out


# ------------------------------------------------------------------------------------------------------------ nodal blocks
BLOCK = ("blk", "int", "interp")


def lin_parts(p):
    """Block polynomial as [(numeric factor, block atom or None, sum family or None)]."""
    out = []
    for m, c in Poly.lift(p).t.items():
        bs = [(a, e) for a, e in m if a.kind in BLOCK]
        if len(bs) > 1 or any(e != 1 for _, e in bs):
            raise Unsupported("product of nodal blocks")
        rest = tuple((a, e) for a, e in m if a.kind not in BLOCK)
        sums = [(a, e) for a, e in rest if a.kind == "sum" and any(b.kind in BLOCK for b in _deep(a))]
        if sums:
            if bs or len(sums) > 1 or sums[0][1] != 1:
                raise Unsupported("product of nodal blocks")
            rest = tuple((a, e) for a, e in rest if a is not sums[0][0])
            out.append((Poly({rest: c}).norm(), None, sums[0][0].args[0]))
        else:
            out.append((Poly({rest: c}).norm(), bs[0][0] if bs else None, None))
    return out


def linmap(p, f, const):
    """Linear map over block atoms; const(c) is the image of the constant vector c."""
    out = 0
    for c, b, fam in lin_parts(p):
        if fam is not None:
            out = out + c * num_sum(fam.var, fam.lo, fam.hi, tuple((g, linmap(x, f, const)) for g, x in fam.items))
        elif b is None:
            out = out + const(c)
        else:
            out = out + c * f(b)
    return out


def nfun(sk, p):
    """Finite element function with nodal values p."""
    return linmap(p, lambda b: Poly.of(mk_atom("N", (sk, b))), lambda c: c)


def subst_fn(p, f):
    """Replace function atoms linearly: f(atom) -> number (combination of N atoms and constants) or None."""
    def lin(a, wrap, zero_const):
        v = f(leaf(a))
        if v is None:
            return None
        out = 0
        for m, c in Poly.lift(v).t.items():
            ns = [(b, e) for b, e in m if spatial(b)]
            rest = Poly({tuple((b, e) for b, e in m if not spatial(b)): c}).norm()
            if any(b.kind == "sum" and any(spatial(x) for x in _deep(b)) for b, _ in m):
                (s, e), = [(b, e) for b, e in m if b.kind == "sum" and any(spatial(x) for x in _deep(b))]
                raise Unsupported("symbolic sum of functions in a form")
            if not ns:
                out = out + (0 if zero_const else rest)
            elif len(ns) == 1 and ns[0][1] == 1:
                out = out + rest * wrap(ns[0][0])
            else:
                raise Unsupported("nonlinear function value")
        return out

    def rewrap(a, base):
        if a.kind in ("lap", "side"):
            inner_ = rewrap(a.args[-1], base)
            return mk_atom(a.kind, (*a.args[:-1], inner_))
        return base

    def has_lap(a):
        while a.kind in ("lap", "side"):
            if a.kind == "lap":
                return True
            a = a.args[-1]
        return False

    def g(a):
        if a.kind in ("T", "V", "C", "N"):
            return f(a)
        if a.kind in ("lap", "side"):
            if leaf(a).kind not in ("T", "V", "C", "N"):
                return None
            return lin(a, lambda b: Poly.of(rewrap(a, b)), has_lap(a))
        if a.kind == "dot":
            k1, k2 = a.args
            v1, v2 = (grad_of(k, f) for k in (k1, k2))
            if v1 is None and v2 is None:
                return None
            return vinner(v1 or VExpr({k1: 1}), v2 or VExpr({k2: 1}))
        return None

    def grad_of(k, f):
        kind, a, s = k
        if kind == "n":
            return None
        v = f(a)
        if v is None:
            return None
        out = {}
        for m, c in Poly.lift(v).t.items():
            ns = [(b, e) for b, e in m if spatial(b)]
            rest = Poly({tuple((b, e) for b, e in m if not spatial(b)): c}).norm()
            if any(b.kind == "sum" and any(spatial(x) for x in _deep(b)) for b, _ in m):
                raise Unsupported("symbolic sum of functions in a form")
            if ns:
                (b, e), = ns
                key = ("g", b, s)
                out[key] = out.get(key, 0) + rest
        return VExpr(out)

    return map_atoms(p, g)


def resolve(p):
    if not coefs(p):
        return p

    def f(a):
        if a.kind != "C":
            return None
        fn = FUNCS[ring.ckey(a.args[0])]
        return nfun(fn.function_space.sk(a.args[1]), read(fn.store.st, a.args[1], a.args[2]))

    return subst_fn(p, f)


def integrate(p):
    """Assembled number/block: spatial part of each monomial inside an int atom."""
    out = 0
    for m, c in Poly.lift(p).t.items():
        if any(a.kind == "sum" and any(spatial(b) for b in _deep(a)) for a, _ in m):
            (s, e), = [(a, e) for a, e in m if a.kind == "sum"]
            if e != 1:
                raise Unsupported("power of a symbolic sum")
            rest = Poly({tuple((a, k) for a, k in m if a is not s): c})
            fam, = s.args
            out = out + num_sum(fam.var, fam.lo, fam.hi, tuple((g, integrate(rest * x)) for g, x in fam.items))
            continue
        sp = tuple((a, e) for a, e in m if spatial(a))
        rest = Poly({tuple((a, e) for a, e in m if not spatial(a)): c}).norm()
        out = out + rest * Poly.of(mk_atom("int", (Poly({sp: Fraction(1)}),)))
    return out


# ------------------------------------------------------------------------------------------------------------ rows of a form
def truth(c):
    return c if isinstance(c, bool) else bool(c)


def solve_index(e, v, target):
    """Integer v with e(v) == target: ('one', v) / ('none',) / ('all',)."""
    if v not in ring.fv(e):
        return ("all",) if truth(sym.compare(e, target, "==")) else ("none",)
    c0 = ring.subst(e, {v: 0})
    a = ring.subst(e, {v: 1}) - c0
    if isinstance(a, Poly) or a == 0 or not ring._is0(Poly.lift(e - (a * Poly.of(v) + c0)).norm()):
        raise Unsupported(f"index {e} is not linear")
    d = target - c0
    if a < 0:
        a, d = -a, -d
    qr = ring.split_const_div(d, int(a))
    if qr is None:
        from pyvc.values import _div_search
        qr = _div_search(d, int(a))
    return ("one", qr[0]) if qr[1] == 0 else ("none",)


def row(p, field, idx):
    """Row of a form (test function (field, idx)): polynomial with the test function replaced by V*."""
    out = 0
    star = mk_atom("V*", ())
    for en in flatten(p):
        (v, _), = en.V
        if v.args[1] != field:
            continue
        q = en.poly()
        m = {}
        todo = list(en.fams)
        ok = True
        free = []
        vi = v.args[2]
        for fv_, lo, hi, g in reversed(todo):
            r = solve_index(ring.subst(vi, m), fv_, idx) if not m or fv_ in ring.fv(ring.subst(vi, m)) else None
            if r is None or r[0] == "all" and fv_ not in ring.fv(vi):
                # this family does not select the row: every value of its binder contributes
                free.append((fv_, lo, hi, g))
                if r is None:
                    continue
                m.setdefault(None, None)
                continue
            if r[0] == "none":
                ok = False
                break
            s = r[1]
            if not truth(sym.land(sym.compare(s, lo, ">="), sym.compare(s, hi, "<"))):
                ok = False
                break
            m = {k: x for k, x in m.items() if k is not None}
            m[fv_] = s
        if not ok:
            continue
        if not todo and not truth(sym.compare(vi, idx, "==")):
            continue
        m = {k: x for k, x in m.items() if k is not None}
        for fv_, lo, hi, g in todo:
            if g is not True and fv_ in m and not truth(ring.subst(g, m)):
                ok = False
        if not ok:
            continue
        q = ring.subst(q, m) if m else q
        v2 = v if not m else atom_of(ring.subst(Poly.of(v), m))
        q = replace_fn(q, v2, star)
        for fv_, lo, hi, g in free:
            q = num_sum(fv_, lo, hi, ((g, q),))
        out = out + q
    return out


def replace_fn(q, a, b):
    """Replace the function atom a by b inside lap/side/dot."""
    def r(x):
        if x is a:
            return b
        if isinstance(x, ring.Atom) and x.kind in ("lap", "side"):
            return mk_atom(x.kind, tuple(r(y) for y in x.args))
        if isinstance(x, tuple):
            return tuple(r(y) for y in x)
        return x

    def f(x):
        if x is a:
            return Poly.of(b)
        if x.kind in ("lap", "side"):
            return Poly.of(r(x))
        if x.kind == "dot":
            return dot(*r(x.args))
        return None

    return map_atoms(q, f)


# ------------------------------------------------------------------------------------------------------------ vectors
class Store(heap.WObj):
    def __init__(self, space, st, name):
        self.space, self.st, self.name = space, st, name
        self.dead = False

    def pv_get(self):
        return self.st

    def pv_set(self, v):
        if isinstance(v, Poison):  # no closed form: arbitrary content
            v = (("name", (*fresh_name("havoc"), self.name, loops.HAVOC[0])),)
        self.st = v

    def write(self, rec):
        self.st = tidy(self.space, (*self.st, rec))

    def single(self):
        return self.space.scalar or len(self.space.fields) == 1 and not isinstance(self.space.fields[0][2], Poly) and self.space.fields[0][2] == 1


def tidy(space, st):
    """State with one record per block when all positions are concrete; the base is dropped when every block has been set."""
    if any(isinstance(n, Poly) for _, _, n in space.fields) or any(isinstance(r, Fam) or isinstance(r[2], Poly) for r in st[1:]):
        return st
    cur = {}
    for op, f, i, v in st[1:]:
        old = cur.get((f, i))
        if op == "inc" and old is not None:
            op, v = old[0], old[1] + v
        elif op == "inc" and st[0] == ("zero",):
            op = "set"
        cur[f, i] = (op, v)
    base = st[0]
    if all(cur.get((f, i), ("inc",))[0] == "set" for f, (_, _, n) in enumerate(space.fields) for i in range(n)):
        base = ("zero",)
    return (base, *((op, f, i, v) for (f, i), (op, v) in sorted(cur.items(), key=lambda x: x[0])))


def read(st, f, i):
    """Value of block (field f, index i) of a vector state."""
    return _read(list(st), f, i)


def _read(recs, f, i):
    inc = 0
    while len(recs) > 1:
        r = recs.pop()
        if isinstance(r, Fam):
            stop, d = _read_fam(r, f, i)
            inc = inc + d
            if stop:
                return inc
            continue
        op, rf, ri, val = r
        if rf != f or not truth(sym.compare(ri, i, "==")):
            continue
        inc = inc + val
        if op == "set":
            return inc
    b = recs[0]
    return base_read(b, f, i) + inc


def _read_fam(fam, f, i):
    """(was set, value or total increment) from a family of records, last write first."""
    v, lo, hi = fam.var, fam.lo, fam.hi
    if not truth(sym.compare(hi, lo, ">")):
        return False, 0
    evs = []  # (iteration, position, op, value, free?)
    for pos, (g, r) in enumerate(fam.items):
        if isinstance(r, Fam):
            raise Unsupported("nested record families")
        op, rf, ri, val = r
        if rf != f:
            continue
        s = solve_index(ri, v, i)
        if s[0] == "none":
            continue
        if s[0] == "all":
            evs.append((None, pos, op, val, g))
            continue
        it = s[1]
        if not truth(sym.land(sym.compare(it, lo, ">="), sym.compare(it, hi, "<"))):
            continue
        if g is not True and not truth(ring.subst(g, {v: it})):
            continue
        evs.append((it, pos, op, ring.subst(val, {v: it}), True))
    if not evs:
        return False, 0
    if any(x[0] is None for x in evs):
        if any(x[0] is not None for x in evs) or any(x[4] is not True for x in evs):
            raise Unsupported("mixed record family")
        sets = [x for x in evs if x[2] == "set"]
        if not sets:
            return False, num_sum(v, lo, hi, tuple((True, x[3]) for x in evs))
        k = max(x[1] for x in sets)
        return True, sum((ring.subst(x[3], {v: hi - 1}) for x in evs if x[1] >= k and (x[2] == "inc" or x[1] == k)), 0)
    # order by iteration (differences decided), then position
    import functools

    def cmp(a, b):
        if truth(sym.compare(a[0], b[0], "==")):
            return a[1] - b[1]
        return -1 if truth(sym.compare(a[0], b[0], "<")) else 1

    evs.sort(key=functools.cmp_to_key(cmp))
    tot = 0
    for it, pos, op, val, _ in reversed(evs):
        tot = tot + val
        if op == "set":
            return True, tot
    return False, tot


def base_read(b, f, i):
    k = b[0]
    if k == "zero":
        return 0
    if k == "const":
        return b[1]
    if k == "name":
        return Poly.of(mk_atom("blk", (b[1], f, i)))
    if k == "block":
        return b[1]
    if k == "matvec":
        return mv_row(b[1], b[2], b[3], f, i)
    if k == "asm":
        return integrate(row(b[1], f, i))
    if k == "lin":
        return sum((c * read(s, f, i) for c, s in b[1]), 0)
    raise Unsupported(f"vector content {k}")


def mv_row(p, trial, st, f, i):
    r = row(p, f, i)
    space = SPACES[trial]

    def g(a):
        if a.kind != "T":
            return None
        return nfun(space.sk(a.args[1]), read(st, a.args[1], a.args[2]))

    return integrate(subst_fn(r, g))


def nabs(p):
    """Nodal absolute values."""
    if not isinstance(p, Poly):
        return abs(p)
    lead = p.t[min(p.t, key=lambda m: tuple((a.uid, e) for a, e in m))]
    return Poly.of(mk_atom("nabs", (p if lead > 0 else -p,)))


class Blk:
    """Nodal values of one scalar component (numpy array)."""

    pv_immutable = True
    __array_ufunc__ = None

    def __init__(self, p, sk):
        self._p, self.sk = p, sk

    @property
    def p(self):
        return self._p

    @property
    def fv(self):
        return ring.fv(self.p)

    def pv_subst(self, m):
        return Blk(ring.subst(self.p, m), self.sk)

    def pv_key(self):
        return ("nodal", ring.ckey(self.p), ring.ckey(self.sk))

    def pv_freeze(self):
        return Blk(self.p, self.sk)

    def _o(self, o):
        if isinstance(o, Blk):
            if ring.ckey(o.sk) != ring.ckey(self.sk):
                raise ValueError("operands could not be broadcast together")
            return o.p
        p = Poly.lift(o)
        if p is None:
            raise Unsupported(f"array arithmetic with {type(o).__name__}")
        return p.norm()

    def _lin_only(self, p):
        for m in Poly.lift(p).t:
            if sum(e for a, e in m if a.kind in BLOCK) > 1:
                raise Unsupported("nonlinear operation on nodal values")
        return Blk(p, self.sk)

    def __add__(self, o):
        return Blk(self.p + self._o(o), self.sk)

    __radd__ = __add__

    def __sub__(self, o):
        return Blk(self.p - self._o(o), self.sk)

    def __rsub__(self, o):
        return Blk(self._o(o) - self.p, self.sk)

    def __mul__(self, o):
        return self._lin_only(self.p * self._o(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Blk):
            raise Unsupported("nonlinear operation on nodal values")
        return Blk(ring.num_div(self.p, self._o(o)), self.sk)

    def __neg__(self):
        return Blk(-self.p if isinstance(self.p, Poly) else -self.p, self.sk)

    def __abs__(self):
        return Blk(nabs(self.p), self.sk)

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return self
        raise Unsupported("index into nodal values")

    def copy(self):
        return Blk(self.p, self.sk)

    def astype(self, *a, **k):
        return self

    @property
    def shape(self):
        return (app("ndof", self.sk, sort="int"),)

    @property
    def size(self):
        return app("ndof", self.sk, sort="int")

    def pv_len(self):
        return self.size

    def pv_bad(self, *a):
        raise Unsupported("nodal values used as a number")

    __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __iter__ = pv_bad

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"array.{n}")


class BlkView(Blk):
    """arr[dofs]: value at the time of reading; += is recorded as an increment."""

    def __init__(self, st, f, i, sk, store, key):
        self.st, self.f, self.i, self.sk, self.store, self.keyr = st, f, i, sk, store, key
        self.incd = 0
        self._val = None

    @property
    def p(self):
        if self._val is None:
            self._val = read(self.st, self.f, self.i)
        return self._val + self.incd

    def _aug(self, d):
        r = BlkView(self.st, self.f, self.i, self.sk, self.store, self.keyr)
        r.incd = self.incd + d
        r._val = self._val
        return r

    def __iadd__(self, o):
        return self._aug(self._o(o))

    def __isub__(self, o):
        return self._aug(-1 * self._o(o))


class Full:
    """Whole-vector array value."""

    pv_immutable = True
    __array_ufunc__ = None

    def __init__(self, st, space):
        self.st, self.space = st, space

    @property
    def fv(self):
        return ring.fv(self.st)

    def pv_subst(self, m):
        return Full(ring.subst(self.st, m), self.space)

    def pv_key(self):
        return ("full", ring.ckey(self.st))

    def _terms(self, c=1):
        return ((c, self.st),)

    def _o(self, o):
        if isinstance(o, ArrView):
            o = o[:]
        if not isinstance(o, Full):
            if not isinstance(o, Poly) and o == 0:
                return Full((("zero",),), self.space)
            p = Poly.lift(o)
            if p is not None:
                return Full((("const", p.norm()),), self.space)
            raise Unsupported("array arithmetic")
        if not self.space.same_layout(o.space):
            raise ValueError("operands could not be broadcast together")
        return o

    def _mk(self, terms):
        return Full((("lin", terms),), self.space)

    def __add__(self, o):
        return self._mk(((1, self.st), (1, self._o(o).st)))

    __radd__ = __iadd__ = __add__

    def __sub__(self, o):
        return self._mk(((1, self.st), (-1, self._o(o).st)))

    __isub__ = __sub__

    def __rsub__(self, o):
        return self._mk(((-1, self.st), (1, self._o(o).st)))

    def __mul__(self, c):
        p = Poly.lift(c)
        if p is None:
            raise Unsupported("product of vectors")
        return self._mk(((p.norm(), self.st),))

    __rmul__ = __imul__ = __mul__

    def __neg__(self):
        return self * -1

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return self
        if isinstance(k, DofMap):
            return get_block(self.st, self.space, k, None)
        raise Unsupported("index into a vector")

    def copy(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"array.{n}")


def check_layout(space, d):
    if not isinstance(d, DofMap):
        raise Unsupported(f"vector indexed with {type(d).__name__}")
    if not space.same_layout(d.space):
        raise ContractViolation("dofs of one space used to index a vector over another")
    if d.idx is None:
        raise Unsupported("block of several components")


def get_block(st, space, d, store):
    check_layout(space, d)
    return BlkView(st, d.field, d.idx, d.sk, store, d)


class ArrView:
    """vec.array / function.x.array"""

    pv_immutable = True

    def pv_kids(self):
        return (self.store,)
    __array_ufunc__ = None

    def __init__(self, store):
        self.store = store

    def _single(self):
        return self.store.single()

    def __abs__(self):
        return abs(self[:])

    def __getitem__(self, k):
        s = self.store
        if isinstance(k, slice):
            if k != slice(None):
                raise Unsupported("slice of a vector")
            if self._single():
                return BlkView(s.st, 0, 0, s.space.sk(), s, "all")
            return Full(s.st, s.space)
        return get_block(s.st, s.space, k, s)

    def __setitem__(self, k, v):
        s = self.store
        writable(s)
        if isinstance(v, ArrView):
            v = v[:]
        if isinstance(k, slice):
            if k != slice(None):
                raise Unsupported("slice of a vector")
            if isinstance(v, Full):
                if not s.space.same_layout(v.space):
                    raise ValueError("could not broadcast input array")
                s.st = v.st
                return
            if isinstance(v, Blk):
                if not self._single() or ring.ckey(v.sk) != ring.ckey(s.space.sk()):
                    raise ValueError("could not broadcast input array")
                s.st = (("block", v.p),)
                return
            p = Poly.lift(v)
            if p is None:
                raise Unsupported(f"assignment of {type(v).__name__} to a vector")
            p = p.norm()
            s.st = (("zero",),) if not isinstance(p, Poly) and p == 0 else (("const", p),)
            return
        check_layout(s.space, k)
        if isinstance(v, BlkView) and v.store is s and v.keyr is not None and v.keyr != "all" and ring.ckey(v.keyr) == ring.ckey(k) \
                and v.st is s.st and not ring._is0(v.incd):
            s.write(("inc", k.field, k.idx, v.incd))
            return
        if isinstance(v, Blk):
            if ring.ckey(v.sk) != ring.ckey(k.sk):
                raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
            p = v.p
        else:
            p = Poly.lift(v)
            if p is None:
                raise Unsupported(f"assignment of {type(v).__name__} to a block")
            p = p.norm()
        s.write(("set", k.field, k.idx, p))

    def _whole(self):
        return self[:]

    def __add__(self, o):
        return self[:] + o

    def __radd__(self, o):
        return o + self[:]

    def __sub__(self, o):
        return self[:] - (o[:] if isinstance(o, ArrView) else o)

    def __rsub__(self, o):
        return o - self[:]

    def __mul__(self, o):
        return self[:] * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self[:]

    def __iadd__(self, o):
        self[:] = self[:] + (o[:] if isinstance(o, ArrView) else o)
        return self

    def __isub__(self, o):
        self[:] = self[:] - (o[:] if isinstance(o, ArrView) else o)
        return self

    def __imul__(self, o):
        self[:] = self[:] * o
        return self

    def fill(self, v):
        self[:] = v

    def copy(self):
        return self[:].copy()

    def pv_len(self):
        return app("size", self.store.space.uid, sort="int")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"array.{n}")


class AllFunctions:
    """Forms refer to their coefficients by name: all functions are part of the heap."""

    def pv_kids(self):
        return tuple(FUNCS.values())


FROZEN_STORES = set()


def writable(s):
    pass


class Vec:
    """PETSc vector."""

    pv_immutable = True

    def pv_kids(self):
        return (self.store,)

    def __init__(self, store):
        self.store = store

    @property
    def array(self):
        return ArrView(self.store)

    @array.setter
    def array(self, v):
        if isinstance(v, ArrView) and v.store is self.store:
            return
        ArrView(self.store)[slice(None)] = v

    @property
    def array_r(self):
        return ArrView(self.store)

    array_w = property(lambda self: ArrView(self.store), lambda self, v: setattr(self, "array", v))

    def getArray(self, *a):  # noqa: N802
        return ArrView(self.store)

    def set(self, v):
        ArrView(self.store)[slice(None)] = v

    def zeroEntries(self):  # noqa: N802
        self.set(0)

    def getSize(self):  # noqa: N802
        return app("size", self.store.space.uid, sort="int")

    size = property(getSize)

    def duplicate(self, *a):
        return new_vec(self.store.space, None, "dup")

    def copy(self, result=None):
        if result is None:
            return new_vec(self.store.space, self.store.st, "copy")
        result.array[:] = self.array
        return result

    def axpy(self, a, x):
        self.array[:] = self.array[:] + x.array[:] * a

    def aypx(self, a, x):
        self.array[:] = self.array[:] * a + x.array[:]

    def waxpy(self, a, x, y):
        self.array[:] = x.array[:] * a + y.array[:]

    def scale(self, a):
        self.array[:] = self.array[:] * a

    def ghostUpdate(self, *a, **k):  # noqa: N802
        return None

    def assemble(self):
        return None

    assemblyBegin = assemblyEnd = assemble  # noqa: N815
    assemblyBegin = assemble

    def destroy(self):
        return self

    def getLocalSize(self):  # noqa: N802
        return self.getSize()

    def localForm(self):  # noqa: N802
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def scatter_forward(self):
        return None

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"vector.{n}")


def new_vec(space, st, kind):
    nm = fresh_name(kind)
    return Vec(Store(space, st if st is not None else (("name", nm),), nm))


class Comp(UScalar):
    """Component of a function: u.sub(i), u.split()[i]."""

    pv_immutable = True

    def pv_kids(self):
        return (self.fn,)

    def __init__(self, fn, j, i=None):
        self.fn, self.j, self.i = fn, j, i

    @property
    def x(self):
        return Vec(self.fn.store)

    @property
    def vector(self):
        return Vec(self.fn.store)

    def sub(self, i):
        if self.i is not None:
            raise ContractViolation("component of a scalar function")
        inrange(i, self.fn.function_space.fields[self.j][2], "component")
        return Comp(self.fn, self.j, i)

    def __getitem__(self, i):
        return num(self.sub(i))

    def pv_expr(self):
        i = self.i
        if i is None:
            n = self.fn.function_space.fields[self.j][2]
            if isinstance(n, Poly) or n != 1:
                raise Unsupported("vector-valued component as a scalar")
            i = 0
        return Poly.of(mk_atom("C", (self.fn.fid, self.j, i)))

    @property
    def function_space(self):
        return SubSpace(self.fn.function_space, self.j, self.i)

    def split(self):
        return tuple(self.sub(i) for i in range(self.fn.function_space.fields[self.j][2]))

    def collapse(self):
        s, d = self.function_space.collapse()
        f = Function(s)
        ArrView(f.store)[slice(None)] = ArrView(self.fn.store)[d]
        return f

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"function component.{n}")


class Function(UScalar):
    pv_immutable = True

    def pv_kids(self):
        return (self.store,)

    def __init__(self, space, x=None, name=None, **k):
        if isinstance(space, SubSpace):
            raise Unsupported("function on an uncollapsed subspace")
        if not isinstance(space, Space):
            raise ContractViolation("fem.Function needs a function space")
        self.function_space = space
        self.fid = fresh_name("F")
        self.name = name
        self.store = Store(space, (("zero",),), self.fid) if x is None else x.store
        FUNCS[ring.ckey(self.fid)] = self
        SPACES[space.uid] = space

    @property
    def fv(self):
        return ring.fv(self.fid)

    def pv_subst(self, m):
        raise Unsupported("function created in a loop of symbolic length")

    def pv_key(self):
        return ("function", ring.ckey(self.fid))

    @property
    def x(self):
        return Vec(self.store)

    @property
    def vector(self):
        return Vec(self.store)

    def pv_expr(self):
        if not self.store.single():
            raise Unsupported("vector-valued function as a scalar")
        return Poly.of(mk_atom("C", (self.fid, 0, 0)))

    def sub(self, j):
        self.function_space.sub(j)
        if self.function_space.elem.kind == "vector":
            return Comp(self, 0, j)
        return Comp(self, j)

    def split(self):
        if self.function_space.elem.kind != "mixed":
            raise ContractViolation("split of a function that is not mixed")
        return tuple(Comp(self, j) for j in range(len(self.function_space.fields)))

    def __getitem__(self, i):
        return num(self.sub(i))

    def copy(self):
        f = Function(self.function_space)
        f.store.st = self.store.st
        return f

    def __call__(self, s):
        if s in ("+", "-"):
            return restrict(num(self), s)
        raise Unsupported("evaluation of a function")

    def interpolate(self, f, *a, **k):
        if not self.store.single():
            raise Unsupported("interpolation into a mixed space")
        to = self.function_space
        v = interp(to, f)
        self.store.st = (("block", v),)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        if n == "ufl_shape":
            return ()
        if n == "eval":
            raise Unsupported("function evaluation")
        raise Unsupported(f"Function.{n}")


class Expression:
    """fem.Expression(ufl_expr, points)."""

    pv_immutable = True

    def __init__(self, e, points, *a, **k):
        self.e, self.points = num(e), points


class Pts:
    """Coordinates array handed to an interpolated callable."""

    def __init__(self, space):
        self.space = space

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"coordinates.{n}")


class PVal:
    """Pointwise value of a user function (opaque)."""

    __array_ufunc__ = None

    def __init__(self, p, pts):
        self.p, self.pts = p, pts

    def _o(self, o):
        if isinstance(o, PVal):
            return o.p
        p = Poly.lift(o)
        if p is None:
            raise Unsupported("arithmetic on point values")
        return p.norm()

    def __add__(self, o):
        return PVal(self.p + self._o(o), self.pts)

    __radd__ = __add__

    def __sub__(self, o):
        return PVal(self.p - self._o(o), self.pts)

    def __rsub__(self, o):
        return PVal(self._o(o) - self.p, self.pts)

    def __mul__(self, o):
        return PVal(self.p * self._o(o), self.pts)

    __rmul__ = __mul__

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def pv_bad(self, *a, **k):
        raise Unsupported("point values used beyond arithmetic")

    __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __iter__ = __getitem__ = __setitem__ = __len__ = __array__ = pv_bad

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"point values.{n}")


class UserFn:
    """Opaque scalar function of space supplied by the user."""

    pv_immutable = True

    def __init__(self, name, time=False):
        self.name, self.time = name, time

    def __call__(self, *a):
        if len(a) != (2 if self.time else 1):
            raise TypeError(f"{self.name}() takes {2 if self.time else 1} arguments")
        x = a[-1]
        t = (Poly.lift(a[0]).norm(),) if self.time else ()
        if isinstance(x, Coord):
            return Poly.of(mk_atom("ref", (self.name, *t)))
        if isinstance(x, Pts):
            return PVal(Poly.of(mk_atom("ref", (self.name, *t))), x)
        if isinstance(x, PList) and x.pv_concrete():
            # value at one point, given by its coordinates
            return Poly.of(mk_atom("refpt", (self.name, *t, tuple(Poly.lift(y).norm() for y in x.items))))
        raise Unsupported(f"{self.name} evaluated at {type(x).__name__}")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"function.{n}")


class Coord:
    """ufl.SpatialCoordinate."""

    pv_immutable = True

    def __init__(self, mesh):
        self.mesh = mesh

    def __getitem__(self, i):
        return Poly.of(mk_atom("coord", (self.mesh.name, i)))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"coordinate.{n}")


def interp(to, f):
    """Nodal values in space `to` of f."""
    sk = to.sk()
    if isinstance(f, Function):
        src = f.function_space
        v = read(f.store.st, 0, 0)
        if ring.ckey(src.sk()) == ring.ckey(sk):
            return v
        return linmap(v, lambda b: Poly.of(mk_atom("interp", (sk, mk_atom("N", (src.sk(), b))))), lambda c: c)
    if isinstance(f, Comp):
        src = f.function_space
        p = f.fn.function_space.sk(f.j)
        v = read(f.fn.store.st, f.j, f.i or 0)
        if ring.ckey(p) == ring.ckey(sk):
            return v
        return linmap(v, lambda b: Poly.of(mk_atom("interp", (sk, mk_atom("N", (p, b))))), lambda c: c)
    if isinstance(f, Expression):
        if not (isinstance(f.points, tuple) and f.points[0] == "ipts" and ring.ckey(f.points[1].sk()) == ring.ckey(sk)):
            raise ContractViolation("expression evaluated at the points of another space")
        return interp_expr(sk, resolve(f.e))
    if isinstance(f, Poly):
        raise ContractViolation("a UFL expression cannot be interpolated directly")
    if callable(f):
        r = f(Pts(to))
        if isinstance(r, PVal):
            return interp_expr(sk, r.p)
        p = Poly.lift(r)
        if p is None:
            raise Unsupported(f"interpolated function returns {type(r).__name__}")
        raise ContractViolation("interpolated function returns a scalar")
    raise Unsupported(f"interpolation of {type(f).__name__}")


def interp_expr(sk, p):
    """Interpolation is linear over numeric factors; N of the same space is reproduced."""
    out = 0
    for m, c in Poly.lift(p).t.items():
        sp = tuple((a, e) for a, e in m if spatial(a))
        rest = Poly({tuple((a, e) for a, e in m if not spatial(a)): c}).norm()
        if any(a.kind == "sum" and any(spatial(b) for b in _deep(a)) for a, _ in m):
            raise Unsupported("interpolation of a symbolic sum")
        if not sp:
            out = out + rest
        elif len(sp) == 1 and sp[0][1] == 1 and sp[0][0].kind == "N" and ring.ckey(sp[0][0].args[0]) == ring.ckey(sk):
            out = out + rest * Poly.of(sp[0][0].args[1])
        elif len(sp) == 1 and sp[0][1] == 1:
            out = out + rest * Poly.of(mk_atom("interp", (sk, sp[0][0])))
        else:
            out = out + rest * Poly.of(mk_atom("interp", (sk, mk_atom("expr", (Poly({sp: Fraction(1)}),)))))
    return out


# ------------------------------------------------------------------------------------------------------------ matrices
class Mat(heap.WObj):
    """PETSc matrix: assembled form."""

    def __init__(self, form):
        if not isinstance(form, Form) or form.rank != 2:
            raise ContractViolation("matrix assembly of a form that is not bilinear")
        self.form = form
        self.p = form.resolved()
        self.done = False
        self.name = fresh_name("A")

    def pv_get(self):
        return self.done

    def pv_set(self, v):
        self.done = v

    def assemble(self, *a):
        self.done = True

    assemblyBegin = lambda self, *a: None  # noqa: E731,N815

    def assemblyEnd(self, *a):  # noqa: N802
        self.done = True

    def _chk(self):
        if not self.done:
            raise ContractViolation("matrix used before its assembly was completed")

    def createVecs(self, side=None):  # noqa: N802
        if side in ("right", "r"):
            return new_vec(self.form.trial, None, "r")
        if side in ("left", "l"):
            return new_vec(self.form.test, None, "l")
        return new_vec(self.form.trial, None, "r"), new_vec(self.form.test, None, "l")

    createVecRight = lambda self: new_vec(self.form.trial, None, "r")  # noqa: E731,N815
    createVecLeft = lambda self: new_vec(self.form.test, None, "l")  # noqa: E731,N815

    def mult(self, x, y):
        self._chk()
        if x.store is y.store:
            raise ContractViolation("MatMult: x and y must be different vectors")
        for v, s in ((x, self.form.trial), (y, self.form.test)):
            if not s.same_layout(v.store.space):
                raise ContractViolation("vector does not fit the matrix")
        writable(y.store)
        y.store.st = (("matvec", self.p, self.form.trial.uid, x.store.st),)

    def multAdd(self, x, v, y):  # noqa: N802
        self._chk()
        t = new_vec(self.form.test, None, "t")
        self.mult(x, t)
        y.array[:] = v.array[:] + t.array[:]

    def __mul__(self, x):
        t = new_vec(self.form.test, None, "t")
        self.mult(x, t)
        return t

    def zeroEntries(self):  # noqa: N802
        raise Unsupported("matrix modified")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"matrix.{n}")


def assemble_matrix(form, bcs=(), *a, **k):
    if len(bcs):
        raise Unsupported("boundary conditions")
    return Mat(form)


def create_vector(form):
    if not isinstance(form, Form) or form.test is None:
        raise ContractViolation("create_vector of a form without test function")
    v = new_vec(form.test, None, "b")
    v.store.st = (("zero",),)
    return v


def assemble_vector(x, form=None, *a):
    if isinstance(x, Form):
        v = create_vector(x)
        return assemble_vector(v, x)
    if not isinstance(form, Form) or form.rank != 1:
        raise ContractViolation("vector assembly of a form that is not linear")
    if not form.test.same_layout(x.store.space):
        raise ContractViolation("vector does not fit the form")
    p = form.resolved()
    if x.store.st == (("zero",),):
        x.store.st = (("asm", p),)
    else:
        x.store.st = (("lin", ((1, x.store.st), (1, (("asm", p),)))),)
    return x


def set_(*a, **k):
    raise Unsupported("dolfinx function without contract")


class Comm:
    """Communicator: allreduce combines the contributions of all processes."""

    pv_immutable = True

    def __init__(self, name="comm"):
        self.name = name
        self.rank, self.size = 0, 1

    def allreduce(self, x, op=None):
        return allreduce(x, op)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        raise Unsupported(f"communicator.{n}")


def assemble_scalar(form, *a):
    if not isinstance(form, Form):
        if isinstance(form, Poly):
            raise ContractViolation("assemble_scalar needs a compiled form")
        raise Unsupported("assemble_scalar")
    if form.rank != 0:
        raise ContractViolation("assemble_scalar of a form with arguments")
    p = integrate(form.resolved())
    # contribution of this process only
    return map_atoms(p, lambda a: Poly.of(mk_atom("local", (a,))) if a.kind == "int" else None)


def allreduce(x, op=None):
    if op not in (None, "SUM"):
        raise Unsupported(f"reduction {op}")
    x = Poly.lift(x)

    def lin(p):
        out = 0
        for m, c in p.t.items():
            loc = [(a, e) for a, e in m if a.kind == "local"]
            sums = [(a, e) for a, e in m if a.kind == "sum" and any(b.kind == "local" for b in _deep(a))]
            if len(loc) + len(sums) != 1 or any(e != 1 for _, e in loc + sums):
                raise ContractViolation("reduction of something that is not a sum of local contributions")
            rest = Poly({tuple((a, e) for a, e in m if a.kind != "local" and (a, e) not in sums): c}).norm()
            if any(b.kind == "local" for a, _ in m if (a, 1) not in loc + sums for b in _deep(a)):
                raise ContractViolation("reduction of a nonlinear function of local contributions")
            if loc:
                out = out + rest * Poly.of(loc[0][0].args[0])
            else:
                fam, = sums[0][0].args
                out = out + rest * num_sum(fam.var, fam.lo, fam.hi, tuple((g, lin(Poly.lift(y))) for g, y in fam.items))
        return out

    return lin(x)


def has_local(x):
    return isinstance(x, Poly) and any(b.kind == "local" for m in x.t for a, _ in m for b in _deep(a))


# ------------------------------------------------------------------------------------------------------------ modules
def facet_normal(mesh):
    return VExpr({("n", None, None): 1})


def cell_diameter(mesh):
    return Poly.of(mk_atom("h", (mesh.name,)))


class LazyMod(Mod):
    """Module whose names may be imported but not used."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Lazy(f"{self.__name__}.{n}")


class Lazy:
    pv_immutable = True

    def __init__(self, n):
        self._n = n

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "atoms":
            raise AttributeError(n)
        return Lazy(f"{self._n}.{n}")

    def __call__(self, *a, **k):
        raise Unsupported(f"{self._n} has no contract")


def function_space(mesh, e, **k):
    if isinstance(e, tuple):
        if len(e) != 2:
            raise Unsupported("element shape")
        e = finite_element(e[0], mesh.ufl_cell(), e[1])
    if not isinstance(e, Elem):
        raise Unsupported("element")
    if e.cell != mesh.ufl_cell():
        raise ContractViolation("element of another mesh's cell")
    name = ("s", mesh.name, e.fields[0][0], ring.ckey(e.fields[0][1])) if e.kind == "scalar" else None
    s = Space(mesh, e, name)
    SPACES[s.uid] = s
    return s


def make():
    SPACES.clear()
    FUNCS.clear()
    ufl = mod("ufl", grad=grad, div=div, inner=inner, dot=u_dot, jump=jump, avg=avg, dx=Meas("dx"), ds=Meas("ds"), dS=Meas("dS"), Measure=measure,
              FacetNormal=facet_normal, CellDiameter=cell_diameter, Circumradius=set_, SpatialCoordinate=Coord, VectorElement=vector_element,
              FiniteElement=finite_element, MixedElement=mixed_element, TestFunctions=arguments("V"), TrialFunctions=arguments("T"),
              TestFunction=arguments("V"), TrialFunction=arguments("T"), split=split, nabla_grad=grad, nabla_div=div, Form=Poly)
    petsc = mod("dolfinx.fem.petsc", assemble_matrix=assemble_matrix, create_vector=create_vector, assemble_vector=assemble_vector)
    fem = mod("dolfinx.fem", FunctionSpace=function_space, Function=Function, form=fem_form, Expression=Expression, assemble_scalar=assemble_scalar,
              petsc=petsc, functionspace=function_space)
    io = LazyMod("dolfinx.io")
    dolfinx = mod("dolfinx", fem=fem, io=io, __version__="0.6.0")
    MPI = mod("mpi4py.MPI", SUM="SUM", MAX="MAX", MIN="MIN", COMM_WORLD=Comm(), COMM_SELF=Comm("self"))
    mpi = mod("mpi4py", MPI=MPI)
    return {"ufl": ufl, "dolfinx": dolfinx, "dolfinx.fem": fem, "dolfinx.io": io, "dolfinx.fem.petsc": petsc, "mpi4py": mpi, "mpi4py.MPI": MPI}
