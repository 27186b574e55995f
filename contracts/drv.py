"""Harness of the shipped problems: the driver modules run against the contracts of SpaceTime, the iterative solver and the meshes."""
import types

from pyvc import engine, heap, loader, ring, sym
from pyvc.ring import Poly, Unsupported
from pyvc.values import PList

from world import base, krylov, numpy_


class Msh:
    def __init__(self, kind, w, **a):
        self.kind, self.args, self.w = kind, a, w
        self.comm = krylov.Comm(w)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"mesh.{n}")


class Sparse:
    def __init__(self, op):
        self.op = op
        self.shape = None

    def __getattr__(self, n):
        if n in ("tocsr", "tocsc", "copy", "sorted_indices", "sort_indices"):
            return lambda *a: self
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"sparse.{n}")


class Pardiso:
    """Contract of PyPardisoSolver: `_call_pardiso` in phase 33 solves with the factorised matrix (which must be the one passed)."""

    def __init__(self, mtype=11, **k):
        self.fact, self.phase = None, None

    def factorize(self, A):
        self.fact, self.phase = A.op, 12

    def _check_A(self, A):  # noqa: N802
        return A

    def _check_b(self, A, b):
        return b if isinstance(b, krylov.VArr) else krylov.VArr(b.val)

    def set_phase(self, p):
        self.phase = p

    def _call_pardiso(self, A, b):
        if self.phase == 13:
            self.fact = A.op
        elif self.phase != 33:
            raise Unsupported(f"pardiso phase {self.phase}")
        elif self.fact is None or self.fact != A.op:
            return krylov.VArr(krylov.vecatom(f"pardiso{id(self)}-without-factorisation"))
        return krylov.VArr(krylov.lin_apply(("inv", self.fact), b.val))

    def solve(self, A, b):
        self.fact = A.op
        return krylov.VArr(krylov.lin_apply(("inv", A.op), b.val))

    def free_memory(self, everything=False):
        self.fact = None

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"pardiso.{n}")


class Drv:
    pass


def make_ufl(dim):
    from world.base import lift, trig
    tb = lambda c: sym.as_bool(c)  # noqa: E731
    m = base.mod("ufl", sin=trig("sin"), cos=trig("cos"), pi=base.PI, sqrt=base.m_sqrt,
                 And=lambda a, b: sym.land(tb(a), tb(b)), Or=lambda a, b: sym.lor(tb(a), tb(b)), Not=lambda a: sym.lnot(tb(a)),
                 conditional=lambda c, a, b: Cond(sym.ite(tb(c), a, b)),
                 le=lambda a, b: sym.compare(a, b, "<="), lt=lambda a, b: sym.compare(a, b, "<"),
                 ge=lambda a, b: sym.compare(a, b, ">="), gt=lambda a, b: sym.compare(a, b, ">"),
                 SpatialCoordinate=lambda msh: tuple(ring.var(f"X{i}") for i in range(dim)))
    return m


class Cond:
    """ufl.conditional expression in the spatial coordinates X0.. of the mesh."""

    def __init__(self, e):
        self.e = e

    def __call__(self, x):
        return ring.subst(self.e, {ring.atom_of(ring.var(f"X{i}")): v for i, v in enumerate(x)})


def load(dim, pardiso=False, consts=None):
    d = Drv()
    w = d.w = krylov.World()
    P = krylov.petsc(w)
    d.meshes, d.problems, d.log = [], [], []

    def mesh(kind):
        def f(comm=None, *a, **k):
            m = Msh(kind, w, pos=a, kw=k)
            d.meshes.append(m)
            return m
        return f

    def around(n, *a, **k):
        if not isinstance(n, int):
            raise Unsupported("number of refinements")
        return PList([mesh("around")(None, i) for i in range(n + 1)])

    class ST:
        """Contract of SpaceTime as its callers see it (C05-C17)."""

        def __init__(self, *a, **k):
            self.pos, self.kw = a, k
            self.msh = k.get("msh", a[5] if len(a) > 5 else None)
            self.ready, self.slab, self.first = [], None, None
            d.problems.append(self)

        def setup_spacetime_finite_elements(self):
            self.ready.append("fes")

        def _need(self, what="fes"):
            if what not in self.ready:
                raise Unsupported(f"use of the problem before {what}")

        def prepare_precondition_gmres(self):
            self._need()
            self.ready.append("pre")

        def get_slab_matrix(self):
            self._need()
            return krylov.Mat(w, ("S", id(self)), (ring.var("ns", "int"),) * 2)

        def get_slab_matrix_first_slab(self):
            self._need()
            return krylov.Mat(w, ("F", id(self)), (ring.var("ns", "int"),) * 2)

        def get_spacetime_matrix(self, precond=False):
            self._need()
            return krylov.Mat(w, ("Gp" if precond else "G", id(self)), (ring.var("ng", "int"),) * 2)

        def get_spacetime_rhs(self):
            self._need()
            if "b" not in self.__dict__:
                self.b = krylov.Vec(w, krylov.vecatom("rhs"), ring.var("ng", "int"))
            return self.b

        def set_solver_slab(self, s):
            self.slab = s

        def set_solver_first_slab(self, s):
            self.first = s

        def measured_errors(self, u, *a, **k):
            d.log.append(("errors", u, u.val))

        def plot_error(self, u, *a, **k):
            d.log.append(("plot", u, u.val))

        plot = plot_para_view = plot_error

        def __getattr__(self, n):
            if n.startswith("__") or n.startswith("pv_"):
                raise AttributeError(n)
            raise Unsupported(f"SpaceTime.{n} in a driver")

    class MatW:
        def __init__(self, st):
            self.st = st

    class PreW(MatW):
        pass

    class TwoW(MatW):
        pass

    def gmres(A, b, pre, *a, **k):
        """Contract of get_gmres_solution (C18): returns the solution of the wrapped operator and its residual."""
        if not isinstance(A, MatW) or type(A) is not MatW or not isinstance(pre, (PreW, TwoW)):
            raise Unsupported("operators of the iterative solve")
        st = A.st
        d.log.append(("gmres", A, pre, b, b.val, (pre.st.slab, pre.st.first), a, k))
        x = krylov.Vec(w, krylov.lin_apply(("inv", ("G", id(st))), b.val), b.size_)
        return x, krylov.Vec(w, krylov.vecatom("res"), b.size_)

    dc = lambda name, fields, defaults: _record(name, fields, defaults)  # noqa: E731
    stm = base.mod("dxss.space_time", SpaceTime=ST, SpaceTimePETScMatrixWrapper=MatW, SpaceTimePETScPreconditionerWrapper=PreW,
                   get_sparse_matrix=lambda m: Sparse(m.op), DataDomain=dc("DataDomain", ("indicator_function", "fitted"), (None, True)),
                   OrderTime=dc("OrderTime", ("q", "qstar"), ()), OrderSpace=dc("OrderSpace", ("k", "kstar"), ()),
                   ProblemParameters=dc("ProblemParameters", ("jumps_in_fw_problem", "well_posed"), (False, False)),
                   ValueAndDerivative=dc("ValueAndDerivative", ("v", "dvdt"), ()))
    mpi = base.mod("mpi4py.MPI", COMM_WORLD=krylov.Comm(w), COMM_SELF=krylov.Comm(w))
    E = type("Enum", (), {})
    dm = base.mod("dolfinx.mesh", create_unit_interval=mesh("interval"), create_interval=mesh("interval2"), create_box=mesh("box"),
                  create_unit_cube=mesh("unit cube"), create_unit_square=mesh("unit square"), create_rectangle=mesh("rectangle"),
                  CellType=type("CellType", (), {"hexahedron": "hex", "tetrahedron": "tet", "triangle": "tri", "quadrilateral": "quad"}),
                  GhostMode=type("GhostMode", (), {"shared_facet": 1, "none": 0, "shared_vertex": 2}))
    world = {"petsc4py": base.mod("petsc4py", PETSc=P), "petsc4py.PETSc": P, "numpy": numpy_.make(), "math": base.make_math(),
             "sys": base.make_sys(), "time": base.make_time(), "resource": base.make_resource(), "mpi4py": base.mod("mpi4py", MPI=mpi),
             "mpi4py.MPI": mpi, "ufl": make_ufl(dim), "dolfinx": base.mod("dolfinx", mesh=dm), "dolfinx.mesh": dm,
             "pypardiso": base.mod("pypardiso", PyPardisoSolver=Pardiso) if pardiso else ImportError("No module named 'pypardiso'")}
    ld = loader.fresh_loader(world)
    ld.load("dxss")
    for name, m in (("space_time", stm), ("gmres", base.mod("dxss.gmres", get_gmres_solution=gmres)),
                    ("meshes", base.mod("dxss.meshes", get_mesh_data_all_around=around))):
        ld.mods[f"dxss.{name}"] = m
        setattr(ld.mods["dxss"], name, m)
    if consts:
        override(f"dxss.solve_{dim}d", consts)
    d.mod = ld.load(f"dxss.solve_{dim}d")
    d.problem = d.problems[-1] if d.problems else None
    d.args = bind(d.problem) if d.problem else None
    return d


ORDER = ["polynomial_order_time", "polynomial_order_space", "N", "T", "t", "msh", "stabilisation_terms", "omega", "solution", "parameters"]


def bind(p):
    a = dict(zip(ORDER, p.pos))
    a.update(p.kw)
    return a


def _record(name, fields, defaults):
    def init(self, *a, **k):
        vals = dict(zip(fields[len(fields) - len(defaults):], defaults)) if defaults else {}
        vals.update(dict(zip(fields, a)))
        for x in k:
            if x not in fields:
                raise TypeError(f"unexpected keyword argument '{x}'")
        vals.update(k)
        for f in fields:
            if f not in vals:
                raise TypeError(f"missing argument '{f}'")
            setattr(self, f, vals[f])
    return type(name, (), {"__init__": init, "fields": fields})


_OVER = {}


def override(modname, consts):
    """Load a variant of a driver: the module-level constants named are replaced (the rest of the source is untouched)."""
    import ast

    from pyvc import transform
    from pyvc.loader import _CODE, SRC
    p = SRC / (modname.replace(".", "/") + ".py")
    tree = ast.parse(p.read_text())
    hit = set()
    for n in tree.body:
        if isinstance(n, ast.AnnAssign) and n.value is not None:
            n = ast.Assign([n.target], n.value)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in consts:
            n.value = ast.copy_location(ast.Constant(consts[n.targets[0].id]), n.value)
            hit.add(n.targets[0].id)
    if hit != set(consts):
        raise Unsupported(f"no module-level constants {set(consts) - hit}")
    t = transform.transform(ast.unparse(ast.fix_missing_locations(tree)), str(p))
    _CODE[(str(p), p.stat().st_mtime_ns)] = compile(t, str(p), "exec")
