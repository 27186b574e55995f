"""Contract of petsc4py for the solver drivers: vectors as linear combinations of named vectors, matrices as linear maps,
KSP/PC as type state (settings in force, operators, outcome of a solve), the options database.

Facts of PETSc 3.19 stated here (and exercised by the replay on the real library):
* `setGMRESRestart` acts only when the type is GMRES, `setPythonContext` only when the type is PYTHON; a change of type
  discards type-specific settings;
* `setTolerances` leaves omitted values unchanged; defaults are rtol 1e-5, atol 1e-50, divtol 1e5, max_it 10000, restart 30;
* `setFromOptions` overwrites the settings named in the options database;
* `solve(b, x)` needs operators, does not change b, overwrites x (zero initial guess unless requested) and ends with a non-zero
  reason: positive for convergence, negative otherwise; with `setErrorIfNotConverged` it raises instead of a negative reason;
* `buildResidual`/`buildSolution` after a solve return vectors of which nothing is assumed.
"""
from __future__ import annotations

from fractions import Fraction as F

from pyvc import engine, heap, ring, sym
from pyvc.ring import Poly, Unsupported
from pyvc.values import PList, Poison

from .base import Mod, lift, mod


class PETScError(RuntimeError):
    def __init__(self, *a):
        super().__init__(*a)
        self.ierr = a[0] if a else 0


class World:
    """Everything that happened, in order."""

    def __init__(self):
        self.log = []
        self.options = {}
        self.printed = []
        self.n = 0

    def ev(self, *a):
        self.log.append(a)

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"


def vecatom(name):
    return Poly.of(ring.mk_atom("vec", (name,)))


def lin_apply(op, p):
    """Linear map applied to a linear combination of vectors."""
    p = Poly.lift(p)
    out = 0
    for m, c in p.t.items():
        v = [(a, e) for a, e in m if a.kind in ("vec", "opv")]
        if len(v) != 1 or v[0][1] != 1:
            raise Unsupported("vector content is not linear")
        rest = Poly({tuple(x for x in m if x[0] is not v[0][0]): c}).norm()
        out = out + rest * Poly.of(ring.mk_atom("opv", (op, Poly.of(v[0][0]))))
    return out


class Comm:
    def __init__(self, w):
        self.w = w

    def getRank(self):
        return 0

    rank = property(getRank)

    def tompi4py(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Comm)

    __hash__ = None


class Vec(heap.WObj):
    __array_ufunc__ = None

    def __init__(self, w=None, val=0, size=None):
        self.w, self._st, self.size_ = w, val, size

    # content
    @property
    def val(self):
        return self._st

    def put(self, v):
        self.w.ev("write", self)
        self.__dict__["_st"] = v

    def getSize(self):
        return self.size_

    def getSizes(self):
        return (self.size_, self.size_)

    size = property(getSize)
    local_size = property(getSize)

    def getLocalSize(self):
        return self.size_

    def getComm(self):
        return Comm(self.w)

    comm = property(getComm)

    def duplicate(self, array=None):
        if array is not None:
            raise Unsupported("duplicate with an array")
        return Vec(self.w, vecatom(self.w.fresh("uninit")) * 0, self.size_)

    def copy(self, result=None):
        if result is None:
            return Vec(self.w, self._st, self.size_)
        result.put(self._st)
        return result

    def set(self, a):
        if not (isinstance(a, (int, F)) and a == 0):
            raise Unsupported("Vec.set of a nonzero value")
        self.put(0)

    def zeroEntries(self):
        self.put(0)

    def axpy(self, a, x):
        self.put(self._st + lift(a) * x.val)

    def aypx(self, a, x):
        self.put(lift(a) * self._st + x.val)

    def axpby(self, a, b, x):
        self.put(lift(a) * x.val + lift(b) * self._st)

    def waxpy(self, a, x, y):
        self.put(lift(a) * x.val + y.val)

    def scale(self, a):
        self.put(lift(a) * self._st)

    def norm(self, *a):
        return ring.app("norm", self._st)

    def assemble(self):
        pass

    assemblyBegin = assemblyEnd = setUp = setFromOptions = view = ghostUpdate = lambda self, *a, **k: None

    def destroy(self):
        return self

    def _new(self, v):
        return Vec(self.w, v, self.size_)

    def __add__(self, o):
        return self._new(self._st + o.val) if isinstance(o, Vec) else NotImplemented

    def __sub__(self, o):
        return self._new(self._st - o.val) if isinstance(o, Vec) else NotImplemented

    def __neg__(self):
        return self._new(-lift(self._st))

    def __mul__(self, a):
        return self._new(self._st * lift(a))

    __rmul__ = __mul__

    def __truediv__(self, a):
        return self._new(ring.num_div(self._st, lift(a)))

    def __iadd__(self, o):
        self.put(self._st + o.val)
        return self

    def __isub__(self, o):
        self.put(self._st - o.val)
        return self

    def __imul__(self, a):
        self.scale(a)
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @property
    def array(self):
        return VArr(self._st, self)

    @array.setter
    def array(self, v):
        self.put(_val(v))

    array_r = property(lambda self: VArr(self._st))
    array_w = property(lambda self: VArr(self._st, self), lambda self, v: self.put(_val(v)))

    def getArray(self, readonly=False):
        return VArr(self._st, None if readonly else self)

    def setArray(self, v):
        self.put(_val(v))

    def __getitem__(self, i):
        if i == slice(None) or i is ...:
            return VArr(self._st)
        raise Unsupported("Vec[...]")

    def __setitem__(self, i, v):
        if i == slice(None) or i is ...:
            self.put(_val(v))
            return
        raise Unsupported("Vec[...]")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "_st":
            raise AttributeError(n)
        raise Unsupported(f"Vec.{n} has no contract")


def _val(v):
    if isinstance(v, (VArr, Vec)):
        return v.val
    if isinstance(v, (int, F)) and v == 0:
        return 0
    raise Unsupported("array content")


class VArr:
    """A whole array of vector entries (a view of `owner` when given)."""

    __array_ufunc__ = None

    def __init__(self, val, owner=None):
        self._v, self.owner = val, owner

    @property
    def val(self):
        return self.owner.val if self.owner is not None else self._v

    def __getitem__(self, i):
        if i == slice(None) or i is ...:
            return self
        raise Unsupported("entry of a vector")

    def __setitem__(self, i, v):
        if (i == slice(None) or i is ...) and self.owner is not None:
            self.owner.put(_val(v))
            return
        raise Unsupported("assignment to vector entries")

    def copy(self):
        return VArr(self.val)

    astype = ravel = flatten = reshape = lambda self, *a, **k: VArr(self.val)

    def __add__(self, o):
        return VArr(self.val + _val(o))

    def __sub__(self, o):
        return VArr(self.val - _val(o))

    def __mul__(self, a):
        return VArr(self.val * lift(a))

    __rmul__ = __mul__

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_"):
            raise AttributeError(n)
        raise Unsupported(f"array.{n} has no contract")


class Mat(heap.WObj):
    """A linear map: `op` names it; shells are named by their Python context."""

    def __init__(self, w=None, op=None, size=None, ctx=None):
        self.w, self.op, self.size_, self.ctx, self.kind = w, op, size, ctx, "assembled" if ctx is None else "shell"
        self.upd = w is not None and ctx is None

    def pv_get(self):
        return None

    def pv_set(self, v):
        pass

    def createPython(self, size, context=None, comm=None):
        if isinstance(size, (tuple, PList, list)):
            s = list(size)
            s = [list(x)[-1] if isinstance(x, (tuple, PList, list)) else x for x in s]
        else:
            s = [size, size]
        self.size_ = tuple(s)
        self.kind, self.ctx = "shell", context
        self.op = ("ctx", id(context))
        self.w.keep.append(context)
        return self

    def create(self, comm=None):
        return self

    def setSizes(self, s, bsize=None):
        if not isinstance(s, (tuple, PList, list)):
            s = (s, s)
        s = [list(x)[-1] if isinstance(x, (tuple, PList, list)) else x for x in s]
        self.size_ = tuple(s)

    def setType(self, t):
        if t != "python":
            raise Unsupported(f"matrix type {t}")
        self.kind = "shell"

    def setPythonContext(self, c):
        self.ctx, self.op = c, ("ctx", id(c))
        self.w.keep.append(c)

    def getPythonContext(self):
        return self.ctx

    def setUp(self):
        return self

    assemble = assemblyBegin = assemblyEnd = setFromOptions = view = lambda self, *a, **k: None

    def getComm(self):
        return Comm(self.w)

    comm = property(getComm)

    def getSize(self):
        return self.size_

    size = property(getSize)

    def _ready(self):
        if self.op is None:
            raise PETScError(73)
        return self.op

    def createVecRight(self):
        return Vec(self.w, 0, self.size_[1])

    def createVecLeft(self):
        return Vec(self.w, 0, self.size_[0])

    def createVecs(self, side=None):
        if side is not None:
            raise Unsupported("createVecs(side)")
        return self.createVecRight(), self.createVecLeft()

    getVecs = createVecs
    getVecRight, getVecLeft = createVecRight, createVecLeft

    def mult(self, x, y):
        if x is y:
            raise PETScError(62)
        y.put(lin_apply(self._ready(), x.val))

    def multAdd(self, x, v, y):
        y.put(v.val + lin_apply(self._ready(), x.val))

    def residual(self, b, x, r):
        r.put(b.val - lin_apply(self._ready(), x.val))

    def multTranspose(self, x, y):
        y.put(lin_apply(("T", self._ready()), x.val))

    def __mul__(self, x):
        if isinstance(x, Vec):
            return Vec(self.w, lin_apply(self._ready(), x.val), self.size_[0])
        raise Unsupported("Mat * object")

    __matmul__ = __call__ = __mul__

    def destroy(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "_st":
            raise AttributeError(n)
        raise Unsupported(f"Mat.{n} has no contract")


DEFAULTS = {"rtol": F(1, 10**5), "atol": F(1, 10**50), "divtol": 10**5, "max_it": 10000}


class PC(heap.WObj):
    class Type:
        PYTHON, LU, NONE, JACOBI, ILU, SHELL, CHOLESKY = "python", "lu", "none", "jacobi", "ilu", "shell", "cholesky"

    Side = None

    def __init__(self, w):
        self.w, self.type, self.ctx, self.factor, self.ops = w, None, None, None, None

    def pv_get(self):
        return None

    def pv_set(self, v):
        pass

    def setType(self, t):
        if t != self.type:
            self.type, self.ctx, self.factor = t, None, None

    def getType(self):
        return self.type

    def setPythonContext(self, c):
        if self.type == "python":
            self.ctx = c

    def getPythonContext(self):
        return self.ctx

    def createPython(self, context=None, comm=None):
        self.setType("python")
        self.ctx = context
        return self

    def setFactorSolverType(self, s):
        self.factor = s

    def getFactorMatrix(self):
        return Opaque(self.w, "factor matrix")

    def setFactorSetUpSolverType(self):
        pass

    def setOperators(self, A=None, P=None):
        self.ops = (A, P if P is not None else A)

    setUp = setFromOptions = view = setReusePreconditioner = lambda self, *a, **k: None

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pv_") or n == "_st":
            raise AttributeError(n)
        raise Unsupported(f"PC.{n} has no contract")


class Opaque:
    """Tuning only: any method call is accepted and has no effect."""

    def __init__(self, w, what):
        self._w, self._what = w, what

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return lambda *a, **k: None


def petsc(w):
    """The PETSc module of one world."""
    w.keep = []

    class KSP(heap.WObj):
        class Type:
            GMRES, FGMRES, LGMRES, CG, PREONLY, RICHARDSON, BCGS, MINRES, GCR, TFQMR, PGMRES, DGMRES = (
                "gmres", "fgmres", "lgmres", "cg", "preonly", "richardson", "bcgs", "minres", "gcr", "tfqmr", "pgmres", "dgmres")

        class NormType:
            DEFAULT, NONE, PRECONDITIONED, UNPRECONDITIONED, NATURAL = -1, 0, 1, 2, 3
            NORM_DEFAULT, NORM_NONE, NORM_PRECONDITIONED, NORM_UNPRECONDITIONED = -1, 0, 1, 2

        class ConvergedReason:
            CONVERGED_RTOL, CONVERGED_ATOL, CONVERGED_ITS, DIVERGED_ITS, ITERATING, CONVERGED_ITERATING = 2, 3, 4, -3, 0, 0
            DIVERGED_MAX_IT, DIVERGED_DTOL, DIVERGED_BREAKDOWN, DIVERGED_NANORINF, DIVERGED_NULL = -3, -4, -5, -9, -2

        def __init__(self):
            self.w = w
            self.type = None
            self.s = dict(DEFAULTS)
            self.restart = 30
            self.A = self.P = None
            self._pc = PC(w)
            self.mon = []
            self.guess = False
            self.err = False
            self.extra = {}
            self.res = None
            self.x = None

        def pv_get(self):
            return None

        def pv_set(self, v):
            pass

        def create(self, comm=None):
            return self

        def setOperators(self, A=None, P=None):
            self.A, self.P = A, P if P is not None else A

        def getOperators(self):
            return self.A, self.P

        def setType(self, t):
            if t != self.type:
                self.type, self.restart = t, 30

        def getType(self):
            return self.type

        def setGMRESRestart(self, r):
            if self.type in ("gmres", "fgmres", "lgmres", "pgmres", "dgmres"):
                self.restart = r

        def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
            for k, v in (("rtol", rtol), ("atol", atol), ("divtol", divtol), ("max_it", max_it)):
                if v is not None:
                    self.s[k] = v

        def getTolerances(self):
            return tuple(self.s[k] for k in ("rtol", "atol", "divtol", "max_it"))

        def getPC(self):
            return self._pc

        def setPC(self, pc):
            self._pc = pc

        pc = property(getPC, setPC)

        def setMonitor(self, f, args=None, kargs=None):
            if f is not None:
                self.mon.append((f, tuple(args or ()), dict(kargs or {})))

        def cancelMonitor(self):
            self.mon = []

        monitorCancel = cancelMonitor

        def setInitialGuessNonzero(self, f):
            self.guess = bool(f)

        def getInitialGuessNonzero(self):
            return self.guess

        def setErrorIfNotConverged(self, f):
            self.err = bool(f)

        def setNormType(self, t):
            self.extra["norm type"] = t

        def setPCSide(self, s):
            self.extra["pc side"] = s

        def setConvergenceTest(self, *a, **k):
            self.extra["convergence test"] = a

        def setUp(self):
            if self.A is None:
                raise PETScError(73)

        setConvergenceHistory = view = setDM = setComputeSingularValues = setComputeEigenvalues = setOptionsPrefix = lambda self, *a, **k: None

        def setFromOptions(self):
            for k, v in w.options.items():
                if k in ("ksp_rtol", "ksp_atol", "ksp_max_it", "ksp_divtol"):
                    self.s[k[4:]] = v
                elif k == "ksp_gmres_restart":
                    self.setGMRESRestart(v)
                elif k == "ksp_type":
                    self.setType(v)
                elif k == "pc_type":
                    self._pc.setType(v)
                elif k in ("ksp_monitor", "ksp_monitor_true_residual", "ksp_monitor_short"):
                    self.mon.append((None, (), {}))
                elif k == "ksp_initial_guess_nonzero":
                    self.guess = v is not False
                elif k == "ksp_error_if_not_converged":
                    self.err = True
                elif k in ("ksp_pc_side", "ksp_norm_type", "ksp_convergence_test", "ksp_skip_converged"):
                    self.extra[k] = v

        def solve(self, b, x):
            if self.A is None:
                raise PETScError(73)
            if b is x:
                raise PETScError(62)
            n0 = len(w.printed)
            its, rn = ring.var(w.fresh("its"), "int"), ring.var(w.fresh("rnorm"))
            rates = 0
            for f, a, k in self.mon:
                if f is None:
                    w.printed.append("monitor")
                    continue
                r = f(self, its, rn, *a, **k)
            shown = len(w.printed) - n0
            del w.printed[n0:]
            tag = w.fresh("solve")
            reason = ring.var(f"reason_{tag}", "int")
            e = engine.cur()
            e.assume(sym.compare(reason, 0, "!="))
            e.assume(sym.compare(reason, -12, ">="))
            e.assume(sym.compare(reason, 10, "<="))
            self.its = its
            e.assume(sym.compare(its, 0, ">="))
            self.res = reason
            w.ev("solve", {
                "tag": tag, "ksp": self, "settings": dict(self.s), "restart": self.restart, "type": self.type, "A": self.A, "P": self.P, "b": b, "x": x,
                "bval": b.val, "x0": x.val, "guess": self.guess, "pc": self._pc.type, "pcctx": self._pc.ctx, "factor": self._pc.factor,
                "extra": dict(self.extra), "shown": shown, "reason": reason, "monitors": len(self.mon)})
            if self.type == "preonly" and self._pc.type in ("lu", "cholesky") and self.A.kind == "assembled" and self.P is self.A:
                x.put(lin_apply(("inv", self.A.op), b.val))
            else:
                x.put(vecatom(f"solution of {tag}"))
            self.x = x
            if self.err and bool(sym.compare(reason, 0, "<")):
                raise PETScError(91)

        def getConvergedReason(self):
            return self.res if self.res is not None else 0

        reason = property(getConvergedReason)
        is_converged = property(lambda self: sym.compare(self.getConvergedReason(), 0, ">"))
        converged = is_converged
        is_diverged = property(lambda self: sym.compare(self.getConvergedReason(), 0, "<"))
        diverged = is_diverged
        is_iterating = property(lambda self: sym.compare(self.getConvergedReason(), 0, "=="))
        iterating = is_iterating

        def getIterationNumber(self):
            return self.its

        def getSolution(self):
            return self.x

        def getRhs(self):
            raise Unsupported("KSP.getRhs")

        def getResidualNorm(self):
            return ring.var(w.fresh("rnorm"))

        norm = property(getResidualNorm)

        def getConvergenceHistory(self):
            raise Unsupported("convergence history")

        def buildResidual(self, r=None):
            v = vecatom(w.fresh("unspecified residual"))
            if r is None:
                return Vec(w, v, self.x.size_ if self.x is not None else None)
            r.put(v)
            return r

        def buildSolution(self, r=None):
            if r is None:
                return Vec(w, self.x.val, self.x.size_)
            r.put(self.x.val)
            return r

        def destroy(self):
            return self

        def __setattr__(self, n, v):
            if n in ("rtol", "atol", "divtol", "max_it"):
                self.s[n] = v
            elif n == "guess_nonzero":
                self.guess = bool(v)
            elif n in ("norm_type", "pc_side"):
                self.extra[n] = v
            else:
                object.__setattr__(self, n, v)

        def __getattr__(self, n):
            if n in ("rtol", "atol", "divtol", "max_it"):
                return self.s[n]
            if n.startswith("__") or n.startswith("pv_") or n == "_st":
                raise AttributeError(n)
            raise Unsupported(f"KSP.{n} has no contract")

    class Options:
        def __init__(self, prefix=None):
            if prefix not in (None, ""):
                raise Unsupported("options prefix")

        def setValue(self, k, v):
            w.options[k.lstrip("-")] = v

        __setitem__ = setValue

        def hasName(self, k):
            return k.lstrip("-") in w.options

        __contains__ = hasName

        def delValue(self, k):
            w.options.pop(k.lstrip("-"), None)

        __delitem__ = delValue

        def getAll(self):
            return dict(w.options)

        def __getattr__(self, n):
            raise Unsupported(f"Options.{n} has no contract")

    class Sys:
        @staticmethod
        def Print(*a, **k):
            w.printed.append(a)

        syncPrint = Print

        @staticmethod
        def getVersion():
            return (3, 19, 6)

    def NewMat(*a):
        return Mat(w)

    NewMat.Type = type("Type", (), {"PYTHON": "python", "AIJ": "aij"})
    NewMat.Option = type("Option", (), {})

    class VecFactory:
        def __new__(cls, *a):
            raise Unsupported("creation of a PETSc vector")

    m = mod("petsc4py.PETSc", KSP=KSP, PC=PC, Options=Options, Sys=Sys, Mat=NewMat, Vec=VecFactory, Error=PETScError, Comm=Comm,
            ScalarType=float, IntType=int, RealType=float, DECIDE=-1, DEFAULT=-2, COMM_WORLD=Comm(w), COMM_SELF=Comm(w))
    return m
