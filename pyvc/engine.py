"""Path exploration, path conditions, obligations."""
from __future__ import annotations

import time
import traceback

import z3

from . import ring, sym
from .ring import ContractViolation, Poly, Unsupported
from .sym import SymBool

_CUR = [None]


def cur() -> "Engine":
    if _CUR[0] is None:
        raise Unsupported("symbolic decision outside the engine")
    return _CUR[0]


class PathEnd(BaseException):
    """The current path became infeasible or was abandoned."""


class Scope:
    """One level of path exploration; decisions inside are replayed from `script`."""

    def __init__(self, pc_base):
        self.script = []
        self.pos = 0
        self.todo = []
        self.pc_base = pc_base


class Obligation:
    __slots__ = ("name", "ok", "detail", "status", "model", "ms")

    def __init__(self, name, status, detail="", model=None, ms=0.0):
        self.name, self.status, self.detail, self.model, self.ms = name, status, detail, model, ms


class Engine:
    def __init__(self, timeout_ms=4000, max_paths=4000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.pc = []
        self.scopes = []
        self.solver_s = 0.0
        self.queries = 0
        self.obligations = []
        self.assumptions = set()
        self.functions = set()
        self.paths = 0
        self._cache = {}
        self.label = ""
        self.trusted = set()
        self.world_state = {}

    # ------------------------------------------------------------------ context
    def __enter__(self):
        self._old = _CUR[0]
        _CUR[0] = self
        return self

    def __exit__(self, *a):
        _CUR[0] = self._old

    # ------------------------------------------------------------------ solver
    def _check(self, extra):
        """sat / unsat / unknown of pc and extra (list of SymBool/bool)."""
        conds = []
        for c in self.pc + list(extra):
            if c is True:
                continue
            if c is False:
                return "unsat"
            conds.append(c)
        # only conditions connected (by shared atoms) with the extra ones matter when pc is satisfiable
        if extra:
            conds = _slice(conds, [c for c in extra if isinstance(c, SymBool)])
        key = frozenset(c.pv_key() for c in conds)
        r = self._cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        atoms = set()
        for c in conds:
            s.add(c.z)
            atoms |= cond_atoms(c)
        for ax in ring.z3_axioms(atoms):
            s.add(ax)
        r = str(s.check())
        self.queries += 1
        self.solver_s += time.time() - t0
        self._cache[key] = r
        return r

    def model(self, extra=()):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        atoms = set()
        for c in self.pc + list(extra):
            if isinstance(c, SymBool):
                s.add(c.z)
                atoms |= cond_atoms(c)
        for ax in ring.z3_axioms(atoms):
            s.add(ax)
        if str(s.check()) == "sat":
            m = s.model()
            return {str(d): str(m[d]) for d in m.decls()}
        return None

    def feasible(self, c=True):
        return self._check([c]) != "unsat"

    def entails(self, c):
        if isinstance(c, bool):
            return c
        return self._check([sym.lnot(c)]) == "unsat"

    def assume(self, c):
        if c is True:
            return
        if c is False or not self.feasible(c):
            raise PathEnd()
        self.pc.append(c)

    # ------------------------------------------------------------------ decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        t = self.feasible(c)
        f = self.feasible(sym.lnot(c))
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise PathEnd()
        return self._fork(c)

    def _fork(self, c):
        if not self.scopes:
            raise Unsupported(f"undecided condition outside exploration: {c}")
        sc = self.scopes[-1]
        if sc.pos < len(sc.script):
            v = sc.script[sc.pos]
        else:
            v = True
            sc.todo.append(sc.script[: sc.pos] + [False])
            sc.script.append(True)
        sc.pos += 1
        if c is not None:
            self.pc.append(c if v else sym.lnot(c))
        return v

    def choose(self):
        """Unconditional nondeterministic choice."""
        return self._fork(None)

    # ------------------------------------------------------------------ exploration
    def explore(self, fn, on_path=None, setup=None):
        """Run fn on every feasible path. Returns list of (pc additions, outcome) where
        outcome is ('ret', value) or ('exc', exception)."""
        base = list(self.pc)
        sc = Scope(len(base))
        results = []
        todo = [[]]
        n = 0
        while todo:
            script = todo.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            sc.script, sc.pos, sc.todo = list(script), 0, []
            self.pc = list(base)
            self.scopes.append(sc)
            depth = len(self.scopes)
            try:
                if setup is not None:
                    setup()
                try:
                    out = ("ret", fn())
                except (Unsupported, PathEnd):
                    raise
                except Exception as e:  # noqa: BLE001
                    genuine(e)
                    out = ("exc", e)
                self.paths += 1
                r = (self.pc[len(base):], out)
                if on_path is not None:
                    r = on_path(r)
                results.append(r)
            except PathEnd:
                pass
            finally:
                del self.scopes[depth - 1:]
                self.pc = list(base)
            todo += sc.todo
        return results

    # ------------------------------------------------------------------ obligations
    def prove(self, name, cond, detail=""):
        """Record the obligation that cond holds on the current path."""
        name = f"{self.label}{name}"
        t0 = time.time()
        if isinstance(cond, bool):
            st = "proved" if cond else "refuted"
            if st == "refuted" and self._check([]) == "unsat":
                st = "proved"
            model = None
        else:
            neg = sym.lnot(cond)
            r = self._check([neg])
            st = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r]
            model = self.model([neg]) if st == "refuted" else None
        if st == "refuted" and model is None:
            model = self.model()
        if st != "proved":
            detail = f"{detail} [path: {'; '.join(map(str, self.pc[-8:]))}]"
        o = Obligation(name, st, detail, model, (time.time() - t0) * 1e3)
        self.obligations.append(o)
        return st == "proved"

    def entails_eq(self, got, want, tol=0):
        """Is the equality provable (nothing recorded)."""
        d = Poly.lift(got) - Poly.lift(want)
        if tol:
            d = ring.drop_small(d, tol)
        return self.entails(sym.mk_cmp("==", d)) if isinstance(d, Poly) else d == 0

    def prove_eq(self, name, got, want, tol=0):
        """Equality of two numbers (after dropping coefficients up to tol)."""
        lg, lw = Poly.lift(got), Poly.lift(want)
        if lg is None or lw is None:
            return self.prove(name, False, f"not a number: got {_short(got)} want {_short(want)}")
        d = lg - lw
        if tol:
            d = ring.drop_small(d, tol)
        if not isinstance(d, Poly):
            return self.prove(name, d == 0, f"got {_short(got)} want {_short(want)}")
        return self.prove(name, sym.mk_cmp("==", d), f"got {_short(got)} want {_short(want)}")

    def reachable(self, name):
        """Vacuity guard: the current path must be satisfiable."""
        r = self._check_full()
        self.obligations.append(Obligation(f"{self.label}{name} (reachable)", "proved" if r == "sat" else "unknown", f"path {r}"))

    def _check_full(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        atoms = set()
        for c in self.pc:
            if isinstance(c, SymBool):
                s.add(c.z)
                atoms |= cond_atoms(c)
        for ax in ring.z3_axioms(atoms):
            s.add(ax)
        self.queries += 1
        return str(s.check())


VERIF = __file__.rsplit("/", 2)[0] + "/"


def genuine(ex):
    """An exception the program itself raises, or one a contract raises on purpose. Gaps of the verifier (missing attributes of
    verifier values, operand types without a contract, internal errors) become Unsupported instead of a failed obligation."""
    tb = traceback.extract_tb(ex.__traceback__)
    if not tb:
        return
    f = tb[-1]
    if f.filename.startswith(VERIF):
        if not (f.line or "").lstrip().startswith("raise"):
            raise Unsupported(f"verifier: {type(ex).__name__}: {ex} @ {f.filename}:{f.lineno}") from ex
        return
    if isinstance(ex, AttributeError) and ex.obj is not None:
        c = ex.obj if isinstance(ex.obj, type) else type(ex.obj)
        if c.__module__.split(".")[0] in ("pyvc", "world", "contracts"):
            raise Unsupported(f"{c.__name__}.{ex.name} has no contract") from ex
    if isinstance(ex, TypeError) and not (f.line or "").lstrip().startswith("raise"):
        raise Unsupported(f"operand types: {ex} @ {f.filename}:{f.lineno}") from ex


def cond_atoms(c):
    out = set()
    todo = list(c.args)
    while todo:
        a = todo.pop()
        if isinstance(a, SymBool):
            todo += a.args
        elif isinstance(a, (Poly, ring.Atom)):
            out |= set(ring.sub_atoms(a))
    return out


_DEEP = {}


def _deep_atoms(c):
    k = id(c)
    r = _DEEP.get(k)
    if r is None or r[0] is not c:
        s = set()
        for a in cond_atoms(c):
            s |= deep(a)
        r = (c, s)
        _DEEP[k] = r
        if len(_DEEP) > 200000:
            _DEEP.clear()
    return r[1]


_ATOMDEEP = {}


def deep(a):
    r = _ATOMDEEP.get(a)
    if r is None:
        r = {a}
        if a.kind in ("sqrt", "inv", "abs", "ite", "min", "max", "toint"):
            for x in a.args:
                todo = [x]
                while todo:
                    y = todo.pop()
                    if isinstance(y, SymBool):
                        todo += y.args
                    elif isinstance(y, (Poly, ring.Atom)):
                        for b in ring.sub_atoms(y):
                            r |= deep(b)
        _ATOMDEEP[a] = r
    return r


def _slice(conds, seeds):
    """Conditions transitively sharing atoms with the seeds (sound when the rest is satisfiable;
    satisfiability of the rest is what decide/assume maintain)."""
    rel = set()
    for c in seeds:
        rel |= _deep_atoms(c)
    keep = set(id(c) for c in seeds)
    changed = True
    while changed:
        changed = False
        for c in conds:
            if id(c) in keep:
                continue
            at = _deep_atoms(c)
            if at & rel:
                keep.add(id(c))
                if not at <= rel:
                    rel |= at
                changed = True
    return [c for c in conds if id(c) in keep]


def _short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


def run_contract(name, fn, timeout_ms=4000):
    """Run one contract harness; returns its Engine and an optional Unsupported/crash reason."""
    e = Engine(timeout_ms)
    why = None
    with e:
        try:
            fn(e)
        except Unsupported as ex:
            why = f"unsupported: {ex} @ {where(ex)}"
        except PathEnd:
            why = "harness path ended"
        except Exception as ex:  # noqa: BLE001
            why = f"engine: {type(ex).__name__}: {ex} @ {where(ex)}"
            e.crash = traceback.format_exc()
    return e, why


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if "/repo/" in f.filename or "<repo" in f.filename]
    f = fr[-1] if fr else (tb[-1] if tb else None)
    return f"{f.filename}:{f.lineno}" if f else "?"
