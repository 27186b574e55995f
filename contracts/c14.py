"""C14 caches: closure of the states of the problem object under every request.

Induction over histories of any length: starting from a constructed problem every request is executed (real code) in every state
reached so far until no new state appears; in each state each request must return its specified object.  A state is the content of
everything reachable from the problem except the numerical content of work vectors, which is arbitrary.
"""
from pyvc import heap, loops, ring
from pyvc.values import Fam, PList

from spec import forms
from world import fe

from .c12 import check_rhs
from .march import Log, Solver, havoc_scratch
from .st import ASSUMPTIONS, Cfg, Prob, assume, cfgs, check_global, check_local, ok  # noqa: F401

EXPLANATION = "states are compared by the forms, matrices and spaces they hold; work vectors are havocked before every application"
MAXSTATES = 4000



class Desc:
    """Canonical description of a value of the problem's heap."""

    def __init__(self):
        self.memo = {}

    def of(self, v, depth=0):
        if depth > 12:
            raise ring.Unsupported("nesting of the problem's attributes")
        if v is None or isinstance(v, (bool, int, str, float)):
            return v
        if isinstance(v, (ring.Poly, ring.Fraction)):
            return ring.ckey(v)
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, *(self.of(x, depth + 1) for x in v))
        if isinstance(v, PList):
            return ("plist", self.of(v.pv_get(), depth + 1))
        if isinstance(v, dict):
            return ("dict", *sorted(((repr(k), self.of(x, depth + 1)) for k, x in v.items()), key=lambda z: z[0]))
        k = id(v)
        r = self.memo.get(k)
        if r is None or r[0] is not v:
            r = (v, self._of(v))
            if isinstance(v, (fe.Form, fe.Mat, fe.Space)):
                self.memo[k] = r
        return r[1]

    def _of(self, v):
        if isinstance(v, fe.Form):
            return ("form", ring.ckey(v.p), self.of(v.test), self.of(v.trial))
        if isinstance(v, fe.Mat):
            return ("mat", ring.ckey(v.p), self.of(v.form.test), self.of(v.form.trial), v.done)
        if isinstance(v, fe.Space):
            return ("space", ring.ckey(v.uid), v.mesh.name, ring.ckey(v.fields))
        if isinstance(v, fe.Vec):
            st = v.store.st
            return ("vec", self.of(v.store.space), ring.ckey(st[0]) if len(st) == 1 and st[0][0] == "asm" else "work")
        if isinstance(v, fe.Function):
            return ("function", self.of(v.function_space))
        if isinstance(v, Fam):
            return v.pv_key()
        if isinstance(v, fe.DofMap):
            return ("dofs", self.of(v.space), v.field, ring.ckey(v.idx))
        return (type(v).__name__, n if isinstance(n := getattr(v, "__dict__", {}).get("name"), str) else None)


def ops(p, meshes):
    s = p.st
    out = {
        "get_spacetime_matrix()": ("A", lambda: s.get_spacetime_matrix()),
        "get_spacetime_matrix(precond=True)": ("B", lambda: s.get_spacetime_matrix(precond=True)),
        "get_spacetime_bfi()": ("A form", lambda: s.get_spacetime_bfi()),
        "get_spacetime_bfi(precond=True)": ("B form", lambda: s.get_spacetime_bfi(precond=True)),
        "get_slab_matrix()": ("S", lambda: s.get_slab_matrix()),
        "get_slab_bfi()": ("S form", lambda: s.get_slab_bfi()),
        "get_slab_matrix_first_slab()": ("F", lambda: s.get_slab_matrix_first_slab()),
        "get_slab_bfi_first_slab()": ("F form", lambda: s.get_slab_bfi_first_slab()),
        "get_spacetime_rhs()": ("rhs", lambda: s.get_spacetime_rhs()),
        "get_spacetime_lfi()": ("lfi", lambda: s.get_spacetime_lfi()),
        "prepare_precondition_gmres()": (None, lambda: s.prepare_precondition_gmres()),
        "get_spacetime_matrix_coarse()": ("coarse", lambda: s.get_spacetime_matrix_coarse()),
    }
    for m in meshes:
        out[f"prepare_coarse_grid_correction({m.name})"] = (("prepared", m), lambda m=m: s.prepare_coarse_grid_correction(m))
    return out


class Memoised:
    """The space-time assembly is used through its contract (C06, C07): a function of space and flag, which leaves the problem alone."""

    def __init__(self, s):
        self.s, self.f, self.memo = s, s.setup_spacetime_matrix, {}

    def __call__(self, afes, precond=False):
        k = (ring.ckey(afes.uid), bool(precond))
        if k not in self.memo:
            before = {a: id(v) for a, v in vars(self.s).items()}
            r = self.f(afes, precond=precond)
            if {a: id(v) for a, v in vars(self.s).items()} != before:
                return r
            self.memo[k] = r
        return self.memo[k]


class Closure:
    def __init__(self, e, p, tag):
        self.e, self.p, self.tag = e, p, tag
        self.d = Desc()
        self.refs, self.ids = {}, {}
        self.meshes = [fe.Mesh("coarse", p.mesh.comm), fe.Mesh("coarse2", p.mesh.comm)]
        if p.c.q > 0:
            self.meshes = self.meshes[:1]
        self.log = Log()
        self.bad = set()

    def fail(self, name, why):
        if name not in self.bad:
            self.bad.add(name)
            self.e.prove(name, False, why)

    def state(self):
        return tuple(sorted((k, self.ids.setdefault(self.d.of(v), len(self.ids))) for k, v in vars(self.p.st).items() if k != "setup_spacetime_matrix"))

    def spec(self, kind, r, tag):
        """Full check of a returned object against its specification (first time it is seen)."""
        e, p = self.e, self.p
        s, cnt = p.st, p.counts()
        if kind.startswith(("A", "B", "S", "F")):
            want = fe.Form if kind.endswith("form") else fe.Mat
            if not isinstance(r, want):
                e.prove(f"{tag} returns a {want.__name__}", False, type(r).__name__)
                return
            m = r if want is fe.Mat else fe.Mat(r)
            m.done = True
            if kind[0] in "AB":
                check_global(e, p, m, kind[0] == "B", tag)
            elif kind[0] == "S":
                check_local(e, p, m, forms.slab_matrix_terms(p.P, True), tag, s.fes_p, cnt)
            else:
                check_local(e, p, m, forms.first_slab_terms(p.P), tag, s.fes_p, cnt)
        elif kind in ("rhs", "lfi"):
            v = r
            if kind == "lfi":
                if not (isinstance(r, fe.Form) and r.rank == 1):
                    e.prove(f"{tag} returns a linear form", False, type(r).__name__)
                    return
                v = fe.assemble_vector(r)
            if not isinstance(v, fe.Vec):
                e.prove(f"{tag} returns a vector", False, type(r).__name__)
                return
            check_rhs(e, p, v, tag, ("u1_0", "u2_0"))

    def result(self, kind, r, nm, hist):
        e = self.e
        if kind is None:
            return
        if isinstance(kind, tuple) or kind == "coarse":
            want = [h for h in hist if h.startswith("prepare_coarse")]
            if kind == "coarse" and want:
                m = want[-1].split("(")[1][:-1]
                okk = isinstance(r, fe.Mat) and r.form.test.mesh.name == m and r.form.trial.mesh.name == m and r.done
                self.seen(f"{nm}: matrix of the mesh prepared last", okk, hist)
            return
        d = self.d.of(r)
        if kind not in self.refs:
            self.refs[kind] = d
            self.spec(kind, r, nm)
            return
        same = d == self.refs[kind]
        if not same and (kind, d) not in self.refs:
            self.refs[kind, d] = True
            self.spec(kind, r, f"{nm} after {' > '.join(hist)}")
            return
        self.seen(f"{nm}: the same object content in every state", True, hist)

    def seen(self, name, ok_, hist):
        if ok_:
            if name not in self.done:
                self.done.add(name)
                self.e.prove(name, True)
        else:
            self.fail(name, f"after {' > '.join(hist)}")

    def run(self):
        e, p = self.e, self.p
        s = p.st
        self.done = set()
        s.__dict__["setup_spacetime_matrix"] = Memoised(s)
        table = ops(p, self.meshes)
        roots = [s, *heap.TRANSFORMED_MODULES]
        start = self.state()
        states = {start: (heap.walk(roots), ())}
        todo = [start]
        applied = 0
        while todo:
            st = todo.pop(0)
            snap, hist = states[st]
            for i, (nm, (kind, f)) in enumerate(table.items()):
                heap.restore(snap)
                loops.SITE[0] = 10**6 * (i + 1)
                try:
                    r = f()
                except ring.ContractViolation as ex:
                    self.fail(f"{nm} can be requested in every state", f"{ex} after {' > '.join(hist)}")
                    continue
                except (AttributeError, TypeError, KeyError, IndexError, ValueError, RuntimeError) as ex:
                    self.fail(f"{nm} can be requested in every state", f"{type(ex).__name__}: {ex} after {' > '.join(hist)}")
                    continue
                self.result(kind, r, nm, hist)
                new = self.state()
                if new not in states:
                    if len(states) >= MAXSTATES:
                        raise ring.Unsupported("too many states")
                    states[new] = (heap.walk(roots), (*hist, nm))
                    todo.append(new)
        e.prove(f"closure of {len(states)} states under {len(table)} requests", True)
        # after preparation everything can be applied, with the same result whatever was requested before
        after = {}
        for st, (snap, hist) in states.items():
            heap.restore(snap)
            loops.SITE[0] = 10**8
            try:
                s.prepare_precondition_gmres()
            except Exception as ex:  # noqa: BLE001
                if isinstance(ex, ring.Unsupported):
                    raise
                self.fail("preparation in every state", f"{type(ex).__name__}: {ex} after {' > '.join(hist)}")
                continue
            after.setdefault(self.state(), (heap.walk(roots), hist))
        ref = {}
        for snap, hist in after.values():
            for nm in ("apply_spacetime_matrix", "pre_time_marching", "pre_time_marching_improved"):
                if nm.endswith("improved") and p.c.fj:
                    continue
                heap.restore(snap)
                loops.SITE[0] = 2 * 10**8
                log = Log()
                s.set_solver_slab(Solver("slab", s.fes_p, log))
                s.set_solver_first_slab(Solver("first", s.fes_p, log))
                havoc_scratch(s)
                b, y = p.vec("b"), p.vec("y0")
                try:
                    getattr(s, nm)(b, y)
                except (ring.ContractViolation, AttributeError, TypeError, KeyError, IndexError, ValueError, RuntimeError) as ex:
                    self.fail(f"{nm} can be applied after every history", f"{type(ex).__name__}: {ex} after {' > '.join(hist)}")
                    continue
                k = (ring.ckey(y.store.st), ring.ckey(log.st))
                if nm not in ref:
                    ref[nm] = k
                if k == ref[nm]:
                    self.seen(f"{nm}: the same result after every history", True, hist)
                else:
                    self.fail(f"{nm}: the same result after every history", f"after {' > '.join(hist)}")
        e.prove(f"applications in {len(after)} prepared states", len(after) >= 1)


def unit(c):
    def h(e):
        assume(e)

        def run():
            p = Prob(c)
            p.set_initial()
            Closure(e, p, "").run()
            return p

        e.explore(run, lambda r: ok(e, r[1]))
    return h


def units(tier):
    pairs = None if tier == "thorough" else [(0, 0), (1, 1), (2, 1), (1, 2)]
    return [(str(c), unit(c)) for c in cfgs(tier, pairs)]
