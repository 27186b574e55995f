"""C26 sessions: every call finds the generator closed, opens it while closed and leaves it closed, returned or raised."""
from pyvc import ring, runtime, sym
from pyvc.ring import Poly
from pyvc.values import PList, freeze

from world import meshing as gm

from .msh import ASSUMPTIONS, F, H, NREF, RANK, call, gens, instances, le, lt, raised, start, under  # noqa: F401

UNIT_LIMIT = 300
H0 = ring.var("h0", "real")
FIXED = {"eta": F(".5"), "x_l": -1, "x_r": 1, "y_l": -1, "y_r": F("1.4")}


def closed(e, w, what):
    e.prove(f"generator closed {what}", w.s._st == gm.CLOSED, str(w.s._st)[:200])
    e.prove(f"no physical groups left {what}", not list(w.groups._st), str(w.groups._st)[:200])
    for r, _, _ in instances(w, "initialize", None):
        e.prove("opened only while closed", r[1] is False, str(r))


def globals_of(w):
    """The values the module keeps between calls."""
    keep = {}
    for k, v in vars(w.mod).items():
        if not k.startswith("__"):
            keep[k] = image(v) if isinstance(v, (int, str, tuple, list, dict, set, Poly, PList, type(None))) else id(v)
    return keep


def image(v):
    """Value of a result, independent of the run."""
    return str(ring.ckey(freeze(v, True)))


def by_contract(w):
    """The initial mesh by its contract (proved in its own unit): finds the generator closed, leaves it closed, may raise."""
    def initial(init_h_scale=1):
        w.initialize()
        w.finalize()
        return gm.MeshTok(w, ("initial mesh", init_h_scale))

    w.mod.create_initial_mesh_convex = gm.may_fail(initial)


def unit(g, rank=None, numbering="seq", fails=False, admissible=True):
    def h(e):
        if admissible:
            g.assume(e)
        else:
            e.assume(lt(0, H))
        if rank is not None:
            e.assume(le(1, RANK))
        e.reachable("parameters")

        def run():
            gm.FAILS[0] = fails
            w = start(g, rank=RANK if rank is not None else 0, numbering=numbering)
            if fails and g.kind == "remesh":
                by_contract(w)
            w.was = globals_of(w)
            try:
                w.out = ("ret", call(w, g))
            except Exception as ex:  # noqa: BLE001
                if not isinstance(ex, (RuntimeError, ValueError, TypeError, KeyError)) and type(ex) is not Exception:
                    raise
                w.out = ("exc", ex)
            return w

        def on_path(o):
            if o[1][0] == "exc":
                e.prove("no unexpected error", False, f"raises {type(o[1][1]).__name__}: {o[1][1]}")
                return
            w = o[1][1]
            closed(e, w, "after the call" if w.out[0] == "ret" else "after a call that raises")
            e.prove("module state unchanged", globals_of(w) == w.was)

        e.explore(run, on_path)
    return h


def another(g):
    """Other arguments of the same generator."""
    a = {}
    for k in g.args:
        eta = F(".6") if "square" not in g.name else F("1.5") if not isinstance(g.args["eta"], Poly) else F("1.1")
        a[k] = {"n_ref": 1, "init_h_scale": H0, "h_init": H0, "eta": eta, "order": 3 - g.order if g.order < 3 else 1,
                "x_l": F("-1.3"), "y_l": F("-1.2"), "x_r": F(".5"), "y_r": F("1.3")}[k]
    return a


def again(g):
    """The result after another call is the result alone (sizes and numbers of levels arbitrary, geometry fixed)."""
    fixed = {k: v for k, v in FIXED.items() if isinstance(g.args.get(k), Poly)}
    if "square" in g.name and "eta" in fixed:
        fixed["eta"] = F("1.25")

    def h(e):
        e.assume(lt(0, H))
        e.assume(lt(0, H0))
        if "n_ref" in g.args:
            e.assume(le(0, NREF))

        def run():
            alone = call(start(g), g, **fixed)
            w = start(g)
            call(w, g, **another(g))
            return w, alone, call(w, g, **fixed)

        def on_path(o):
            if o[1][0] == "exc":
                e.prove("returns", False, f"raises {type(o[1][1]).__name__}: {o[1][1]}")
                return
            w, alone, res = o[1][1]
            closed(e, w, "after the calls")
            if isinstance(alone, PList) and isinstance(res, PList):
                n = runtime.b_len(alone)
                e.prove_eq("as many levels as alone", runtime.b_len(res), n)
                i = ring.fresh("i")

                def level():
                    e.assume(le(0, i))
                    e.assume(lt(i, n))
                    e.explore(lambda: e.prove("same mesh at each level as alone", image(res[i]) == image(alone[i]), f"{res[i]} alone {alone[i]}"[:600]), raised(e))

                under(e, [], level)
                return
            e.prove("same result as alone", image(res) == image(alone), f"{res} alone {alone}"[:600])

        e.explore(run, on_path)
    return h


def units(tier):
    out = []
    for g in gens():
        for rank in (None, 1):
            who = "root" if rank is None else "other process"
            out.append((f"{g.label} {who}", unit(g, rank)))
            out.append((f"{g.label} {who}, any parameters", unit(g, rank, admissible=False)))
            out.append((f"{g.label} {who}, any library call fails", unit(g, rank, fails=True)))
        if g.kind == "import":
            out.append((f"{g.label} missing tag", unit(g, numbering="gap")))
        if g.dim == 2:
            out.append((f"{g.label} called again", again(g)))
    return out
