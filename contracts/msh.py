"""Harness of the mesh contracts: the real generators over the contracts of gmsh, meshio and dolfinx."""
from pyvc import engine, heap, loader, loops, ring, sym
from pyvc.ring import Poly

from world import meshing as gm

ASSUMPTIONS = [
    "gmsh follows its contract (world/meshing.py): boolean operations act on regions of points, fragment joins its operands along shared boundaries, "
    "one mesh per geometry and options, cells do not cross piece boundaries, physical groups select what is written",
    "meshio, XDMFFile and model_to_mesh hand over points and cells as written; other processes read what the root wrote",
    "dolfinx refine with all edges (or none named) is the uniform refinement",
    "numbers are real numbers (no rounding); coordinates closer than the geometric tolerance of gmsh are not considered",
]
H = ring.var("h", "real")
NREF = ring.var("n_ref", "int")
ETA = ring.var("eta", "real")
XL, XR, YL, YR = (ring.var(n, "real") for n in ("x_l", "x_r", "y_l", "y_r"))
RANK = ring.var("rank", "int")
PX = [ring.var(f"p{i}", "real") for i in range(3)]
QX = [ring.var(f"q{i}", "real") for i in range(3)]
lt = lambda a, b: sym.compare(a, b, "<")  # noqa: E731
le = lambda a, b: sym.compare(a, b, "<=")  # noqa: E731


def F(x):
    return ring.norm_num(ring.Fraction(str(x)))


def box(*b):
    """x0, x1, y0, y1, ..."""
    b = [x if isinstance(x, Poly) else F(x) for x in b]
    return ("box", tuple(b[0::2]), tuple(b[1::2]))


SQ = ((0, 1), (0, 1))
BIG = ((F("-1.5"), F("1.5")), (F("-1.5"), F("1.5")))
CONVEX = [box(.1, .9, .25, 1), box(.1, .9, .25, .95)]


class Gen:
    """One generator: arguments, admissible parameters, requested size, domain, regions to be resolved."""

    def __init__(self, name, args, size, dom, regions, kind, pre=(), dim=2, label="", order=1):
        self.name, self.args, self.size, self.dom, self.regions, self.kind = name, args, size, dom, regions, kind
        self.pre, self.dim, self.order = list(pre), dim, order
        self.label = f"{name}{label}"

    def assume(self, e):
        e.assume(lt(0, H))
        if "n_ref" in self.args:
            e.assume(le(0, NREF))
        for c in self.pre:
            e.assume(c)


HR = {"n_ref": NREF, "init_h_scale": H}
TARGET = box(XL, XR, YL, YR)


def gens():
    out = [
        Gen("create_initial_mesh_convex", {"init_h_scale": H}, H, SQ, CONVEX, "one"),
        Gen("get_mesh_convex", HR, H, SQ, CONVEX, "remesh"),
        Gen("get_mesh_hierarchy", HR, H, SQ, CONVEX, "hier"),
        Gen("get_mesh_hierarchy_nonconvex", HR, H, SQ, [box(.25, .75, .05, .5), box(.125, .875, .05, .95)], "hier"),
        Gen("get_mesh_hierarchy_fitted_disc", {"n_ref": NREF, "eta": ETA, "h_init": H}, H, SQ, [box(.1, .9, .25, ETA), box(.1, .9, .25, .95)], "hier",
            [lt(F(".25"), ETA), lt(ETA, 1)]),
        Gen("get_mesh_data_all_around", HR, H, SQ, [box(.2, .8, .2, .8)], "hier"),
        Gen("get_3d_mesh_data_all_around", HR, H, (*SQ, (0, 1)), [box(.2, .8, .2, .8, .2, .8)], "model", dim=3),
        Gen("get_mesh_bottom_data", {"h_init": H, "eta": ETA}, H, SQ,
            [box(-9, 9, -9, .25), box(-9, 9, -9, ETA), box(.25, .75, .25, ETA), box(.25, .75, ETA, .9)], "import", [lt(F(".25"), ETA), lt(ETA, F(".9"))]),
    ]
    for o in (1, 2, 3):
        out.append(Gen("get_mesh_inclusion", {"h_init": H, "order": o}, H, BIG,
                       [box(-1.25, 1.25, -1.25, 1.5), box(-.5, .5, -.5, .5), ("disk", (0, 0), (1, 1))], "import", label=f" order {o}", order=o))
    inner = box(-.75, .75, -.75, .75)
    lim = [le(F("-1.5"), XL), lt(XL, XR), le(XR, F("1.5")), le(F("-1.5"), YL), lt(YL, YR), le(YR, F("1.5"))]
    a = {"h_init": H, "x_l": XL, "x_r": XR, "y_l": YL, "y_r": YR, "eta": ETA}
    # the data region lies below eta - 1/10
    out.append(Gen("get_mesh_inclusion_square", a, H, BIG, [inner, TARGET, box(-9, 9, -9, ETA), box(-1.25, 1.25, -1.25, ETA - F(".1"))], "import",
                   [*lim, lt(F("-1.15"), ETA), lt(ETA, F("1.5")), lt(YL, ETA)], label=" eta < 1.5"))
    out.append(Gen("get_mesh_inclusion_square", {**a, "eta": F("1.5")}, H, BIG, [inner, TARGET, box(-1.25, 1.25, -1.25, 1.4)], "import", lim, label=" eta = 1.5"))
    return out


def start(g, rank=0, api="0.6.0", numbering="seq"):
    gm.MODE[0] = numbering
    w = gm.World(g.dim, rank, 2, api, g.dom)
    heap.HARNESS_ROOTS.clear()
    loops.SITE[0] = 0
    w.ld = loader.fresh_loader(gm.make(w))
    w.mod = w.ld.load("dxss.meshes")
    return w


def call(w, g, **over):
    return getattr(w.mod, g.name)(**{**g.args, **over})


def instances(w, kind, e):
    """Records of a kind: (name, guards, record); a record inside a family is read at its generic iteration."""
    out = []

    def rec(items, pre, path):
        for x in items:
            if isinstance(x, gm.Fam):
                c = [le(x.lo, Poly.of(x.var)), lt(Poly.of(x.var), x.hi)]
                for g, it in x.items:
                    rec((it,), [*pre, *c, *([] if g is True else [g])], [*path, x])
            elif x[0] == kind:
                out.append((x, pre, path))

    rec(w.log.st if hasattr(w.log, "st") else w.log._st, [], [])
    return out


def under(e, conds, f):
    """Run f with further assumptions."""
    def go():
        for c in conds:
            e.assume(c)
        f()
    e.explore(go, raised(e))


def raised(e):
    def on(o):
        if o[1][0] == "exc":
            e.prove("returns", False, f"raises {type(o[1][1]).__name__}: {o[1][1]}")
    return on
