"""C25 imports: node k of the mesh is the node with tag k + 1, every cell keeps its own nodes; only the root's mesh is used."""
from pyvc import ring, sym
from pyvc.ring import Poly

from world import meshing as gm

from .msh import ASSUMPTIONS, NREF, RANK, call, gens, instances, le, lt, start  # noqa: F401

NN = {1: 3, 2: 6, 3: 10}
I = gm.I


def records(w, kind):
    return [r for r, _, path in instances(w, kind, None) if not path]


def expected_src(g, w, gen):
    """Origin of the mesh built from a generated geometry."""
    m = ("mesh", gen, 1)
    if g.kind == "model":
        return ("model", m, 3)
    pts = gm.Points("columns", 2, ("points", ("msh", m)))
    return ("file", ("xdmf", pts, (("triangle", gm.Tok("cells", ("msh", m), "triangle")),)))


def first_mesh(g, res):
    if g.kind in ("hier", "model", "remesh"):
        return res[0]
    return res


def unit(g, rank=None, numbering="seq", api="0.6.0"):
    def h(e):
        g.assume(e)
        if g.kind == "remesh":
            e.assume(le(1, NREF))
        if rank is not None:
            e.assume(le(1, RANK))
        e.reachable("admissible parameters")

        def run():
            w = start(g, rank=RANK if rank is not None else 0, api=api, numbering=numbering)
            w.out = ("ret", None)
            try:
                w.out = ("ret", call(w, g))
            except RuntimeError as ex:
                w.out = ("exc", ex)
            return w

        def on_path(o):
            if o[1][0] == "exc":
                e.prove("no unexpected error", False, f"raises {type(o[1][1]).__name__}: {o[1][1]}")
                return
            w = o[1][1]
            if numbering == "gap":
                e.prove("numbering with a missing tag is refused", w.out[0] == "exc", str(w.out[1])[:200])
                e.prove("nothing is imported from it", not records(w, "create_mesh"))
                return
            if w.out[0] == "exc":
                e.prove("numbering without gaps is accepted", False, f"raises {w.out[1]}")
                return
            res = first_mesh(g, w.out[1])
            if not isinstance(res, gm.MeshTok):
                e.prove("returns a mesh", False, str(res)[:200])
                return
            if g.kind == "import":
                imported(e, g, w, res, rank)
            elif rank is None:
                # the first one, should there be several
                gens_ = [ring.subst(r[5], {x.var: Poly.lift(x.lo) for x in path}) for r, _, path in instances(w, "generate", None)]
                e.prove("a mesh is generated", bool(gens_))
                if gens_:
                    e.prove("mesh made of the points and cells of the generated mesh", ring.ckey(res.src) == ring.ckey(expected_src(g, w, gens_[0])), str(res.src)[:300])
            else:
                want = ("model from", 0, 3) if g.kind == "model" else ("file", ("root", "mesh.xdmf"))
                e.prove("other processes use the mesh of the root", ring.ckey(res.src) == ring.ckey(want), str(res.src)[:300])
                if g.kind != "model":
                    for kind in ("generate", "write", "meshio write", "meshio read"):
                        e.prove(f"other processes do not {kind}", not instances(w, kind, None))
            for r, _, _ in instances(w, "xdmf", None):
                e.prove("files opened on the communicator of all processes", r[1] == "world", str(r))

        e.explore(run, on_path)
    return h


def imported(e, g, w, mesh, rank):
    recs = records(w, "create_mesh")
    e.prove("one mesh is created", len(recs) == 1, str(len(recs)))
    if len(recs) != 1:
        return
    _, comm, cells, x, dom = recs[0]
    e.prove("created on the communicator of all processes", comm == "world", comm)
    e.prove("the created mesh is returned", ring.ckey(mesh.src) == ring.ckey(("import", comm, cells, x, dom)))
    nn = NN[g.order]
    e.prove("element of the mesh: triangles of the requested order in the plane", ring.ckey(dom) == ring.ckey(gm.Tok("element", gm.TRI[g.order], 2)), str(dom))
    if rank is not None:
        e.prove("other processes contribute no nodes", x[0] == "array" and x[1] == (0, 2), str(x)[:200])
        e.prove("other processes contribute no cells", cells[0] == "array" and cells[1] == (0, nn), str(cells)[:200])
        e.prove("other processes do not generate", not instances(w, "generate", None) and not instances(w, "write", None))
        return
    gen = records(w, "generate")
    e.prove("one geometry is meshed", len(gen) == 1, str(len(gen)))
    if len(gen) != 1:
        return
    m = ("mesh", gen[0][5], g.order)
    if x[0] != "rows" or cells[0] != "rows":
        e.prove("nodes and cells of the generated mesh", False, f"{x[:2]} {cells[:2]}"[:300])
        return
    e.prove_eq("one row per node", x[1], gm.nnodes(m))
    e.prove("two coordinates per node", len(x[2]) == 2, str(len(x[2])))
    e.prove_eq("one row per cell", cells[1], gm.ncells(m, 2))
    e.prove("one column per node of the element", len(cells[2]) == nn, str(len(cells[2])))
    if len(x[2]) != 2 or len(cells[2]) != nn:
        return
    c = ring.var("c", "int")
    k = ring.var("k", "int")
    for d in range(2):
        e.prove_eq(f"node k has coordinate {d} of the node with tag k + 1, for all k", ring.subst(x[2][d], {gm.IOTA: k}), gm.coord(m, k + 1, d))
    for a in range(nn):
        col = ring.subst(cells[2][a], {gm.IOTA: c})
        own = gm.cell(m, 2, c, gm.PERM[nn][a])
        for d in range(2):
            e.prove_eq(f"vertex {a} of cell c, coordinate {d}: its own node, for all c", ring.subst(x[2][d], {gm.IOTA: col}), gm.coord(m, own, d))


def units(tier):
    out = []
    for g in gens():
        out.append((f"{g.label} root", unit(g)))
        out.append((f"{g.label} other process", unit(g, rank=1)))
        if g.kind == "import":
            out.append((f"{g.label} missing tag", unit(g, numbering="gap")))
    return out
