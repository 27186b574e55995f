"""C23 hierarchies: entry i of the list is the initial mesh refined i times, for all i and any number of levels."""
from pyvc import ring, runtime, sym
from pyvc.ring import Poly
from pyvc.values import PList

from world import meshing as gm

from .c25 import expected_src
from .msh import ASSUMPTIONS, NREF, RANK, call, gens, instances, le, lt, raised, start, under  # noqa: F401


def initial(g, w, gen, rank):
    if rank is None:
        return expected_src(g, w, gen)
    return ("model from", 0, 3) if g.kind == "model" else ("file", ("root", "mesh.xdmf"))


def unit(g, rank=None, api="0.6.0"):
    def h(e):
        g.assume(e)
        if rank is not None:
            e.assume(le(1, RANK))
        e.reachable("admissible parameters")

        def run():
            w = start(g, rank=RANK if rank is not None else 0, api=api)
            return w, call(w, g)

        def on_path(o):
            if o[1][0] == "exc":
                e.prove("returns for every number of levels", False, f"raises {type(o[1][1]).__name__}: {o[1][1]}")
                return
            w, res = o[1][1]
            if not isinstance(res, PList):
                e.prove("a list is returned", False, str(type(res)))
                return
            levels = NREF if g.kind == "remesh" else NREF + 1
            e.prove_eq("one mesh per requested level", runtime.b_len(res), levels)
            i = ring.fresh("i")
            recs = instances(w, "generate", None)
            if g.kind == "remesh":
                e.prove("one mesh per level", rank is not None or all(len(p) <= 1 for _, _, p in recs), str(len(recs)))

            def level():
                e.assume(le(0, i))
                e.assume(lt(i, levels))
                e.reachable("a level")

                def one():
                    m = res[i]
                    if not isinstance(m, gm.MeshTok):
                        e.prove("entries are meshes", False, str(m)[:200])
                        return
                    if g.kind == "remesh":
                        e.prove_eq("not refined", m.level, 0)
                        if rank is not None:
                            e.prove("mesh of the root at each level", ring.ckey(m.src) == ring.ckey(initial(g, w, None, rank)), str(m)[:300])
                            return
                        remeshed(e, g, w, m, i, recs)
                        return
                    e.prove_eq("entry i is i times refined, for all i", m.level, i)
                    if rank is None:
                        e.prove("one initial mesh", len(recs) == 1 and not recs[0][2], str(len(recs)))
                    e.prove("entry i descends from the initial mesh, for all i", ring.ckey(m.src) == ring.ckey(initial(g, w, recs[0][0][5] if recs else None, rank)), str(m)[:300])

                e.explore(one, raised(e))

            under(e, [], level)

        e.explore(run, on_path)
    return h


def remeshed(e, g, w, m, i, recs):
    """The i-th mesh is made with size h / 2^i from the geometry of the others."""
    hits, first = [], 0
    for rec, guards, path in recs:
        gen, j = rec[5], i
        if path:
            gen = ring.subst(gen, {path[0].var: i})
        else:
            j, first = first, first + 1
        if ring.ckey(expected_src(g, w, gen)) == ring.ckey(m.src):
            hits.append((j, gen))
    e.prove("entry i is the mesh made for level i", len(hits) >= 1, str(m)[:300])
    for j, gen in hits[:1]:
        e.prove_eq("entry i is the mesh made for level i", i, j)
        e.prove_eq("mesh size of level i is h / 2^i, for all i", dict(gen[2]).get("Mesh.MeshSizeFactor", 0), ring.num_div(g.size, ring.num_pow(2, j)))
        e.prove("same geometry at each level", all(ring.ckey(gen[1]) == ring.ckey(r[5][1]) and gen[3] == r[5][3] for r, _, _ in recs))


def units(tier):
    out = []
    for g in gens():
        if g.kind not in ("hier", "model", "remesh"):
            continue
        out.append((g.label, unit(g)))
        out.append((f"{g.label} other process", unit(g, rank=1)))
        if g.name == "get_mesh_data_all_around":
            out.append((f"{g.label} api 0.7", unit(g, api="0.7.1")))
    return out
