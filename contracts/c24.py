"""C24 geometries: the pieces tile the domain, are joined, carry one physical group each, and resolve the regions."""
from pyvc import ring, sym
from pyvc.ring import Poly, Unsupported
from pyvc.values import Fam, Frozen

from world import meshing as gm

from .msh import ASSUMPTIONS, PX, QX, call, gens, instances, le, lt, raised, start, under  # noqa: F401


def generic(regs, p, dim):
    """The point lies on none of the coordinate lines."""
    out = []
    for d in range(dim):
        seen = {}
        for r in regs:
            for c in gm.coords(r, d):
                seen[ring.ckey(c)] = c
        out += [sym.compare(p[d], c, "!=") for c in seen.values()]
    return out


def inside(dom, p):
    return sym.land(*[c for x, (a, b) in zip(p, dom) for c in (lt(a, x), lt(x, b))])


def regions_of(ents):
    out = []
    for x in ents:
        out += [x[3]] if x[0] == "ent" else list(x[3])
    return out


def holds(tags, t):
    """How often the tag occurs in the listed tags of a group."""
    n = 0
    for x in tags.items if isinstance(tags, Frozen) else tags:
        if isinstance(x, Fam):
            # all tags of a family of pieces
            if len(x.items) != 1 or x.items[0][0] is not True:
                raise Unsupported("selection of pieces")
            it = x.items[0][1]
            if isinstance(it, Poly) and gm.sym is not None:
                a, b = _etag(it), _etag(t)
                if a is not None and b is not None and ring.ckey(a[:2]) == ring.ckey(b[:2]):
                    # etag(key, dim, r) for r in [lo, hi)
                    if not ring.same_num(Poly.lift(a[2]).norm(), Poly.of(x.var)):
                        raise Unsupported("selection of pieces")
                    n = n + sym.ite(sym.land(le(x.lo, b[2]), lt(b[2], x.hi)), 1, 0)
            continue
        n = n + sym.ite(same_tag(x, t), 1, 0)
    return n


def _etag(t):
    if isinstance(t, Poly) and len(t.t) == 1:
        (m, c), = t.t.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == "etagd":
            return m[0][0].args
    return None


def same_tag(a, b):
    if ring.ckey(a) == ring.ckey(b):
        return True
    x, y = _etag(a), _etag(b)
    if x is not None and y is not None and ring.ckey(x[:2]) == ring.ckey(y[:2]):
        return sym.compare(x[2], y[2], "==")
    return False  # different entities have different tags


def membership(groups, dim, t):
    """Number of physical groups containing the entity."""
    n = 0
    for x in groups:
        if isinstance(x, Fam):
            v = Poly.of(x.var)
            for g, it in x.items:
                if isinstance(it, Fam):
                    raise Unsupported("nested families of groups")
                if it[1] != dim:
                    continue
                tags = it[3].items if isinstance(it[3], Frozen) else it[3]
                if not any(x.var in ring.fv(y) for y in tags):
                    n = n + holds(it[3], t) * (x.hi - x.lo)
                    continue
                # the iterations whose group names t
                for y in tags:
                    a, b = _etag(y), _etag(t)
                    if a is None or b is None or ring.ckey(a[:2]) != ring.ckey(b[:2]):
                        continue
                    d = b[2] - (a[2] - v)
                    if x.var in ring.fv(d):
                        raise Unsupported("group of pieces")
                    cond = sym.land(le(x.lo, d), lt(d, x.hi), *([] if g is True else [ring.subst(g, {x.var: d})]))
                    n = n + sym.ite(cond, 1, 0)
        elif x[1] == dim:
            n = n + holds(x[3], t)
    return n


def numbers(e, groups, dim):
    """Physical numbers of one dimension are distinct (the generator refuses a repeated one)."""
    xs = [x for x in groups if isinstance(x, Fam) or x[1] == dim]
    for i, x in enumerate(xs):
        if not isinstance(x, Fam):
            continue
        its = [(g, it) for g, it in x.items if it[1] == dim]
        u = ring.fresh("u")
        m = {x.var: u}
        for g, it in its:
            for g2, it2 in its:
                c = sym.land(le(x.lo, Poly.of(x.var)), lt(Poly.of(x.var), u), lt(u, x.hi), *([] if g is True else [g]), *([] if g2 is True else [ring.subst(g2, m)]))
                e.prove(f"physical numbers of dimension {dim} distinct", sym.implies(c, sym.compare(it[2], ring.subst(it2[2], m), "!=")), f"{it[2]}")
        for y in xs[:i] + xs[i + 1:]:
            if isinstance(y, Fam):
                raise Unsupported("several families of groups")
            for g, it in its:
                c = sym.land(le(x.lo, Poly.of(x.var)), lt(Poly.of(x.var), x.hi), *([] if g is True else [g]))
                e.prove(f"physical numbers of dimension {dim} distinct", sym.implies(c, sym.compare(it[2], y[2], "!=")), f"{it[2]} {y[2]}")


def geometry(e, g, rec, size):
    _, dim, ents, groups, opts, gen = rec
    groups = groups.items if isinstance(groups, Frozen) else groups
    d = g.dim
    top = max((x[1] for x in ents), default=0)
    e.prove("pieces of the dimension of the domain", top == d, str(top))
    if top != d:
        return
    e.prove("cells of the dimension of the domain are generated", not isinstance(dim, Poly) and dim >= d, str(dim))
    o = dict(opts)
    e.prove("only the mesh size is set", {k for k in o if k.startswith("Mesh.")} == {"Mesh.MeshSizeFactor"}, str(sorted(o)))
    if "Mesh.MeshSizeFactor" in o:
        e.prove_eq("mesh size used is the requested one", o["Mesh.MeshSizeFactor"], size)
    regs = regions_of(ents)
    every = [*regs, *g.regions, ("box", tuple(a for a, _ in g.dom), tuple(b for _, b in g.dom))]
    p, q = PX[:d], QX[:d]
    gp, gq = generic(every, p, d), generic(every, q, d)

    def tiles():
        for c in gp:
            e.assume(c)
        e.reachable("a point of the domain")
        e.prove("pieces cover the domain", sym.implies(inside(g.dom, p), sym.lor(*[gm.member(r, p) for r in regs])))
        for i, r in enumerate(regs):
            e.prove(f"piece {i + 1} inside the domain", sym.implies(gm.member(r, p), inside(g.dom, p)), str(r)[:200])
        # joined: entities of one fragment share their boundaries; others must not touch
        for i, a in enumerate(ents):
            for b in ents[:i]:
                if ring.ckey(a[4]) == ring.ckey(b[4]):
                    continue
                both = sym.land(sym.lor(*[gm.closed_member(r, p) for r in regions_of([a])]), sym.lor(*[gm.closed_member(r, p) for r in regions_of([b])]))
                e.prove("pieces joined along their boundaries", sym.lnot(both), f"{a[2]} {b[2]}")

    under(e, [], tiles)

    def aligned():
        for c in (*gp, *gq):
            e.assume(c)
        for k, reg in enumerate(g.regions):
            rp, rq = gm.member(reg, p), gm.member(reg, q)
            for x in ents:
                if x[0] == "ent":
                    same = sym.land(gm.member(x[3], p), gm.member(x[3], q))
                else:
                    same = sym.land(inside(g.dom, p), inside(g.dom, q), *[gm.member(r, p) == gm.member(r, q) for r in x[3]])
                e.prove(f"region {k + 1} is a union of pieces", sym.implies(same, rp == rq), str(reg)[:200])

    under(e, [], aligned)
    for x in ents:
        if x[0] == "ent":
            n = membership(groups, d, x[2])
            e.prove_eq("every piece in exactly one physical group", n, 1)
        else:
            i = ring.fresh("i")

            def one(x=x, i=i):
                e.assume(le(0, i))
                e.assume(lt(i, gm.nent(x[2], x[1])))
                e.prove_eq("every piece in exactly one physical group", membership(groups, d, gm.etagd(x[2], x[1], i)), 1)

            under(e, [], one)
    numbers(e, groups, d)


def unit(g, api="0.6.0"):
    def h(e):
        g.assume(e)
        e.reachable("admissible parameters")

        def run():
            w = start(g, api=api)
            call(w, g)
            return w

        def on_path(o):
            if o[1][0] == "exc":
                e.prove("returns for admissible parameters", False, f"raises {type(o[1][1]).__name__}: {o[1][1]}")
                return
            w = o[1][1]
            recs = instances(w, "generate", e)
            if g.kind == "remesh":
                e.prove("one mesh per level", all(len(path) <= 1 for _, _, path in recs), str(len(recs)))
            else:
                e.prove("one mesh generated", len(recs) == 1 and not recs[0][2], str(len(recs)))
            for n, (rec, pre, path) in enumerate(recs):
                size = g.size
                if g.kind == "remesh":
                    # sizes of the levels are compared in C23
                    size = ring.num_div(g.size, ring.num_pow(2, Poly.of(path[0].var))) if path else ring.num_div(g.size, ring.num_pow(2, n))
                under(e, pre, lambda rec=rec, size=size: geometry(e, g, rec, size))

        e.explore(run, on_path)
    return h


def units(tier):
    return [(g.label, unit(g)) for g in gens()]
