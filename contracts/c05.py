"""C05 layouts."""
from pyvc import engine, ring, sym
from pyvc.values import pv_len

from world import fe

from .st import ASSUMPTIONS, Cfg, K, KS, N, Prob, assume, slab_cases  # noqa: F401

EXPLANATION = "positions (component, slab, node) -> (field, node index of the space): injective and onto because the space has exactly (degree+1) N nodes per component"


def check(e, prob, table, space, tag):
    """table[j][n*(deg+1)+ell] addresses component j, slab n, node ell of `space`."""
    cnt = prob.counts()
    e.prove(f"{tag}: four components", len(table) == 4 and len(space.fields) == 4)
    for j in range(4):
        fam, deg, n = space.fields[j]
        e.prove(f"{tag}: component {j} continuous elements of its degree", fam == "CG" and ring.same_num(deg, K if j < 2 else KS), f"{fam}{deg}")
        e.prove_eq(f"{tag}: component {j} has a node per slab and time degree of freedom", n, cnt[j] * N)
        e.prove_eq(f"{tag}: table {j} lists every node", pv_len(table[j]), cnt[j] * N)
    n, first, last = slab_cases(e)()
    for j in range(4):
        for ell in range(cnt[j]):
            d = table[j][n * cnt[j] + ell]
            ok = isinstance(d, fe.DofMap)
            e.prove(f"{tag}: component {j} node {ell}: a dof table", ok)
            if ok:
                e.prove(f"{tag}: component {j} node {ell}: of that space and component", d.space is space and d.field == j, f"{d}")
                e.prove_eq(f"{tag}: component {j} node {ell}: time node", d.idx, n * cnt[j] + ell)


def local(e, prob, tag, table, space, cnt, degs):
    e.prove(f"{tag}: components", len(table) == len(cnt) == len(space.fields))
    for j, c in enumerate(cnt):
        fam, deg, n = space.fields[j]
        e.prove(f"{tag}: component {j} elements", fam == "CG" and ring.same_num(deg, degs[j]) and ring.same_num(n, c), f"{space.fields[j]}")
        row = table[j]
        if isinstance(row, fe.DofMap):
            row = [row]
        e.prove(f"{tag}: table {j} length", pv_len(row) == c)
        for i in range(c):
            d = row[i]
            e.prove(f"{tag}: entry {j},{i}", isinstance(d, fe.DofMap) and d.space is space and d.field == j and ring.same_num(d.idx, i), f"{d}")


def unit(c):
    def h(e):
        assume(e)

        def run():
            p = Prob(c)
            p.coarse = fe.Mesh("coarse", p.mesh.comm)
            p.st.setup_spacetime_matrix = lambda fes, precond=False: (fe.Mat(tiny(fes)), tiny(fes))
            p.st.get_spacetime_lfi = lambda: tiny_l(p.st.fes)
            p.st.prepare_coarse_grid_correction(p.coarse)
            return p

        def on_path(r):
            o = r[1]
            if o[0] == "exc":
                e.prove("returns", False, f"raises {type(o[1]).__name__}: {o[1]}")
                return
            p = o[1]
            s = p.st
            e.reachable("precondition")
            e.prove("global space on the problem's mesh", s.fes.mesh is p.mesh)
            e.prove("coarse space on the coarse mesh", s.fes_coarse.mesh is p.coarse)
            e.explore(lambda: check(e, p, s.dofmaps_full, s.fes, "global"), raises(e, "global layout"))
            e.explore(lambda: check(e, p, s.dofmaps_full_coarse, s.fes_coarse, "coarse"), raises(e, "coarse layout"))
            kk = [K, K, KS, KS]

            def loc():
                local(e, p, "slab", s.dofmaps_pre, s.fes_p, p.counts(), kk)
                local(e, p, "interface", s.dofmaps_coupling, s.fes_coupling, [2, 2], [K, K])
                local(e, p, "slab boundary", s.dofmaps_slab_bnd, s.fes_slab_bnd, [1, 1], [K, K])
                for j, (V, d) in enumerate(((s.fes_u1_0_pre, s.dofmap_fes_u1_0_pre), (s.fes_u2_0_pre, s.dofmap_fes_u2_0_pre))):
                    e.prove(f"top of slab: component {j} is the last node", d.field == j and d.space is s.fes_p and ring.same_num(d.idx, c.q), f"{d}")
                for V in (s.fes_u1_0, s.fes_u2_0, s.fes_u1_0_pre, s.fes_u2_0_pre, s.u1_minus.function_space, s.fes_node_fine):
                    e.prove("nodal spaces are those of one primal component", ring.ckey(V.sk()) == ring.ckey(("mesh", "CG", K)), str(V.sk()))
                e.prove("coarse nodal space", ring.ckey(s.fes_node_coarse.sk()) == ring.ckey(("coarse", "CG", K)))
                for f, m in ((s.z_node_fine, "mesh"), (s.z_node_coarse, "coarse")):
                    e.prove("nodal spaces of a dual component", ring.ckey(f.function_space.sk()) == ring.ckey((m, "CG", KS)))

            e.explore(loc, raises(e, "local layouts"))

        e.explore(run, on_path)
    return h


def raises(e, tag):
    def f(r):
        if r[1][0] == "exc":
            e.prove(f"{tag} can be addressed", False, f"raises {type(r[1][1]).__name__}: {r[1][1]}")
        return r
    return f


def tiny(fes):
    u, w = fe.arguments("T")(fes), fe.arguments("V")(fes)
    return fe.fem_form(fe.inner(u[0][0], w[0][0]) * fe.Meas("dx"))


def tiny_l(fes):
    return fe.fem_form(fe.arguments("V")(fes)[0][0] * fe.Meas("dx"))


def units(tier):
    return [(str(c), unit(c)) for c in (Cfg(q, qs) for q in range(4) for qs in range(4))]
