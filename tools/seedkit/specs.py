"""Planted changes: each breaks one property while the package still imports and its tests pass."""
PRE = "from st import *  # noqa\n"
ST = "space_time.py"
SEEDS = {
    "quad-radau3": dict(
        property="C03", needs="the three-point Gauss-Radau rule (the package itself only uses four and five points)",
        breaks="the last two weights are exchanged, so the rule is only exact for constants",
        edits=[("precomp_time_int.py", "[2 / 9, (16 + sqrt(6)) / 18, (16 - sqrt(6)) / 18]", "[2 / 9, (16 - sqrt(6)) / 18, (16 + sqrt(6)) / 18]")],
        kit=False, demo='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from dxss.precomp_time_int import QuadRule
r = QuadRule("Gauss-Radau", 3)
for a, b in ((0.0, 1.0), (-1.0, 2.5)):
    for d in range(5):
        s = sum(w * float(p) ** d for w, p in zip(r.t_weights(b - a), r.current_pts(a, b)))
        e = (b ** (d + 1) - a ** (d + 1)) / (d + 1)
        assert abs(s - e) < 1e-9 * max(1, abs(e)), (d, s, e)
'''),
    "basis-cubic-derivative": dict(
        property="C01", needs="cubic degree in time", breaks="one term of the derivative of the third cubic basis function is wrong",
        edits=[("precomp_time_int.py", "* ((t - 1) * (t - 1 / 3) + t * (t - 1 / 3) + t * (t - 1)),", "* ((t - 1) * (t - 1 / 3) + t * (t - 2 / 3) + t * (t - 1)),")],
        kit=False, demo='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from dxss.precomp_time_int import basis_in_time
h = 1e-5
for q in range(4):
    f, g = basis_in_time[q]
    for j in range(q + 1):
        for t in (0.0, 0.13, 0.5, 0.77, 1.0):
            d = (f[j](t + h) - f[j](t - h)) / (2 * h)
            assert abs(d - g[j](t)) < 1e-6, (q, j, t)
'''),
    "elmat-mixed-derivative": dict(
        property="C02", needs="different primal and dual time degrees", breaks="the mixed derivative matrix differentiates the test function when the degrees differ",
        edits=[("precomp_time_int.py", "dm_time_q_qstar[i, j] = integrate(diff(phis[j], x) * chis[i], (x, 0, 1))",
                "dm_time_q_qstar[i, j] = integrate(diff(phis[j], x) * chis[min(i, q)], (x, 0, 1))")],
        kit=False, demo='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
from dxss.precomp_time_int import basis_in_time, get_elmat_time
x, w = np.polynomial.legendre.leggauss(8)
x, w = (x + 1) / 2, w / 2
for q in range(3):
    for s in range(4):
        D = get_elmat_time(q, s)["DM_time_q_qstar"]
        for i in range(s + 1):
            for j in range(q + 1):
                e = sum(W * basis_in_time[q][1][j](X) * basis_in_time[s][0][i](X) for X, W in zip(x, w))
                assert abs(D[i, j] - e) < 1e-12, (q, s, i, j)
'''),
    "layout-dual-shift": dict(
        property="C05", needs="a dual time degree above the primal one and at least two slabs",
        breaks="the table of dual unknowns advances by the wrong number of time nodes per slab, so slabs overlap",
        edits=[(ST, """                    dofmaps_j.append(self.fes.sub(j).sub(shift_idx + ell).collapse()[1])
                int_idx_q += self.otime.q + 1
                int_idx_qstar += self.otime.qstar + 1
""", """                    dofmaps_j.append(self.fes.sub(j).sub(shift_idx + ell).collapse()[1])
                int_idx_q += self.otime.q + 1
                int_idx_qstar += min(self.otime.q, self.otime.qstar) + 1
""")], demo=PRE + '''
for q, qs in ((1, 1), (1, 0), (1, 2), (0, 1)):
    st = make(q=q, qs=qs, N=3)
    seen = set()
    for j in range(4):
        for d in st.dofmaps_full[j]:
            s = set(int(i) for i in d)
            assert not (s & seen), (q, qs, j)
            seen |= s
    assert len(seen) == len(st.uh.x.array)
'''),
    "matrix-asymmetric-stab": dict(
        property="C07", needs="a primal time degree of at least one and a space degree above one (second derivatives)",
        breaks="one of the two mixed terms of the primal residual uses the untransposed derivative matrix",
        edits=[(ST, """                    a -= (
                        gamma_primal
                        * h**2
                        * (elmat_time["DM_time_q_q"].T)[k, j]
""", """                    a -= (
                        gamma_primal
                        * h**2
                        * elmat_time["DM_time_q_q"][k, j]
""")], demo=PRE + '''
for k, q in ((1, 1), (2, 1), (2, 2)):
    st = make(q=q, k=k)
    with quiet():
        A = dense(st.get_spacetime_matrix())
    close(A, A.T)
'''),
    "matrix-nitsche-scaling": dict(
        property="C06", needs="a space degree above one", breaks="the Nitsche penalty of the dual stabilisation in the global matrix loses its dependence on the degree",
        edits=[(ST, "                        * (self.lam_Nitsche / h)\n                        * elmat_time[\"M_time_qstar_qstar\"][k, j]\n                        * inner(y1[int_idx_qstar + j]",
                "                        * (5 * self.ospace.k / h)\n                        * elmat_time[\"M_time_qstar_qstar\"][k, j]\n                        * inner(y1[int_idx_qstar + j]")],
        demo=PRE + '''
for k in (1, 2):
    st = make(k=k, ks=k, N=1)
    with quiet():
        A = dense(st.get_spacetime_matrix())
        S = dense(st.get_slab_matrix())
        st.setup_slab_matrix(with_jumps=False)
        S = dense(st.slab_matrix_no_dg_jumps)
    p = np.concatenate([st.dofmaps_full[j][i] for j in range(4) for i in range(2)])
    r = np.concatenate([st.dofmaps_pre[j][i] for j in range(4) for i in range(2)])
    close(A[np.ix_(p, p)], S[np.ix_(r, r)])
'''),
    "matfree-coupling-stride": dict(
        property="C08", needs="three or more slabs and a time degree other than one",
        breaks="the slab-by-slab product couples the wrong time nodes from the second interface on",
        edits=[(ST, """            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar += self.otime.qstar + 1

    def pre_time_marching(self, b, x_sol):
""", """            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1 if n == 0 else 2
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar += self.otime.qstar + 1

    def pre_time_marching(self, b, x_sol):
""")], demo=PRE + '''
for q, N in ((1, 3), (2, 2), (2, 3), (0, 3)):
    st = ready(make(q=q, N=N))
    with quiet():
        A = dense(st.get_spacetime_matrix())
    n = len(A)
    x, y = vec(n), vec(n)
    st.apply_spacetime_matrix(x, y)
    close(y.array, A @ x.array)
'''),
    "slab-forward-jump-both": dict(
        property="C09", needs="forward jump terms enabled", breaks="the slab matrix also gets the adjoint jump terms",
        edits=[(ST, "                a_pre += (1.0 + self.eps) * inner(y2_p[0], u1_p[0]) * dx\n",
                "                a_pre += (1.0 + self.eps) * inner(y2_p[0], u1_p[0]) * dx\n                a_pre += (1.0 + self.eps) * inner(w2_p[0], z1_p[0]) * dx\n")],
        demo=PRE + '''
def block(fj, r, c):
    st = make(fj=fj)
    with quiet():
        S = dense(st.get_slab_matrix())
    return S[np.ix_(st.dofmaps_pre[r][0], st.dofmaps_pre[c][0])].sum()
assert abs(block(True, 2, 1) - block(False, 2, 1)) > 1e-6    # forward jump
assert abs(block(True, 1, 2) - block(False, 1, 2)) < 1e-10   # no adjoint jump
'''),
    "marching-second-weight": dict(
        property="C10", needs="the plain preconditioner with at least two slabs and a time step other than one",
        breaks="the transferred velocity is weighted with the time step instead of its inverse",
        edits=[(ST, """                l_pre += (
                    gamma_primal_jump
                    * (1 / delta_t)
                    * inner(self.u2_0_pre, self.w2_p[0])
""", """                l_pre += (
                    gamma_primal_jump
                    * delta_t
                    * inner(self.u2_0_pre, self.w2_p[0])
""")], demo=PRE + '''
for N, T in ((2, 2.0), (3, 1.2)):
    st = ready(make(N=N, T=T))
    with quiet():
        A = dense(st.get_spacetime_matrix(True))
    b, x = vec(len(A)), vec(len(A))
    with quiet():
        st.pre_time_marching(b, x)
    close(A @ x.array, b.array, 1e-7)
'''),
    "marching-stale-transfer": dict(
        property="C11", needs="two applications of the optimised preconditioner to different vectors, the first leaving a non-zero final value",
        breaks="the optimised preconditioner starts from the transfer left by the last slab of the previous application",
        edits=[(ST, """        self.b_rhs_pre.array[:] = 0.0

        for n in range(self.N):
            n * delta_t
""", """        for n in range(self.N):
            n * delta_t
""")], demo=PRE + '''
st = ready(make(N=2))
n = len(st.uh.x.array)
b, c, x, y, z = (vec(n) for _ in range(5))
st.pre_time_marching_improved(b, x)
st.pre_time_marching_improved(c, y)
st.pre_time_marching_improved(b, z)
close(z.array, x.array)
'''),
    "rhs-quadrature-time": dict(
        property="C12", needs="a reference solution that depends on time and a time step other than one",
        breaks="the load of later slabs evaluates the solution at times not scaled with the time step",
        edits=[(ST, "                time_ti = t_n + delta_t * tau_i\n                sol_ti", "                time_ti = t_n + (delta_t if n == 0 else self.T / (n + 1)) * tau_i\n                sol_ti")],
        demo=PRE + '''
N, T = 3, 1.5
tt = []
def v(t, x):
    tt.append(float(t))
    return (1 + t) * (1 + x[0])
st = make(N=N, T=T, v=v)
with quiet():
    b = st.get_spacetime_rhs().array.copy()
    M = dense(st.get_spacetime_matrix())
# the load is linear in the data: compare with data weight times the exact time integral of (1+t) phi_k, by slab
dt = T / N
w = [b[st.dofmaps_full[0][i]] for i in range(2 * N)]
base = w[0] / sum(om * (1 + dt * tau) * (1 - tau) for tau, om in zip(st.qr.current_pts(0, 1), st.qr.t_weights(1)))
for n in range(N):
    for k in range(2):
        s = sum(om * (1 + dt * (n + tau)) * (tau if k else 1 - tau) for tau, om in zip(st.qr.current_pts(0, 1), st.qr.t_weights(1)))
        close(w[2 * n + k], base * s)
'''),
    "bfi-order": dict(
        property="C14", needs="the first-slab matrix requested before the slab bilinear form, in a problem that is not well posed",
        breaks="the bilinear form of the general slab is never built once the first-slab one exists, so the accessor returns nothing",
        edits=[(ST, "        if not self.slab_bilinear_form:\n", "        if not self.slab_bilinear_form_no_dg_jumps:\n")],
        demo=PRE + '''
st = make()
with quiet():
    st.get_slab_matrix_first_slab()
    assert st.get_slab_bfi() is not None
'''),
    "restriction-skips-slab-end": dict(
        property="C15", needs="a dual time degree that differs from the primal one and two slabs",
        breaks="the restriction reads dual unknowns of the wrong slab",
        edits=[(ST, "            int_idx_qstar += self.otime.qstar + 1\n            int_idx_q += self.otime.q + 1\n\n    def q_op",
                "            int_idx_qstar += min(self.otime.qstar, self.otime.q) + 1\n            int_idx_q += self.otime.q + 1\n\n    def q_op")],
        demo=PRE + '''
for q, qs in ((1, 1), (0, 1), (1, 2)):
    st = ready(make(q=q, qs=qs, N=2, mesh=interval((0.0, 0.5, 1.0))))
    with quiet():
        st.prepare_coarse_grid_correction(interval((0.0, 0.5, 1.0)))
    xf = vec(len(st.uh.x.array))
    xc = st.tmp1_coarse.duplicate()
    xc.array[:] = 7.0
    st.restriction(xc, xf)
    for j in range(4):
        for a, b in zip(st.dofmaps_full[j], st.dofmaps_full_coarse[j]):
            close(np.sort(xc.array[b]), np.sort(xf.array[a]))
'''),
    "errors-lifting-late": dict(
        property="C16", needs="a discrete solution with a jump at the first interface",
        breaks="the lifting is not applied on the second slab when the L2-in-time error is integrated",
        edits=[(ST, """                if n > 0:
                    uh_prime_at_ti -= (
                        (2 / delta_t)
                        * (self.u1_slab[0] - self.u1_minus)
                        * d_theta_ref((2 * time_ti""", """                if n > 1:
                    uh_prime_at_ti -= (
                        (2 / delta_t)
                        * (self.u1_slab[0] - self.u1_minus)
                        * d_theta_ref((2 * time_ti""")], demo=PRE + '''
from dxss.precomp_time_int import d_theta_ref
N, T = 2, 1.0
st = make(N=N, T=T, v=lambda t, x: 0 * x[0], dv=lambda t, x: 0 * x[0], q=1)
u = vec(len(st.uh.x.array), 0.0)
for i in (2, 3):
    u.array[st.dofmaps_full[0][i]] = 1.0      # 0 on the first slab, 1 on the second
with quiet():
    e = st.measured_errors(u)
dt = T / N
s = sum(om * dt * (2 / dt * d_theta_ref(2 * tau - 1)) ** 2 for tau, om in zip(st.qr_ho.current_pts(0, 1), st.qr_ho.t_weights(1)))
close(e["L2-L2-error-u_t"], np.sqrt(s))
'''),
    "plot-derivative-time": dict(
        property="C17", needs="a quadratic degree in time and at least two slabs",
        breaks="the derivative drawn in the error plot is evaluated at the global instead of the slab time",
        edits=[(ST, """                            * self.dt_phi_trial[ell]((time_ti - t_n) / delta_t)
                            * space_val_ti[ell, j]
                            for ell in range(self.otime.q + 1)
                        ],
                    )
                    dt_u_at_ti""", """                            * self.dt_phi_trial[ell](time_ti / delta_t)
                            * space_val_ti[ell, j]
                            for ell in range(self.otime.q + 1)
                        ],
                    )
                    dt_u_at_ti""")], demo=PRE + '''
import matplotlib.pyplot as plt
got = []
plt.pcolormesh = lambda x, y, z, **k: got.append(np.array(z)) or plt.imshow(np.zeros((2, 2)))
plt.show = lambda *a: None
plt.colorbar = lambda *a: None
N, T, q = 2, 1.0, 2
st = make(N=N, T=T, q=q, qs=1)
u = vec(len(st.uh.x.array), 0.0)
for n in range(N):
    for i in range(3):
        t = (n + i / 2) * T / N
        u.array[st.dofmaps_full[0][3 * n + i]] = t * t
with quiet():
    st.plot_error(u, n_space=3, n_time_subdiv=4)
want = np.array([2 * (m / 4) * T / N for m in range(8)])
close(got[0], np.repeat(want[:, None], 3, 1))
'''),
    "gmres-silent-divergence": dict(
        property="C18", needs="a failure other than the iteration limit, such as a preconditioner that produces a value which is not a number",
        breaks="only the iteration limit raises; every other failure returns a vector",
        edits=[("gmres.py", "    if ksp_reason < 0:\n", "    if ksp_reason == PETSc.KSP.ConvergedReason.DIVERGED_MAX_IT:\n")],
        kit=False, demo='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
from petsc4py import PETSc
from dxss.gmres import get_gmres_solution
class A:
    def mult(self, _, x, y):
        y.array[:] = 2 * x.array
class P:
    def apply(self, _, x, y):
        y.array[:] = np.nan
b = PETSc.Vec().createSeq(4)
b.array[:] = [1.0, 2.0, 3.0, 4.0]
try:
    get_gmres_solution(A(), b, P(), printrates=False)
except PETSc.Error:
    sys.exit(0)
sys.exit("a failed iteration was returned as a solution")
'''),
    "gmres-zero-tolerance": dict(
        property="C19", needs="an explicit absolute tolerance of zero", breaks="a zero tolerance is replaced by the default",
        edits=[("gmres.py", "    if tol is None:\n", "    if not tol:\n")],
        kit=False, demo='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from petsc4py import PETSc
import dxss.gmres as g
seen = []
real = PETSc.KSP
class K(real):
    def setTolerances(self, *a, **k):
        seen.append(k)
        return real.setTolerances(self, *a, **k)
class Proxy:
    KSP = K
    def __getattr__(self, n):
        return getattr(PETSc, n)
g.PETSc = Proxy()
class I:
    def mult(self, _, x, y):
        y.array[:] = x.array
    apply = mult
b = PETSc.Vec().createSeq(3)
b.array[:] = [1.0, 2.0, 3.0]
g.get_gmres_solution(I(), b, I(), tol=0.0, printrates=False)
assert seen[-1]["atol"] == 0.0, seen
g.get_gmres_solution(I(), b, I(), printrates=False)
assert seen[-1]["atol"] == 1e-12, seen
'''),
    "flags-swapped": dict(
        property="C27", needs="a problem in which exactly one of the two flags is set by name",
        breaks="the two problem flags take effect under each other's names",
        edits=[(ST, "    jumps_in_fw_problem: bool = False\n    well_posed: bool = False\n", "    well_posed: bool = False\n    jumps_in_fw_problem: bool = False\n")],
        demo=PRE + '''
st = make(wp=True, setup=False)
assert st.well_posed is True and st.jumps_in_fw_problem is False
'''),

    "remesh-late-levels": dict(
        property="C23", needs="a sequence of four or more separately meshed levels",
        breaks="the mesh size of later levels shrinks linearly instead of being halved", helper="ms.py",
        edits=[("meshes.py", "        h_scale_j = init_h_scale / (2**j)\n", "        h_scale_j = init_h_scale / (2 * j if j > 0 else 1)\n")],
        demo="""
from ms import *  # noqa
sizes = []
real = gmsh.model.mesh.generate
gmsh.model.mesh.generate = lambda *a: (sizes.append(gmsh.option.getNumber("Mesh.MeshSizeFactor")), real(*a))[1]
ms = run(meshes.get_mesh_convex, 4, init_h_scale=12.0)
assert len(ms) == 4
assert np.allclose(sizes, [12.0 / 2**j for j in range(4)]), sizes
"""),
    "refine-not-all": dict(
        property="C23", needs="a hierarchy with at least two refinements",
        breaks="from the second refinement on the cells at the lower left corner are not refined", helper="ms.py",
        edits=[("meshes.py", """        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call signature for compute_incident_entities changed""", """        cells = locate_entities(mesh, mesh.topology.dim, lambda x: x[0] + x[1] >= 0.01 * _i)
        # Call signature for compute_incident_entities changed""")],
        demo="""
from ms import *  # noqa
ms = run(meshes.get_mesh_data_all_around, 2, init_h_scale=5.0)
assert len(ms) == 3
for a, b in zip(ms, ms[1:]):
    assert len(b.cells) == 4 * len(a.cells), (len(a.cells), len(b.cells))
"""),
    "bottom-data-overlap": dict(
        property="C24", needs="a data height eta of more than 0.65",
        breaks="the upper part of the target no longer starts at eta, so its lower edge cuts the pieces elsewhere", helper="ms.py",
        edits=[("meshes.py", "b_plus = gmsh.model.occ.addRectangle(0.25, eta, 0, 0.5, 0.9 - eta, tag=5)",
                "b_plus = gmsh.model.occ.addRectangle(0.25, eta, 0, 0.5, min(0.9 - eta, 0.35), tag=5)"),],
        demo="""
from ms import *  # noqa
for eta in (0.6, 0.45):
    m = run(meshes.get_mesh_bottom_data, h_init=2.0, eta=eta)
    for lo, hi in ((0.25, eta), (eta, 0.9)):
        for c in m.cells:
            p = m.x[list(c)[:3]]
            inside = [(0.25 + 1e-9 < q[0] < 0.75 - 1e-9) and (lo + 1e-9 < q[1] < hi - 1e-9) for q in (p.mean(0), *((p + 9 * p.mean(0)) / 10), *((9 * p + p.mean(0)) / 10))]
            assert all(inside) or not any(inside), (eta, p)
"""),
    "import-inverse-permutation": dict(
        property="C25", needs="nodes listed by the generator in an order that is not its own inverse",
        breaks="node coordinates are picked with the inverse of the sorting permutation", helper="ms.py",
        edits=[("meshes.py", """    ls_points_2d = np.array(ls_points_2d)
    points = ls_points_2d.reshape(-1, 2)
    idx -= 1
    srt = np.argsort(idx)
    if not np.all(idx[srt] == np.arange(len(idx))):
        gmsh.finalize()
        msg = "idx not sequential"
        raise RuntimeError(msg)  # TODO: check
    x = points[srt]

    element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
    (
        name,
        dim,
        order,
        num_nodes,
        local_coords,
        num_first_order_nodes,
    ) = gmsh.model.mesh.getElementProperties(
        gmsh.model.mesh.getElementType("triangle", order),
    )

    # only the root has elements
    cells = node_tags[0] if len(node_tags) > 0 else np.empty(0, dtype=np.uint64)
    cells = cells.reshape(-1, num_nodes) - 1
    if cell_type == CellType.triangle:
        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
    elif cell_type == CellType.quadrilateral:
        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
    gmsh.finalize()

    cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


@closes_gmsh_on_error
def get_mesh_data""", """    ls_points_2d = np.array(ls_points_2d)
    points = ls_points_2d.reshape(-1, 2)
    idx -= 1
    srt = np.argsort(idx)
    if not np.all(idx[srt] == np.arange(len(idx))):
        gmsh.finalize()
        msg = "idx not sequential"
        raise RuntimeError(msg)  # TODO: check
    x = points[idx]

    element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
    (
        name,
        dim,
        order,
        num_nodes,
        local_coords,
        num_first_order_nodes,
    ) = gmsh.model.mesh.getElementProperties(
        gmsh.model.mesh.getElementType("triangle", order),
    )

    # only the root has elements
    cells = node_tags[0] if len(node_tags) > 0 else np.empty(0, dtype=np.uint64)
    cells = cells.reshape(-1, num_nodes) - 1
    if cell_type == CellType.triangle:
        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
    elif cell_type == CellType.quadrilateral:
        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
    gmsh.finalize()

    cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


@closes_gmsh_on_error
def get_mesh_data""")],
        demo="""
from ms import *  # noqa
rng = np.random.default_rng(3)
real = gmsh.model.mesh.getNodes
seen = {}
def nodes(*a, **k):
    i, p, u = real(*a, **k)
    seen.update({int(t): q for t, q in zip(i, np.asarray(p).reshape(-1, 3))})
    o = rng.permutation(len(i))
    return np.asarray(i)[o], np.asarray(p).reshape(-1, 3)[o].reshape(-1), u
gmsh.model.mesh.getNodes = nodes
m = run(meshes.get_mesh_bottom_data, h_init=3.0)
for t, q in seen.items():
    assert np.allclose(m.x[t - 1][:2], q[:2]), t
"""),
    "hierarchy-reuses-file": dict(
        property="C26", needs="two calls in the same working directory with different arguments",
        breaks="a mesh file left by an earlier call is used instead of the generated mesh", helper="ms.py",
        edits=[("meshes.py", "from importlib.metadata import version\n", "from importlib.metadata import version\nfrom pathlib import Path\n"),
               ("meshes.py", """        meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        print("ghost_mode = GhostMode.shared_facet")
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] >= 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call""", """        if not Path("mesh.xdmf").exists():
            meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        print("ghost_mode = GhostMode.shared_facet")
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] >= 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call""")],
        demo="""
from ms import *  # noqa
alone = run(meshes.get_mesh_data_all_around, 0, init_h_scale=5.0)[0]
run(meshes.get_mesh_data_all_around, 0, init_h_scale=2.0)
after = run(meshes.get_mesh_data_all_around, 0, init_h_scale=5.0)[0]
run(meshes.get_mesh_hierarchy, 0, init_h_scale=2.0)
after2 = run(meshes.get_mesh_data_all_around, 0, init_h_scale=5.0)[0]
for a in (after, after2):
    assert len(alone.x) == len(a.x) and np.allclose(alone.x, a.x)
"""),
    "lifting-derivative-node": dict(
        property="C04", needs="the derivative of the lifting function away from the midpoint of its reference interval",
        breaks="one factor of the derivative is evaluated at the wrong collocation point",
        edits=[("precomp_time_int.py", "            if mu != j:\n                fac_j *= (tau - pts_raudau_right[mu])", "            if mu != j:\n                fac_j *= (tau - pts_raudau_right[0])")],
        kit=False, demo="""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from dxss.precomp_time_int import d_theta_ref, theta_ref
h = 1e-6
for t in (-1.0, -0.3, 0.0, 0.6, 1.0):
    assert abs((theta_ref(t + h) - theta_ref(t - h)) / (2 * h) - d_theta_ref(t)) < 1e-6, t
"""),
    "coarse-region-caller": dict(
        property="C13", needs="an unfitted region given as a function and the coarse matrix requested, then a second problem built from the same description",
        breaks="the caller's region function is overwritten by its restriction to the coarse mesh",
        edits=[(ST, "            omega_ind.interpolate(self.omega.indicator_function)\n\n        # retrieve",
                "            omega_ind.interpolate(self.omega.indicator_function)\n            if not self.omega.fitted:\n                self.omega.indicator_function = omega_ind\n\n        # retrieve")],
        demo=PRE + """
import dxss.space_time as s
mesh = interval((0.0, 0.25, 0.5, 1.0))
from dolfinx import fem
chi = fem.Function(fem.FunctionSpace(mesh, ("DG", 0)))
chi.interpolate(lambda x: np.where(x[0] <= 0.4, 1.0, 0.0))
dd = s.DataDomain(indicator_function=chi, fitted=False)
st = s.SpaceTime(s.OrderTime(1, 1), s.OrderSpace(1, 1), N=2, T=1.0, t=0.0, msh=mesh, omega=dd,
                 stabilisation_terms={"data": 1.7, "dual": 0.9, "primal": 0.6, "primal-jump": 1.4}, solution=s.ValueAndDerivative(sol, dsol))
with quiet():
    st.setup_spacetime_finite_elements()
    st.prepare_precondition_gmres()
    st.prepare_coarse_grid_correction(interval((0.0, 0.5, 1.0)))
assert dd.indicator_function is chi
"""),
    "reference-velocity-2d": dict(
        property="C20", needs="a point away from the diagonal of the square", breaks="the reference velocity uses the first coordinate twice",
        edits=[("solve_2d.py", "        * ufl.sin(pi * xu[0])\n        * ufl.sin(pi * xu[1])\n    )\n\n\nST", "        * ufl.sin(pi * xu[0])\n        * ufl.sin(pi * xu[0])\n    )\n\n\nST")],
        kit=False, demo="""
import ast, math, types
src = ast.parse(open("src/dxss/solve_2d.py").read())
keep = [n for n in src.body if isinstance(n, ast.FunctionDef) and n.name.endswith("sample_sol")]
g = {"ufl": types.SimpleNamespace(sin=math.sin, cos=math.cos, sqrt=math.sqrt), "sqrt": math.sqrt, "pi": math.pi}
exec(compile(ast.Module(body=keep, type_ignores=[]), "solve_2d", "exec"), g)
h = 1e-6
for t, x in ((0.3, (0.2, 0.7)), (0.8, (0.5, 0.5)), (0.1, (0.9, 0.3))):
    d = (g["sample_sol"](t + h, x) - g["sample_sol"](t - h, x)) / (2 * h)
    assert abs(d - g["dt_sample_sol"](t, x)) < 1e-5, (t, x)
"""),
    "indicator-end-point": dict(
        property="C21", needs="a point exactly on the inner edge of the right band", breaks="the end point of the right band is no longer in the region",
        edits=[("solve_2d.py", "            (x[0] >= 0.8),\n", "            (x[0] > 0.8),\n")],
        kit=False, demo="""
import ast, types
import numpy as np
src = ast.parse(open("src/dxss/solve_2d.py").read())
keep = [n for n in src.body if isinstance(n, ast.FunctionDef) and n.name == "omega_ind_convex"]
g = {"np": np, "PETSc": types.SimpleNamespace(ScalarType=np.float64)}
exec(compile(ast.Module(body=keep, type_ignores=[]), "solve_2d", "exec"), g)
x = np.array([[0.8, 0.2, 0.5, 0.5, 0.5, 0.1], [0.5, 0.5, 0.8, 0.2, 0.5, 0.9], [0.0] * 6])
assert g["omega_ind_convex"](x).tolist() == [1, 1, 1, 1, 0, 1]
"""),
    "direct-first-slab": dict(
        property="C22", needs="the pypardiso solver path", breaks="the first slab is solved with the factorisation of the general slab",
        edits=[("solve_2d.py", "            PySolver(slab_matrix_first_slab_sparse, initial_slab_solver),", "            PySolver(slab_matrix_first_slab_sparse, genreal_slab_solver),")],
        kit=False, demo="""
import ast, types, warnings
src = ast.parse(open("src/dxss/solve_2d.py").read())
keep = [n for n in src.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in ("solve_problem", "PySolver", "get_lu_solver")]
class Solver:
    def factorize(self, a): self.of = a
    def _check_A(self, a): pass
    def _check_b(self, a, b): return b
    def set_phase(self, p): pass
    def _call_pardiso(self, a, b): return [self.of]
class ST:
    msh = None
    def get_slab_matrix(self): return "general"
    def get_slab_matrix_first_slab(self): return "first"
    def set_solver_slab(self, s): self.slab = s
    def set_solver_first_slab(self, s): self.first = s
    def measured_errors(self, u): pass
st = ST()
g = {"SOLVER_TYPE": "pypardiso", "pypardiso": types.SimpleNamespace(PyPardisoSolver=Solver), "get_sparse_matrix": lambda m: m, "ST": st, "b_rhs": None,
     "get_gmres_solution": lambda **k: (None, None), "SpaceTimePETScMatrixWrapper": id, "SpaceTimePETScPreconditionerWrapper": id, "warnings": warnings,
     "time": types.SimpleNamespace(time=lambda: 0.0), "print": lambda *a: None}
exec(compile(ast.Module(body=keep, type_ignores=[]), "solve_2d", "exec"), g)
g["solve_problem"]()
class V: pass
for s, want in ((st.slab, "general"), (st.first, "first")):
    b, x = V(), V()
    b.array, x.array = [0], [0]
    s.solve(b, x)
    assert x.array == [want], want
"""),
}
