"""The bilinear forms the package must assemble, as lists of block terms.

A term is (coef, (test field, test index), (trial field, trial index), kernel). Fields: 0,1 primal (u1/w1, u2/w2), 2,3 dual
(z1/y1, z2/y2). A kernel is a name of a spatial bilinear form b(trial, test), see KERNELS. Coefficients are built with
+,*,/ only, so the same text serves floats (replay) and symbolic numbers (verifier)."""
from .timebasis import elmat

KERNELS = {
    "mass": "int u w dx", "stiff": "int grad u . grad w dx", "nit": "int (n . grad u) w ds", "nitT": "int u (n . grad w) ds",
    "omega": "int indicator u w dx", "bmass": "int (1/h) u w ds", "hjump": "int (h+ + h-)/2 [grad u].[grad w] dS",
    "h2mass": "int h^2 u w dx", "h2_u_lapw": "int h^2 u lap w dx", "h2_lapu_w": "int h^2 lap u w dx", "h2laplap": "int h^2 lap u lap w dx",
}


class P:
    """Parameters: q, qs, dt, lam (Nitsche), weights gd (data), gu (dual), gp (primal), gj (primal-jump), flags."""

    def __init__(self, q, qs, dt, lam, gd, gu, gp, gj, fj=False, wp=False, div=None):
        self.q, self.qs, self.dt, self.lam = q, qs, dt, lam
        self.gd, self.gu, self.gp, self.gj, self.fj, self.wp = gd, gu, gp, gj, fj, wp
        self.idt = div(1, dt) if div else 1 / dt
        self.E = elmat(q, qs)


def slab(p, s=0, ss=0):
    """Terms inside one slab whose first primal/dual time node has index s/ss."""
    E, dt, idt = p.E, p.dt, p.idt
    Ms, Ds, M, D, DD, Mq = (E[k] for k in ("M_time_q_qstar", "DM_time_q_qstar", "M_time_q_q", "DM_time_q_q", "DDM_time_q_q", "M_time_qstar_qstar"))
    out = []
    for j in range(p.q + 1):
        for k in range(p.qs + 1):
            J, K = s + j, ss + k
            out += [
                (Ds[k][j], (2, K), (1, J), "mass"), (dt * Ms[k][j], (2, K), (0, J), "stiff"), (-dt * Ms[k][j], (2, K), (0, J), "nit"),
                (Ds[k][j], (3, K), (0, J), "mass"), (-dt * Ms[k][j], (3, K), (1, J), "mass"),
                # adjoint
                (Ds[k][j], (1, J), (2, K), "mass"), (dt * Ms[k][j], (0, J), (2, K), "stiff"), (-dt * Ms[k][j], (0, J), (2, K), "nitT"),
                (Ds[k][j], (0, J), (3, K), "mass"), (-dt * Ms[k][j], (1, J), (3, K), "mass"),
            ]
    for k in range(p.qs + 1):
        for j in range(p.qs + 1):
            J, K, c = ss + j, ss + k, -p.gu * dt * Mq[k][j]
            out += [(c, (2, K), (2, J), "mass"), (c, (2, K), (2, J), "stiff"), (c * p.lam, (2, K), (2, J), "bmass"), (c, (3, K), (3, J), "mass")]
    for k in range(p.q + 1):
        for j in range(p.q + 1):
            J, K = s + j, s + k
            m = dt * M[k][j]
            out += [
                (p.gd * m, (0, K), (0, J), "omega"),
                (p.gp * m * p.lam, (0, K), (0, J), "bmass"), (p.gp * m, (0, K), (0, J), "hjump"),
                (p.gp * idt * DD[k][j], (0, K), (0, J), "mass"), (p.gp * m, (0, K), (0, J), "h2laplap"),
                (p.gp * m, (1, K), (1, J), "mass"), (p.gp * idt * DD[k][j], (1, K), (1, J), "h2mass"),
                (-p.gp * D[j][k], (0, K), (1, J), "mass"), (-p.gp * D[k][j], (0, K), (1, J), "h2_u_lapw"),
                (-p.gp * D[k][j], (1, K), (0, J), "mass"), (-p.gp * D[j][k], (1, K), (0, J), "h2_lapu_w"),
            ]
    return out


def start_penalty(p, row, col, c):
    """Primal jump penalty block c * gj * (...) for test node `row`, trial node `col`."""
    return [(c * p.gj * p.idt, (0, row), (0, col), "mass"), (c * p.gj * p.dt, (0, row), (0, col), "stiff"), (c * p.gj * p.idt, (1, row), (1, col), "mass")]


def interface(p, s, ss, precond=False):
    """Terms of the interface before the slab whose first primal/dual node is s/ss (previous node s-1)."""
    out = start_penalty(p, s, s, 1) + start_penalty(p, s, s - 1, -1)
    if not precond:
        out += start_penalty(p, s - 1, s, -1) + start_penalty(p, s - 1, s - 1, 1)
    if p.fj:
        out += forward_jump(p, s, ss) + adjoint_jump(p, s, ss) + dual_start(p, ss)
    return out


def forward_jump(p, s, ss):
    return [(1, (3, ss), (0, s), "mass"), (-1, (3, ss), (0, s - 1), "mass"), (1, (2, ss), (1, s), "mass"), (-1, (2, ss), (1, s - 1), "mass")]


def adjoint_jump(p, s, ss):
    return [(1, (0, s), (3, ss), "mass"), (-1, (0, s - 1), (3, ss), "mass"), (1, (1, s), (2, ss), "mass"), (-1, (1, s - 1), (2, ss), "mass")]


def dual_start(p, ss):
    return [(-p.gu * p.dt, (2, ss), (2, ss), "mass"), (-p.gu * p.dt, (3, ss), (3, ss), "mass")]


def initial(p):
    return start_penalty(p, 0, 0, 1) if p.wp else []


def global_terms(p, N, precond=False):
    """Concrete N (replay)."""
    out = []
    for n in range(N):
        s, ss = n * (p.q + 1), n * (p.qs + 1)
        out += slab(p, s, ss)
        out += initial(p) if n == 0 else interface(p, s, ss, precond)
    return out


def slab_matrix_terms(p, with_jumps):
    """Slab-local matrices: the general slab (with_jumps) and the one of matrix-free products (without)."""
    out = slab(p)
    if with_jumps:
        out += start_penalty(p, 0, 0, 1)
        if p.fj:
            out += [(1, (3, 0), (0, 0), "mass"), (1, (2, 0), (1, 0), "mass")] + dual_start(p, 0)
    return out


def first_slab_terms(p):
    """Diagonal block of the first slab; with forward jumps and well-posed the code shares the general slab matrix."""
    return slab_matrix_terms(p, with_jumps=p.wp)


def coupling_terms(p):
    """Interface matrix on (component, side) with side 0 = before, 1 = after."""
    out = []
    for r, cr in ((1, 1), (0, -1)):
        for c, cc in ((1, 1), (0, -1)):
            out += start_penalty(p, r, c, cr * cc)
    return out


def bnd_mass_terms(p):
    return start_penalty(p, 0, 0, 1)


def theta(tau):
    """Lifting: 1 at -1, 0 at 0 and 1."""
    return tau * (tau - 1) / 2


def dtheta(tau):
    return tau - type(tau)(1) / 2 if not isinstance(tau, int) else tau - 0.5
