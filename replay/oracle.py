"""Independent assembly of the specified blocks on the stand-in meshes (numpy only, no UFL)."""
import itertools

import numpy as np
import scipy.sparse as sp
from dolfinx._core import CellCtx, FacetCtx, RefEl, simplex_quad

DEG = 12


class Kernels:
    """Matrices (test x trial) of the spatial kernels between Lagrange spaces of given degrees."""

    def __init__(self, mesh, omega):
        self.m, self.omega, self.memo = mesh, omega, {}
        X, w = simplex_quad(mesh.dim, DEG)
        self.cell = CellCtx(mesh, X)
        self.cw = w[None] * mesh.detJ[:, None]
        X, w = simplex_quad(mesh.dim - 1, DEG)
        self.ext = FacetCtx(mesh, mesh.ext, X)
        self.ew = w[None] * self.ext.area[:, None]
        self.int = FacetCtx(mesh, mesh.int, X) if mesh.int else None
        self.iw = w[None] * self.int.area[:, None] if mesh.int else None

    def tab(self, ctx, s, k, der):
        """Values (), gradients (1) or Laplacians (2) of the basis at the points of side s."""
        m = self.m
        el, X, K = RefEl(m.dim, k), ctx.X[s], m.K[ctx.cells[s]]
        if der == 0:
            return el.tab(X, ())
        if der == 1:
            G = np.stack([el.tab(X, (r,)) for r in range(m.dim)], -1)
            return np.einsum("cqar,crp->cqap", G, K)
        L = 0.0
        for r, t in itertools.product(range(m.dim), repeat=2):
            L = L + el.tab(X, (r, t)) * np.einsum("cp,cp->c", K[:, r], K[:, t])[:, None, None]
        return L

    def dofs(self, ctx, s, k):
        return self.m.scalar("Lagrange", k)[0][ctx.cells[s]]

    def n(self, k):
        return self.m.scalar("Lagrange", k)[2]

    def mat(self, name, kt, ku):
        key = (name, kt, ku)
        if key not in self.memo:
            self.memo[key] = self._mat(name, kt, ku)
        return self.memo[key]

    def _mat(self, name, kt, ku):
        c, w = self.cell, self.cw
        h = self.m.diam
        T = lambda d, k: self.tab(c, 0, k, d)  # noqa: E731
        if name in ("mass", "stiff", "omega", "h2mass", "h2_u_lapw", "h2_lapu_w", "h2laplap"):
            if name == "mass":
                v = np.einsum("cq,cqa,cqb->cab", w, T(0, kt), T(0, ku))
            elif name == "stiff":
                v = np.einsum("cq,cqap,cqbp->cab", w, T(1, kt), T(1, ku))
            elif name == "omega":
                v = np.einsum("cq,cq,cqa,cqb->cab", w, self.omega(c.x), T(0, kt), T(0, ku))
            elif name == "h2mass":
                v = np.einsum("cq,c,cqa,cqb->cab", w, h**2, T(0, kt), T(0, ku))
            elif name == "h2_u_lapw":
                v = np.einsum("cq,c,cqa,cqb->cab", w, h**2, T(2, kt), T(0, ku))
            elif name == "h2_lapu_w":
                v = np.einsum("cq,c,cqa,cqb->cab", w, h**2, T(0, kt), T(2, ku))
            else:
                v = np.einsum("cq,c,cqa,cqb->cab", w, h**2, T(2, kt), T(2, ku))
            return self.coo(self.dofs(c, 0, kt), self.dofs(c, 0, ku), v, kt, ku)
        if name in ("nit", "nitT", "bmass"):
            f, w = self.ext, self.ew
            Tf = lambda d, k: self.tab(f, 0, k, d)  # noqa: E731
            if name == "bmass":
                v = np.einsum("cq,c,cqa,cqb->cab", w, 1 / h[f.cells[0]], Tf(0, kt), Tf(0, ku))
            elif name == "nit":
                v = np.einsum("cq,cp,cqa,cqbp->cab", w, f.n[0], Tf(0, kt), Tf(1, ku))
            else:
                v = np.einsum("cq,cp,cqap,cqb->cab", w, f.n[0], Tf(1, kt), Tf(0, ku))
            return self.coo(self.dofs(f, 0, kt), self.dofs(f, 0, ku), v, kt, ku)
        if name == "hjump":
            f, w = self.int, self.iw
            if f is None:
                return sp.csr_matrix((self.n(kt), self.n(ku)))
            out = 0
            hh = 0.5 * (h[f.cells[0]] + h[f.cells[1]])
            # vector jump of a gradient: dolfinx/ufl jump(v) = v(+) - v(-)
            for s, t in itertools.product((0, 1), repeat=2):
                sg = (1 if s == 0 else -1) * (1 if t == 0 else -1)
                v = sg * np.einsum("cq,c,cqap,cqbp->cab", w, hh, self.tab(f, s, kt, 1), self.tab(f, t, ku, 1))
                out = out + self.coo(self.dofs(f, s, kt), self.dofs(f, t, ku), v, kt, ku)
            return out
        raise KeyError(name)

    def coo(self, dt, du, v, kt, ku):
        r = np.broadcast_to(dt[:, :, None], v.shape).ravel()
        c = np.broadcast_to(du[:, None, :], v.shape).ravel()
        return sp.coo_matrix((v.ravel(), (r, c)), shape=(self.n(kt), self.n(ku))).tocsr()

    # vectors
    def load(self, k, f, weight=None):
        """int weight f phi dx; f maps points (c,q,dim) to values."""
        c = self.cell
        v = np.einsum("cq,cq,cqa->ca", self.cw, f(c.x) * (weight(c.x) if weight else 1.0), self.tab(c, 0, k, 0))
        out = np.zeros(self.n(k))
        np.add.at(out, self.dofs(c, 0, k).ravel(), v.ravel())
        return out

    def values(self, k, coef, der=0):
        """Values at the cell quadrature points of the function with these coefficients."""
        return np.einsum("cqa,ca->cq", self.tab(self.cell, 0, k, 0), coef[self.dofs(self.cell, 0, k)])

    def l2sq(self, vals):
        return float(np.sum(self.cw * vals**2))


def assemble(terms, kern, deg, layout, n):
    """deg: field -> space degree; layout(field, idx) -> global unknowns in scalar numbering."""
    acc = {}
    for c, (ft, it), (fu, iu), name in terms:
        c = float(c)
        if c:
            key = ((ft, it), (fu, iu))
            acc[key] = acc.get(key, 0) + c * kern.mat(name, deg[ft], deg[fu])
    A = np.zeros((n, n))
    for (t, u), b in acc.items():
        A[np.ix_(layout(*t), layout(*u))] += b.toarray() if sp.issparse(b) else b
    return A


def dense(M):
    a, b, v = M.getValuesCSR()
    return sp.csr_matrix((v, b, a), shape=M.getSize()).toarray()
