"""Stand-ins for the mesh import side of dolfinx: plain cells and points, uniform refinement, no numerics."""
import itertools

import numpy as np


class Domain:
    """What gmshio.ufl_mesh returns."""

    def __init__(self, gmsh_cell, gdim):
        self.gmsh_cell, self.gdim = gmsh_cell, gdim

    def geometric_dimension(self):
        return self.gdim


class Topology:
    def __init__(self, mesh):
        self.mesh, self.dim, self.made = mesh, mesh.tdim, set()

    def create_entities(self, d):
        self.made.add(d)

    def create_connectivity(self, a, b):
        self.made |= {a, b}

    create_entity_permutations = lambda self: None  # noqa: E731


class TopoMesh:
    def __init__(self, x, cells, comm, domain=None, gdim=None, ghost_mode=None):
        self.x = np.asarray(x, float)
        self.cells = np.asarray(cells, np.int64)
        self.comm, self.domain, self.ghost_mode = comm, domain, ghost_mode
        self.tdim = gdim or self.x.shape[1]
        self.topology = Topology(self)
        self.parent, self.uniform, self.refined_with = None, None, None
        self.geometry = type("G", (), {"x": np.c_[self.x, np.zeros((len(self.x), 3 - self.x.shape[1]))], "dim": self.x.shape[1]})()
        self.name = "mesh"

    def edges(self):
        s = set()
        for c in self.cells:
            for a, b in itertools.combinations(c[: self.tdim + 1], 2):
                s.add((min(a, b), max(a, b)))
        return sorted(s)


def locate(mesh, dim, marker):
    if dim != mesh.tdim:
        raise RuntimeError("only cells are offered")
    xs = np.zeros((3, len(mesh.x)))
    xs[: mesh.x.shape[1]] = mesh.x.T
    mk = np.asarray(marker(xs), bool)
    return np.array([i for i, c in enumerate(mesh.cells) if mk[c[: mesh.tdim + 1]].all()], np.int32)


def incident(mesh, entities, d0, d1):
    if d1 != 1 or d0 != mesh.tdim:
        raise RuntimeError("only the edges of cells are offered")
    if 1 not in mesh.topology.made and mesh.tdim - 1 != 1:
        raise RuntimeError("edges have not been created")
    if 1 not in mesh.topology.made:
        raise RuntimeError("edges have not been created")
    num = {e: i for i, e in enumerate(mesh.edges())}
    out = set()
    for c in entities:
        for a, b in itertools.combinations(mesh.cells[c][: mesh.tdim + 1], 2):
            out.add(num[(min(a, b), max(a, b))])
    return np.array(sorted(out), np.int32)


def refine(mesh, edges=None, redistribute=True):
    if 1 not in mesh.topology.made:
        raise RuntimeError("edges have not been created")
    es = mesh.edges()
    marked = set(range(len(es))) if edges is None else set(int(e) for e in edges)
    uniform = marked == set(range(len(es)))
    pts, mid, cells = [tuple(p) for p in mesh.x], {}, []
    for i in sorted(marked):
        a, b = es[i]
        mid[es[i]] = len(pts)
        pts.append(tuple((mesh.x[a] + mesh.x[b]) / 2))
    if mesh.tdim == 2 and uniform:
        for a, b, c in mesh.cells[:, :3]:
            ab, bc, ca = (mid[(min(p, q), max(p, q))] for p, q in ((a, b), (b, c), (c, a)))
            cells += [[a, ab, ca], [ab, b, bc], [ca, bc, c], [ab, bc, ca]]
    elif mesh.tdim == 3 and uniform:
        for v in mesh.cells[:, :4]:
            m = {(i, j): mid[(min(v[i], v[j]), max(v[i], v[j]))] for i, j in itertools.combinations(range(4), 2)}
            for i in range(4):
                cells.append([v[i]] + [m[(min(i, j), max(i, j))] for j in range(4) if j != i])
            e = [m[(0, 1)], m[(0, 2)], m[(0, 3)], m[(1, 2)], m[(1, 3)], m[(2, 3)]]
            cells += [[e[0], e[5], e[1], e[2]], [e[0], e[5], e[2], e[4]], [e[0], e[5], e[4], e[3]], [e[0], e[5], e[3], e[1]]]
    else:
        cells = mesh.cells.tolist()  # a partial refinement: recorded, not built
    out = TopoMesh(pts, cells, mesh.comm, mesh.domain, mesh.tdim, mesh.ghost_mode)
    out.parent, out.uniform = mesh, uniform
    return out


GMSH_TO_DOLFINX = {("triangle", 3): [0, 1, 2], ("triangle", 6): [0, 1, 2, 4, 5, 3], ("tetrahedron", 4): [0, 1, 2, 3],
                   ("quadrilateral", 4): [0, 1, 3, 2]}


def perm_gmsh(cell_type, n):
    return GMSH_TO_DOLFINX[(cell_type.name, int(n))]


def model_to_mesh(model, comm, rank, gdim=3, partitioner=None):
    """Physical groups of the top dimension, as dolfinx.io.gmshio does it (root only)."""
    if comm.rank != rank:
        return TopoMesh(np.zeros((0, gdim)), np.zeros((0, gdim + 1)), comm, None, gdim), None, None
    idx, pts, _ = model.mesh.getNodes()
    order = np.argsort(idx)
    if not np.all(idx[order] == np.arange(1, len(idx) + 1)):
        raise RuntimeError("nodes are not numbered from one")
    x = np.asarray(pts).reshape(-1, 3)[order][:, :gdim]
    groups = model.getPhysicalGroups()
    if not groups:
        raise RuntimeError("no physical groups")
    top = max(d for d, _ in groups)
    cells = []
    marks = []
    for d, t in groups:
        if d != top:
            continue
        for e in model.getEntitiesForPhysicalGroup(d, t):
            ty, _, nodes = model.mesh.getElements(d, tag=e)
            for k, nd in zip(ty, nodes):
                n = model.mesh.getElementProperties(k)[3]
                cells.append(np.asarray(nd).reshape(-1, n).astype(np.int64) - 1)
                marks += [t] * len(cells[-1])
    m = TopoMesh(x, np.concatenate(cells), comm, None, top)
    m.marks = np.array(marks)
    return m, None, None
