import enum
import itertools

import numpy as np
from mpi4py import MPI

from . import _topo
from ._core import Mesh


class CellType(enum.Enum):
    interval = 1
    triangle = 2
    quadrilateral = 3
    tetrahedron = 4
    hexahedron = 5


class GhostMode(enum.Enum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


def create_interval(comm, nx, points, **k):
    x = np.linspace(points[0], points[1], nx + 1)
    return Mesh(x[:, None], [[i, i + 1] for i in range(nx)], comm)


def create_unit_interval(comm, nx, **k):
    return create_interval(comm, nx, (0.0, 1.0))


def _grid(ns, lo, hi):
    d = len(ns)
    ax = [np.linspace(lo[i], hi[i], ns[i] + 1) for i in range(d)]
    ids = {}
    pts = []
    for idx in itertools.product(*[range(n + 1) for n in ns]):
        ids[idx] = len(pts)
        pts.append([ax[i][idx[i]] for i in range(d)])
    cells = []
    for idx in itertools.product(*[range(n) for n in ns]):
        for p in itertools.permutations(range(d)):
            v = list(idx)
            c = [ids[tuple(v)]]
            for a in p:
                v[a] += 1
                c.append(ids[tuple(v)])
            cells.append(c)
    return pts, cells


def create_rectangle(comm, points, n, cell_type=CellType.triangle, **k):
    return Mesh(*_grid(list(n), points[0], points[1]), comm)


def create_unit_square(comm, nx, ny, **k):
    return Mesh(*_grid([nx, ny], [0, 0], [1, 1]), comm)


def create_box(comm, points, n, cell_type=CellType.tetrahedron, **k):
    return Mesh(*_grid(list(n), points[0], points[1]), comm)


def create_mesh(comm, cells, x, domain=None, **k):
    if isinstance(domain, _topo.Domain):
        return _topo.TopoMesh(x, cells, comm, domain, 2)
    d = domain.geometric_dimension() if hasattr(domain, "geometric_dimension") else np.asarray(x).shape[1]
    m = Mesh(np.asarray(x)[:, :d], np.asarray(cells), comm)
    return m


def compute_incident_entities(mesh, entities, d0, d1):
    if isinstance(mesh, _topo.TopoMesh):
        if API >= (0, 7):
            raise TypeError("compute_incident_entities(): incompatible function arguments")
        return _topo.incident(mesh, entities, d0, d1)
    if isinstance(mesh, _topo.Topology):
        if API < (0, 7):
            raise TypeError("compute_incident_entities(): incompatible function arguments")
        return _topo.incident(mesh.mesh, entities, d0, d1)
    raise NotImplementedError


API = (0, 6)


def refine(mesh, edges=None, **k):
    if isinstance(mesh, _topo.TopoMesh):
        return _topo.refine(mesh, edges, **k)
    if mesh.dim != 1:
        # red refinement of triangles
        pts = [tuple(p) for p in mesh.pts]
        mid = {}

        def m(a, b):
            key = (min(a, b), max(a, b))
            if key not in mid:
                mid[key] = len(pts)
                pts.append(tuple((np.array(pts[a]) + np.array(pts[b])) / 2))
            return mid[key]

        cells = []
        for a, b, c in mesh.cells:
            ab, bc, ca = m(a, b), m(b, c), m(c, a)
            cells += [[a, ab, ca], [ab, b, bc], [ca, bc, c], [ab, bc, ca]]
        return Mesh(pts, cells, mesh.comm)
    pts = list(mesh.pts[:, 0])
    cells = []
    for a, b in mesh.cells:
        pts.append((pts[a] + pts[b]) / 2)
        cells += [[a, len(pts) - 1], [len(pts) - 1, b]]
    return Mesh(np.array(pts)[:, None], cells, mesh.comm)


def locate_entities(mesh, dim, marker):
    if isinstance(mesh, _topo.TopoMesh):
        return _topo.locate(mesh, dim, marker)
    return np.arange(len(mesh.cells), dtype=np.int32)


locate_entities_boundary = locate_entities


class MeshTags:
    pass


def meshtags(mesh, dim, ent, vals):
    return (mesh, dim, ent, vals)


def __getattr__(name):
    from fake_errors import FakeUnsupported

    if name.startswith("__"):
        raise AttributeError(name)
    raise FakeUnsupported(f"{__name__}.{name}")
