"""Mesh generators of the package run with the real gmsh and meshio in a scratch directory."""
import contextlib
import importlib
import importlib.metadata as md
import os
import shutil
import sys
import tempfile

import gmsh
import numpy as np
from mpi4py import MPI

from replay.c18 import quiet

WORLD = MPI.COMM_WORLD


class Comm:
    """One process of a communicator of two."""

    def __init__(self, rank, size=2):
        self.rank, self.size = rank, size

    Get_rank = lambda self: self.rank  # noqa: E731
    Get_size = lambda self: self.size  # noqa: E731
    barrier = Barrier = lambda self: None  # noqa: E731

    def bcast(self, x, root=0):
        return x


@contextlib.contextmanager
def scratch():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="dxss-mesh-")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


_v = md.version
VERSION = "0.6.0"


def version(p):
    return VERSION if p == "fenics-dolfinx" else _v(p)


def module(rank=0, size=1, api="0.6.0"):
    global VERSION
    import dolfinx.mesh as dm
    VERSION = api
    md.version = version
    dm.API = tuple(int(c) for c in api.split(".")[:2])
    MPI.COMM_WORLD = Comm(rank, size) if size > 1 else WORLD
    sys.modules.pop("dxss.meshes", None)
    try:
        return importlib.import_module("dxss.meshes")
    finally:
        pass


class Spy:
    """Records what the generator was asked for; optionally perturbs the node listing."""

    def __init__(self, listing=None, renumber=None):
        self.gen, self.nodes, self.elements, self.opened, self.closed = [], None, None, 0, 0
        self.listing, self.renumber = listing, renumber
        self.grabbed = None

    def __enter__(self):
        m = gmsh.model.mesh
        self.keep = (m.generate, m.getNodes, m.getElements, gmsh.initialize, gmsh.finalize)

        def generate(*a):
            dim = a[0] if a else 3
            ents = gmsh.model.getEntities(dim)
            self.gen.append({
                "dim": dim, "size": gmsh.option.getNumber("Mesh.MeshSizeFactor"),
                "mass": [gmsh.model.occ.getMass(*e) for e in ents],
                "groups": [len(gmsh.model.getPhysicalGroupsForEntity(*e)) for e in ents],
                "others": {k: gmsh.option.getNumber(k) for k in ("Mesh.MeshSizeMin", "Mesh.MeshSizeMax", "Mesh.ElementOrder")},
            })
            r = self.keep[0](*a)
            self.grab(dim)
            return r

        def get_nodes(*a, **k):
            i, p, u = self.keep[1](*a, **k)
            self.grab(self.gen[-1]["dim"] if self.gen else 2)
            if self.listing is not None and len(i):
                o = self.listing(len(i))
                p = np.asarray(p).reshape(-1, 3)[o].reshape(-1)
                i = np.asarray(i)[o]
            if self.renumber is not None:
                i = self.renumber(np.asarray(i)).astype(np.uint64)
            return i, p, u

        def get_elements(*a, **k):
            ty, tg, nd = self.keep[2](*a, **k)
            if self.renumber is not None:
                nd = [self.renumber(np.asarray(n)).astype(np.uint64) for n in nd]
            return ty, tg, nd

        def initialize(*a, **k):
            self.opened += 1
            return self.keep[3](*a, **k)

        def finalize(*a, **k):
            self.closed += 1
            return self.keep[4](*a, **k)

        m.generate, m.getNodes, m.getElements, gmsh.initialize, gmsh.finalize = generate, get_nodes, get_elements, initialize, finalize
        return self

    def grab(self, dim):
        """Coordinates of every cell by node, straight from the generator."""
        i, p, _ = self.keep[1]()
        c = dict(zip(map(int, i), np.asarray(p).reshape(-1, 3)))
        ty, _, nd = self.keep[2](dim)
        if not ty:
            return
        n = gmsh.model.mesh.getElementProperties(ty[0])[3]
        self.grabbed = np.array([[c[int(t)] for t in el] for el in np.asarray(nd[0]).reshape(-1, n)])
        self.nnodes = len(c)

    def __exit__(self, *a):
        m = gmsh.model.mesh
        m.generate, m.getNodes, m.getElements, gmsh.initialize, gmsh.finalize = self.keep


class Failing(Spy):
    """The mesh cannot be generated."""

    def __enter__(self):
        super().__enter__()

        def generate(*a):
            raise Exception("meshing failed")  # what the real generator raises

        gmsh.model.mesh.generate = generate
        return self


def call(mod, name, args, spy=None):
    """(result, exception, spy, left open)"""
    spy = spy or Spy()
    err = res = None
    with quiet(), spy:
        try:
            res = getattr(mod, name)(**args)
        except Exception as e:  # noqa: BLE001
            err = e
        left = bool(gmsh.isInitialized())
        if left:
            spy.keep[4]()
    return res, err, spy, left


def done():
    MPI.COMM_WORLD = WORLD


def rect(x0, x1, y0, y1):
    return lambda x: x0 < x[0] < x1 and y0 < x[1] < y1


SQ = ([0, 0], [1, 1])
INC = ([-1.5, -1.5], [1.5, 1.5])


def cases(rng, eta=(0.3, 0.85)):
    """name, arguments, requested size, box, regions, kind"""
    h = round(rng.uniform(1.5, 6.0), 3)
    eta = round(rng.uniform(*eta), 3)
    yield "create_initial_mesh_convex", {"init_h_scale": h}, h, SQ, [rect(.1, .9, .25, 1), rect(.1, .9, .25, .95)], "one"
    yield "get_mesh_convex", {"n_ref": rng.randrange(0, 3), "init_h_scale": h}, h, SQ, [rect(.1, .9, .25, 1), rect(.1, .9, .25, .95)], "remesh"
    yield "get_mesh_hierarchy", {"n_ref": rng.randrange(0, 3), "init_h_scale": h}, h, SQ, [rect(.1, .9, .25, 1), rect(.1, .9, .25, .95)], "hier"
    yield "get_mesh_hierarchy_nonconvex", {"n_ref": rng.randrange(0, 3), "init_h_scale": h}, h, SQ, [rect(.25, .75, .05, .5), rect(.125, .875, .05, .95)], "hier"
    yield ("get_mesh_hierarchy_fitted_disc", {"n_ref": rng.randrange(0, 3), "eta": eta, "h_init": h}, h, SQ,
           [rect(.1, .9, .25, eta), rect(.1, .9, .25, .95)], "hier")
    yield ("get_mesh_inclusion", {"h_init": h / 2, "order": rng.choice([1, 2])}, h / 2, INC,
           [rect(-1.25, 1.25, -1.25, 1.5), rect(-.5, .5, -.5, .5), ("disk", 1.0)], "import")
    e2 = round(rng.uniform(0.9, 1.45), 3)
    a, b = round(rng.uniform(-1.4, -1.0), 3), round(rng.uniform(1.0, 1.4), 3)
    yr = round(rng.uniform(e2 + 0.01, 1.49), 3)
    yield ("get_mesh_inclusion_square", {"h_init": h / 2, "x_l": a, "x_r": b, "y_l": a, "y_r": yr, "eta": e2}, h / 2, INC,
           [rect(-.75, .75, -.75, .75), rect(a, b, a, yr), rect(-9, 9, -9, e2), rect(-1.25, 1.25, -1.25, e2 - .1)], "import")
    yield ("get_mesh_inclusion_square", {"h_init": h / 2}, h / 2, INC,
           [rect(-.75, .75, -.75, .75), rect(-1.25, 1.25, -1.25, 1.25), rect(-9, 9, -9, 1.25)], "import")
    yt = round(rng.uniform(0.8, e2 - 0.05), 3)
    yield ("get_mesh_inclusion_square", {"h_init": h / 2, "x_l": a, "x_r": b, "y_l": a, "y_r": yt, "eta": e2}, h / 2, INC,
           [rect(-.75, .75, -.75, .75), rect(a, b, a, yt), rect(-9, 9, -9, e2), rect(-1.25, 1.25, -1.25, e2 - .1)], "import")
    yield ("get_mesh_inclusion_square", {"h_init": h / 2, "eta": 1.5, "y_r": b}, h / 2, INC,
           [rect(-.75, .75, -.75, .75), rect(-1.25, 1.25, -1.25, b), rect(-1.25, 1.25, -1.25, 1.4)], "import")
    yield "get_mesh_bottom_data", {"h_init": h, "eta": eta}, h, SQ, [rect(-9, 9, -9, .25), rect(-9, 9, -9, eta), rect(.25, .75, .25, eta), rect(.25, .75, eta, .9)], "import"
    yield "get_mesh_data_all_around", {"n_ref": rng.randrange(0, 4), "init_h_scale": h}, h, SQ, [rect(.2, .8, .2, .8)], "hier"
    yield ("get_3d_mesh_data_all_around", {"n_ref": rng.randrange(0, 2), "init_h_scale": 4 + h}, 4 + h, ([0, 0, 0], [1, 1, 1]),
           [lambda x: all(.2 < c < .8 for c in x)], "hier")


def first(res):
    return res[0] if isinstance(res, (list, tuple)) else res
