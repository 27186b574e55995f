LOG = []


class XDMFFile:
    def __init__(self, comm, name, mode):
        self.comm, self.name, self.mode = comm, name, mode
        LOG.append(("open", name, mode))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        LOG.append(("close", self.name))

    def write_mesh(self, m):
        LOG.append(("mesh", self.name, m))

    def write_function(self, f, t=0.0):
        LOG.append(("function", self.name, f.name, f, f.x.array.copy()))

    def write_meshtags(self, *a):
        LOG.append(("tags", self.name, a))

    def read_mesh(self, ghost_mode=None, name="mesh", xpath="/Xdmf/Domain"):
        import meshio

        from ._topo import TopoMesh
        if name != "Grid":
            raise RuntimeError(f"<Grid> with name '{name}' not found")
        m = meshio.read(self.name)
        (blk,) = m.cells
        LOG.append(("read", self.name))
        return TopoMesh(m.points, blk.data, self.comm, None, {"triangle": 2, "tetra": 3, "line": 1}[blk.type], ghost_mode)

    def read_meshtags(self, mesh, name):
        import meshio
        if name != "Grid":
            raise RuntimeError(f"<Grid> with name '{name}' not found")
        m = meshio.read(self.name)
        if m.cells[0].type == "line" and mesh.tdim - 1 not in mesh.topology.made:
            raise RuntimeError("facets have not been created")
        return ("tags", self.name)


VTXWriter = None


class gmshio:
    @staticmethod
    def ufl_mesh(cell, gdim):
        from ._topo import Domain
        return Domain(int(cell), int(gdim))

    @staticmethod
    def model_to_mesh(*a, **k):
        from ._topo import model_to_mesh
        return model_to_mesh(*a, **k)


def __getattr__(name):
    from fake_errors import FakeUnsupported

    if name.startswith("__"):
        raise AttributeError(name)
    raise FakeUnsupported(f"{__name__}.{name}")
