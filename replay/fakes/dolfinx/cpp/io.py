from .._topo import perm_gmsh  # noqa: F401


def __getattr__(name):
    from fake_errors import FakeUnsupported
    if name.startswith("__"):
        raise AttributeError(name)
    raise FakeUnsupported(f"{__name__}.{name}")
