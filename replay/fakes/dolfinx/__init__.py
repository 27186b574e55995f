__version__ = "0.7.2"
from . import cpp, fem, io, mesh  # noqa


def __getattr__(name):
    from fake_errors import FakeUnsupported

    if name.startswith("__"):
        raise AttributeError(name)
    raise FakeUnsupported(f"{__name__}.{name}")
