from .._core import assemble_matrix, assemble_vector, create_vector


def __getattr__(name):
    from fake_errors import FakeUnsupported

    if name.startswith("__"):
        raise AttributeError(name)
    raise FakeUnsupported(f"{__name__}.{name}")
