import numpy as np
from dolfinx._core import evaluate


def evaluate_function_at_points(function, points):
    return evaluate(function, np.asarray(points, float))


def __getattr__(name):
    from fake_errors import FakeUnsupported

    if name.startswith("__"):
        raise AttributeError(name)
    raise FakeUnsupported(f"{__name__}.{name}")
