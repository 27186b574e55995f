"""Mesh generators on the real gmsh in a scratch directory; the finite element library is the stand-in beside this file."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.getcwd(), "src"), os.path.join(HERE, "fakes"), HERE]

import atexit  # noqa: E402
import contextlib  # noqa: E402
import importlib.metadata as md  # noqa: E402
import io  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402

import gmsh  # noqa: E402
import numpy as np  # noqa: E402

_d = tempfile.mkdtemp(prefix="dxss-demo-")
os.chdir(_d)
atexit.register(lambda: (os.chdir("/"), shutil.rmtree(_d, ignore_errors=True)))
_v = md.version
md.version = lambda p: "0.6.0" if p == "fenics-dolfinx" else _v(p)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def run(f, *a, **k):
    with quiet():
        return f(*a, **k)


with quiet():
    import dxss.meshes as meshes  # noqa: E402
