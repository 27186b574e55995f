"""Loads transformed repository modules into a fresh world."""
from __future__ import annotations

import functools
import importlib
import os
import types
from pathlib import Path

from . import heap, runtime
from .ring import Unsupported
from .transform import transform

REPO = Path(os.environ.get("PV_REPO", "/repo"))
SRC = REPO / "src"

_CODE = {}


def compiled(modname):
    rel = modname.replace(".", "/")
    p = SRC / f"{rel}.py"
    if not p.exists():
        p = SRC / rel / "__init__.py"
    if not p.exists():
        raise ModuleNotFoundError(f"No module named '{modname}'")
    key = (str(p), p.stat().st_mtime_ns)
    c = _CODE.get(key)
    if c is None:
        tree = transform(p.read_text(), str(p))
        c = compile(tree, str(p), "exec")
        _CODE[key] = c
    return c, p


NATIVE = {
    "__future__", "dataclasses", "typing", "typing_extensions", "functools", "warnings", "collections", "collections.abc",
    "contextlib", "enum", "abc", "operator", "copy", "logging", "pathlib", "types", "numbers", "string", "textwrap", "inspect",
    "os", "os.path", "fractions", "traceback",
}


class Loader:
    """One world instance: `world` maps external module names to contract modules."""

    def __init__(self, world):
        self.world = world
        self.mods = {}
        self.builtins = runtime.make_builtins(self.imp)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        code, path = compiled(name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__pv__"] = runtime.PV(name)
        m.__dict__["__file__"] = str(path)
        m.__dict__["__package__"] = name if path.name == "__init__.py" else name.rpartition(".")[0]
        self.mods[name] = m
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        # the world's fake modules must be found by dataclasses via sys.modules
        import sys

        old = sys.modules.get(name)
        sys.modules[name] = m
        try:
            exec(code, m.__dict__)  # noqa: S102
        except BaseException:
            self.mods.pop(name, None)
            raise
        finally:
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        heap.TRANSFORMED_MODULES.append(m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        top = name.split(".")[0]
        if top == "dxss":
            m = self.load(name)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(f"{name}.{f}")
                    except ModuleNotFoundError:
                        pass
            return m if fromlist else self.mods[top]
        if name in self.world:
            m = self.world[name]
            if isinstance(m, ImportError):
                raise m
            if fromlist:
                return m
            return self.world.get(top, m)
        if top in self.world:
            if isinstance(self.world[top], ImportError):
                raise self.world[top]
            m = self.world[top]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m if fromlist else self.world[top]
        if name in NATIVE:
            m = importlib.import_module(name)
            return m if fromlist else importlib.import_module(top)
        raise Unsupported(f"import of {name} (no contract for it)")


def fresh_loader(world):
    heap.TRANSFORMED_MODULES.clear()
    return Loader(world)
