"""Heap snapshots over everything reachable from a loop body."""
from __future__ import annotations

import types

from .ring import Unsupported
from .values import PList

UNBOUND = type("Unbound", (), {"__repr__": lambda s: "UNBOUND"})()

TRANSFORMED_MODULES = []  # namespaces of transformed modules
WORLD_ROOTS = []  # world objects always part of the heap
HARNESS_ROOTS = []


SERIAL = [0]
GUARDS = []  # iterations being summarised: (serial at their start, ids of the tracked objects)


def touch(o):
    """Frame condition of loop summaries: an object that existed before the iteration must be tracked to be written."""
    for n, ids in GUARDS:
        if o._serial <= n and id(o) not in ids:
            raise Unsupported(f"write to a {type(o).__name__} outside the frame of the loop")


class WObj:
    """Base of mutable world objects: pv_get/pv_set handle the immutable state, pv_kids further objects."""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        SERIAL[0] += 1
        o.__dict__["_serial"] = SERIAL[0]
        return o

    def __setattr__(self, n, v):
        if GUARDS:
            touch(self)
        object.__setattr__(self, n, v)

    def pv_get(self):
        return self.__dict__.get("_st")

    def pv_set(self, v):
        self.__dict__["_st"] = v

    def pv_kids(self):
        return ()


def _is_repo_instance(o):
    return getattr(type(o), "__pv_repo__", False)


_SKIP = (str, int, bool, type(None), bytes)


def walk(roots):
    """dict locid -> (obj, key, value). locid = (id(obj), key)."""
    locs = {}
    seen = {}
    todo = list(roots)

    def add(o, k, v):
        locs[(id(o), k)] = (o, k, v)
        todo.append(v)

    while todo:
        o = todo.pop()
        if isinstance(o, _SKIP) or id(o) in seen:
            continue
        t = type(o)
        if t is types.CellType:
            seen[id(o)] = o
            try:
                v = o.cell_contents
            except ValueError:
                v = UNBOUND
            add(o, "cell", v)
        elif t is PList:
            seen[id(o)] = o
            add(o, "list", o.pv_get())
        elif t is tuple:
            seen[id(o)] = o
            todo.extend(o)
        elif t is list:
            seen[id(o)] = o
            add(o, "nlist", tuple(o))
        elif t is dict:
            seen[id(o)] = o
            for k, v in o.items():
                add(o, ("item", k), v)
            locs[(id(o), "keys")] = (o, "keys", tuple(o.keys()))
        elif t is set:
            seen[id(o)] = o
            locs[(id(o), "set")] = (o, "set", frozenset(o))
        elif t is types.FunctionType:
            seen[id(o)] = o
            for c in o.__closure__ or ():
                todo.append(c)
            for d in o.__defaults__ or ():
                todo.append(d)
        elif t is types.MethodType:
            todo.append(o.__self__)
            todo.append(o.__func__)
        elif isinstance(o, WObj):
            seen[id(o)] = o
            add(o, "state", o.pv_get())
            todo.extend(o.pv_kids())
        elif hasattr(t, "pv_kids"):
            seen[id(o)] = o
            todo.extend(o.pv_kids())
        elif _is_repo_instance(o):
            seen[id(o)] = o
            d = getattr(o, "__dict__", None)
            if d is not None:
                for k, v in d.items():
                    add(o, ("attr", k), v)
                locs[(id(o), "attrs")] = (o, "attrs", tuple(d.keys()))
        elif isinstance(o, type) and getattr(o, "__pv_repo__", False):
            seen[id(o)] = o
            for k, v in list(vars(o).items()):
                if not k.startswith("__"):
                    add(o, ("cattr", k), v)
    return locs


def set_loc(o, k, v):
    if k == "cell":
        if v is UNBOUND:
            try:
                del o.cell_contents
            except ValueError:
                pass
        else:
            o.cell_contents = v
    elif k in ("list", "state"):
        o.pv_set(v)
    elif k == "nlist":
        o[:] = list(v)
    elif k == "set":
        o.clear()
        o.update(v)
    elif k == "keys":
        for x in [x for x in o if x not in v]:
            del o[x]
    elif k == "attrs":
        d = o.__dict__
        for x in [x for x in d if x not in v]:
            del d[x]
    elif k[0] == "item":
        if v is UNBOUND:
            o.pop(k[1], None)
        else:
            o[k[1]] = v
    elif k[0] == "attr":
        if v is UNBOUND:
            o.__dict__.pop(k[1], None)
        else:
            o.__dict__[k[1]] = v
    elif k[0] == "cattr":
        if v is not UNBOUND:
            type.__setattr__(o, k[1], v)


def restore(snap, now=None):
    """Restore every location of the snapshot."""
    for o, k, v in snap.values():
        if k in ("keys", "attrs"):
            set_loc(o, k, v)
    for o, k, v in snap.values():
        if k not in ("keys", "attrs"):
            set_loc(o, k, v)


def vsame(a, b):
    """Same value: identity for objects, structural for immutable values."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(vsame(x, y) for x, y in zip(a, b))
    from . import ring

    if type(a) in (int, ring.Fraction) and type(b) in (int, ring.Fraction):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, bool)):
        return a == b

    if isinstance(a, ring.Poly):
        return a.t == b.t
    if isinstance(a, ring.Fraction):
        return a == b
    k = getattr(a, "pv_key", None)
    if k is not None:
        return k() == b.pv_key()
    return False


def diff(s0, s1):
    """Locations of s0's objects whose value changed (or appeared) in s1."""
    objs = {id(o) for o, _, _ in s0.values()}
    out = []
    for lid, (o, k, v) in s1.items():
        if k in ("keys", "attrs"):
            continue
        if lid in s0:
            if not vsame(s0[lid][2], v):
                out.append((o, k))
        elif id(o) in objs:
            out.append((o, k))
    for lid, (o, k, v) in s0.items():
        if lid not in s1 and k not in ("keys", "attrs") and isinstance(k, tuple):
            # item/attribute removed
            if k[0] == "item" and k[1] not in o or k[0] == "attr" and k[1] not in o.__dict__:
                out.append((o, k))
    return out
