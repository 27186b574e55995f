"""Shared helpers for contract modules."""
from fractions import Fraction as F

from pyvc import engine, loader, ring, sym
from world import base, numpy_


def math_world():
    return {"numpy": numpy_.make(), "sympy": base.make_sympy(), "math": base.make_math()}


def lt(a, b):
    return sym.compare(a, b, "<")


def le(a, b):
    return sym.compare(a, b, "<=")


def outcome_is_ok(e, name, out):
    """The call must return, not raise."""
    if out[0] == "exc":
        e.prove(f"{name} returns", False, f"raises {type(out[1]).__name__}: {out[1]}")
        return False
    return True
