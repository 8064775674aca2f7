"""Structural digests of the values the library gives back.

``canon(x)`` turns any value the library accepts or returns into a tree of
plain tuples, strings and numbers that captures everything a user can observe
(class, field names, units, shapes, dtypes, bit patterns), and nothing that is
an accident of the process (addresses, hash order).
"""
from __future__ import annotations

import dataclasses
import enum
import hashlib
import types
from collections.abc import Mapping

import jax
import numpy as np


def _cls(x):
    t = x if isinstance(x, type) else type(x)
    m = t.__module__ or ""
    # private module paths may be reorganised: only the top-level package counts
    return f"{m.split('.')[0]}:{t.__qualname__.split('[')[0]}" if m.startswith("coordinax") else f"{m.split('.')[0]}:{t.__qualname__}"


def _arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ("objarr", a.shape, tuple(repr(v) for v in a.ravel()))
    return ("arr", str(a.dtype), tuple(a.shape), np.ascontiguousarray(a).tobytes().hex())


def canon(x, depth=0):
    if depth > 40:
        return ("deep",)
    d = depth + 1
    if x is None or isinstance(x, (bool, int, str, bytes)):
        if isinstance(x, enum.Enum):
            return ("enum", _cls(x), x.name)
        return (type(x).__name__, x if not isinstance(x, bytes) else x.hex())
    if isinstance(x, float):
        return ("float", x.hex())
    if isinstance(x, complex):
        return ("complex", x.real.hex(), x.imag.hex())
    if isinstance(x, enum.Enum):
        return ("enum", _cls(x), x.name)
    if isinstance(x, jax.core.Tracer):
        return ("TRACER", type(x).__name__)
    if isinstance(x, jax.Array):
        try:
            return ("jax", bool(getattr(x.aval, "weak_type", False))) + _arr(x)[1:]
        except RuntimeError as e:  # deleted buffer
            return ("jax-unreadable", type(e).__name__)
    if isinstance(x, types.MappingProxyType):
        x = dict(x)
        return ("mapproxy", tuple((canon(k, d), canon(v, d)) for k, v in x.items()))
    mod = type(x).__module__.split(".")[0]
    if mod == "astropy":
        import astropy.units as au
        import astropy.coordinates as ac
        if isinstance(x, au.Quantity):
            return ("apq", _cls(x), str(x.unit), _arr(x.value))
        if isinstance(x, au.UnitBase):
            return ("unit", x.to_string())
        if isinstance(x, au.PhysicalType):
            return ("dim", str(x))
        if isinstance(x, (ac.BaseRepresentation, ac.BaseDifferential)):
            out = tuple((c, canon(getattr(x, c), d)) for c in x.components)
            dif = getattr(x, "differentials", None) or {}
            return ("aprep", _cls(x), out, tuple((k, canon(v, d)) for k, v in sorted(dif.items())))
        if isinstance(x, ac.BaseCoordinateFrame):
            attrs = tuple((k, canon(getattr(x, k), d)) for k in sorted(x.frame_attributes))
            return ("apframe", _cls(x), attrs, canon(x.data, d) if x.has_data else None)
        return ("astropy", _cls(x), str(x))
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return ("np",) + _arr(x)[1:]
    if isinstance(x, np.dtype):
        return ("dtype", str(x))
    if isinstance(x, type):
        return ("type", _cls(x))
    if isinstance(x, types.ModuleType):
        return ("module",)
    if dataclasses.is_dataclass(x):
        out = []
        for f in dataclasses.fields(x):
            try:
                v = getattr(x, f.name)
            except BaseException as e:  # noqa: BLE001
                out.append((f.name, ("unset", type(e).__name__)))
                continue
            out.append((f.name, canon(v, d)))
        name = _cls(x)
        if name.startswith("unxt") or name.startswith("plum"):
            name = "unxt:" + type(x).__name__
        return ("obj", name, tuple(out))
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            return ("ntuple", type(x).__name__, tuple(canon(v, d) for v in x))
        return ("tuple", tuple(canon(v, d) for v in x))
    if isinstance(x, list):
        return ("list", tuple(canon(v, d) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(canon(v, d)) for v in x)))
    if isinstance(x, Mapping):
        return ("map", _cls(x), tuple((canon(k, d), canon(v, d)) for k, v in x.items()))
    if isinstance(x, BaseException):
        return ("exc", _cls(x))
    if isinstance(x, slice):
        return ("slice", canon(x.start, d), canon(x.stop, d), canon(x.step, d))
    if x is Ellipsis:
        return ("ellipsis",)
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return ("fn", getattr(x, "__qualname__", "?"))
    if type(x).__module__.startswith("jaxlib") or type(x).__name__ == "Device":
        return ("dev", str(x))
    if type(x).__name__ in ("odict_items", "dict_items", "dict_keys", "dict_values", "ItemsView", "KeysView", "ValuesView"):
        return (type(x).__name__, tuple(canon(v, d) for v in x))
    if type(x).__name__ == "Rotation":
        return ("rot", _arr(x.as_matrix()))
    return ("other", _cls(x), "")


def h(tree) -> str:
    return hashlib.sha1(repr(tree).encode()).hexdigest()[:16]


def digest(x) -> str:
    return h(canon(x))


def floats_of(tree, out=None):
    """Numbers in a canonical tree, for tolerance comparison and display."""
    if out is None:
        out = []
    if isinstance(tree, tuple):
        if tree and tree[0] in ("jax", "np", "arr"):
            t = tree[2:] if tree[0] == "jax" else tree[1:]
            try:
                out.append(np.frombuffer(bytes.fromhex(t[2]), dtype=t[0]).reshape(t[1]).tolist())
            except Exception:  # noqa: BLE001
                out.append(None)
        else:
            for v in tree:
                floats_of(v, out)
    return out


def short(tree, n=160) -> str:
    """Readable rendering of a canonical tree."""
    def r(t):
        if not isinstance(t, tuple):
            return str(t)
        if not t:
            return "()"
        k = t[0]
        if k in ("jax", "np", "arr"):
            f = floats_of(t)
            return str(f[0]) if f else "?"
        if k == "obj" and len(t) == 3:
            return t[1].split(":")[1] + "(" + ", ".join(f"{a}={r(b)}" for a, b in t[2]) + ")"
        if k in ("unit", "str", "int", "float", "bool", "type", "dim") and len(t) == 2:
            return str(t[1])
        return "(" + ", ".join(r(v) for v in t) + ")"
    s = r(tree)
    return s if len(s) <= n else s[: n - 3] + "..."
