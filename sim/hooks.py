"""Application settings, checks run after each call, and extra control operations."""
from __future__ import annotations

import os
import sys

HOOKS: dict = {}
CONTROLS: dict = {}
APP: dict = {}


def app(name):
    def deco(f):
        APP[name] = f
        return f
    return deco


@app("np.printoptions")
def _():
    import numpy as np
    np.set_printoptions(precision=5, suppress=True, linewidth=61, threshold=50, edgeitems=2)


@app("np.seterr")
def _():
    import numpy as np
    np.seterr(divide="ignore", over="ignore", under="warn", invalid="ignore")


@app("warnings")
def _():
    import warnings
    warnings.filterwarnings("ignore", message="application message", category=DeprecationWarning)
    warnings.filterwarnings("once", module="application")


@app("jax.matmul")
def _():
    import jax
    jax.config.update("jax_default_matmul_precision", "highest")


@app("galcen")
def _():
    import astropy.coordinates as ac
    ac.galactocentric_frame_defaults.set("v4.0")


@app("decimal")
def _():
    import decimal
    decimal.getcontext().prec = 17
    decimal.getcontext().rounding = decimal.ROUND_DOWN


@app("random")
def _():
    import random
    random.seed(99)
    random.random()


@app("recursion")
def _():
    sys.setrecursionlimit(2345)


@app("environ")
def _():
    os.environ["APPLICATION_SETTING"] = "1"
    os.environ["JAX_ENABLE_X64"] = "0"


@app("units")
def _():
    import astropy.units as au
    au.add_enabled_units([au.def_unit("appunit", 7 * au.m)])


@app("np.random")
def _():
    import numpy as np
    np.random.seed(4)
    np.random.normal()


@app("gcthreshold")
def _():
    import gc
    gc.set_threshold(500, 7, 9)


# ------------------------------------------------------------- domain rules
RULES = {"RadialPos": {"r": (0, None, "l")}, "PolarPos": {"r": (0, None, "l")}, "CylindricalPos": {"rho": (0, None, "l")},
         "SphericalPos": {"r": (0, None, "l"), "theta": (0, 180, "a")}, "MathSphericalPos": {"r": (0, None, "l"), "phi": (0, 180, "a")},
         "LonLatSphericalPos": {"lat": (-90, 90, "a"), "distance": (0, None, "l")}, "TwoSpherePos": {"theta": (0, 180, "a")},
         "Parallax": {"value": (0, None, "l")}}


def vectors_in(x, out, depth=0):
    import dataclasses
    if depth > 6:
        return out
    if isinstance(x, (tuple, list)):
        for y in x:
            vectors_in(y, out, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            vectors_in(y, out, depth + 1)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type) and type(x).__module__.startswith("coordinax"):
        out.append(x)
        for f in dataclasses.fields(x):
            vectors_in(getattr(x, f.name, None), out, depth + 1)
    return out


def rule_breaks(v):
    """Components of a vector outside their domain, or of the wrong dimension."""
    import numpy as np
    name = type(v).__name__
    bad = []
    for f, (lo, hi, what) in RULES.get(name, {}).items():
        q = getattr(v, f)
        if what == "a":
            val = np.asarray(q.uconvert("deg").value if hasattr(q, "uconvert") else q, dtype=float)
            tol = 1e-3
        else:
            val = np.asarray(getattr(q, "value", q), dtype=float)
            tol = 0.0
        if lo is not None and bool(np.any(val < lo - tol)) or hi is not None and bool(np.any(val > hi + tol)):
            bad.append(f"{name}.{f} = {val.tolist()}")
    if name == "ProlateSpheroidalPos":
        mu, nu, D = (np.asarray(getattr(v, k).uconvert(u_).value, dtype=float) for k, u_ in (("mu", v.mu.unit), ("nu", v.mu.unit), ("Delta", v.mu.unit ** 0.5)))
        D2 = D ** 2
        if bool(np.any(D <= 0)) or bool(np.any(mu < D2 * (1 - 1e-5))) or bool(np.any(np.abs(nu) > D2 * (1 + 1e-5))):
            bad.append(f"{name}(mu={mu.tolist()}, nu={nu.tolist()}, Delta={D.tolist()})")
    return bad


def hook_domain(w, th, i, op, args, kw, r, exc, out):
    if exc is not None or op.get("m", "eager") != "eager":
        return
    for v in vectors_in(r, []):
        for b in rule_breaks(v):
            w.viol.append(["C07", th.id, i, "invalid-result", f"{op['k']} returned an invalid vector: {b}", ""])
            return


HOOKS["domain"] = hook_domain


# ------------------------------------------------------------------ memory
def _library_size():
    """Number of entries of all containers and caches reachable from the library's modules, classes and functions."""
    import collections
    import functools
    import types
    import weakref
    seen = set()
    keep = []  # temporaries must outlive the walk: identity is by address
    total = 0
    big = collections.Counter()
    stack = []
    for name, m in sorted(sys.modules.items()):
        if (name == "coordinax" or name.startswith("coordinax.")) and isinstance(m, types.ModuleType):
            stack.append((vars(m), name))
    cont = (dict, list, set, frozenset, tuple, collections.deque, bytearray, weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet)
    while stack:
        x, where = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, cont):
            try:
                n = len(x)
            except Exception:  # noqa: BLE001
                n = 0
            total += n
            big[where] += n
            if isinstance(x, (bytearray,)):
                continue
            items = list(x.items()) if hasattr(x, "items") else [(None, y) for y in list(x)]
            for k, y in items:
                if isinstance(k, tuple):
                    stack.append((k, where))
                if type(y) not in (int, float, str, bool, type(None), bytes):
                    stack.append((y, f"{where}.{k}" if isinstance(k, str) and "." not in where.replace("coordinax.", "").split(":")[-1][:1] else where))
        elif isinstance(x, functools._lru_cache_wrapper):
            total += x.cache_info().currsize
            big[where] += x.cache_info().currsize
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or "").startswith("coordinax") or x.__code__.co_filename.startswith("/repo"):
                for c in x.__closure__ or ():
                    try:
                        stack.append((c.cell_contents, where))
                    except ValueError:
                        pass
                stack += [(x.__defaults__ or (), where), (x.__kwdefaults__ or {}, where), (x.__dict__, where)]
        elif isinstance(x, type):
            if x.__module__.startswith("coordinax"):
                stack.append((dict(vars(x)), where))
        elif isinstance(x, types.MethodType):
            stack.append((x.__func__, where))
        elif type(x).__module__.startswith("coordinax"):
            d = getattr(x, "__dict__", None)
            if d:
                stack.append((d, where))
        elif isinstance(x, (staticmethod, classmethod, property)):
            for y in (getattr(x, "__func__", None), getattr(x, "fget", None)):
                if y is not None:
                    stack.append((y, where))
    return total, big


def ctl_watch(w, th, op):
    """Start of a measured stretch: everything alive now may stay alive."""
    import gc
    import weakref

    import jax
    gc.collect()
    w.mem = {"arrays": {id(a): weakref.ref(a) for a in jax.live_arrays()}, "lib": _library_size(), "args": []}
    return {"c": "!watch"}


def ctl_check(w, th, op):
    """End of a measured stretch: nothing that appeared since may be alive."""
    import gc

    import jax
    m = getattr(w, "mem", None)
    w.mem = None
    if m is None:
        return {"c": "!check"}
    gc.collect()
    gc.collect()
    dead = [(n, r) for n, r in m["args"] if r() is not None]
    if dead:
        w.viol.append(["C12", th.id, th.opi, "argument-retained", f"an argument stays alive after its call and the result were dropped: {dead[0][0]}", ""])
        return {"c": "!check"}
    old = m["arrays"]
    new = [a for a in jax.live_arrays() if not (id(a) in old and old[id(a)]() is a)]
    if new:
        w.viol.append(["C12", th.id, th.opi, "array-retained", f"{len(new)} arrays made after the warm-up stay alive once all results are dropped (e.g. shape {new[0].shape}, {new[0].dtype})", ""])
        return {"c": "!check"}
    t0, b0 = m["lib"]
    t1, b1 = _library_size()
    if t1 > t0:
        grew = {k: (b0.get(k, 0), v) for k, v in b1.items() if v > b0.get(k, 0)}
        w.viol.append(["C12", th.id, th.opi, "library-grew", f"containers the library holds grew from {t0} to {t1} entries over calls of the same kinds: {dict(list(grew.items())[:4])}", ""])
    return {"c": "!check"}


CONTROLS["!watch"] = ctl_watch
CONTROLS["!check"] = ctl_check


def hook_mem(w, th, i, op, args, kw, r, exc, out):
    import weakref

    import numpy as np
    m = getattr(w, "mem", None)
    if m is None:
        return
    for j, x in list(enumerate(args)) + list(kw.items()):
        if isinstance(x, type):
            continue
        mod = type(x).__module__
        if mod.startswith("coordinax") or type(x).__name__.split("[")[0] in ("Quantity", "UncheckedQuantity") or isinstance(x, np.ndarray) or type(x).__name__ == "ArrayImpl":
            try:
                m["args"].append((f"argument {j} ({type(x).__name__.split('[')[0]}) of {op['k']}", weakref.ref(x)))
            except TypeError:
                pass


HOOKS["mem"] = hook_mem


# ------------------------------------------------- values for the reference model
def ser(x, depth=0):
    """Components of a value, or its class name where it has none."""
    import dataclasses

    import numpy as np

    from .ops import Lib
    if depth > 4:
        return {"t": "deep"}
    name = type(x).__name__.split("[")[0]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return {"t": "tup", "x": [ser(y, depth + 1) for y in x]}
    if isinstance(x, (bool, int, float, np.ndarray, np.generic)) or name == "ArrayImpl":
        return {"t": "arr", "v": _num(x)}
    if isinstance(x, Lib.u.quantity.AbstractQuantity):
        v = np.asarray(x.value)
        d = {"t": "q", "c": name, "v": _num(v.real if np.iscomplexobj(v) else v), "u": x.unit.to_string()}
        if np.iscomplexobj(v):
            d["i"] = _num(v.imag)
        return d
    if isinstance(x, Lib.cx.Space):
        return {"t": "space", "parts": {k: ser(v, depth + 1) for k, v in x.items()}}
    if name == "FourVector":
        return {"t": "four", "ti": [_num(x.t.value), x.t.unit.to_string()], "q": ser(x.q, depth + 1)}
    if isinstance(x, Lib.cx.vecs.AbstractVector) and dataclasses.is_dataclass(x):
        f = {}
        for fl in dataclasses.fields(x):
            v = getattr(x, fl.name)
            f[fl.name] = [_num(v.value), v.unit.to_string()]
        return {"t": "vec", "c": name, "f": f}
    if isinstance(x, Lib.apyc.BaseRepresentation):
        d = {k: (type(v).__name__, {c: [_num(getattr(v, c).value), getattr(v, c).unit.to_string()] for c in v.components}) for k, v in (getattr(x, "differentials", None) or {}).items()}
        return {"t": "ap", "c": name, "f": {c: [_num(getattr(x, c).value), getattr(x, c).unit.to_string()] for c in x.components}, "d": d}
    if isinstance(x, Lib.apyu.Quantity):
        return {"t": "q", "c": "apyQuantity", "v": _num(x.value), "u": x.unit.to_string()}
    return {"t": "obj", "c": name}


def _num(v):
    import numpy as np
    v = np.asarray(v)
    if v.dtype.kind not in "biuf":
        return None
    return v.astype(bool if v.dtype.kind == "b" else float).tolist()


def safe_ser(r):
    try:
        return ser(r)
    except Exception as e:  # noqa: BLE001
        return {"t": "obj", "c": "unreadable " + type(e).__name__}


def restore(stored):
    """What a restarted client reads back from its log."""
    import base64
    import pickle

    from . import ops
    out = {}
    for name, pk in stored.items():
        try:
            ops.STORE[name] = pickle.loads(base64.b64decode(pk))
            out[name] = safe_ser(ops.STORE[name])
        except Exception as e:  # noqa: BLE001
            out[name] = {"t": "lost", "c": f"{type(e).__name__}: {e}"[:200]}
    return out


def hook_vals(w, th, i, op, args, kw, r, exc, out):
    if exc is not None or op.get("m", "eager") not in ("eager", "jit", "jitc", "jit1", "vmapc"):
        return
    out["x"] = safe_ser(r)
    if w.setup.get("log") and "out" in op:
        import base64
        import pickle
        try:
            out["pk"] = base64.b64encode(pickle.dumps(r)).decode()
        except Exception as e:  # noqa: BLE001
            out["pke"] = type(e).__name__


HOOKS["vals"] = hook_vals


# --------------------------------------------------------- stored objects
def hook_store(w, th, i, op, args, kw, r, exc, out):
    """The client writes its operands and the result to its log."""
    if not op.get("sv"):
        return
    import base64
    import pickle

    from .ops import ours
    proto = op.get("proto", 5)
    log = {}
    items = [(str(j), x) for j, x in enumerate(args)] + list(kw.items())
    if exc is None:
        items.append(("r", r))
    for k, x in items:
        many = x if isinstance(x, (tuple, list)) else list(x.values()) if isinstance(x, dict) else [x]
        if not any(ours(y) for y in many):
            continue
        try:
            log[k] = base64.b64encode(pickle.dumps(x, protocol=proto)).decode()
        except Exception as e:  # noqa: BLE001
            bad = [y for y in many if ours(y)]
            for y in bad:
                try:
                    pickle.dumps(y, protocol=proto)
                except Exception as e2:  # noqa: BLE001
                    what = "result" if k == "r" else f"operand {k}"
                    w.viol.append(["C09", th.id, i, "pickle", f"{what} of {op['k']}: a {type(y).__name__.split('[')[0]} cannot be pickled: {type(e2).__name__}: {e2}"[:400], ""])
                    break
    if log:
        out["log"] = log


HOOKS["store"] = hook_store
