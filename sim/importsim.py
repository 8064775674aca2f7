"""Simulated imports: load failures, orders, importing threads.

The job's process has the third-party stack but has never imported coordinax.
A plan has import calls (possibly on several threads, with preemption at any
instruction of module-level code of the library), faults by number of module
load, and calls made afterwards.
"""
from __future__ import annotations

import gc
import importlib
import sys

PUBLIC = ["coordinax", "coordinax.vecs", "coordinax.ops", "coordinax.frames", "coordinax.distance", "coordinax.angle"]


class Loads:
    """Stands between importlib and the disk."""

    def __init__(self, faults):
        self.faults = {(f["at"], f["n"]): f["exc"] for f in faults}
        self.n = {"load": 0, "find": 0, "cache": 0, "stat": 0}
        self.fired = []
        self.names = []

    def hit(self, at, name):
        self.n[at] += 1
        e = self.faults.pop((at, self.n[at]), None)
        if e is not None:
            from .world import make_exc
            self.fired.append([at, name, e])
            raise OSError(5, "Input/output error") if e == "OSError" else make_exc(e)

    def install(self):
        import _frozen_importlib_external as X
        SL, SF, FF = X.SourceLoader, X.SourceFileLoader, X.FileFinder
        get_code, get_data, path_stats, find_spec = SL.get_code, X.FileLoader.get_data, SF.path_stats, FF.find_spec
        me = self
        ours = lambda n: n == "coordinax" or n.startswith("coordinax.")  # noqa: E731

        def gc_(s, fullname):
            if ours(fullname):
                me.names.append(fullname)
                me.hit("load", fullname)   # the source cannot be read
            return get_code(s, fullname)

        def gd(s, path):
            if ours(s.name) and path.endswith(".pyc"):
                me.hit("cache", s.name)    # the compiled file cannot be read: the source still can
            return get_data(s, path)

        def ps(s, path):
            if ours(s.name):
                me.hit("stat", s.name)
            return path_stats(s, path)

        def fs(s, fullname, target=None):
            if ours(fullname):
                me.hit("find", fullname)   # the search for the file is cut short
            return find_spec(s, fullname, target)
        SL.get_code, X.FileLoader.get_data, SF.path_stats, FF.find_spec = gc_, gd, ps, fs


def names():
    out = {}
    for m in PUBLIC:
        mod = sys.modules.get(m)
        if mod is None:
            out[m] = None
            continue
        al = set(getattr(mod, "__all__", ()))
        # a submodule that is not public becomes an attribute when its file is loaded: that is importlib's doing
        out[m] = [sorted(n for n in dir(mod) if n in al or not (n.startswith("_") or type(getattr(mod, n, None)) is type(sys))), sorted(al)]
    return out


def library_names():
    """Every public object is one object, wherever it is reached from."""
    bad = []
    cx = sys.modules["coordinax"]
    for m in PUBLIC[1:]:
        mod = sys.modules[m]
        if getattr(cx, m.split(".")[1], None) is not mod:
            bad.append(f"coordinax.{m.split('.')[1]} is not the module in sys.modules")
        for n in getattr(mod, "__all__", ()):
            if not hasattr(mod, n):
                bad.append(f"{m}.{n} missing")
                continue
            v = getattr(mod, n)
            src = sys.modules.get(getattr(v, "__module__", None) or "")
            if isinstance(v, type) and src is not None and getattr(src, v.__name__, v) is not v:
                bad.append(f"{m}.{n} is not {v.__module__}.{v.__name__}")
    return bad


def run(job, clock, wc):
    import equinox
    import jax

    from . import ambient, digest, hooks, ops, world
    plan = job["plan"]
    setup = plan.get("setup", {})
    wc.set(setup.get("warn", "always"))
    loads = Loads(setup.get("loads", ()))
    loads.install()
    import importlib._bootstrap as B
    B._ModuleLock = world.SimModuleLock
    meta0, path0, hooks0 = list(sys.meta_path), list(sys.path), list(sys.path_hooks)
    ctx = {"clock": clock, "jax": jax, "eqx": equinox, "digest": digest, "ambient": ambient, "warnctl": wc, "posthooks": [], "controls": dict(hooks.CONTROLS), "app": hooks.APP}
    ops.FN["imp"] = lambda n: importlib.import_module(n)
    ops.FN["impstar"] = lambda n: exec(f"from {n} import *", {})  # noqa: S102

    def traced(n, how):
        """The first import happens inside a function JAX is tracing."""
        def f(x):
            importlib.import_module(n)
            return x + 1.0
        T = {"jit": lambda: jax.jit(f)(1.0), "grad": lambda: jax.grad(f)(1.0), "vmap": lambda: jax.vmap(f)(jax.numpy.ones(2)), "jitgrad": lambda: jax.jit(jax.grad(f))(1.0)}
        T[how]()
    ops.FN["imptr"] = traced
    ops.Lib.jax, ops.Lib.eqx = jax, equinox
    w = world.World(plan, ctx)
    gc.collect()
    res = w.run()
    left = []
    after = [type(x).__name__ for x in sys.meta_path if x not in meta0] + ["-" + type(x).__name__ for x in meta0 if x not in sys.meta_path]
    if after:
        left.append(f"sys.meta_path: {after}")
    if sys.path != path0 or [x for x in sys.path_hooks if x not in hooks0]:
        left.append("sys.path or sys.path_hooks")
    res["left"] = left
    res["fired"] = loads.fired
    res["loaded"] = loads.n["load"]
    loads.faults.clear()
    # the application tries again, with nothing in the way
    res["final"] = None
    for m in setup.get("final", PUBLIC):
        try:
            importlib.import_module(m)
        except BaseException as e:  # noqa: BLE001
            res["final"] = f"import {m}: {type(e).__name__}: {e}"[:600]
            return res
    res["left"] += [f"sys.meta_path after the import: {type(x).__name__}" for x in sys.meta_path if x not in meta0]
    res["names"] = names()
    res["same"] = library_names()
    world.MON.free_tool_id(world.TOOL)
    gc.collect()
    try:
        ops.load()
        wc.set("always")
    except BaseException as e:  # noqa: BLE001
        res["final"] = f"using the library: {type(e).__name__}: {e}"[:600]
        return res
    w2 = world.World({"threads": [{"ops": plan.get("smoke", [])}], "setup": {}}, ctx)
    r2 = w2.run()
    res["smoke"] = r2["outcomes"][0]
    for k, v in r2["stats"].items():
        if isinstance(v, int):
            res["stats"][k] = res["stats"].get(k, 0) + v
    return res
