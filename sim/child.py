"""Runs one job in a freshly forked process."""
from __future__ import annotations

import gc
import os
import random
import sys


def prepare(job):
    """Put every source of nondeterminism under control, before the library is loaded."""
    import faulthandler
    import signal
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    from . import world
    gc.disable()
    setup = job.get("plan", {}).get("setup", {})
    env = setup.get("env", {})
    for k, v in env.items():
        os.environ[k] = v
    if "cwd" in setup:
        os.makedirs(setup["cwd"], exist_ok=True)
        os.chdir(setup["cwd"])
    if "locale" in setup:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, setup["locale"])
        except locale.Error:
            pass
    if "tz" in setup:
        import time
        os.environ["TZ"] = setup["tz"]
        time.tzset()
    seed = setup.get("rng", 12345)
    random.seed(seed)
    # third-party type checkers bound the original generator when they were imported;
    # the application's own generator is a separate, equally seeded one
    inst = random.Random(seed)
    for n in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices", "normalvariate", "lognormvariate",
              "expovariate", "vonmisesvariate", "gammavariate", "gauss", "betavariate", "binomialvariate", "paretovariate", "weibullvariate", "getstate", "setstate",
              "getrandbits", "randbytes"):
        setattr(random, n, getattr(inst, n))
    random._inst = inst
    import numpy as np
    np.random.seed(seed % (2**32))
    rr = random.Random(seed)
    os.urandom = lambda n: rr.randbytes(n)
    clock = world.Clock()
    clock.t += setup.get("clock", 0.0)
    clock.install(step=setup.get("clockstep", 1e-6))
    world.install_locks()
    import jax
    if setup.get("nojit"):
        jax.config.update("jax_disable_jit", True)
    if setup.get("noopt"):
        jax.config.update("jax_disable_most_optimizations", True)
    patch_pjit(world)
    src = world.REPO_SRC
    if src not in sys.path:
        sys.path.insert(0, src)
    pc = os.environ.get("SIM_PYCACHE")
    if pc:
        sys.pycache_prefix = pc
        sys.dont_write_bytecode = False
    stub_version(src)
    wc = world.WarnCtl()
    wc.install()
    return clock, wc


def stub_version(src):
    """_version.py is generated by the build and ignored by git."""
    if not os.path.exists(os.path.join(src, "coordinax", "_version.py")):
        import types
        m = types.ModuleType("coordinax._version")
        m.version = m.__version__ = "0"
        m.version_tuple = m.__version_tuple__ = (0,)
        sys.modules["coordinax._version"] = m


def patch_pjit(world):
    """Mark the compiler's critical section, in which the scheduler must not preempt."""
    from jax._src import pjit
    orig = pjit._python_pjit_helper

    def helper(*a, **k):
        w = world.W
        th = w.cur if w is not None else None
        if th is None:
            return orig(*a, **k)
        th.pjit += 1
        try:
            return orig(*a, **k)
        finally:
            th.pjit -= 1
    pjit._python_pjit_helper = helper


def context(clock, wc):
    import equinox
    import jax

    from . import ambient, digest, hooks, ops
    ops.load()
    wc.set(wc.mode)
    return {"clock": clock, "jax": jax, "eqx": equinox, "digest": digest, "ambient": ambient, "warnctl": wc,
            "posthooks": [], "controls": dict(hooks.CONTROLS), "app": hooks.APP}


def main(job):
    from . import world
    clock, wc = prepare(job)
    typ = job["type"]
    if typ == "import":
        from . import importsim
        return importsim.run(job, clock, wc)
    plan = job["plan"]
    setup = plan.get("setup", {})
    amb = None
    if setup.get("ambient"):
        from . import ambient
        amb = ambient.snapshot()
    first = setup.get("first_import")
    import importlib
    early, lost = {}, []
    for n, b in setup.get("early", {}).items():   # the application reads its stored objects before it imports the library
        import base64
        import pickle
        try:
            early[n] = pickle.loads(base64.b64decode(b))
        except Exception as e:  # noqa: BLE001
            lost.append(["C09", -1, -1, "restore", f"a stored object could not be read before the library was imported: {type(e).__name__}: {e}"[:400], ""])
    if first:
        importlib.import_module(first)
    import coordinax  # noqa: F401
    assert coordinax.__file__.startswith(world.LIBROOT), coordinax.__file__
    viol = lost
    if amb is not None:
        from . import ambient
        for k, (a, b) in ambient.compare(amb, ambient.snapshot()).items():
            viol.append(["C06", -1, -1, "ambient:" + k, f"{k} after importing the library: was {a}, is {b}", ""])
    ctx = context(clock, wc)
    from . import hooks
    for hk in setup.get("hooks", ()):
        ctx["posthooks"].append(hooks.HOOKS[hk])
    wc.set(setup.get("warn", "always"))
    for a in setup.get("app", ()):
        hooks.APP[a]()
    if early:
        from . import ops
        ops.STORE.update(early)
    restored = None
    if setup.get("restore"):
        restored = hooks.restore(setup["restore"])
    w = world.World(plan, ctx)
    w.viol.extend(viol)
    if plan.get("profile"):
        world.scan_state()
    gc.collect()
    gc.freeze()
    res = w.run()
    if restored is not None:
        res["restored"] = restored
    if setup.get("audit"):
        from . import ops
        res["audit"] = {k: hooks.safe_ser(v) for k, v in ops.STORE.items()}
    for f in ctx.get("final", ()):
        f(w, res)
    return res
