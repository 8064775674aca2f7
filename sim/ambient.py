"""Snapshot of the process-wide settings that belong to the application."""
from __future__ import annotations

import hashlib
import os
import sys


def _h(b):
    return hashlib.sha1(b if isinstance(b, bytes) else repr(b).encode()).hexdigest()[:12]


def _fname(f):
    return f"{getattr(f, '__module__', '?')}.{getattr(f, '__qualname__', type(f).__name__)}"


def snapshot():
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings
    import builtins

    import jax
    import numpy as np

    d = {}
    d["warnings.filters"] = [(a, getattr(m, "pattern", m), c.__name__, getattr(mo, "pattern", mo), ln) for a, m, c, mo, ln in warnings.filters]
    d["warnings.showwarning"] = id(warnings.showwarning)
    d["warnings._showwarnmsg_impl"] = id(warnings._showwarnmsg_impl)
    d["warnings.formatwarning"] = id(warnings.formatwarning)
    d["warnings.warn"] = id(warnings.warn)
    d["warnings.defaultaction"] = warnings.defaultaction
    d["numpy.printoptions"] = repr(sorted(np.get_printoptions().items(), key=str))
    d["numpy.errstate"] = repr(np.geterr()) + repr(np.geterrcall())
    d["numpy.bufsize"] = np.getbufsize()
    d["numpy.random"] = _h(np.random.get_state()[1].tobytes()) + str(np.random.get_state()[2:])
    cfg = {}
    for k, v in jax.config.values.items():
        cfg[k] = repr(v)
    for k in ("jax_enable_x64", "jax_numpy_dtype_promotion", "jax_debug_nans", "jax_debug_infs", "jax_default_matmul_precision", "jax_disable_jit", "jax_default_device",
              "jax_numpy_rank_promotion", "jax_check_tracer_leaks", "jax_log_compiles", "jax_traceback_filtering", "jax_default_prng_impl", "jax_transfer_guard",
              "jax_disable_most_optimizations", "jax_dynamic_shapes", "jax_softmax_custom_jvp", "jax_random_seed_offset", "jax_threefry_partitionable"):
        try:
            cfg["now:" + k] = repr(getattr(jax.config, k))
        except Exception:  # noqa: BLE001
            pass
    d["jax.config"] = cfg
    try:
        d["jax.trace_state_clean"] = bool(jax.core.trace_state_clean())
    except Exception:  # noqa: BLE001
        pass
    if "astropy.units" in sys.modules:
        import astropy.units as au
        reg = au.get_current_unit_registry()
        d["astropy.units.enabled"] = (len(reg.all_units), len(reg.equivalencies), _h(sorted(getattr(x, "name", str(x)) for x in reg.all_units)), repr(getattr(reg, "aliases", None)))
    if "astropy.coordinates" in sys.modules:
        import astropy.coordinates as ac
        st = ac.galactocentric_frame_defaults
        d["astropy.galactocentric"] = repr(getattr(st, "_value", None)) + _h(repr(sorted((k, str(v)) for k, v in (st.parameters or {}).items()) if hasattr(st, "parameters") else ""))
        d["astropy.representations"] = len(ac.representation.REPRESENTATION_CLASSES)
    if "astropy.config" in sys.modules:
        import astropy
        d["astropy.conf"] = (str(astropy.conf.unicode_output), str(astropy.conf.max_lines), str(astropy.conf.max_width))
    if "unxt" in sys.modules:
        try:
            from unxt import unitsystems as us
            d["unxt.unitsystems"] = len(getattr(us, "NAMED_UNIT_SYSTEMS", ()) or ())
        except Exception:  # noqa: BLE001
            pass
    d["os.environ"] = _h(sorted(os.environ.items()))
    d["cwd"] = os.getcwd()
    d["umask"] = _umask()
    d["locale"] = locale.setlocale(locale.LC_ALL)
    c = decimal.getcontext()
    d["decimal"] = repr((c.prec, c.rounding, c.Emin, c.Emax, sorted(str(k) for k, v in c.traps.items() if v)))
    d["sys.recursionlimit"] = sys.getrecursionlimit()
    d["sys.switchinterval"] = sys.getswitchinterval()
    d["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), [_fname(f) for f in gc.callbacks], gc.get_freeze_count() > 0)
    sig = {}
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP, signal.SIGPIPE, signal.SIGCHLD, signal.SIGQUIT):
        hnd = signal.getsignal(s)
        sig[int(s)] = _fname(hnd) if callable(hnd) else repr(hnd)
    d["signals"] = sig
    d["itimer"] = signal.getitimer(signal.ITIMER_REAL)
    d["sys.hooks"] = (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), sys.gettrace() is None, sys.getprofile() is None, id(threading.excepthook), id(sys.breakpointhook))
    d["sys.meta_path"] = [_fname(f) if not isinstance(f, type) else f.__qualname__ for f in sys.meta_path]
    d["sys.path_hooks"] = [_fname(f) for f in sys.path_hooks]
    d["sys.path"] = _h(sys.path)
    d["sys.flags"] = (sys.dont_write_bytecode, sys.pycache_prefix, sys.get_int_max_str_digits(), sys.tracebacklimit if hasattr(sys, "tracebacklimit") else None)
    d["stdio"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    d["random"] = _h(random.getstate())
    d["logging"] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, id(logging.getLoggerClass()), logging.getLogger("jax").level, len(logging.getLogger("jax").handlers))
    d["builtins"] = (_h(sorted(vars(builtins))), id(builtins.__import__), id(builtins.print), id(builtins.open), id(builtins.hash), id(builtins.isinstance))
    d["sys.argv"] = _h(sys.argv)
    d["threads"] = threading.stack_size()
    # NB numeric behaviour of third-party code: identity of the functions themselves
    d["numpy.functions"] = (id(np.array2string), id(np.asarray), id(np.array), id(np.array_repr), id(np.array_str), id(np.set_printoptions))
    d["copyreg"] = _copyreg()
    return d


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _copyreg():
    import copyreg
    return (len(copyreg.dispatch_table), len(copyreg._extension_registry))


def compare(a, b):
    out = {}
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                ks = [j for j in sorted(set(x) | set(y), key=str) if x.get(j) != y.get(j)]
                out[k] = ({j: x.get(j) for j in ks[:5]}, {j: y.get(j) for j in ks[:5]})
            else:
                out[k] = (str(x)[-300:], str(y)[-300:])
    return out
