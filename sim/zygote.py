"""Zygote: preloads the third-party stack, then forks one fresh process per job.

Third-party packages are imported once; coordinax is imported afresh, from the
working tree, in every forked process.
"""
from __future__ import annotations

import json
import os
import select
import signal
import struct
import sys
import traceback


def read_msg(fd):
    def rd(n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b
    hd = rd(8)
    if hd is None:
        return None
    return json.loads(rd(struct.unpack(">Q", hd)[0]))


def write_msg(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack(">Q", len(b)) + b
    mv = memoryview(b)
    while mv:
        mv = mv[os.write(fd, mv):]


def preload():
    import warnings
    warnings.simplefilter("ignore")
    import jax
    import jax.numpy as jnp
    import jax.scipy.spatial.transform  # noqa: F401
    import equinox, quax, quaxed, quaxed.numpy, unxt, plum, jaxtyping, astropy.coordinates, astropy.units  # noqa: F401, E401
    import dataclassish, xmmutablemap, optional_dependencies  # noqa: F401, E401
    import numpy, random, logging, decimal, locale, base64, pickle, copy, importlib  # noqa: F401, E401
    import unxt._interop  # noqa: F401
    try:
        import beartype  # noqa: F401
    except ImportError:
        pass
    jax.config.update("jax_cpu_enable_async_dispatch", False)
    assert not jax._src.xla_bridge._backends, "backend initialised before fork"
    assert "coordinax" not in sys.modules


def child(job, wfd):
    from sim import child as C
    from sim import world

    def emit(res):
        write_msg(wfd, res)
        os._exit(0)
    world.EMIT = emit
    res = C.main(job)
    write_msg(wfd, res)


def main():
    rfd, wfd = int(os.environ["SIM_RFD"]), int(os.environ["SIM_WFD"])
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    preload()
    import gc
    gc.collect()
    gc.freeze()
    write_msg(wfd, {"ready": os.getpid()})
    while True:
        job = read_msg(rfd)
        if job is None:
            return
        pr, pw = os.pipe()
        er, ew = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr)
                os.close(er)
                os.close(rfd)
                os.close(wfd)
                os.dup2(ew, 2)
                os.close(ew)
                child(job, pw)
                os._exit(0)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                os._exit(70)
        os.close(pw)
        os.close(ew)
        buf, err = b"", b""
        import time
        end = time.monotonic() + job.get("timeout", 120)
        fds = {pr, er}
        timed = False
        while fds:
            left = end - time.monotonic()
            if left <= 0:
                timed = True
                break
            r, _, _ = select.select(list(fds), [], [], left)
            for fd in r:
                c = os.read(fd, 1 << 20)
                if not c:
                    fds.discard(fd)
                elif fd == pr:
                    buf += c
                else:
                    err = (err + c)[-6000:]
        if timed:
            try:
                os.kill(pid, signal.SIGUSR1)  # faulthandler traceback
                r, _, _ = select.select([er], [], [], 2)
                if r:
                    err = (err + os.read(er, 1 << 16))[-6000:]
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
        os.close(pr)
        os.close(er)
        if timed:
            write_msg(wfd, {"hang": True, "stderr": err.decode(errors="replace")})
        elif len(buf) >= 8:
            n = struct.unpack(">Q", buf[:8])[0]
            if len(buf) == 8 + n:
                write_msg(wfd, json.loads(buf[8:]))
            else:
                write_msg(wfd, {"died": st, "stderr": err.decode(errors="replace")})
        else:
            write_msg(wfd, {"died": st, "stderr": err.decode(errors="replace")})


if __name__ == "__main__":
    main()
