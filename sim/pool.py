"""Zygote pool: runs jobs in parallel, each in a fresh process."""
from __future__ import annotations

import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading

from .zygote import read_msg, write_msg

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class HarnessError(Exception):
    pass


class Zygote:
    def __init__(self, conf, scratch):
        self.conf = conf
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "COORDINAX", "JAX_"))}
        env.update({"PYTHONHASHSEED": "0", "JAX_PLATFORMS": "cpu", "PYTHONPATH": HERE, "OMP_NUM_THREADS": "1", "TF_CPP_MIN_LOG_LEVEL": "3",
                    "XLA_FLAGS": "--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", "SIM_PYCACHE": os.path.join(scratch, "pyc" + conf.get("opt", "")),
                    "LC_ALL": "C.UTF-8", "TZ": "UTC"})
        env.update({"JAX_COMPILATION_CACHE_DIR": os.path.join(scratch, "xla"), "JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS": "0", "JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES": "-1"})
        env.update(conf.get("env", {}))
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env["SIM_RFD"], env["SIM_WFD"] = str(r1), str(w2)
        cmd = [PY, "-B"] + ([conf["opt"]] if conf.get("opt") else []) + ["-m", "sim.zygote"]
        pre = ["setarch", os.uname().machine, "-R"] if conf.get("aslr_off", True) and shutil.which("setarch") else []
        self.p = subprocess.Popen(pre + cmd, env=env, pass_fds=(r1, w2), cwd=scratch, stdin=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.ready = False

    def call(self, job):
        if not self.ready:
            m = read_msg(self.r)
            if m is None:
                raise HarnessError("zygote failed to start")
            self.ready = True
        try:
            write_msg(self.w, job)
            m = read_msg(self.r)
        except (BrokenPipeError, ConnectionError):
            m = None
        if m is None:
            raise HarnessError("zygote died")
        return m

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Pool:
    """``run(jobs)`` yields (job, result) in submission order groups; results do not depend on placement."""

    def __init__(self, n=8, confs=None):
        self.scratch = tempfile.mkdtemp(prefix="cxsim_")
        self.confs = confs or {"base": {}}
        self.n = n
        self.zy = {}
        self.lock = threading.Lock()
        self.jobs_run = 0
        for name in self.confs:
            self.zy[name] = queue.LifoQueue()
        self.made = {name: 0 for name in self.confs}

    def _get(self, name):
        q = self.zy[name]
        try:
            return q.get_nowait()
        except queue.Empty:
            pass
        with self.lock:
            if self.made[name] < min(self.n, self.confs[name].get("max", 99)):
                self.made[name] += 1
                make = True
            else:
                make = False
        if make:
            return Zygote(self.confs[name], self.scratch)
        return q.get()

    def one(self, job):
        name = job.get("conf", "base")
        z = self._get(name)
        try:
            r = z.call(job)
        except HarnessError:
            z.close()
            z = Zygote(self.confs[name], self.scratch)
            r = z.call(job)
        finally:
            self.zy[name].put(z)
        with self.lock:
            self.jobs_run += 1
        return r

    def map(self, jobs, on=None, deadline=None):
        """Run jobs; returns the list of results (None where the deadline passed first)."""
        import time
        jobs = list(jobs)
        out = [None] * len(jobs)
        it = iter(range(len(jobs)))
        err = []

        def work():
            while not err:
                with self.lock:
                    i = next(it, None)
                if i is None or (deadline and time.monotonic() > deadline):
                    return
                try:
                    out[i] = self.one(jobs[i])
                    if on:
                        on(i, jobs[i], out[i])
                except BaseException as e:  # noqa: BLE001
                    err.append(e)
                    return
        ts = [threading.Thread(target=work, daemon=True) for _ in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err:
            raise err[0]
        return out

    def close(self):
        for q in self.zy.values():
            while True:
                try:
                    q.get_nowait().close()
                except queue.Empty:
                    break
        shutil.rmtree(self.scratch, ignore_errors=True)
