"""One simulated execution, inside a freshly forked process.

The world owns every source of nondeterminism a plan depends on: which client
thread runs (real threads, one baton; preemption at any bytecode instruction of
the library), locks the library creates, the clock and sleeping, random
numbers, garbage collection, interrupts and failures at any source line of the
library, re-entrant calls at any instruction, cache eviction.  A plan (JSON)
fixes all of it, so one plan is one exactly repeatable execution.
"""
from __future__ import annotations

import dis
import gc
import hashlib
import os
import sys
import time as _time
import types
import _thread

REPO_SRC = os.environ.get("SIM_REPO_SRC", "/repo/src")
LIBROOT = os.path.join(REPO_SRC, "coordinax") + os.sep
MON = sys.monitoring
TOOL = 3
BIG = 1 << 60

_real_time = {n: getattr(_time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns", "process_time", "sleep", "localtime", "gmtime", "ctime", "strftime")}


class SimDeadlock(BaseException):
    """No thread can run."""


class SimStuck(BaseException):
    """A call exceeded its step budget."""


class SimKill(BaseException):
    """The simulated process is being torn down."""


class SimFault(OSError):
    """Injected I/O failure."""


# ------------------------------------------------------------------- clock
class Clock:
    def __init__(self):
        self.t = 1.6e9
        self.mono = 1000.0
        self.slept = 0.0

    def install(self, step=1e-6):
        def wall():
            self.t += step
            self.mono += step
            return self.t

        def mono():
            self.mono += step
            self.t += step
            return self.mono
        _time.time, _time.monotonic, _time.perf_counter, _time.process_time = wall, mono, mono, mono
        _time.time_ns = lambda: int(wall() * 1e9)
        _time.monotonic_ns = _time.perf_counter_ns = lambda: int(mono() * 1e9)
        _time.sleep = self.sleep
        _time.localtime = lambda s=None: _real_time["localtime"](wall() if s is None else s)
        _time.gmtime = lambda s=None: _real_time["gmtime"](wall() if s is None else s)
        _time.ctime = lambda s=None: _real_time["ctime"](wall() if s is None else s)

    def advance(self, dt):
        self.t += dt
        self.mono += max(dt, 0)
        self.slept += abs(dt)

    def sleep(self, dt):
        self.advance(float(dt))
        w = W
        if w is not None:
            w.voluntary_yield()


# ------------------------------------------------------------------- locks
def _from_library(depth=2):
    f = sys._getframe(depth)
    for _ in range(4):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(LIBROOT):
            return True
        if "threading.py" not in fn and "functools.py" not in fn and "queue.py" not in fn:
            return False
        f = f.f_back
    return False


class SimLock:
    """A lock whose waiting the simulator schedules."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        if W is not None:
            W.stats["locks"] = W.stats.get("locks", 0) + 1

    def _me(self):
        return W.cur if W is not None and W.cur is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        waited = False
        while self.owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # let the others run; if the lock stays taken the wait times out
                if not waited and W is not None and W.voluntary_yield():
                    waited = True
                    continue
                if W is not None:
                    W.clock.advance(timeout)
                return False
            if W is None:
                raise SimDeadlock("lock held by the process itself")
            W.block_on(self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner is not None and self.owner is self._me()

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.owner, self.count = st

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    __hash__ = object.__hash__


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    import threading
    rl, rrl, al = threading.Lock, threading.RLock, _thread.allocate_lock

    def Lock(*a, **k):
        return SimLock() if _from_library() else rl(*a, **k)

    def RLock(*a, **k):
        return SimRLock() if _from_library() else rrl(*a, **k)

    def allocate_lock(*a, **k):
        return SimLock() if _from_library() else al(*a, **k)
    threading.Lock, threading.RLock = Lock, RLock
    threading._allocate_lock = allocate_lock
    _thread.allocate_lock = allocate_lock
    _thread.RLock = RLock


# ------------------------------------------------------------- import locks
class SimModuleLock:
    """importlib's per-module lock, with the waiting scheduled by the simulator."""

    def __init__(self, name):
        self.name = name
        self.owner = None
        self.count = 0

    def has_deadlock(self):
        w = W
        me = w.cur if w else None
        seen, t = set(), self.owner
        while t is not None and t not in seen:
            if t is me:
                return True
            seen.add(t)
            lk = getattr(t, "waiting", None)
            t = lk.owner if isinstance(lk, SimModuleLock) else None
        return False

    def acquire(self):
        w = W
        me = (w.cur if w is not None else None) or "main"
        while True:
            if self.owner is None or self.owner is me:
                self.owner = me
                self.count += 1
                return True
            if w is None or self.has_deadlock():
                import importlib._bootstrap as B
                raise B._DeadlockError(f"deadlock detected by {self!r}")
            w.block_on(self)

    def release(self):
        me = (W.cur if W is not None else None) or "main"
        if self.owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def __repr__(self):
        return f"SimModuleLock({self.name!r})"


# --------------------------------------------------------------- the world
MUTNAMES = {"append", "setdefault", "update", "pop", "popitem", "clear", "add", "discard", "remove", "extend", "insert", "acquire", "release", "set", "get",
            "__setattr__", "__setitem__", "register", "cache_clear", "simplefilter", "filterwarnings", "resetwarnings", "catch_warnings", "set_printoptions",
            "move_to_end", "appendleft", "popleft", "setattr", "delattr", "__enter__", "__exit__", "import_module", "seed", "wait", "notify", "notify_all"}
_INT_OPS = {"STORE_GLOBAL", "STORE_ATTR", "STORE_SUBSCR", "DELETE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "BEFORE_WITH", "WITH_EXCEPT_START", "STORE_DEREF", "CONTAINS_OP"}
_code_int: dict = {}
_code_hot: dict = {}
_code_env: dict = {}
_code_keep: list = []
_CALLABLE = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)
_PLAIN = (int, float, str, bytes, bool, tuple, frozenset, type(None), complex)


def _stateful(v):
    """Could this object carry state from one call to the next?"""
    if isinstance(v, _CALLABLE) or isinstance(v, _PLAIN):
        return False
    m = type(v).__module__
    if m.startswith(("plum", "jaxtyping", "typing", "unxt", "astropy", "equinox", "jax", "numpy", "beartype", "types", "re", "enum", "quax", "pathlib", "optional_dependencies")):
        return False
    if m.startswith("coordinax"):
        import enum
        return not (isinstance(v, enum.Enum) or getattr(getattr(type(v), "__dataclass_params__", None), "frozen", False))
    return True


_MUT = (dict, list, set, bytearray)
_class_state: set = set()    # names of class attributes that can carry state
_default_state: dict = {}    # code -> names of parameters whose default can carry state


def scan_state():
    """Find state hung on library classes and on default arguments (guidance for the search only)."""
    for name, m in list(sys.modules.items()):
        if not name.startswith("coordinax"):
            continue
        for c in list(vars(m).values()):
            if isinstance(c, type) and c.__module__.startswith("coordinax"):
                for k, v in list(vars(c).items()):
                    if not k.startswith("__") and not k.startswith("_abc") and isinstance(v, (*_MUT,)) :
                        _class_state.add(k)
    for f in gc.get_objects():
        if type(f) is types.FunctionType and f.__code__.co_filename.startswith(LIBROOT):
            c = f.__code__
            names = []
            d = f.__defaults__ or ()
            for n, v in zip(c.co_varnames[c.co_argcount - len(d):c.co_argcount], d):
                if isinstance(v, _MUT):
                    names.append(n)
            for n, v in (f.__kwdefaults__ or {}).items():
                if isinstance(v, _MUT):
                    names.append(n)
            if names:
                _default_state[c] = names


def analyse(code):
    """(offsets right after which shared state may just have been touched, is any of it longer-lived state?)."""
    r = _code_int.get(code)
    if r is not None:
        return r, _code_hot[code]
    out = set()
    glob, free = _code_env.get(code, ({}, {}))
    near = 0
    hot = False
    prev = None
    for ins in dis.get_instructions(code):
        if near:
            out.add(ins.offset)
            near -= 1
        on = ins.opname
        if on in _INT_OPS:
            out.add(ins.offset)
            near = max(near, 2)
            if on in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF") and code.co_name != "<module>" and (on != "STORE_DEREF" or ins.argval in code.co_freevars):
                hot = True
            if on == "STORE_ATTR" and prev is not None and prev.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                hot = True
        elif on in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in MUTNAMES:
            out.add(ins.offset)
            near = max(near, 5)
        elif on in ("LOAD_GLOBAL", "LOAD_NAME", "LOAD_DEREF"):
            v = glob.get(ins.argval, None) if on != "LOAD_DEREF" else free.get(ins.argval, None)
            if ins.argval in MUTNAMES:
                near = max(near, 5)
            if v is not None and _stateful(v):
                out.add(ins.offset)
                near = max(near, 3)
                hot = True
        if on in ("LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR") and ins.argval in _class_state or on.startswith("LOAD_FAST") and ins.argval in _default_state.get(code, ()):
            out.add(ins.offset)
            near = max(near, 3)
            hot = True
        if on in ("LOAD_ATTR", "LOAD_METHOD") and prev is not None and prev.opname in ("LOAD_GLOBAL", "LOAD_NAME", "LOAD_DEREF"):
            # an attribute hung on a function, class or module that carries state
            base = glob.get(prev.argval) if prev.opname != "LOAD_DEREF" else free.get(prev.argval)
            if isinstance(base, (type, types.FunctionType)) and (base.__module__ or "").startswith("coordinax"):
                a = getattr(base, "__dict__", {}).get(ins.argval)
                if a is not None and _stateful(a) and isinstance(a, (dict, list, set, bytearray)):
                    out.add(ins.offset)
                    near = max(near, 3)
                    hot = True
        if on in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in ("catch_warnings", "set_printoptions", "printoptions", "simplefilter", "filterwarnings", "seterr", "errstate", "__dict__",
                                                                "setrecursionlimit", "environ", "chdir", "update", "setdefault", "__setattr__", "setattr", "set_enabled_units", "seed"):
            if ins.argval not in ("__dict__", "update", "__setattr__", "setdefault", "setattr") or (prev is not None and (
                    prev.opname in ("LOAD_GLOBAL", "LOAD_ATTR") and prev.argval == "object" or ins.argval == "__dict__" and code.co_name not in ("__get__", "__set__"))):
                hot = True
        prev = ins
    _code_int[code] = out
    _code_hot[code] = hot
    return out, hot


# ------------------------------------------------- where a call can fail
_PASSIVE = {"NOP", "RESUME", "POP_TOP", "LOAD_FAST", "LOAD_CONST", "STORE_FAST", "RETURN_VALUE", "RETURN_CONST", "COPY", "SWAP", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "CACHE",
            "PUSH_NULL", "POP_EXCEPT", "PUSH_EXC_INFO", "RERAISE", "LOAD_FAST_AND_CLEAR", "LOAD_CLOSURE", "MAKE_CELL", "COPY_FREE_VARS", "EXTENDED_ARG", "END_FOR", "MAKE_FUNCTION", "BUILD_TUPLE"}
_fail_at: dict = {}    # code -> {offset of a line's first instruction: can it fail there?}
_with_exit: dict = {}  # code -> offsets of instructions that leave a with block
_clean: dict = {}      # file -> lines of clean-up code


def _failmap(code):
    m = _fail_at.get(code)
    if m is None:
        m, ex = {}, set()
        ins = [i for i in dis.get_instructions(code)]
        starts = [j for j, i in enumerate(ins) if i.starts_line is not None] + [len(ins)]
        for a, b in zip(starts, starts[1:]):
            m[ins[a].offset] = ins[a].opname not in ("POP_EXCEPT", "PUSH_EXC_INFO", "RERAISE") and any(i.opname not in _PASSIVE for i in ins[a:b])
        for j, i in enumerate(ins):
            if i.opname == "WITH_EXCEPT_START":
                ex.add(i.offset)
            if i.opname == "LOAD_CONST" and i.argval is None and [x.opname for x in ins[j:j + 4]] == ["LOAD_CONST"] * 3 + ["CALL"] and all(x.argval is None for x in ins[j:j + 3]) and ins[j + 3].arg == 2:
                ex |= {x.offset for x in ins[j:j + 4]}
        _fail_at[code], _with_exit[code] = m, ex
    return m, _with_exit[code]


def _cleanup_lines(fn):
    r = _clean.get(fn)
    if r is None:
        import ast
        r = set()
        try:
            tree = ast.parse(open(fn).read())
        except (OSError, SyntaxError, ValueError):
            tree = None
        for n in ast.walk(tree) if tree else ():
            if isinstance(n, (ast.Try, ast.TryStar)):
                for x in n.finalbody:
                    r |= set(range(x.lineno, x.end_lineno + 1))
                for h in n.handlers:   # handlers that clean up and pass the error on
                    if any(isinstance(y, ast.Raise) and y.exc is None for y in ast.walk(h)):
                        r |= set(range(h.lineno, h.end_lineno + 1))
        _clean[fn] = r
    return r


def can_fail(f):
    """May an error strike at this point?  Not where no instruction can raise, and not while the library is cleaning up."""
    m, _ = _failmap(f.f_code)
    if not m.get(f.f_lasti, True):
        return False
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(LIBROOT):
            if f.f_lineno in _cleanup_lines(fn) or f.f_lasti in _failmap(f.f_code)[1]:
                return False
        elif fn.startswith(HERE):
            break
        f = f.f_back
    return True


HERE = os.path.dirname(os.path.abspath(__file__))


def interesting_offsets(code):
    return analyse(code)[0]


class SimThread:
    def __init__(self, tid, ops):
        self.id = tid
        self.ops = ops
        self.lock = None
        self.state = "ready"
        self.waiting = None
        self.active = False
        self.opi = -1
        self.n = 0           # library instructions executed in the current op
        self.l = 0           # library lines executed in the current op
        self.next_n = BIG
        self.next_l = BIG
        self.acts = []       # pending instruction actions of this op, sorted
        self.labs = []
        self.held = []       # (label, object, digest)
        self.warns = []
        self.outcomes = []
        self.pjit = 0
        self.budget = BIG
        self.pend = None
        self.aborted = None
        self.suspended = 0


W = None
EMIT = None   # sends the result so far and ends the process at once


class World:
    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx
        self.setup = plan.get("setup", {})
        self.clock = ctx["clock"]
        self.cur = None
        self.threads = []
        self.viol = []
        self.stats = {"instr": 0, "lines": 0, "switches": 0, "aborts": 0, "nested": 0, "probes": 0, "ops": 0, "blocks": 0, "evict": 0, "gc": 0}
        self.sched_hash = hashlib.sha1()
        self.done_sem = None
        self.fatal = None
        self.jitcache = {}
        self.profile = plan.get("profile", False)
        self.prof = None
        self.midop = 0
        self.ambient0 = None
        self.trace = [] if plan.get("trace") else None
        self.baseline = None
        self.shared = {}
        self.pre_out = None

    # -- monitoring -----------------------------------------------------
    def install_monitor(self, lines, instrs):
        MON.use_tool_id(TOOL, "sim")
        ev = 0
        E = MON.events
        if lines:
            ev |= E.LINE
        if instrs:
            ev |= E.INSTRUCTION
        self._ev = ev

        def on_start(code, off):
            if code.co_filename.startswith(LIBROOT):
                MON.set_local_events(TOOL, code, ev)
                _code_keep.append(code)
                if self.profile and code not in _code_env:
                    f = sys._getframe(1)
                    _code_env[code] = (f.f_globals, {k: v for k, v in f.f_locals.items() if k in code.co_freevars} if code.co_freevars else {})
            return MON.DISABLE
        MON.register_callback(TOOL, E.PY_START, on_start)
        MON.register_callback(TOOL, E.PY_RESUME, on_start)
        if instrs:
            MON.register_callback(TOOL, E.INSTRUCTION, self.on_instr)
        if lines:
            MON.register_callback(TOOL, E.LINE, self.on_line)
        MON.set_events(TOOL, E.PY_START | E.PY_RESUME)

    def on_instr(self, code, off):
        th = self.cur
        if th is None or not th.active:
            return
        n = th.n = th.n + 1
        if self.prof is not None:
            offs, hot = analyse(code)
            if off in offs:
                self.prof["hotn" if hot else "int"].append(n)
            self.prof["codes"].add(f"{code.co_qualname}:{code.co_firstlineno}")
            if hot:
                self.prof["hot"].add(f"{code.co_qualname}:{code.co_firstlineno}")
        if n >= th.next_n:
            self.point(th, code, off)

    def on_line(self, code, line):
        th = self.cur
        if th is None or not th.active:
            return
        k = th.l = th.l + 1
        if self.prof is not None:
            self.prof["lines"].append((code.co_filename[len(LIBROOT):], line))
            if analyse(code)[1]:
                self.prof["hotl"].append(k)
        if k >= th.next_l:
            if th.labs[0][1] != "!crash" and not can_fail(sys._getframe(1)):
                th.next_l = k + 1
                return
            _, exc = th.labs.pop(0)
            th.next_l = th.labs[0][0] if th.labs else BIG
            if exc == "!crash":
                self.stats["crashes"] = self.stats.get("crashes", 0) + 1
                self.note(th, "crash", exc, code, line)
                res = self.result()
                res["crashed"] = [th.id, th.opi]
                EMIT(res)   # does not return
            self.stats["aborts"] += 1
            self.stats["abort." + exc] = self.stats.get("abort." + exc, 0) + 1
            self.note(th, "abort", exc, code, line)
            e = make_exc(exc)
            th.aborted = e
            raise e

    def note(self, th, what, arg, code, at):
        loc = f"{code.co_qualname}:{at}" if code is not None else "-"
        self.sched_hash.update(f"{what},{th.id},{th.opi},{arg},{loc};".encode())
        if self.trace is not None:
            f = code.co_filename[len(LIBROOT):] if code is not None else ""
            self.trace.append([what, th.id, th.opi, th.n, arg if isinstance(arg, (int, str)) else str(arg), f"{f}:{loc}"])

    def point(self, th, code, off):
        while th.acts and th.n >= th.acts[0][0]:
            a = th.acts[0]
            if a[1] != "probe" and (th.pjit or under_jit() or (a[1] == "nested" and not trace_clean())):
                # cannot be preempted inside the compiler's own critical section
                th.next_n = th.n + 1
                return
            th.acts.pop(0)
            th.next_n = th.acts[0][0] if th.acts else th.budget
            if a[1] == "switch":
                self.switch(th, a[2], code, off)
            elif a[1] == "nested":
                self.nested(th, a[2], code, off)
            elif a[1] == "probe":
                self.stats["probes"] += 1
                th.active = False
                try:
                    self.check_held(th, "while the operation was running at " + code.co_qualname)
                finally:
                    th.active = True
        if th.n >= th.budget:
            th.budget = th.next_n = BIG
            self.viol.append(["C13", th.id, th.opi, "step-budget", f"call still running after {th.n} library steps (alone: {self.ctx_budget(th)})", code.co_qualname])
            raise SimStuck(code.co_qualname)
        th.next_n = min(th.acts[0][0] if th.acts else BIG, th.budget)

    def ctx_budget(self, th):
        return th.ops[th.opi].get("steps")

    # -- scheduling -----------------------------------------------------
    def runnable(self):
        return [t for t in self.threads if t.state == "ready" and not (t.waiting is not None and t.waiting.owner is not None)]

    def switch(self, th, target, code=None, off=-1):
        if not self.threads:
            return False
        t = self.threads[target % len(self.threads)]
        if t is th or t not in self.runnable():
            c = [x for x in self.runnable() if x is not th]
            if not c:
                return False
            t = c[target % len(c)]
        self.stats["switches"] += 1
        self.note(th, "switch", t.id, code, off)
        self._handoff(th, t)
        return True

    def _handoff(self, th, t):
        self.cur = t
        t.lock.release()
        th.lock.acquire()
        if self.fatal is not None and th.state != "done":
            raise SimKill
        self.cur = th

    def voluntary_yield(self):
        th = self.cur
        if th is None or th.pjit or under_jit():
            return False
        return self.switch(th, th.id + 1)

    def block_on(self, lk):
        th = self.cur
        if th is None:
            raise SimDeadlock("lock held by the process itself")
        self.stats["blocks"] += 1
        th.waiting = lk
        c = [x for x in self.runnable() if x is not th]
        if not c or th.suspended:
            why = "a re-entrant call waits for a lock its own thread holds" if th.suspended else "every thread waits for a lock that is never released"
            self.viol.append(["C13", th.id, th.opi, "deadlock", why, ""])
            th.waiting = None
            raise SimDeadlock(why)
        t = c[(th.id + 1) % len(c)]
        self.note(th, "block", t.id, None, -1)
        self._handoff(th, t)
        th.waiting = None

    def thread_main(self, th):
        th.lock.acquire()
        try:
            if self.fatal is None:
                for a in self.setup.get("app", ()):
                    if a in ("np.seterr", "np.printoptions", "decimal"):  # settings of a thread
                        self.ctx["app"][a]()
                for i, op in enumerate(th.ops):
                    th.opi = i
                    a = th.bound.get(i)
                    if a is not None:
                        self.cur = th
                        self.switch(th, a)
                    self.run_op(th, i, op)
                    if self.fatal is not None:
                        break
        except SimKill:
            pass
        except BaseException as e:  # noqa: BLE001
            import traceback
            self.fatal = "harness: " + "".join(traceback.format_exception(e))[-3000:]
        th.state = "done"
        self.finish(th)

    def finish(self, th):
        if self.fatal is not None:
            c = [x for x in self.threads if x.state != "done"]
        else:
            c = self.runnable()
            if not c and any(x.state != "done" for x in self.threads):
                x = next(x for x in self.threads if x.state != "done")
                self.viol.append(["C13", x.id, x.opi, "deadlock", "a call waits for a lock held by a thread that has finished", ""])
                self.fatal = "deadlock"
                c = [x]
        if c:
            t = c[(th.id + 1) % len(c)]
            self.cur = t
            t.lock.release()
        else:
            self.done_sem.release()

    # -- running one operation --------------------------------------------
    def run_op(self, th, i, op):
        from . import ops as O
        self.cur = th
        if op["k"].startswith("!"):
            th.outcomes.append(self.control(th, op))
            return
        self.stats["ops"] += 1
        th.warns = []
        out = {}
        try:
            args, kw = self.build(op)
        except (SimDeadlock, SimStuck, SimKill):
            raise
        except BaseException as e:  # noqa: BLE001
            out["b"] = exc_name(e)
            th.outcomes.append(out)
            return
        hold = self.setup.get("hold", 0)
        lite = []
        if self.setup.get("c03"):
            lite = [(f"argument {j}", x, self.dg(x)) for j, x in enumerate(args)] + [(f"argument {k}", x, self.dg(x)) for k, x in kw.items()]
            th.held.extend(lite)
        th.warns = []
        r = None
        fn = O.caller(op, self.jitcache)
        th.n = th.l = 0
        th.acts = th.plan_acts.get(i, [])
        th.labs = th.plan_labs.get(i, [])
        steps = op.get("steps")
        th.budget = max(60 * steps, 100_000) if steps else 2_000_000
        th.next_n = min(th.acts[0][0] if th.acts else BIG, th.budget)
        th.next_l = th.labs[0][0] if th.labs else BIG
        th.aborted = None
        self.midop += 1
        prof = None
        if self.profile:
            prof = self.prof = {"int": [], "codes": set(), "lines": [], "hot": set(), "hotl": [], "hotn": []}
        th.active = True
        exc = None
        try:
            r = fn(*args, **kw)
            th.active = False
        except SimKill:
            raise
        except BaseException as e:  # noqa: BLE001
            th.active = False
            exc = e
        finally:
            th.active = False
            self.midop -= 1
        self.prof = None
        self.stats["instr"] += th.n
        self.stats["lines"] += th.l
        if exc is None:
            try:
                tree = self.ctx["digest"].canon(r)
                out["d"] = self.ctx["digest"].h(tree)
                if "'TRACER'" in repr(tree):
                    out["tracer"] = 1
                if self.setup.get("show"):
                    out["s"] = self.ctx["digest"].short(tree, 600)
                if self.setup.get("keep"):
                    out["v"] = r
            except BaseException as e:  # noqa: BLE001
                out["e"] = "digest:" + exc_name(e)
            if "out" in op:
                O.STORE[op["out"]] = r
        else:
            out["e"] = exc_name(exc)
            if self.setup.get("show"):
                out["msg"] = str(exc)[:300]
            if isinstance(exc, (SimDeadlock, SimStuck)):
                out["sim"] = 1
        if th.aborted is not None:
            out["ab"] = exc_name(th.aborted)
            same = exc is th.aborted or (exc is not None and exc_name(exc) == exc_name(th.aborted))
            if not same and not out.get("sim"):
                got = "returned a value" if exc is None else "raised " + exc_name(exc)
                self.viol.append(["C02", th.id, i, "swallowed", f"{exc_name(th.aborted)} raised inside the call did not reach the caller: the call {got}", ""])
            th.aborted = None
        if th.warns:
            out["w"] = list(th.warns)
        if self.profile:
            out["n"], out["l"] = th.n, th.l
            out["int"] = sorted(set(prof["int"]))[:4000]
            out["codes"] = sorted(prof["codes"])
            out["hot"] = sorted(prof["hot"])
            out["hotl"] = prof["hotl"][:2000]
            out["hotn"] = prof["hotn"][:2000]
            if self.setup.get("proflines"):
                out["lines"] = prof["lines"]
        for hook in self.ctx["posthooks"]:
            hook(self, th, i, op, args, kw, r, exc, out)
        exc = None
        if self.setup.get("c03"):
            self.check_held(th, "by the time the operation had ended")
            if hold and r is not None:
                th.held.append((f"result of operation {i}", r, self.dg(r)))
                if len(th.held) > hold * 4:
                    del th.held[: len(th.held) - hold * 4]
            elif not hold:
                th.held = []
        if self.ambient0 is not None and self.midop == 0:
            self.check_ambient(th, i, "after the call ended")
        th.outcomes.append(out)

    def build(self, op):
        """Argument objects of a call; with ``share``, equal descriptions are one object, held by the application."""
        from . import ops as O
        if not self.setup.get("share"):
            return O.build(op)

        def get(sp):
            if sp[0] in ("lit", "cls", "idx"):
                return O.mk(sp)
            k = repr(sp)
            if k not in self.shared:
                self.shared[k] = O.mk(sp)
            return self.shared[k]
        return O.through(op, tuple(get(x) for x in op.get("a", ())), {k: get(x) for k, x in op.get("kw", {}).items()})

    def dg(self, x):
        return self.ctx["digest"].digest(x)

    def check_held(self, th, when):
        for lab, obj, d in th.held:
            d2 = self.dg(obj)
            if d2 != d:
                self.viol.append(["C03", th.id, th.opi, "mutated", f"{lab} changed {when}", self.ctx["digest"].short(self.ctx["digest"].canon(obj))])
                th.held = []
                return

    def check_ambient(self, th, i, when):
        now = self.ctx["ambient"].snapshot()
        diff = self.ctx["ambient"].compare(self.ambient0, now)
        for k, (a, b) in diff.items():
            self.viol.append(["C06", th.id, i, "ambient:" + k, f"{k} {when}: was {a}, is {b}", ""])
            if len(self.viol) > 50:
                break
        if diff:
            self.ambient0 = now

    def nested(self, th, op, code, off):
        """A call made re-entrantly on this thread, between two instructions of another call."""
        from . import ops as O
        self.stats["nested"] += 1
        self.note(th, "nested", op.get("n", op["k"]), code, off)
        th.active = False
        th.suspended += 1
        saved_w, th.warns = th.warns, []
        out = {"op": op, "at": [th.opi, th.n]}
        try:
            args, kw = self.build(op)
            fn = O.caller(op, self.jitcache)
            try:
                r = fn(*args, **kw)
                out["d"] = self.ctx["digest"].digest(r)
            except Exception as e:  # noqa: BLE001
                out["e"] = exc_name(e)
            except (SimDeadlock, SimStuck) as e:
                out["e"] = exc_name(e)
                out["sim"] = 1
        finally:
            if th.warns:
                out["w"] = list(th.warns)
            th.warns = saved_w
            th.suspended -= 1
            th.active = True
        th.nested_out.append(out)

    def control(self, th, op):
        k = op["k"]
        jax = self.ctx["jax"]
        if k == "!clear":
            self.stats["evict"] += 1
            jax.clear_caches()
        elif k == "!eqxclear":
            self.stats["evict"] += 1
            self.ctx["eqx"].clear_caches()
        elif k == "!plumclear":
            self.stats["evict"] += 1
            import plum
            plum.clear_all_cache()
        elif k == "!jitdrop":
            self.stats["evict"] += 1
            self.jitcache.clear()
        elif k == "!gc":
            self.stats["gc"] += 1
            gc.collect()
        elif k == "!drop":
            th.held = []
        elif k == "!clock":
            self.clock.advance(op["dt"])
            self.stats["clockjumps"] = self.stats.get("clockjumps", 0) + 1
        elif k == "!filter":
            self.ctx["warnctl"].set(op["mode"])
        elif k in self.ctx["controls"]:
            return self.ctx["controls"][k](self, th, op) or {"c": k}
        else:
            raise KeyError(k)
        return {"c": k}

    # -- the whole plan ---------------------------------------------------
    def run(self):
        global W
        plan = self.plan
        W = self
        ab = ins = False
        pre = self.setup.get("pre")
        if pre:   # values made before the clients start
            th = SimThread(0, pre)
            th.bound, th.plan_acts, th.plan_labs, th.nested_out = {}, {}, {}, []
            self.cur = th
            for i, op in enumerate(pre):
                th.opi = i
                self.run_op(th, i, op)
            self.cur = None
            self.pre_out = th.outcomes
        for tid, t in enumerate(plan["threads"]):
            th = SimThread(tid, t["ops"])
            th.bound, th.plan_acts, th.plan_labs, th.nested_out = {}, {}, {}, []
            for i, op in enumerate(t["ops"]):
                acts = []
                for n, target in op.get("sw", ()):
                    if n < 0:
                        th.bound[i] = target
                    else:
                        acts.append((n, "switch", target))
                acts += [(n, "nested", o) for n, o in op.get("ne", ())] + [(n, "probe", None) for n in op.get("pr", ())]
                if acts:
                    ins = True
                    acts.sort(key=lambda x: x[0])
                    th.plan_acts[i] = acts
                if op.get("ab"):
                    ab = True
                    th.plan_labs[i] = sorted((n, e) for n, e in op["ab"])
                if op.get("cr"):
                    ab = True
                    th.plan_labs[i] = sorted(th.plan_labs.get(i, []) + [(op["cr"], "!crash")])
            self.threads.append(th)
        self.install_monitor(ab or self.profile, ins or self.profile or plan.get("budgets", False))
        if self.setup.get("ambient"):
            self.ambient0 = self.ctx["ambient"].snapshot()
        if not self.threads:
            pass
        elif len(self.threads) == 1:
            th = self.threads[0]
            self.cur = th
            try:
                for i, op in enumerate(th.ops):
                    th.opi = i
                    self.run_op(th, i, op)
            except SimKill:
                pass
            th.state = "done"
        else:
            import threading
            self.done_sem = _real_alloc()
            self.done_sem.acquire()
            for th in self.threads:
                th.lock = _real_alloc()
                th.lock.acquire()
            for th in self.threads:
                _thread.start_new_thread(self.thread_main, (th,))
            first = plan.get("first", 0) % len(self.threads)
            self.cur = self.threads[first]
            self.cur.lock.release()
            self.done_sem.acquire()
        self.cur = None
        MON.set_events(TOOL, 0)
        if self.ambient0 is not None and self.threads:
            th = self.threads[0]
            self.check_ambient(th, len(th.ops), "when all calls had ended")
        W = None
        return self.result()

    def result(self):
        res = {"outcomes": [t.outcomes for t in self.threads], "nested": [t.nested_out for t in self.threads], "viol": self.viol,
               "stats": self.stats, "hash": self.sched_hash.hexdigest()[:16], "simtime": self.clock.slept}
        if self.pre_out:
            res["pre"] = self.pre_out
        if self.fatal and self.fatal != "deadlock":
            res["fatal"] = self.fatal
        if self.trace is not None:
            res["trace"] = self.trace
        return res


_real_alloc = _thread.allocate_lock


def under_jit():
    """Is this Python code running below a compiled-function object (which holds a lock while it compiles)?"""
    import equinox._jit as J
    import jax
    if jax.config.jax_disable_jit:
        return False
    guard = J._JitWrapper._call.__code__
    f = sys._getframe(3)
    while f is not None:
        if f.f_code is guard:
            return True
        f = f.f_back
    return False


def trace_clean():
    import jax
    try:
        return jax.core.trace_state_clean()
    except Exception:  # noqa: BLE001
        return True


def exc_name(e):
    t = type(e)
    return f"{(t.__module__ or '').split('.')[0]}:{t.__name__}"


def make_exc(name):
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt("simulated")
    if name == "MemoryError":
        return MemoryError("simulated")
    if name == "SystemExit":
        return SystemExit(3)
    if name == "XlaRuntimeError":
        from jax.errors import JaxRuntimeError
        return JaxRuntimeError("RESOURCE_EXHAUSTED: simulated")
    if name == "OSError":
        return OSError(28, "simulated")
    if name == "TimeoutError":
        return TimeoutError("simulated")
    if name == "RecursionError":
        return RecursionError("simulated")
    raise KeyError(name)


class WarnCtl:
    """The application's warning settings and its recorder."""

    def __init__(self):
        self.mode = "always"

    def install(self):
        import warnings
        ctl = self

        def show(message, category, filename, lineno, file=None, line=None):
            w = W
            if w is None or w.cur is None:
                return
            m = category.__module__ or ""
            if m.startswith("coordinax") or filename.startswith(LIBROOT):
                w.cur.warns.append(category.__name__)
        warnings.showwarning = show
        self.show = show
        self.set("always")

    def set(self, mode):
        import warnings
        self.mode = mode
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        warnings.simplefilter({"always": "always", "error": "error", "ignore": "ignore", "default": "default"}[mode], append=False) if mode == "ignore" else None
        if mode != "ignore":
            warnings.filterwarnings(mode, category=self.cat() or UserWarning)
        w = W
        if w is not None and w.ambient0 is not None:
            w.ambient0 = w.ctx["ambient"].snapshot()

    def cat(self):
        m = sys.modules.get("coordinax")
        if m is None:
            return None
        return getattr(sys.modules.get("coordinax.vecs"), "IrreversibleDimensionChange", None)
