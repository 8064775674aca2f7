"""One campaign per property."""
from __future__ import annotations

import copy
import json

from . import gen
from .core import Campaign, key_of
from .plans import ABORTS, LinePicker, OpPool, Picker, build_pool, corpus_pool, enrich, nest, pick_n, sched_pair

Q = "quick"


def _scale(c, quick, thorough):
    return quick if c.tier == Q else thorough


def _profs(c, setup=None):
    from .core import clean, mode_sig
    sig = mode_sig(setup or {})

    def f(op):
        return c.prof.get((key_of(clean(op)), sig), {})
    return f


def _steps(c, ops, setup=None):
    pf = _profs(c, setup)
    for o in ops:
        n = pf(o).get("n")
        if n:
            o["steps"] = n
    return ops


def _sample(c, plan, extra=""):
    if len(c.samples) < 3:
        c.samples.append({"plan": json.loads(json.dumps(plan))if len(json.dumps(plan)) < 4000 else json.dumps(plan)[:4000], "note": extra})


# ------------------------------------------------------------------ C01
def c01(c: Campaign):
    rnd = 0
    nontriv = [0]
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng)
        sub = OpPool([o for o in pool.ops if rng.random() < 0.15])
        c.golden(pool.ops)
        pool = enrich(c, rng, pool, {})
        c.golden(sub.ops, {"nojit": True})
        sub = enrich(c, rng, sub, {"nojit": True}, cap=16)
        pkj, pks = Picker(pool, _profs(c)), Picker(sub, _profs(c, {"nojit": True}))
        plans = []
        for r in range(_scale(c, 420, 3000)):
            rr = c.rng("run", rnd, r)
            nojit = rr.random() < 0.35
            setup = {"nojit": True} if nojit else {}
            setup["share"] = rr.random() < 0.5
            P = sub if nojit else pool
            pf = _profs(c, setup)
            pk = (pks if nojit else pkj)
            a = pk.op(rr)
            if rr.random() < 0.25:
                # re-entrant call (signal handler, finaliser)
                ops = [a] if rr.random() < 0.6 else [pk.related(rr, a), a]
                ok = nest(rr, ops[-1], pf(ops[-1]), pk.related(rr, a))
                ops.append(pk.related(rr, a))
                threads = [ops]
                if not ok:
                    continue
            else:
                nt = 2 if rr.random() < 0.75 else 3
                threads = [[a]]
                for _ in range(nt - 1):
                    threads.append([pk.related(rr, a) for _ in range(rr.choice((1, 1, 2)))])
                if rr.random() < 0.4:
                    threads[0].append(pk.related(rr, a))
                if rr.random() < 0.2:
                    threads[0].insert(0, pk.related(rr, a))
                sched_pair(rr, threads, pf)
            for t in threads:
                _steps(c, t, setup)
            plan = {"prop": "C01", "setup": setup, "threads": [{"ops": t} for t in threads], "first": 0, "seed": [c.seed, rnd, r]}
            plans.append(plan)

        def on(job, r):
            if r["stats"].get("switches") or r["stats"].get("nested"):
                nontriv[0] += 1
            _sample(c, job["plan"])
            c.judge(job, r)
        c.run_plans(plans, on)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("pairs and triples of public calls (same call, variants differing in values, one component, units; calls sharing library code) run as threads preempted at seeded "
                    "instructions, or re-entered at a seeded instruction; every result is compared bit for bit with the call alone in a fresh process. Non-trivial: at least one context "
                    "switch or re-entrant call happened inside a library call; distinct by hash of the (thread, call, library function, bytecode offset) sequence.",
                    len(c.hashes), extra={"runs_with_preemption_or_reentry": nontriv[0]},
                    assumptions=["preemption only between bytecode instructions of coordinax frames (not inside jax's own compile critical section)"])


# ------------------------------------------------------------------ C02
def c02(c: Campaign):
    rnd = 0
    lp = LinePicker()
    fired = [0]
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng, hows=("near", "unit"))
        c.golden(pool.ops, {"proflines": 1})
        pool = enrich(c, rng, pool, {"proflines": 1}, hows=("near", "unit"))
        pf = _profs(c)
        pk = Picker(pool, pf)
        plans = []
        for r in range(_scale(c, 420, 3000)):
            rr = c.rng("run", rnd, r)
            a = pk.op(rr)
            style = rr.choice(["cold", "cold", "cold", "chain", "warm", "threads", "reenter"])
            setup = {"share": rr.random() < 0.3}

            def cut(op):
                o = copy.deepcopy(op)
                k = lp.pick(rr, pf(o))
                if k:
                    o["ab"] = [[k, rr.choice(ABORTS)]]
                return o
            if style == "cold":
                ops = [cut(a), copy.deepcopy(a), pk.related(rr, a), pk.related(rr, a)]
                threads = [ops]
            elif style == "warm":
                ops = [pk.related(rr, a), cut(a), copy.deepcopy(a), pk.related(rr, a)]
                threads = [ops]
            elif style == "chain":
                ops = []
                for _ in range(rr.choice((3, 4, 5))):
                    b = pk.related(rr, a)
                    ops += [cut(b)] if rr.random() < 0.8 else []
                    if rr.random() < 0.5:
                        ops += [cut(b)]
                    ops += [copy.deepcopy(b)]
                threads = [ops]
            elif style == "reenter":
                b = cut(a)
                nest(rr, b, pf(b), pk.related(rr, a))
                threads = [[b, copy.deepcopy(a), pk.related(rr, a)]]
            else:
                b = pk.related(rr, a)
                threads = [[cut(a), copy.deepcopy(a)], [cut(b) if rr.random() < 0.5 else b, pk.related(rr, a)]]
                sched_pair(rr, threads, pf)
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C02", "setup": setup, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            if r["stats"].get("aborts"):
                fired[0] += 1
            _sample(c, job["plan"])
            c.judge(job, r)
        c.run_plans(plans, on)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("calls cut short at a seeded library source line (keyboard interrupt, memory exhaustion, back-end failure, recursion limit, exit, time-out), cold, warm, in chains, re-entered, or "
                    "with other threads paused inside calls; then retried and followed by related calls, each compared bit for bit with the call alone in a fresh process. Non-trivial: an "
                    "interruption fired inside a library call; distinct by hash of the fault and switch sequence.",
                    len(c.hashes), extra={"runs_with_interruption": fired[0], "distinct_source_lines_interrupted": len(lp.tried)},
                    assumptions=["interruptions are delivered at line boundaries of coordinax code"])


# ------------------------------------------------------------------ C04
def c04(c: Campaign):
    rnd = 0
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng, hows=("near", "one", "unit", "units"), share=0.6, kw=True)
        c.golden(pool.ops)
        pool = enrich(c, rng, pool, {})
        plans = []
        names = list(pool.by_kind)
        pf = _profs(c)
        pk = Picker(pool, pf)
        NR = _scale(c, 130, 1500)
        for r in range(NR):
            rr = c.rng("run", rnd, r)
            style = ["focus", "focus", "mix", "near", "repeat", "evict"][r % 6]
            ops = []
            if style == "focus":  # one kind after another, all variants, objects freed in between
                hotk = [pk.hot_kind(rr) for _ in range(2)] if pk.codes else []
                for nm in dict.fromkeys(hotk + rr.sample(names, 3 - len(hotk) // 2)):
                    sel = [copy.deepcopy(o) for o in pool.by_kind[nm]]
                    rr.shuffle(sel)
                    ops += sel[: 12] + [copy.deepcopy(o) for o in sel[:4]]
            elif style == "mix":
                ops = [pk.op(rr) for _ in range(30)]
            elif style == "near":
                a = pk.op(rr)
                for _ in range(25):
                    ops.append(pk.related(rr, a))
                    if rr.random() < 0.3:
                        a = ops[-1]
            elif style == "repeat":  # many repetitions of cheap calls
                hotk = [n for n in [pk.op(rr)["n"]] if gen.KINDS[n]["cost"] <= 3] if pk.codes else []
                for nm in dict.fromkeys(hotk + rr.sample([n for n in names if gen.KINDS[n]["cost"] <= 2], 2)):
                    sel = pool.by_kind[nm]
                    for _ in range(rr.choice((40, 80, 150))):
                        ops.append(copy.deepcopy(rr.choice(sel)))
            else:
                for _ in range(18):
                    ops.append(copy.deepcopy(rr.choice(pool.ops)))
                    if rr.random() < 0.4:
                        ops.append({"k": rr.choice(["!clear", "!eqxclear", "!plumclear", "!gc"])})
                    if rr.random() < 0.4:
                        ops.append(copy.deepcopy(ops[-1] if not ops[-1]["k"].startswith("!") else ops[-2]))
            if rr.random() < 0.3:
                ops = [x for o in ops for x in ((o, {"k": "!gc"}) if rr.random() < 0.2 else (o,))]
            if rr.random() < 0.2:
                ops.insert(rr.randrange(len(ops)), {"k": "!clock", "dt": rr.choice((-3600.0, 86400.0, 1e7))})
            plans.append({"prop": "C04", "setup": {"share": rr.random() < 0.3}, "threads": [{"ops": ops}], "seed": [c.seed, rnd, r], "style": style})

        def on(job, r):
            c.hashes.add(json.dumps([key_of(o) for o in job["plan"]["threads"][0]["ops"]])[:4000])
            _sample(c, {**job["plan"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:6]}]}, "first six calls")
            c.judge(job, r)
        c.run_plans(plans, on, timeout=120)
        rnd += 1
        if c.tier == Q or c.left() < 90 or c.viols:
            break
    return c.finish("long single-client histories (all variants of a kind, random mixes, near-duplicates, many repetitions, cache evictions and collections at seeded moments); every call compared "
                    "bit for bit with the call alone in a fresh process. Non-trivial: every history of at least two calls; distinct by its sequence of calls.", len(c.hashes))


# ------------------------------------------------------------ shared drawing
def cutter(rr, lp, pf):
    def cut(op):
        o = copy.deepcopy(op)
        k = lp.pick(rr, pf(o))
        if k:
            o["ab"] = [[k, rr.choice(ABORTS)]]
        return o
    return cut


def probes(rr, op, pf, n=4):
    p = pf(op)
    ks = sorted({k for k in (pick_n(rr, p) for _ in range(n)) if k})
    if ks:
        op["pr"] = ks
    return op


# ------------------------------------------------------------------ C03
def _mutvar(rr, op):
    """The same call with arguments the library could write to: quantities over numpy arrays, lists."""
    def walk(s):
        if isinstance(s, list):
            if s and s[0] == "q" and isinstance(s[1], list):
                return ["qn", s[1], s[2], rr.choice(["float32", "float64"])] if rr.random() < 0.8 else s
            if s and s[0] == "jnp" and isinstance(s[1], list):
                return ["np", s[1], "float32"]
            return [walk(x) for x in s]
        if isinstance(s, dict):
            return {k: walk(v) for k, v in s.items()}
        return s
    o = copy.deepcopy(op)
    for f in ("a", "kw"):
        if f in o:
            o[f] = walk(o[f])
    return o


def c03(c: Campaign):
    rnd = 0
    lp = LinePicker()
    fired = [0]
    c.use_golden = False
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng, hows=(), share=_scale(c, 0, 1))
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        pk = Picker(pool, pf)
        names = list(pool.by_kind)
        plans = []
        order = []
        for r in range(_scale(c, 420, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)

            def one(o):
                p = dict(pf(o))
                o2 = _mutvar(rr, o) if rr.random() < 0.45 else o
                if rr.random() < 0.3:
                    o2 = {**cut(o), **{f: o2[f] for f in ("a", "kw") if f in o2}}
                ks = sorted({k for k in (pick_n(rr, p) for _ in range(4)) if k})
                if ks:
                    o2["pr"] = ks
                return o2
            ops = []
            while len(ops) < 9:
                if not order:
                    order = list(names)
                    rng.shuffle(order)
                o = pk.op(rr) if rr.random() < 0.4 else copy.deepcopy(rr.choice(pool.by_kind[order.pop()]))
                ops.append(one(o))
                if rr.random() < 0.35:
                    ops.append(one(pk.related(rr, o)))
            setup = {"c03": 1, "hold": 5, "share": rr.random() < 0.7}
            if rr.random() < 0.25:
                setup["nojit"] = True
            threads = [ops]
            if rr.random() < 0.25:
                threads = [ops[:4], ops[4:]]
                sched_pair(rr, threads, pf)
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C03", "setup": setup, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            if r["stats"].get("probes"):
                fired[0] += 1
            c.hashes.add(json.dumps([key_of(o) for t in job["plan"]["threads"] for o in t["ops"]])[:4000])
            _sample(c, {**job["plan"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:2]}]}, "first two calls")
            c.judge(job, r)
        c.run_plans(plans, on)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("sequences of calls on shared objects (jax- and numpy-backed quantities, lists, mappings, third-party objects), completed, cut short or preempted; deep digests of all arguments "
                    "and of the last results compared before, at four seeded library instructions of, and after each call. Non-trivial: an observer looked at the held objects while a call was "
                    "running; distinct by sequence of calls.", len(c.hashes), extra={"runs_with_observations": fired[0]})


# ------------------------------------------------------------------ C05
def c05(c: Campaign):
    rnd = 0
    lp = LinePicker()
    while True:
        rng = c.rng("pool", rnd)
        base = []
        for name, d in gen.KINDS.items():
            if d["tags"] & {"disp", "invalid", "doc"}:
                continue
            ms = list(d["modes"]) or ["jitc", "fwdc", "vmapc", "jit"]
            if not d["modes"] and rng.random() > 0.4:
                continue
            S = rng.randrange(10**9)
            b = gen.make(name, S, rng.randrange(10**9))
            forms = [b, gen.variant(b, "near", rng), gen.variant(b, "unit", rng)]
            base.append((name, d, forms if d["modes"] else forms[:2], ms))
        ops = []
        for name, d, forms, ms in base:
            heavy = d["cost"] > 2 or not d["modes"]
            rng.shuffle(ms)
            ms = ms[: 1 if heavy else 3]
            for f in forms:
                ops.append(copy.deepcopy(f))
            for m in ms:
                for f in forms[: 1 if not d["modes"] else 2]:
                    o = copy.deepcopy(f)
                    o["m"] = m
                    ops.append(o)
                if m == "jit" and len(forms) > 2:
                    o = copy.deepcopy(forms[2])
                    o["m"] = m
                    ops.append(o)
        pool = OpPool(ops)
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        pk = Picker(pool, pf)
        names = list(pool.by_kind)
        plans = []
        order = []
        for r in range(_scale(c, 300, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)
            ops = []
            for _ in range(rr.choice((1, 2, 3))):
                if not order:
                    order = list(names)
                    rng.shuffle(order)
                nm = order.pop()
                if pk.codes and rr.random() < 0.4:
                    nm = pk.op(rr)["n"]
                sel = pool.by_kind[nm]
                tr = [o for o in sel if o.get("m")]
                ea = [o for o in sel if not o.get("m")]

                def aband(o):
                    o = copy.deepcopy(o)
                    o["m"] = rr.choice(["abandon", "abandonvmap"])
                    return o
                script = rr.choice(["ttee", "tete", "aete", "aate", "caete", "tKte", "teKt", "eteat", "cttee"])
                for ch in script:
                    if ch == "t" and tr:
                        ops.append(copy.deepcopy(rr.choice(tr)))
                    elif ch == "e":
                        o = copy.deepcopy(rr.choice(ea))
                        if rr.random() < 0.5 and ops and ops[-1].get("n") == o["n"]:  # the very arguments of the transformed use
                            o = {k: copy.deepcopy(v) for k, v in ops[-1].items() if k not in ("m", "ab", "sw", "ne", "pr")}
                        ops.append(o)
                    elif ch == "a":
                        ops.append(aband(rr.choice(ea)))
                    elif ch == "c" and tr:
                        ops.append(cut(rr.choice(tr)))
                    elif ch == "K":
                        ops.append({"k": rr.choice(["!clear", "!eqxclear", "!jitdrop", "!gc"])})
                if rr.random() < 0.5:
                    ops.append(pk.related(rr, ea[0]))
            threads = [ops]
            if rr.random() < 0.2 and len(ops) > 3:
                threads = [ops[: len(ops) // 2], ops[len(ops) // 2:]]
                sched_pair(rr, threads, pf)
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C05", "setup": {"share": rr.random() < 0.5}, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            c.hashes.add(json.dumps([key_of(o) for t in job["plan"]["threads"] for o in t["ops"]])[:4000])
            _sample(c, {**job["plan"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:4]}]}, "first four calls")
            c.judge(job, r)
        c.run_plans(plans, on)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("orders of compiled, mapped, forward- and reverse-differentiated, nested, abandoned (error raised while tracing) and interrupted uses, evictions, and plain calls of the same and "
                    "related operations with other values and units; each outcome compared bit for bit with the call alone in a fresh process. Non-trivial: every run has a transformed or abandoned "
                    "use before a compared call; distinct by sequence of calls.", len(c.hashes))


# ------------------------------------------------------------------ C06
APPSET = ["np.printoptions", "np.seterr", "warnings", "jax.matmul", "galcen", "decimal", "random", "recursion", "environ", "units", "np.random", "gcthreshold"]


def c06(c: Campaign):
    rnd = 0
    lp = LinePicker()
    c.use_golden = False
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng, hows=(), share=0)
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        pk = Picker(pool, pf)
        names = list(pool.by_kind)
        disp = [o for o in pool.ops if gen.KINDS[o["n"]]["tags"] & {"disp", "apy", "warn", "frame"}]
        order = []
        plans = []
        for r in range(_scale(c, 420, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)
            ops = []
            while len(ops) < 8:
                if not order:
                    order = list(names)
                    rng.shuffle(order)
                q = rr.random()
                o = pk.op(rr) if q < 0.35 else copy.deepcopy(rr.choice(disp)) if q < 0.5 else copy.deepcopy(rr.choice(pool.by_kind[order.pop()]))
                ops.append(cut(o) if rr.random() < 0.45 else o)
            setup = {"ambient": 1, "share": rr.random() < 0.3, "app": rr.sample(APPSET, rr.choice((0, 2, 4)))}
            threads = [ops]
            if rr.random() < 0.4:
                threads = [ops[:4], ops[4:]]
                sched_pair(rr, threads, pf)
            elif rr.random() < 0.25:
                nest(rr, ops[0], pf(ops[0]), pk.related(rr, ops[0]))
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C06", "setup": setup, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            c.hashes.add(r["hash"] + json.dumps([key_of(o) for t in job["plan"]["threads"] for o in t["ops"]])[:4000])
            _sample(c, {**job["plan"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:2]}]}, "first two calls")
            c.judge(job, r)
        c.run_plans(plans, on)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("import and sequences of calls, completed, failing, cut short at seeded lines, interleaved by seeded preemption or re-entered, with default and application-changed settings; a "
                    "snapshot of some fifty process-wide settings compared before and after each call (whenever no other call is under way). Non-trivial: every run; distinct by sequence of calls "
                    "and schedule.", len(c.hashes))


# ------------------------------------------------------------------ C13
def c13(c: Campaign):
    rnd = 0
    lp = LinePicker()
    c.use_golden = False
    while True:
        rng = c.rng("pool", rnd)
        pool = build_pool(rng, nstruct=1, hows=("unit",), nval=0)
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        pk = Picker(pool, pf)
        plans = []
        for r in range(_scale(c, 420, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)
            a = pk.op(rr)
            style = rr.choice(["die", "die", "threads", "threads3", "reenter", "chain"])
            setup = {"share": rr.random() < 0.5}
            if rr.random() < 0.25:
                setup["nojit"] = True
            if style == "die":      # a thread is interrupted in a call and never comes back; others carry on
                threads = [[cut(a)], [copy.deepcopy(a), pk.related(rr, a)], [pk.related(rr, a)]][: rr.choice((2, 3))]
                if rr.random() < 0.5:
                    sched_pair(rr, threads, pf)
            elif style == "threads":
                b = pk.related(rr, a)
                threads = [[a, cut(pk.related(rr, a))], [b, copy.deepcopy(a)]]
                sched_pair(rr, threads, pf)
            elif style == "threads3":
                threads = [[a], [pk.related(rr, a)], [pk.related(rr, a)]]
                sched_pair(rr, threads, pf)
            elif style == "reenter":
                b = copy.deepcopy(a)
                nest(rr, b, pf(b), pk.related(rr, a))
                threads = [[b, copy.deepcopy(a)]]
                if rr.random() < 0.5:
                    threads.append([pk.related(rr, a)])
                    sched_pair(rr, threads, pf)
            else:
                ops = []
                for _ in range(3):
                    b = pk.related(rr, a)
                    ops += [cut(b), cut(b), copy.deepcopy(b)]
                threads = [ops]
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C13", "setup": setup, "budgets": True, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            _sample(c, job["plan"])
            c.judge(job, r)
        c.run_plans(plans, on, timeout=45)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("threads preempted at seeded instructions, calls cut short at seeded lines (threads that never come back), re-entrant calls; locks the library creates are scheduled by the "
                    "simulator, which sees every deadlock; every call must end within a multiple of the library steps it needs alone, and every execution within its wall-clock limit. Non-trivial: "
                    "a switch, interruption or re-entry fired; distinct by hash of the schedule.", len(c.hashes))


# ------------------------------------------------------------------ C07
class C07(Campaign):
    use_golden = False

    def judge(self, job, r):
        for v in r.get("viol", ()):
            self.inrun(job, r, v)
        for t, outs in zip(job["plan"]["threads"], r["outcomes"]):
            for op, o in zip(t["ops"], outs):
                self.must_raise(job, op, o)
        for ns in r.get("nested", ()):
            for o in ns:
                self.must_raise(job, o["op"], o)

    def must_raise(self, job, op, o):
        if "w" not in op or "ab" in o or op["k"].startswith("!"):
            return
        self.stats["invalid_requests"] += 1
        if "d" in o:
            self.violation(job, ["accepted", f"invalid request ({op['w']}) {op['k']} {json.dumps([op.get('a'), op.get('kw')])[:400]} gave a value instead of an error", ""])


def c07(c: Campaign):
    rnd = 0
    lp = LinePicker()
    while True:
        rng = c.rng("pool", rnd)
        invnames = ["inv." + w for w in gen.INV]
        bad = []
        for n in invnames:
            ss = rng.randrange(10**9)
            bad.append(gen.make(n, ss, rng.randrange(10**9)))
            for _ in range(_scale(c, 1, 4)):
                bad.append(gen.make(n, rng.randrange(10**9), rng.randrange(10**9)))
        badpool = OpPool(bad)
        good = OpPool([o for o in corpus_pool(rng, hows=(), share=0).ops if "invalid" not in gen.KINDS[o["n"]]["tags"]])
        allp = OpPool(badpool.ops + good.ops)
        c.golden(allp.ops, {"proflines": 1})
        pf = _profs(c)
        pk, pkb = Picker(good, pf), Picker(badpool, pf)
        ctor = [o for o in good.ops if gen.KINDS[o["n"]]["tags"] & {"ctor", "conv", "dist", "op", "frame", "arith"}]
        plans = []
        order = []
        for r in range(_scale(c, 420, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)
            ops = []
            while len(ops) < 14:
                if not order:
                    order = list(invnames)
                    rng.shuffle(order)
                nm = pkb.op(rr)["n"] if pkb.codes and rr.random() < 0.4 else order.pop()
                b = copy.deepcopy(rr.choice(badpool.by_kind[nm]))
                g = pk.op(rr) if rr.random() < 0.5 else copy.deepcopy(rr.choice(ctor))
                # the valid request most like the invalid one
                if rr.random() < 0.5:
                    mine = set(pf(b).get("codes", ()))
                    g = copy.deepcopy(max(rr.sample(ctor, min(12, len(ctor))), key=lambda o: len(mine & set(pf(o).get("codes", ())))))
                script = rr.choice(["bb", "gb", "Gb", "Bb", "gbgb", "bGb", "BGb", "gBgb", "bbbb", "Kb", "bKb", "gKb", "jb", "jbjb"])
                for ch in script:
                    if ch == "b":
                        ops.append(copy.deepcopy(b))
                    elif ch == "B":
                        ops.append(cut(b))
                    elif ch == "g":
                        ops.append(copy.deepcopy(g))
                    elif ch == "G":
                        ops.append(cut(g))
                    elif ch == "K":
                        ops.append({"k": rr.choice(["!clear", "!eqxclear", "!plumclear", "!gc"])})
                    elif ch == "j":  # the valid request inside a transformation, perhaps abandoned
                        o = copy.deepcopy(g)
                        o["m"] = rr.choice(["jit1", "abandon"])
                        ops.append(o)
            threads = [ops]
            q = rr.random()
            if q < 0.25:
                h = len(ops) // 2
                threads = [ops[:h], ops[h:]]
                sched_pair(rr, threads, pf)
            elif q < 0.35:
                nest(rr, ops[0], pf(ops[0]), copy.deepcopy(rr.choice(badpool.ops)))
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C07", "setup": {"share": rr.random() < 0.3, "hooks": ["domain"], "nojit": rr.random() < 0.15, "warn": rr.choice(["always", "always", "always", "error"])},
                          "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            c.hashes.add(r["hash"] + json.dumps([key_of(o) for t in job["plan"]["threads"] for o in t["ops"]])[:4000])
            _sample(c, {**job["plan"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:3]}]}, "first three calls")
            c.judge(job, r)
        c.run_plans(plans, on)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish(f"{len(gen.INV)} kinds of invalid request repeated, before and after valid, failing, interrupted, compiled and abandoned ones, after evictions, in threads and re-entrantly; each must "
                    "raise; every vector any plain call returns must satisfy the domain rules of its class. Non-trivial: every run holds invalid requests; distinct by calls and schedule.",
                    len(c.hashes))


# ------------------------------------------------------------------ C08
LOSE3 = ["CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "ProlateSpheroidalPos"]


def lossy_ops(rng, n):
    """Conversions that drop a dimension."""
    out = []
    pairs = [(a, b) for a in LOSE3 for b in gen.POS2 + gen.POS1] + [(a, b) for a in gen.POS2 for b in gen.POS1]
    for a, b in pairs:
        for _ in range(n):
            o = gen.OP(rng.choice(["rep", "repf"]), gen.pos(rng, rng, a), ["cls", b])
            o["n"] = f"lossy.{a}.{b}"
            o["lose"] = 1
            out.append(o)
    return out


class C08(Campaign):
    def judge(self, job, r):
        for v in r.get("viol", ()):
            self.inrun(job, r, v)
        plan = job["plan"]
        for t, outs in zip(plan["threads"], r["outcomes"]):
            mode = plan.get("setup", {}).get("warn", "always")
            for op, o in zip(t["ops"], outs):
                if op["k"] == "!filter":
                    mode = op["mode"]
                self.rule(job, op, o, mode)
        for ns in r.get("nested", ()):
            for o in ns:
                self.rule(job, o["op"], o, plan.get("setup", {}).get("warn", "always"))
        # results, errors and warnings of all other calls
        if all(o["k"] != "!filter" for t in plan["threads"] for o in t["ops"]) and plan.get("setup", {}).get("warn", "always") == "always":
            self.compare(job, r)

    def rule(self, job, op, o, mode):
        if "ab" in o or op["k"].startswith("!") or op.get("m") or o.get("sim"):
            return
        W = "IrreversibleDimensionChange"
        n = sum(1 for w in o.get("w", ()) if w == W)
        raised = (o.get("e") or "").endswith(W)
        self.stats["warning_rule"] += 1
        d = f"{op['k']} {json.dumps(op.get('a'))[:300]}"
        if op.get("lose"):
            if mode == "always" and (n == 0 or "e" in o):
                self.violation(job, ["silent", f"losing conversion {d} gave {n} warnings" + (f" and raised {o['e']}" if "e" in o else ""), ""])
            elif mode == "error" and not raised:
                self.violation(job, ["silent", f"losing conversion {d} did not raise the warning turned into an error", ""])
            elif mode == "ignore" and ("e" in o or n):
                self.violation(job, ["spurious", f"losing conversion {d} with warnings ignored: {o.get('e')} {n} warnings", ""])
        elif op.get("lossless") and (n or raised):
            self.violation(job, ["spurious", f"conversion {d} loses no dimension but warned", ""])


def c08(c: Campaign):
    rnd = 0
    lp = LinePicker()
    while True:
        rng = c.rng("pool", rnd)
        lossy = lossy_ops(rng, _scale(c, 2, 3))
        keep = []
        kinds = {k for k, d in gen.KINDS.items() if "conv" in d["tags"] and k != "repdown"}
        for o in build_pool(rng, kinds=kinds, nstruct=_scale(c, 2, 4), hows=(), nval=0).ops:
            o["lossless"] = 1
            keep.append(o)
        other = build_pool(rng, kinds={k for k, d in gen.KINDS.items() if d["tags"] & {"disp", "apy", "arith", "frame", "op"} and d["cost"] <= 4}, nstruct=1, hows=(), nval=0).ops
        pool = OpPool(lossy + keep + other)
        lp_ = OpPool(lossy)
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        pk, pkl = Picker(pool, pf), Picker(lp_, pf)
        plans = []
        order = []
        for r in range(_scale(c, 420, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)

            def loss():
                if not order:
                    order.extend(lp_.by_kind)
                    rng.shuffle(order)
                if pkl.codes and rr.random() < 0.4:
                    return pkl.op(rr)
                return copy.deepcopy(rr.choice(lp_.by_kind[order.pop()]))
            ops = []
            style = rr.choice(["seq", "seq", "modes", "threads", "threads", "error", "nest"])
            while len(ops) < 12:
                a = loss()
                script = rr.choice(["aa", "aaa", "bac", "caa", "AaCa", "Aa", "kaka", "aka", "acac", "oa", "aoa"])
                for ch in script:
                    if ch == "a":
                        ops.append(copy.deepcopy(a))
                    elif ch == "b":
                        ops.append(loss())
                    elif ch == "c":
                        ops.append(copy.deepcopy(rr.choice(keep)))
                    elif ch == "A":
                        ops.append(cut(a))
                    elif ch == "C":
                        ops.append(cut(rr.choice(keep)))
                    elif ch == "o":
                        ops.append(pk.op(rr))
                    elif ch == "k":
                        ops.append({"k": rr.choice(["!clear", "!eqxclear", "!plumclear", "!gc"])})
                if style == "modes" and rr.random() < 0.6:
                    ops.append({"k": "!filter", "mode": rr.choice(["always", "ignore", "error", "always"])})
            setup = {"share": rr.random() < 0.3, "warn": "error" if style == "error" else "always"}
            threads = [ops]
            if style == "threads":
                b = pk.op(rr)
                threads = [ops[:4], [o for o in ops[4:8] if not o["k"].startswith("!")] + [b], [pk.op(rr), copy.deepcopy(ops[0])]][: rr.choice((2, 3))]
                sched_pair(rr, threads, pf)
            elif style == "nest":
                nest(rr, ops[0], pf(ops[0]), pk.op(rr) if rr.random() < 0.5 else loss())
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C08", "setup": setup, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            c.hashes.add(r["hash"] + json.dumps([key_of(o) for t in job["plan"]["threads"] for o in t["ops"]])[:4000])
            _sample(c, {**job["plan"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:4]}]}, "first four calls")
            c.judge(job, r)
        c.run_plans(plans, on)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("all 24 registered dimension-losing conversions (several shapes and units) and the lossless ones, repeated, interrupted, after evictions, with warnings shown, ignored or turned into "
                    "errors over stretches of a session, in preempted threads and re-entrantly among other calls; each losing call must warn (or raise), no other may. Non-trivial: every run; "
                    "distinct by calls and schedule.", len(c.hashes))


# ------------------------------------------------------------------ C12
def c12(c: Campaign):
    rnd = 0
    lp = LinePicker()
    c.use_golden = False
    while True:
        rng = c.rng("pool", rnd)
        names = list(gen.KINDS)
        forms = {}
        for n in names:
            forms[n] = [(rng.randrange(10**9), [rng.randrange(10**9) for _ in range(6)]) for _ in range(_scale(c, 1, 2))]
        pool = OpPool([gen.make(n, ss, vs[0]) for n, fs in forms.items() for ss, vs in fs])
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        pk = Picker(pool, pf)
        plans = []
        order = []
        for r in range(_scale(c, 300, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)
            ops = []
            sel = []
            while len(sel) < 4:
                if not order:
                    order = list(names)
                    rng.shuffle(order)
                n = pk.op(rr)["n"] if pk.codes and rr.random() < 0.4 else order.pop()
                if n not in sel:
                    sel.append(n)
            stretch = []
            for n in sel:
                ss, vs = rr.choice(forms[n])
                f = [gen.make(n, ss, v) for v in vs]
                if rr.random() < 0.4 and gen.KINDS[n]["modes"]:
                    for o in f:
                        o["m"] = rr.choice(["jit", "jit1"]) if False else "jit"
                ops += [copy.deepcopy(f[0]), copy.deepcopy(f[1])]
                g = [copy.deepcopy(x) for x in f[2:]]
                base = pf(gen.make(n, ss, vs[0]))
                out = []
                for x in g:
                    if rr.random() < 0.4:
                        y = copy.deepcopy(x)
                        k = lp.pick(rr, base)
                        if k:
                            y["ab"] = [[k, rr.choice(ABORTS)]]
                            ops.append(copy.deepcopy(y))  # the same interruption during warm-up
                            out.append(y)
                    out.append(x)
                stretch.append(out)
            # operations that were interrupted while warming up run once more whole
            ops += [copy.deepcopy(x[-1]) for x in stretch]
            body = []
            while any(stretch):
                s = rr.choice([x for x in stretch if x])
                body.append(s.pop(0))
            threads = [ops + [{"k": "!watch"}] + body + [{"k": "!check"}]]
            for t in threads:
                _steps(c, t)
            plans.append({"prop": "C12", "setup": {"hooks": ["mem"]}, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})

        def on(job, r):
            c.hashes.add(json.dumps([key_of(o) for t in job["plan"]["threads"] for o in t["ops"] if o["k"][0] != "!"])[:4000])
            _sample(c, {**job["plan"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:3]}]}, "first three calls")
            c.judge(job, r)
        c.run_plans(plans, on, timeout=100)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("after a warm-up (each call twice, each interruption once), calls with new values of the same types, units and shapes, completed, failing, compiled or interrupted; then, all results "
                    "dropped and a full collection done: no array made since the warm-up is alive, no argument is alive, and no container or cache reachable from the library's modules, classes and "
                    "functions has grown. Non-trivial: every run; distinct by sequence of calls.", len(c.hashes))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C12": c12, "C13": c13}
TECH = {
    "C01": "seeded preemption of client threads and re-entrant calls at library instructions, refinement against solo runs",
    "C02": "seeded interruption of calls at library source lines, recovery compared with solo runs",
    "C03": "seeded observation points, interruptions and preemptions during calls, digests of every held object",
    "C04": "seeded call histories with cache eviction and collections, refinement against solo runs",
    "C05": "seeded orders of compiled, differentiated, mapped, abandoned and plain calls, refinement against solo runs",
    "C06": "seeded interruptions and interleavings, process settings as an invariant",
    "C07": "seeded histories, interruptions and interleavings around invalid requests, rejection and domain rules as invariants",
    "C08": "seeded histories, interruptions, interleavings and warning modes, one warning per losing conversion as invariant",
    "C09": "seeded writer crash and restart in other processes, restored objects compared with the originals",
    "C10": "seeded import orders, importing threads and loader failures",
    "C11": "seeded extension points, failures and interleavings, refinement against processes without the extension",
    "C12": "seeded long sessions with interruptions, live arrays and library-held objects as invariants",
    "C13": "seeded schedules, stalls, kills and re-entry, progress within a step budget",
    "C14": "replicas in different start-up environments compared step by step",
    "C15": "seeded sessions with faults, crash and resume, refinement against a float64 reference model",
}


def campaign(prop, seed, tier):
    from . import confs
    return CLASSES.get(prop, Campaign)(prop, seed, tier, confs=getattr(confs, prop, confs.BASE))


CLASSES = {"C07": C07, "C08": C08}
from . import props2  # noqa: E402

CHECKS.update(props2.CHECKS)
CLASSES.update(props2.CLASSES)
