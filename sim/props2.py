"""Campaigns over several processes: replicas, crash and restart, import, extension, reference model."""
from __future__ import annotations

import copy
import json

from . import gen
from .core import Campaign, ck, clean, describe, key_of
from .plans import OpPool, Picker, build_pool, corpus_pool, sched_pair
from .props import Q, _profs, _sample, _scale, _steps, cutter
from .plans import LinePicker

MODULES = ["coordinax", "coordinax.vecs", "coordinax.ops", "coordinax.frames", "coordinax.distance", "coordinax.angle"]


# ------------------------------------------------------------------ C14
class C14(Campaign):
    """Every plan also runs as a replica in another environment (``job["variant"]``)."""
    use_golden = False

    def variant(self, job):
        v = job["variant"]
        j = copy.deepcopy({k: x for k, x in job.items() if k != "variant"})
        j["conf"] = v["conf"]
        j["plan"]["setup"].update(v["setup"])
        return j

    def judge(self, job, r):
        vj = self.variant(job)
        r2 = self.check_res(vj, self.pool.one(vj))
        if r2 is None:
            return
        for ti, (t, A, B) in enumerate(zip(job["plan"]["threads"], r["outcomes"], r2["outcomes"])):
            for i, (op, a, b) in enumerate(zip(t["ops"], A, B)):
                if op["k"].startswith("!") or "ab" in a or "ab" in b:
                    continue
                self.stats["compared"] += 1
                if not self.same(op, a, b, job["variant"]["conf"]):
                    a1, b1 = self.where(job, ti, i)
                    if not self.same(op, a1, b1, job["variant"]["conf"]):
                        self.violation(job, ["replica", f"thread {ti} call {i}: {op['k']} {json.dumps(clean(op))[:400]}: base environment {describe(a1)}; environment {json.dumps(job['variant'])} {describe(b1)}", ""])
                        return

    def same(self, op, a, b, conf):
        if conf == "tc" and "d" not in a:   # the type checker may reject an invalid request first, with its own error
            return ("d" in a) == ("d" in b)
        return ck(a, op) == ck(b, op)

    def where(self, job, ti, i):
        """Run both replicas again and show the call."""
        j = copy.deepcopy(job)
        j["plan"].setdefault("setup", {})["show"] = 1
        a = self.check_res(j, self.pool.one(j))
        vj = self.variant(j)
        b = self.check_res(vj, self.pool.one(vj))
        if a is None or b is None:
            return {}, {}
        return a["outcomes"][ti][i], b["outcomes"][ti][i]


def c14(c: Campaign):
    rnd = 0
    lp = LinePicker()
    envs = {}
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng, hows=("unit",), share=0.1)
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        pk = Picker(pool, pf)
        names = list(pool.by_kind)
        good = [n for n in names if "invalid" not in gen.KINDS[n]["tags"]]
        plans = []
        order = {"tc": [], "*": []}
        confs = ["hash", "opt", "tc", "oo"]
        for r in range(_scale(c, 400, 3000)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)
            conf = confs[r % len(confs)]
            o = order["tc" if conf == "tc" else "*"]
            ops = []
            while len(ops) < 10:
                if not o:
                    o.extend(good if conf == "tc" else names)
                    rng.shuffle(o)
                x = pk.op(rr) if rr.random() < 0.3 else copy.deepcopy(rr.choice(pool.by_kind[o.pop()]))
                if conf == "tc" and "invalid" in gen.KINDS[x["n"]]["tags"]:
                    continue
                if rr.random() < 0.25:
                    ops.append(cut(x))
                ops.append(x)
                if gen.KINDS[x["n"]]["modes"] and rr.random() < 0.15:
                    ops.append({**copy.deepcopy(x), "m": rr.choice(["jit", "vmap"])})
                if rr.random() < 0.1:
                    ops.append({"k": rr.choice(["!clear", "!gc", "!plumclear"])})
            su = {}
            if rr.random() < 0.5:
                su["first_import"] = rr.choice(MODULES)
            if rr.random() < 0.5:
                su["rng"] = rr.randrange(2**31)
            if rr.random() < 0.5:
                su["clock"] = rr.choice([-1.59e9, 3e8, 1e9, -86400.0 * 60])
                su["clockstep"] = rr.choice([1e-7, 1e-3, 5.0])
            if rr.random() < 0.4:
                su["tz"] = rr.choice(["America/New_York", "Pacific/Kiritimati", "UTC-14"])
            if rr.random() < 0.4:
                su["cwd"] = rr.choice(["a", "with space", "d%41"])
            if rr.random() < 0.3 and conf != "oo":
                su["locale"] = rr.choice(["C", "POSIX", "C.utf8"])
            setup = {"share": rr.random() < 0.3}
            threads = [ops]
            if rr.random() < 0.15:
                threads = [ops[: len(ops) // 2], ops[len(ops) // 2:]]
                for t in threads:
                    for x in t:
                        x.pop("ab", None)
                sched_pair(rr, threads, pf)
            for t in threads:
                _steps(c, t)
            plans.append(({"prop": "C14", "setup": setup, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]}, {"conf": conf, "setup": su}))

        def on(job, r):
            c.hashes.add(json.dumps([job["variant"], [key_of(o) for t in job["plan"]["threads"] for o in t["ops"]]])[:4000])
            envs[job["variant"]["conf"]] = envs.get(job["variant"]["conf"], 0) + 1
            for k in job["variant"]["setup"]:
                envs[k] = envs.get(k, 0) + 1
            _sample(c, {"variant": job["variant"], "threads": [{"ops": job["plan"]["threads"][0]["ops"][:3]}]}, "first three calls")
            c.judge(job, r)
        c.run_plans([p for p, _ in plans], on, variants=[v for _, v in plans])
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("the same seeded session (calls, interruptions, preemptions, evictions) as a base process and as a replica with another hash seed, address layout, optimisation level, type checker, "
                    "locale, time zone, clock, random seed, working directory or first import; outcomes compared step by step, bit for bit. Non-trivial: every pair of replicas; distinct by session and "
                    "environment.", len(c.hashes), extra={"replica_environments": envs})


# ------------------------------------------------------------------ C15
class C15(Campaign):
    """Every acknowledged result is compared with the reference model's."""
    use_golden = False

    def follow(self, ops, outs, env, acked, where):
        """Check one client's steps; ``env`` holds the values later steps start from, ``acked`` their exact contents."""
        from . import model as M
        from .session import needs
        for i, (op, o) in enumerate(zip(ops, outs)):
            if op["k"].startswith("!") or "ab" in o:
                continue
            if any(n not in env for n in needs(op)):
                continue
            self.stats["compared"] += 1
            out = op.get("out")
            desc = f"{where} step {i}: {op['k']} {json.dumps(clean(op))[:600]} on {({n: repr(env[n])[:300] for n in needs(op)})}"
            try:
                exp, at = M.predict(op, env)
            except M.NoModel:
                self.stats["outside_model"] += 1
                if out and "x" in o and not op.get("free"):
                    v = M.read_out(o["x"])
                    if v is not None:
                        env[out], acked[out] = v, o["x"]
                continue
            if "x" not in o:
                if ("e" in o or "b" in o) and not op.get("may") and not op.get("free"):
                    return ["refused", f"{desc}: raised {o.get('e') or o.get('b')}; the model gives {exp!r}"[:1800], ""]
                continue
            if op.get("free") and not sane(exp):
                self.stats["outside_range"] += 1
                continue
            if isinstance(exp, (M.Oper, M.Frame)):
                if o["x"]["t"] != "obj":
                    return ["model", f"{desc}: the result is no operator: {json.dumps(o['x'])[:300]}", ""]
                if out:
                    env[out], acked[out] = exp, o["x"]
                continue
            got = M.read_out(o["x"])
            if got is None:
                if op.get("free"):
                    continue
                return ["model", f"{desc}: the result has no components: {json.dumps(o['x'])[:300]}; the model gives {exp!r}"[:1800], ""]
            e = M.compare(exp, got, at)
            if e:
                return ["model", f"{desc}: the library gives {got!r}; the model gives {exp!r}: {e}"[:2400], ""]
            if out:
                env[out], acked[out] = got, o["x"]
        return None

    def judge(self, job, r):
        v = self.judge1(job, r, {}, {})
        if v:
            self.violation(job, v)

    def judge1(self, job, r, env, acked):
        plan = job["plan"]
        su = plan.get("setup", {})
        for x in r.get("viol", ()):
            self.inrun(job, r, x)
        for n, x in r.get("restored", {}).items():
            if n in acked and x != acked[n]:
                return ["restored", f"the stored object {n} was {json.dumps(acked[n])[:500]}; read back after the crash it is {json.dumps(x)[:500]}", ""]
        if su.get("pre"):
            v = self.follow(su["pre"], r.get("pre", []), env, acked, "set-up")
            if v:
                return v
        for ti, (t, outs) in enumerate(zip(plan["threads"], r["outcomes"])):
            v = self.follow(t["ops"], outs, env, acked, f"client {ti}" if len(plan["threads"]) > 1 else "session")
            if v:
                return v
        for n, x in r.get("audit", {}).items():
            if n in acked and x != acked[n]:
                return ["audit", f"the result {n} was {json.dumps(acked[n])[:500]} when it was returned; at the end of the session it is {json.dumps(x)[:500]}", ""]
        if r.get("crashed"):
            return self.resume(job, r, env, acked)
        return None

    def resume(self, job, r, env, acked):
        """The process is gone; a new one continues from the objects the client had stored."""
        tid, opi = r["crashed"]
        ops = job["plan"]["threads"][0]["ops"]
        outs = r["outcomes"][0]
        log = [(i, op["out"], o["pk"]) for i, (op, o) in enumerate(zip(ops, outs)) if "pk" in o and op.get("out") in acked]
        for op, o in zip(ops, outs):
            if "pke" in o:
                return ["store", f"the result of {json.dumps(clean(op))[:400]} could not be stored: {o['pke']}", ""]
        start = opi
        if job.get("torn") and log:   # the last record did not reach the disk
            start = log[-1][0]
            lost = log[-1][1]
            log = [x for x in log if x[1] != lost]
            env.pop(lost, None)
            acked.pop(lost, None)
        stored = {n: pk for _, n, pk in log}
        for n in list(env):
            if n not in stored:
                env.pop(n), acked.pop(n, None)
        rest = []
        for op in copy.deepcopy(ops[start:]):
            op.pop("cr", None)
            rest.append(op)
        su = {k: v for k, v in job["plan"]["setup"].items() if k != "pre"}
        su["restore"] = stored
        j2 = {"type": "run", "plan": {"prop": "C15", "setup": su, "threads": [{"ops": rest}]}, "conf": job.get("resume_conf", "base"), "timeout": job.get("timeout", 60)}
        r2 = self.check_res(j2, self.pool.one(j2))
        if r2 is None:
            return None
        self.stats["crash_resumes"] += 1
        return self.judge1(j2, r2, env, acked)


def sane(x):
    """Within the range of single precision, with room for intermediate results."""
    import numpy as np

    from . import model as M
    hi = 1e14   # kilometres and seconds; squares of metres still fit

    def ok(v):
        v = np.abs(np.asarray(v, dtype=complex))
        return bool(np.all(np.isfinite(v)) and np.all((v < hi)))
    if isinstance(x, M.V):
        return all(ok(v) for v in x.c.values())
    if isinstance(x, M.QV):
        return ok(x.v)
    if isinstance(x, M.Four):
        return sane(x.ti) and sane(x.q)
    if isinstance(x, M.Sp):
        return all(sane(v) for v in x.parts.values())
    if isinstance(x, M.Tup):
        return all(sane(v) for v in x.x)
    return True


def c15(c):
    from .session import session
    rnd = 0
    lp = LinePicker()
    kinds = {}
    faultkinds = {}
    while True:
        rng = c.rng("pool", rnd)
        NS = _scale(c, 56, 400)
        SU = {"hooks": ["vals"], "audit": 1}
        plans, sess = [], []
        for s in range(NS):
            rr = c.rng("session", rnd, s)
            roots, branches = session(rr, 8, 7, 2)
            ops = roots + branches[0] + branches[1]
            sess.append((roots, branches))
            plans.append({"prop": "C15", "setup": {**SU, "proflines": 1}, "profile": True, "threads": [{"ops": ops}], "sid": s, "seed": [c.seed, rnd, s]})
        # single calls of every kind the model covers
        pool = corpus_pool(rng, hows=("near", "unit", "units"), share=0.5, docs=False)
        free = [o for o in pool.ops if not ({"disp", "invalid", "doc"} & gen.KINDS[o["n"]]["tags"])]
        rng.shuffle(free)
        for i in range(0, len(free), 24):
            plans.append({"prop": "C15", "setup": {**SU, "audit": 0}, "threads": [{"ops": [{**o, "free": 1} for o in free[i:i + 24]]}], "seed": [c.seed, rnd, "calls", i]})
        profs = {}

        def on(job, r):
            p = job["plan"]
            if "sid" in p:
                for op, o in zip(p["threads"][0]["ops"], r["outcomes"][0]):
                    profs[(p["sid"], op["out"])] = {k: o[k] for k in ("n", "l", "int", "hot", "hotl", "hotn", "lines") if k in o}
                    kinds[op["k"]] = kinds.get(op["k"], 0) + 1
            c.hashes.add(json.dumps([key_of(o) for t in p["threads"] for o in t["ops"]])[:4000])
            _sample(c, {**p, "threads": [{"ops": p["threads"][0]["ops"][:5]}]}, "first five steps")
            c.judge(job, r)
        c.run_plans(plans, on)
        if c.viols:
            break
        jobs, extra = [], []
        for s, (roots, branches) in enumerate(sess):
            for f in range(_scale(c, 4, 8)):
                rr = c.rng("fault", rnd, s, f)
                pf = lambda op, s=s: profs.get((s, op.get("out")), {})  # noqa: E731
                cut = cutter(rr, lp, pf)
                style = ("crash", "abort", "threads", "threads")[f % 4]
                job = {"conf": "base"}
                su = dict(SU)
                if style == "threads":
                    th = [copy.deepcopy(b) for b in branches]
                    su["pre"] = copy.deepcopy(roots)
                    if rr.random() < 0.4:
                        for t in th:
                            faults(rr, t, cut, 0.12)
                    sched_pair(rr, th, pf)
                else:
                    ops = copy.deepcopy(roots + branches[0] + branches[1])
                    faults(rr, ops, cut, 0.35 if style == "abort" else 0.12)
                    if style == "crash":
                        su["log"] = 1
                        i = rr.randrange(2, len(ops))
                        while ops[i]["k"].startswith("!") or "ab" in ops[i]:
                            i = rr.randrange(2, len(ops))
                        k = lp.pick(rr, pf(ops[i]))
                        if k:
                            ops[i]["cr"] = k
                        job["torn"] = rr.random() < 0.3
                        job["resume_conf"] = rr.choice(["base", "base", "hash", "opt"])
                    th = [ops]
                if rr.random() < 0.1:
                    su["nojit"] = True
                faultkinds[style] = faultkinds.get(style, 0) + 1
                jobs.append({"prop": "C15", "setup": su, "threads": [{"ops": t} for t in th], "seed": [c.seed, rnd, s, f]})
                extra.append(job)
        order = list(range(len(jobs)))
        rng.shuffle(order)
        c.run_plans([jobs[i] for i in order], lambda job, r: (c.hashes.add(r.get("hash")), c.judge(job, r)), attrs=[extra[i] for i in order])
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("sessions of 22 steps chained through stored results (positions, velocities, accelerations, phase-space points, four-vectors, operators, frames), run fault-free, with interruptions and "
                    "retries, evictions and collections, as two clients sharing the same objects under seeded preemption, and with a crash at a seeded source line followed by a new process that continues "
                    "from the pickled results; plus single calls of every kind the model covers. Every acknowledged result is compared with an independent float64 model, and every stored object "
                    "again at the end. Non-trivial: every session; distinct by steps and by fault and switch sequence.", len(c.hashes), extra={"steps_by_kind": kinds, "fault_runs_by_style": faultkinds})


def faults(rr, ops, cut, p):
    """Interrupt steps (each is retried) and evict caches in between."""
    i = 0
    while i < len(ops):
        if not ops[i]["k"].startswith("!") and rr.random() < p:
            a = cut(ops[i])
            if a.get("ab"):
                ops.insert(i, a)
                i += 1
        if rr.random() < 0.06:
            ops.insert(i, {"k": rr.choice(["!clear", "!eqxclear", "!plumclear", "!gc"])})
            i += 1
        i += 1


# ------------------------------------------------------------------ C09
LIBSPECS = {"vec", "angle", "Distance", "Parallax", "DistanceModulus", "op", "frame", "fop", "space", "q", "qi", "docenv", "map", "tup", "lst", "stored"}


class C09(Campaign):
    """Calls on copies and on stored objects have the outcome of the call on the original."""

    def judge(self, job, r):
        plan = job["plan"]
        if "readers" in job:
            self.writer(job, r)
            return
        super().judge(job, r)

    def cmp1(self, op, o, sig, setup, where):
        if "ld" in op:   # reading a stored result gives no warnings
            g = self.gold.get((key_of(clean(op)), sig)) or self.solo(op, setup) or {}
            o = {**{k: v for k, v in o.items() if k != "w"}, **({"w": g["w"]} if "w" in g else {})}
        return super().cmp1(op, o, sig, setup, where)

    def writer(self, job, r):
        """Judge the writer, then run the readers over what it had stored when it finished or crashed."""
        n = len(self.viols)
        Campaign.judge(self, job, r)
        if len(self.viols) > n:
            return
        logs = []
        for t, outs in zip(job["plan"]["threads"], r["outcomes"]):
            for op, o in zip(t["ops"], outs):
                if o.get("log"):
                    logs.append((clean(op), o["log"]))
        self.stats["stored_objects"] += sum(len(x) for _, x in logs)
        if r.get("crashed"):
            self.stats["crashes"] += 1
        for rd in job["readers"]:
            rj = self.reader(job, rd, logs)
            if rj is None:
                continue
            n = len(self.viols)
            r2 = self.check_res(rj, self.pool.one(rj))
            if r2 is None:
                continue
            self.stats["reader_runs"] += 1
            Campaign.judge(self, rj, r2)
            if len(self.viols) > n:   # the reader alone shows it: its plan holds the stored bytes
                return

    def reader(self, job, rd, logs):
        import random
        rr = random.Random(json.dumps(rd["seed"]))
        if not logs:
            return None
        lost = rd.get("torn") and len(logs) > 1
        logs = logs[:-1] if lost else logs   # the last record did not reach the disk
        ops = []
        su = {"share": rr.random() < 0.4}
        for k in ("first_import", "rng", "cwd"):
            if k in rd:
                su[k] = rd[k]
        for op, log in logs:
            args = {k: v for k, v in log.items() if k != "r"}
            uses = []
            if "r" in log:
                o = {**copy.deepcopy(op), "ld": log["r"]}
                uses.append(o)
                if rd.get("early") and rr.random() < 0.3:
                    nm = f"e{len(su.setdefault('early', {}))}"
                    su["early"][nm] = log["r"]
                    uses.append({**copy.deepcopy(op), "ld": "@" + nm})
            if args:
                sub = args if rr.random() < 0.6 else {k: args[k] for k in rr.sample(sorted(args), 1)}
                o = {**copy.deepcopy(op), "pk": sub}
                if rr.random() < 0.2:
                    o["via"] = {rr.choice(sorted(sub)): [rr.choice(["copy", "deepcopy", "p5", "p2", "tree", "jitid"])]}
                uses.append(o)
                if rr.random() < 0.2:
                    uses.append(copy.deepcopy(o))   # read again
            for o in uses:
                if rr.random() < rd["pab"]:
                    p = self.prof.get((key_of(clean(o)), ""), {})
                    n = p.get("l", 0)
                    if n and "ld" not in o:
                        ops.append({**copy.deepcopy(o), "ab": [[rr.randint(1, n), rr.choice(["KeyboardInterrupt", "MemoryError", "TimeoutError"])]]})
                ops.append(o)
            if rr.random() < 0.08:
                ops.append({"k": rr.choice(["!clear", "!gc", "!plumclear", "!eqxclear"])})
        threads = [ops]
        if rd.get("threads"):   # several threads read the same stored objects
            threads = [ops, [copy.deepcopy(o) for o in ops]]
            for t in threads:
                for x in t:
                    x.pop("ab", None)
            sched_pair(rr, threads, lambda o: self.prof.get((key_of(clean(o)), ""), {}))
        return {"type": "run", "conf": rd["conf"], "timeout": 90, "plan": {"prop": "C09", "setup": su, "threads": [{"ops": t} for t in threads], "seed": rd["seed"]}}


def storable(op):
    """Operands that are objects of the library: positions and names."""
    out = [str(i) for i, s in enumerate(op.get("a", ())) if isinstance(s, list) and s and s[0] in LIBSPECS]
    return out + [k for k, s in op.get("kw", {}).items() if isinstance(s, list) and s and s[0] in LIBSPECS]


def c09(c):
    from .ops import FORMS
    rnd = 0
    lp = LinePicker()
    forms, envs = {}, {}
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng, hows=("unit", "one"), share=0.1)
        c.golden(pool.ops, {"proflines": 1})
        pf = _profs(c)
        ops = [o for o in pool.ops if "disp" not in gen.KINDS[o["n"]]["tags"] or rng.random() < 0.5]
        order = []
        plans, attrs = [], []

        def draw(rr):
            if not order:
                order.extend(ops)
                rng.shuffle(order)
            return copy.deepcopy(order.pop())

        for r in range(_scale(c, 330, 2600)):
            rr = c.rng("run", rnd, r)
            cut = cutter(rr, lp, pf)
            if r % 2 == 0:   # copies within one process
                seq = []
                while len(seq) < 16:
                    x = draw(rr)
                    st = storable(x)
                    if rr.random() < 0.2:
                        seq.append(cut(x) if rr.random() < 0.5 else copy.deepcopy(x))
                    if st and (rr.random() < 0.8 or x.get("m", "eager") != "eager"):
                        via = {}
                        for k in st:
                            if rr.random() < 0.75:
                                via[k] = [rr.choice(FORMS) for _ in range(rr.choice((1, 1, 2)))]
                        if via:
                            x["via"] = via
                    if rr.random() < 0.5 and not x.get("via") or rr.random() < 0.25:
                        if x.get("m", "eager") in ("eager", "jit", "jit1", "vmap", "jitc"):
                            x["post"] = [rr.choice(FORMS) for _ in range(rr.choice((1, 1, 2)))]
                    for f in [g for v in x.get("via", {}).values() for g in v] + x.get("post", []):
                        forms[f] = forms.get(f, 0) + 1
                    if "via" not in x and "post" not in x:
                        continue
                    if rr.random() < 0.2:
                        seq.append(cut(x))
                    seq.append(x)
                threads = [seq]
                if rr.random() < 0.2:
                    threads = [seq[:8], seq[8:]]
                    for t in threads:
                        for x in t:
                            x.pop("ab", None)
                    sched_pair(rr, threads, pf)
                plans.append({"prop": "C09", "setup": {"share": rr.random() < 0.4}, "threads": [{"ops": t} for t in threads], "seed": [c.seed, rnd, r]})
                attrs.append({})
                continue
            seq = []
            while len(seq) < 14:
                x = draw(rr)
                if x.get("m", "eager") not in ("eager", "jit", "jit1"):
                    continue
                if rr.random() < 0.15:
                    seq.append(cut(x))
                x = copy.deepcopy(x)
                x["sv"], x["proto"] = 1, rr.choice((0, 2, 3, 4, 5, 5))
                seq.append(x)
                if rr.random() < 0.08:
                    seq.append({"k": rr.choice(["!clear", "!gc", "!plumclear"])})
            su = {"hooks": ["store"], "share": rr.random() < 0.3}
            if rr.random() < 0.5:
                i = rr.randrange(2, len(seq))
                while i < len(seq) - 1 and (seq[i]["k"].startswith("!") or "ab" in seq[i]):
                    i += 1
                k = lp.pick(rr, pf(seq[i])) if not seq[i]["k"].startswith("!") else None
                if k and "ab" not in seq[i]:
                    seq[i]["cr"] = k
            rds = []
            for j in range(rr.choice((1, 1, 2))):
                rd = {"seed": [c.seed, rnd, r, j], "conf": rr.choice(["base", "base", "hash", "opt", "oo"]), "torn": rr.random() < 0.3, "early": rr.random() < 0.5,
                      "pab": rr.choice((0, 0.15)), "threads": rr.random() < 0.25}
                if rr.random() < 0.4:
                    rd["first_import"] = rr.choice(MODULES)
                if rr.random() < 0.3:
                    rd["cwd"] = rr.choice(["a", "with space"])
                envs[rd["conf"]] = envs.get(rd["conf"], 0) + 1
                rds.append(rd)
            plans.append({"prop": "C09", "setup": su, "threads": [{"ops": seq}], "seed": [c.seed, rnd, r]})
            attrs.append({"readers": rds, "conf": rr.choice(["base", "base", "opt", "hash"]), "timeout": 90})

        def on(job, r):
            if "readers" in job:
                c.evals.add(json.dumps([key_of(o) for t in job["plan"]["threads"] for o in t["ops"]])[:4000])
            _sample(c, {"readers": job.get("readers"), "threads": [{"ops": job["plan"]["threads"][0]["ops"][:3]}]}, "first three calls")
            c.judge(job, r)
        c.run_plans(plans, on, attrs=attrs)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("calls whose operands or result pass through copies (copy, deepcopy, every pickle protocol, flattening, rebuilding from fields, compiled identity), within a session with interruptions and "
                    "preemptions; and writers that store operands and results and finish or crash at a seeded source line, with readers in other processes (hash seed, optimisation, working directory, "
                    "first import, reading before the library is imported, two threads reading at once, the last record lost). Every outcome is compared with that of the original call. Non-trivial: every "
                    "session; distinct by schedule or by stored calls.", len(c.hashes) + len(c.evals), extra={"copies_by_form": forms, "reader_environments": envs})


# ------------------------------------------------------------------ C10
class C10(Campaign):
    """Imports with load failures, in any order, in several threads; the library afterwards is the one a plain import gives."""
    names = None

    def judge(self, job, r):
        v = self.judge_import(job, r)
        if v:
            self.violation(job, v)

    def judge_import(self, job, r):
        plan = job["plan"]
        for x in r.get("viol", ()):
            if x[3] == "deadlock":
                return ["deadlock", f"importing threads: {x[4]}", ""]
        fired = [f for f in r["fired"] if f[0] in ("load", "find")]
        said = []
        for t, outs in zip(plan["threads"], r["outcomes"]):
            for op, o in zip(t["ops"], outs):
                self.stats["imports"] += 1
                if o.get("e"):
                    said.append(o["e"].split(":")[1])
        self.stats["io.load_failures"] += len(r["fired"])
        for f in fired:
            if f[2] in said:
                said.remove(f[2])
            elif len(plan["threads"]) == 1:
                return ["swallowed", f"loading {f[1]} failed with {f[2]}, but the import did not report it (outcomes: {[o.get('e') for o in r['outcomes'][0]]})", ""]
        if said and len(plan["threads"]) == 1:
            return ["import", f"an import raised {said} with only these failures: {r['fired']}", ""]
        if said and not fired:
            return ["import", f"importing threads: an import raised {said}", ""]
        if r["left"]:
            return ["left", f"after the import: {r['left']} (failures: {r['fired']})", ""]
        if r["final"]:
            return ["broken", f"a later import fails: {r['final']} (failures: {r['fired']})", ""]
        if r["same"]:
            return ["identity", f"after the import: {r['same'][:4]} (failures: {r['fired']})", ""]
        if self.names is None:
            self.names = self.plain()
        if r["names"] != self.names:
            diff = {m: [sorted(set(a) ^ set(b)) for a, b in zip(r["names"][m] or [[], []], x)] for m, x in self.names.items() if r["names"][m] != x}
            return ["names", f"the public names differ from those of a plain import: {diff} (failures: {r['fired']})", ""]
        for op, o in zip(plan["smoke"], r["smoke"]):
            bad = self.cmp1(op, o, "", {}, "call after the import")
            if bad:
                op, o, exp, where = bad[0]
                return ["outcome", f"{op['k']} {json.dumps(clean(op))[:400]}: after a plain import {describe(exp)}; after these imports {describe(o)} (failures: {r['fired']})", ""]
        return None

    def plain(self):
        j = {"type": "import", "conf": "base", "timeout": 60, "plan": {"prop": "C10", "setup": {}, "threads": [{"ops": [imp("coordinax")]}], "smoke": []}}
        r = self.check_res(j, self.pool.one(j))
        return r["names"] if r else None


def imp(m, k="imp"):
    return {"k": k, "a": [["lit", m]], "n": "import", "steps": 40000}


def c10(c):
    rnd = 0
    mods = {}
    styles = {}
    while True:
        rng = c.rng("pool", rnd)
        pool = corpus_pool(rng, hows=("unit",), share=0.1, docs=False)
        ops = [o for o in pool.ops if "disp" not in gen.KINDS[o["n"]]["tags"] or rng.random() < 0.3]
        ops = rng.sample(ops, min(len(ops), 420))
        c.golden(ops)
        j = {"type": "import", "conf": "base", "timeout": 60, "plan": {"prop": "C10", "setup": {}, "profile": True, "threads": [{"ops": [imp("coordinax")]}], "smoke": []}}
        r = c.check_res(j, c.pool.one(j))
        if r is None:
            break
        c.names = r["names"]
        N, L = r["outcomes"][0][0].get("n", 30000), r["loaded"]
        hot = r["outcomes"][0][0].get("int") or []
        ks = {"load": [], "find": [], "cache": [], "stat": []}
        order = []
        plans, attrs = [], []
        EX = ["OSError", "OSError", "KeyboardInterrupt", "MemoryError", "SystemExit", "TimeoutError"]
        for n in range(_scale(c, 330, 2400)):
            rr = c.rng("run", rnd, n)
            style = ("load", "load", "order", "threads", "load", "traced", "load", "threads")[n % 8]

            def mod():
                if not order:
                    order.extend(MODULES * 2)
                    rng.shuffle(order)
                return order.pop()

            def fault(at):
                if not ks[at]:
                    ks[at].extend(range(1, L + 1))
                    rng.shuffle(ks[at])
                return {"at": at, "n": ks[at].pop(), "exc": rr.choice(EX) if at != "stat" and at != "cache" else "OSError"}
            su = {}
            first = mod() if rr.random() < 0.6 else "coordinax"
            th = [{"ops": [imp(first)]}]
            if style == "load":
                f = [fault("load" if rr.random() < 0.8 else "find")]
                th[0]["ops"] += [imp(mod()) for _ in range(rr.choice((0, 1, 1, 2)))]
                for _ in range(rr.choice((0, 0, 1, 2))):   # it fails more than once; the count goes on over the attempts
                    f.append({**fault("load"), "n": f[-1]["n"] + rr.choice((1, 2, 3, 10, 40))})
                if rr.random() < 0.15:
                    f.append(fault(rr.choice(["cache", "stat"])))
                su["loads"] = f
            elif style == "order":
                th[0]["ops"] = [imp(mod(), "impstar" if rr.random() < 0.4 else "imp") for _ in range(rr.choice((2, 3, 5)))]
                if rr.random() < 0.5:
                    su["loads"] = [fault(rr.choice(["cache", "stat"])) for _ in range(3)]
                if rr.random() < 0.3:
                    su["warn"] = "error"
            elif style == "traced":
                th[0]["ops"] = [{"k": "imptr", "a": [["lit", first], ["lit", rr.choice(["jit", "grad", "vmap", "jitgrad"])]], "n": "import", "steps": 40000}]
                if rr.random() < 0.3:
                    su["loads"] = [fault("load")]
                    th[0]["ops"].append(copy.deepcopy(th[0]["ops"][0]))
            else:
                # CPython refuses circular waits between threads that first import different modules of a package
                th = []
                for t in range(rr.choice((2, 2, 3))):
                    o = imp("coordinax")
                    sw = []
                    for _ in range(rr.choice((1, 2, 4, 12))):
                        k = rr.choice(hot) if hot and rr.random() < 0.6 else rr.randint(1, N)
                        sw.append([k, rr.randrange(3)])
                    o["sw"] = sorted(sw)
                    th.append({"ops": [o] + [imp(mod()) for _ in range(rr.choice((0, 1)))]})
                if rr.random() < 0.4:
                    su["loads"] = [fault("load")]
                    for t in th:   # the threads whose import failed try again, one after the other
                        t["ops"] = t["ops"][:1]
            if rr.random() < 0.4:
                su["final"] = rr.sample(MODULES, 6)
            if rr.random() < 0.3:
                su["rng"] = rr.randrange(2**31)
            styles[style] = styles.get(style, 0) + 1
            plans.append({"prop": "C10", "setup": su, "threads": th, "smoke": rr.sample(ops, 22), "seed": [c.seed, rnd, n]})
            attrs.append({"type": "import", "conf": rr.choice(["base", "base", "base", "hash", "opt"])})

        def on(job, r):
            for f in r.get("fired", ()):
                mods[f[1]] = mods.get(f[1], 0) + 1
                c.hashes.add(f"{f}")
            c.evals.add(json.dumps([job["plan"]["threads"], job["plan"]["setup"]], sort_keys=True)[:4000])
            _sample(c, {"threads": job["plan"]["threads"], "setup": job["plan"]["setup"]}, "imports and failures")
            c.judge(job, r)
        c.run_plans(plans, on, attrs=attrs)
        rnd += 1
        if c.tier == Q or c.left() < 60 or c.viols:
            break
    return c.finish("first imports of the public modules in seeded orders; with failures (I/O error, interrupt, allocation failure) of the n-th module load or file search, once or several times; with the "
                    "compiled files unreadable; from two or three threads preempted inside module-level code, with simulated module locks; and inside functions JAX is tracing. Afterwards the import hooks, "
                    "the public names, the identity of public objects and sampled calls are compared with a plain import. Non-trivial: every run; distinct by imports, schedule and failures.",
                    len(c.evals), extra={"modules_whose_load_failed": len(mods), "runs_by_style": styles})


CHECKS = {"C14": c14, "C15": c15, "C09": c09, "C10": c10}
CLASSES = {"C14": C14, "C15": C15, "C09": C09, "C10": C10}
