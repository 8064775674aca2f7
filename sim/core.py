"""Campaign machinery shared by all properties: golden outcomes, comparison, minimisation, replay."""
from __future__ import annotations

import collections
import copy
import hashlib
import json
import os
import random
import sys
import time

from . import gen
from .ops_key import key_of
from .pool import HERE, Pool

OUTDIR = os.path.join(HERE, "replays")


def mode_sig(setup):
    """Parts of the set-up an outcome may legitimately depend on."""
    return ("nojit" if setup.get("nojit") else "") + ("|" + setup["warn"] if setup.get("warn", "always") != "always" else "")


def clean(op):
    """The call itself, without the schedule and faults attached to it."""
    return {k: v for k, v in op.items() if k not in ("sw", "ab", "ne", "pr", "steps", "cr", "via", "post", "pk", "ld", "sv", "proto")}


def ck(o, op=None):
    """The comparable part of an outcome."""
    # a function kept compiled runs the library, and so warns, only while it is traced
    w = () if op is not None and op.get("m") == "jit" else tuple(o.get("w", ()))
    return (o.get("d"), o.get("e"), o.get("b"), w)


def describe(o):
    if o.get("b"):
        return f"argument construction raised {o['b']}"
    if o.get("e"):
        return f"raised {o['e']}" + (f" with warnings {o['w']}" if o.get("w") else "")
    return f"value {o.get('s', o.get('d'))}" + (f" with warnings {o['w']}" if o.get("w") else "")


class Campaign:
    def __init__(self, prop, seed, tier, confs=None, workers=None, budget=None):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.t0 = time.monotonic()
        self.workers = workers or int(os.environ.get("SIM_WORKERS", "8"))
        self.pool = Pool(self.workers, confs)
        self.gold = {}
        self.goldplan = {}
        self.prof = {}
        self.stats = collections.Counter()
        self.hashes = set()
        self.evals = set()
        self.samples = []
        self.viols = []
        self.simtime = 0.0
        self.known = load_known(prop)
        self.found_known = {}
        self.budget = budget or (80 if tier == "quick" else 1500)
        self.extra = {}
        self.maxviol = 3

    def rng(self, *tag):
        return random.Random(hashlib.sha256(repr((self.prop, self.seed, tag)).encode()).digest())

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    # ---------------------------------------------------------- running
    def job(self, plan, conf="base", timeout=60, type="run"):
        return {"type": type, "plan": plan, "conf": conf, "timeout": timeout}

    def check_res(self, job, r, again=True):
        """Harness-level sanity; returns the result or None (with a hang turned into a violation)."""
        if "hang" in r or "died" in r or "fatal" in r:
            if again:
                r2 = self.pool.one(job)
                if not ("hang" in r2 or "died" in r2 or "fatal" in r2):
                    self.stats["harness.transient"] += 1
                    return r2
                r = r2
            if "hang" in r:
                self.violation(job, ["hang", "the execution never finished (wall-clock limit); stack: " + r["stderr"][-1500:]])
                return None
            if "died" in r and os.WIFSIGNALED(r["died"]):
                self.violation(job, ["crash", f"the process was killed by signal {os.WTERMSIG(r['died'])}: " + r["stderr"][-1500:]])
                return None
            err = r.get("fatal") or r.get("stderr", "")
            if "coordinax" in err and ("import coordinax" in err or "import_module" in err):
                self.violation(job, ["import", "the library failed to import: " + err[-1500:]])
                return None
            raise RuntimeError("harness failure: " + err[-4000:] + "\njob: " + json.dumps(job)[:3000])
        for k, v in r.get("stats", {}).items():
            self.stats[k] += v
        self.stats["runs"] += 1
        self.simtime += r.get("simtime", 0)
        if r.get("hash"):
            self.hashes.add(r["hash"])
        return r

    def run_plans(self, plans, on, confs=None, timeout=60, reserve=8, variants=None, attrs=None):
        """Run plans in parallel until the time budget; ``on(plan, result)`` judges each."""
        dl = time.monotonic() + self.left() - reserve
        jobs = [self.job(p, timeout=timeout) for p in plans]
        if confs:
            for j, c in zip(jobs, confs):
                j["conf"] = c
        if variants:
            for j, v in zip(jobs, variants):
                j["variant"] = v

        if attrs:
            for j, v in zip(jobs, attrs):
                j.update(v)

        def cb(i, j, r):
            r = self.check_res(j, r)
            if r is not None:
                on(j, r)
            if len(self.viols) >= self.maxviol:
                raise Enough
        try:
            self.pool.map(jobs, on=cb, deadline=dl)
        except Enough:
            pass

    # ---------------------------------------------------------- goldens
    def golden(self, ops, setup=None, batch=10, conf="base"):
        """Outcome and profile of every call in executions without concurrency or faults."""
        setup = dict(setup or {})
        sig = mode_sig(setup)
        todo = {}
        for op in ops:
            op = clean(op)
            k = (key_of(op), sig)
            if k not in self.gold and not op["k"].startswith("!"):
                todo[k] = op
        rng = self.rng("golden", sig, len(self.gold))
        items = sorted(todo.items())
        rng.shuffle(items)
        # one call of a kind per process, so that variants of a call never share a process
        batches = []
        for k, op in items:
            for b in batches:
                if len(b) < batch and op.get("n") not in {o.get("n") for o in b}:
                    b.append(op)
                    break
            else:
                batches.append([op])
        plans = [{"profile": True, "setup": setup, "threads": [{"ops": b}]} for b in batches]

        def cb(i, j, r):
            r = self.check_res(j, r)
            if r is None:
                return
            for op, o in zip(j["plan"]["threads"][0]["ops"], r["outcomes"][0]):
                k = (key_of(op), sig)
                self.gold[k] = o
                self.goldplan[k] = j["plan"]
                self.prof[k] = {"n": o.get("n", 0), "l": o.get("l", 0), "int": o.get("int", []), "codes": o.get("codes", []), "lines": o.get("lines"),
                                "hot": o.get("hot", []), "hotl": o.get("hotl", []), "hotn": o.get("hotn", [])}
            for v in r["viol"]:
                self.inrun(j, r, v)
        self.pool.map([self.job(p, conf) for p in plans], on=cb)
        self.stats["golden_calls"] += len(items)

    def inrun(self, job, r, v):
        """A violation observed inside the simulated process."""
        if v[0] == self.prop:
            self.violation(job, v[3:5] + [v[5] if len(v) > 5 else ""])

    def solo(self, op, setup, conf="base"):
        """What the call does alone in a fresh process."""
        setup = {k: v for k, v in setup.items() if k in ("nojit", "warn")}
        setup["show"] = 1
        r = self.pool.one(self.job({"setup": setup, "threads": [{"ops": [clean(op)]}]}, conf))
        r = self.check_res(self.job({}), r)
        return r["outcomes"][0][0] if r else None

    def compare(self, job, r):
        """Every completed call must have the outcome it has alone in a fresh process."""
        plan = job["plan"]
        setup = plan.get("setup", {})
        sig = mode_sig(setup)
        bad = []
        for tid, (t, outs) in enumerate(zip(plan["threads"], r["outcomes"])):
            for i, (op, o) in enumerate(zip(t["ops"], outs)):
                if op["k"].startswith("!") or "ab" in o:
                    continue
                bad += self.cmp1(op, o, sig, setup, f"thread {tid} call {i}")
        for tid, ns in enumerate(r.get("nested", ())):
            for o in ns:
                bad += self.cmp1(o["op"], o, sig, setup, f"re-entrant call on thread {tid}")
        if bad:
            op, o, exp, where = bad[0]
            self.violation(job, ["outcome", f"{where}: {op['k']} {json.dumps(clean(op))[:500]}: alone in a fresh process {describe(exp)}; in this execution {describe(o)}", ""])

    def cmp1(self, op, o, sig, setup, where):
        if o.get("sim"):
            return [(op, o, {"e": "(it finished alone)"}, where)]
        k = (key_of(clean(op)), sig)
        g = self.gold.get(k)
        self.stats["compared"] += 1
        if g is not None and ck(g, op) == ck(o, op):
            return []
        s = self.solo(op, setup)
        if s is None:
            return []
        if g is not None and ck(s, op) != ck(g, op):
            # the fault-free reference execution itself was influenced by its earlier calls
            self.stats["contaminated_goldens"] += 1
            s2 = self.solo(op, setup)
            if ck(s2, op) != ck(s, op):
                return [(op, s, s2, "two fresh processes disagree: ")]
            self.gold[k] = s
            if self.prop in ("C01", "C04"):
                self.violation(self.job(self.goldplan[k]), ["outcome", f"{op['k']} {json.dumps(clean(op))[:500]}: alone in a fresh process {describe(s)}; after other calls {describe(g)}", ""])
        if ck(s, op) != ck(o, op):
            return [(op, o, s, where)]
        return []

    # ------------------------------------------------------- violations
    def violation(self, job, v):
        sig = f"{v[0]}: {v[1]}"
        for kf in self.known:
            if kf["match"] in sig:
                self.found_known.setdefault(kf["match"], kf)
                return
        if len(self.viols) < 40:
            self.viols.append((copy.deepcopy(job), v))

    def finish(self, rule, nontrivial, assumptions=(), extra=None, level="exploration"):
        """Minimise and report; write the evidence; exit status."""
        for kf in self.found_known.values():
            print(f"KNOWN-FINDING: property={self.prop} {kf['what']}")
        code = 0
        nv = len(self.viols)
        if self.viols:
            code = 1
            job, v = self.viols[0]
            try:
                job, v = self.minimise(job, v)
            except Exception as e:  # noqa: BLE001
                sys.stderr.write(f"minimisation stopped: {e!r}\n")
            path = self.write_replay(job, v)
            print(f"violation: {v[0]}: {v[1]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        wall = time.monotonic() - self.t0
        st = dict(self.stats)
        cov = {
            "evaluations": st.get("runs", 0),
            "distinct_nontrivial": nontrivial,
            "rule": rule,
            "samples": self.samples[:3],
            "simulated_runs": st.get("runs", 0),
            "runs_per_hour": round(st.get("runs", 0) / wall * 3600),
            "seeds_per_hour": round(st.get("runs", 0) / wall * 3600),
            "library_calls": st.get("ops", 0),
            "calls_compared": st.get("compared", 0),
            "library_instructions_scheduled": st.get("instr", 0),
            "simulated_seconds": round(self.simtime, 6),
            "distinct_schedules": len(self.hashes),
            "faults": {k: v for k, v in sorted(st.items()) if k.startswith(("abort", "io", "crash", "evict", "gc", "clockjumps", "nested", "switches", "blocks", "locks", "torn", "short", "probes"))},
            "components_real": "coordinax (working tree), jax, jaxlib CPU back end, equinox, quax, plum, unxt, astropy",
            "components_stub": "clock and sleep, locks created by the library, thread scheduling inside the library, random-number seeds, garbage-collection timing, file loader failures",
        }
        cov.update(self.extra)
        cov.update(extra or {})
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": nv}, f, indent=1, default=str)
        self.pool.close()
        return code

    def write_replay(self, job, v):
        os.makedirs(OUTDIR, exist_ok=True)
        p = os.path.join(OUTDIR, f"{self.prop}-{hashlib.sha1(json.dumps(job, sort_keys=True).encode()).hexdigest()[:10]}.json")
        with open(p, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "violation": v, "job": job}, f, indent=1)
        return p

    # ----------------------------------------------------- minimisation
    def reproduce(self, job):
        """Violations of this property seen when the job runs again (used by minimisation and replay)."""
        sub = Campaign.__new__(type(self))
        sub.__dict__.update(self.__dict__)
        sub.viols, sub.stats, sub.hashes, sub.gold, sub.samples = [], collections.Counter(), set(), self.gold, []
        r = self.pool.one(job)
        r = sub.check_res(job, r, again=False)
        if r is not None:
            sub.judge(job, r)
        return sub.viols

    def judge(self, job, r):
        for v in r.get("viol", ()):
            self.inrun(job, r, v)
        if self.use_golden:
            self.compare(job, r)

    use_golden = True

    def minimise(self, job, v, limit=60):
        kind = v[0]
        end = time.monotonic() + (60 if self.tier == "quick" else 180)
        count = [0]

        def fails(j):
            if count[0] >= limit or time.monotonic() > end:
                return None
            count[0] += 1
            vs = [w for _, w in self.reproduce(j) if w[0] == kind]
            return vs[0] if vs else None
        got = fails(job)
        if not got:
            return job, v
        v = got
        if "threads" not in job.get("plan", {}):
            return job, v
        cur = copy.deepcopy(job)

        def attempt(mut):
            nonlocal cur, v
            j = copy.deepcopy(cur)
            if mut(j["plan"]) is False:
                return False
            w = fails(j)
            if w:
                cur, v = j, w
                return True
            return False
        # whole threads, halves of threads, single ops, single faults
        changed = True
        while changed and count[0] < limit and time.monotonic() < end:
            changed = False
            for ti in range(len(cur["plan"]["threads"]) - 1, -1, -1):
                if len(cur["plan"]["threads"]) > 1:
                    def dt(p, ti=ti):
                        del p["threads"][ti]
                    changed |= attempt(dt)
            for ti in range(len(cur["plan"]["threads"])):
                size = max(1, len(cur["plan"]["threads"][ti]["ops"]) // 2)
                while size >= 1:
                    i = 0
                    while i < len(cur["plan"]["threads"][ti]["ops"]):
                        def do(p, ti=ti, i=i, size=size):
                            o = p["threads"][ti]["ops"]
                            if len(o) <= size:
                                return False
                            del o[i:i + size]
                        if attempt(do):
                            changed = True
                        else:
                            i += size
                    size //= 2
            for ti, t in enumerate(cur["plan"]["threads"]):
                for oi in range(len(t["ops"])):
                    for f in ("sw", "ab", "ne", "pr"):
                        n = len(cur["plan"]["threads"][ti]["ops"][oi].get(f, ()))
                        for k in range(n - 1, -1, -1):
                            def df(p, ti=ti, oi=oi, f=f, k=k):
                                del p["threads"][ti]["ops"][oi][f][k]
                                if not p["threads"][ti]["ops"][oi][f]:
                                    del p["threads"][ti]["ops"][oi][f]
                            changed |= attempt(df)
        return cur, v


class Enough(Exception):
    pass


def load_known(prop):
    """Genuine defects recorded rather than repaired (lines ``finding: property=.. match=<text> what=<text>``)."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding: property=" + prop + " "):
                m = ln.split(" match=", 1)[1]
                match, what = m.split(" what=", 1)
                out.append({"match": match.strip(), "what": what.strip()})
    return out


# ------------------------------------------------------------- op pools
def variants(rng, name, nstruct, hows=("near", "one", "unit", "units"), nval=1):
    """Calls of one kind: several structures, each with several value variants."""
    out = []
    for _ in range(nstruct):
        ss, vs = rng.randrange(10**9), rng.randrange(10**9)
        base = gen.make(name, ss, vs)
        out.append(base)
        for _ in range(nval):
            out.append(gen.make(name, ss, rng.randrange(10**9)))
        for h in hows:
            v = gen.variant(base, h, rng)
            if key_of(v) != key_of(base):
                out.append(v)
    return out
