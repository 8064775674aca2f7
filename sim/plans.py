"""Seeded construction of schedules and fault sequences."""
from __future__ import annotations

import copy

from . import gen
from .ops_key import key_of

ABORTS = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "XlaRuntimeError", "RecursionError", "SystemExit", "TimeoutError"]


def pick_n(rng, prof, share=0.6):
    """An instruction of a call at which to act: half the time right after shared state may have been touched."""
    n = prof.get("n", 0)
    if n <= 0:
        return None
    hn = prof.get("hotn")
    if hn and rng.random() < 0.5:
        return min(n, max(1, rng.choice(hn) + rng.choice((0, 0, 1, 2, 3))))
    it = prof.get("int") or []
    if it and rng.random() < share:
        return min(n, max(1, rng.choice(it) + rng.choice((0, 0, 0, 1, 2))))
    if rng.random() < 0.25:
        return rng.choice((1, 2, max(1, n - 1), n))
    return rng.randint(1, n)


def sched_pair(rng, threads, profs):
    """Attach context switches to a list of threads (each a list of ops)."""
    nt = len(threads)
    style = rng.choice(["pause", "pause", "pingpong", "pingpong", "storm"])
    for t, ops in enumerate(threads):
        for i, op in enumerate(ops):
            if op["k"].startswith("!"):
                continue
            p = profs(op)
            n = p.get("n", 0)
            sw = []
            if style == "pause":
                if t == 0:
                    k = pick_n(rng, p, 0.7)
                    if k:
                        sw.append([k, rng.randrange(nt)])
                elif i:
                    sw.append([-1, 0])
            elif style == "pingpong":
                for _ in range(rng.choice((1, 2, 3))):
                    k = pick_n(rng, p)
                    if k:
                        sw.append([k, rng.randrange(nt)])
                if rng.random() < 0.3:
                    sw.append([-1, rng.randrange(nt)])
            elif n:
                step = max(1, n // rng.choice((4, 8, 16, 32)))
                k = rng.randint(1, step)
                while k <= n and len(sw) < 60:
                    sw.append([k, rng.randrange(nt)])
                    k += rng.randint(1, 2 * step)
            if sw:
                op["sw"] = sorted(sw)
    return style


def nest(rng, op, prof, inner):
    k = pick_n(rng, prof, 0.7)
    if k:
        op["ne"] = [[k, {kk: vv for kk, vv in inner.items() if kk not in ("sw", "ab", "ne", "pr")}]]
        return True
    return False


class LinePicker:
    """Chooses where to cut calls short, preferring source lines not yet tried."""

    def __init__(self):
        self.tried = set()

    def pick(self, rng, prof):
        lines = prof.get("lines") or []
        n = prof.get("l", 0)
        if n <= 0:
            return None
        if not lines:
            return rng.randint(1, n)
        hl = prof.get("hotl")
        if hl and rng.random() < 0.5:
            return rng.choice(hl)
        fresh = [i for i, l in enumerate(lines) if tuple(l) not in self.tried]
        if fresh and rng.random() < 0.75:
            i = rng.choice(fresh)
        else:
            i = rng.randrange(len(lines))
        self.tried.add(tuple(lines[i]))
        return i + 1


class Picker:
    """Draws calls from a pool; code that touches longer-lived state (if there is any) gets a larger share."""

    def __init__(self, pool, pf, share=0.45):
        self.pool, self.pf, self.share = pool, pf, share
        self.hot = {}
        for o in pool.ops:
            for c in pf(o).get("hot", ()):
                self.hot.setdefault(c, []).append(o)
        self.codes = sorted(self.hot)

    def hot_kind(self, rng):
        """The kinds of call that reach longer-lived state, one after the other."""
        if not getattr(self, "_cycle", None):
            self._cycle = sorted({o["n"] for c in self.codes for o in self.hot[c]})
            rng.shuffle(self._cycle)
        return self._cycle.pop()

    def op(self, rng):
        if self.codes and rng.random() < self.share:
            return copy.deepcopy(rng.choice(self.hot[rng.choice(self.codes)]))
        return copy.deepcopy(rng.choice(self.pool.ops))

    def related(self, rng, op):
        """Another call that shares something with ``op``."""
        r = rng.random()
        if r < 0.2:
            return copy.deepcopy(op)
        hot = self.pf(op).get("hot")
        if hot and r < 0.5:
            return copy.deepcopy(rng.choice(self.hot[rng.choice(hot)]))
        same = self.pool.by_kind.get(op.get("n"), [])
        if r < 0.65 and same:
            return copy.deepcopy(rng.choice(same))
        if r < 0.85:
            mine = set(self.pf(op).get("codes", ()))
            if mine:
                best = None
                for _ in range(6):
                    c = rng.choice(self.pool.ops)
                    s = len(mine & set(self.pf(c).get("codes", ())))
                    if best is None or s > best[0]:
                        best = (s, c)
                return copy.deepcopy(best[1])
        return copy.deepcopy(rng.choice(self.pool.ops))


class OpPool:
    def __init__(self, ops):
        seen = set()
        self.ops = []
        self.by_kind = {}
        for o in ops:
            k = key_of(o)
            if k in seen:
                continue
            seen.add(k)
            self.ops.append(o)
            self.by_kind.setdefault(o.get("n"), []).append(o)


def build_pool(rng, kinds=None, nstruct=1, hows=("near", "one", "unit"), nval=1, maxcost=99, tags=None):
    from .core import variants
    out = []
    for name, d in gen.KINDS.items():
        if kinds is not None and name not in kinds:
            continue
        if d["cost"] > maxcost or (tags and not (d["tags"] & tags)):
            continue
        out += variants(rng, name, nstruct, hows, nval)
    return OpPool(out)


def corpus_pool(rng, hows=("near", "one", "unit"), nval=1, share=0.3, fresh=0.5, docs=True, kw=False):
    """Calls that together reach all of the library's code (values drawn anew), variants of some, and fresh structures."""
    from .core import variants
    out = []
    entries = list(gen.CORPUS["ops"]) + ([[f"doc.{i}", 0] for i in range(len(gen.CORPUS["docs"]))] if docs else [])
    known = {n for n, _ in entries}
    for name, ss in entries:
        if name not in gen.KINDS:
            continue
        base = gen.make(name, ss, rng.randrange(10**9))
        out.append(base)
        if rng.random() < share:
            out += alter(rng, base, ss, hows, nval)[:1]
    for name in gen.KINDS:
        if not name.startswith("doc.") and (name not in known or rng.random() < fresh):
            out += variants(rng, name, 1, (), 0)
    if kw:
        for o in list(out):
            if o.get("kw") and rng.random() < 0.6:
                out += alter(rng, o, None, ("kw",), 0)
    return OpPool(out)


def alter(rng, op, ss, hows, nval):
    """Variants of one call, in random order."""
    out = [gen.make(op["n"], ss, rng.randrange(10**9)) for _ in range(nval)] if ss is not None else []
    out += [gen.variant(op, h, rng) for h in hows]
    out = [o for o in out if key_of(o) != key_of(op)]
    rng.shuffle(out)
    return out


def enrich(c, rng, pool, setup, hows=("near", "one", "unit", "units", "kw"), cap=48):
    """When a change added longer-lived state: more variants of the calls that reach it."""
    from .core import clean, mode_sig
    sig = mode_sig(setup)
    hot = [o for o in pool.ops if c.prof.get((key_of(clean(o)), sig), {}).get("hot")]
    if not hot:
        return pool
    rng.shuffle(hot)
    new = []
    for o in hot[:cap]:
        new += alter(rng, o, None, hows, 0)[:3]
    c.golden(new, setup)
    c.stats["guided_variants"] += len(new)
    return OpPool(pool.ops + new)
