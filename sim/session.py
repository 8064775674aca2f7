"""Seeded sessions: values made, converted, moved and combined, each step using results of earlier ones.

The generator runs the reference model alongside, so that a session stays where
the model says something and the numbers are well conditioned.
"""
from __future__ import annotations

import numpy as np

from . import model as M
from .model import DIMN, COMPS, NoModel, V, QV, Four, Sp, Oper, Tup

POS3 = ["CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos", "ProlateSpheroidalPos"]
POS = {3: POS3, 2: ["CartesianPos2D", "PolarPos"], 1: ["CartesianPos1D", "RadialPos"]}
VEL = {3: ["CartesianVel3D", "CylindricalVel", "SphericalVel", "MathSphericalVel", "LonLatSphericalVel", "LonCosLatSphericalVel", "ProlateSpheroidalVel"],
       2: ["CartesianVel2D", "PolarVel"], 1: ["CartesianVel1D", "RadialVel"]}
ACC = {3: ["CartesianAcc3D", "CylindricalAcc", "SphericalAcc", "MathSphericalAcc", "LonLatSphericalAcc", "ProlateSpheroidalAcc"], 2: ["CartesianAcc2D", "PolarAcc"], 1: ["CartesianAcc1D", "RadialAcc"]}
FAM = {"A": {"l": ["km", "km", "m"], "v": ["km/s", "m/s"], "a": ["km/s2", "m/s2"], "w": ["rad/s", "deg/s", "mrad/s"], "wa": ["rad/s2", "deg/s2"], "t": ["s", "ms", "s"], "L0": 1.0, "T0": 1.0},
       "B": {"l": ["kpc", "kpc", "pc"], "v": ["km/s", "kpc/Myr"], "a": ["km/s/Myr", "kpc/Myr2"], "w": ["rad/Gyr", "mas/yr"], "wa": ["rad/Gyr2"], "t": ["Myr", "Gyr"], "L0": M.PC_KM * 1e3, "T0": 3.15576e13}}


class Sess:
    def __init__(self, rng, steps, fam=None, shape=None, prefix="v"):
        self.rng, self.prefix = rng, prefix
        self.fam = FAM[fam or rng.choice("AAB")]
        self.L0, self.T0 = self.fam["L0"], self.fam["T0"]
        self.isB = self.fam is FAM["B"]
        self.shape = shape if shape is not None else rng.choice([(), (), (2,)])
        self.D = (rng.uniform(0.5, 2), "km" if not self.isB else "kpc")
        self.env, self.ops, self.at = {}, [], {}
        self.n = 0
        self.steps = steps

    # -- numbers
    def num(self, lo, hi):
        r = self.rng

        def one():
            x = r.uniform(lo, hi)
            if r.random() < 0.12:
                x = round(x) or hi
            return float(f"{x:.4g}")
        return one() if self.shape == () else [one() for _ in range(self.shape[0])]

    def q(self, v, dim, target, unit=None):
        """Quantity with values ``v`` in units of the family's base, given in a seeded unit."""
        u = unit or self.rng.choice(self.fam[dim])
        s = M.unit(u)[0] / target
        x = (np.asarray(v) / s)
        x = np.vectorize(lambda y: float(f"{y:.6g}"))(x)
        return ["q", x.tolist(), u]

    def angle(self, lo, hi):
        u = self.rng.choice(["rad", "deg", "deg", "arcmin"])
        return ["q", np.vectorize(lambda y: float(f"{y:.6g}"))(np.asarray(self.num(lo, hi)) / M.unit(u)[0]).tolist(), u]

    def angle1(self, lo, hi):
        x = self.rng.uniform(lo, hi)
        return ["q", float(f"{np.rad2deg(x):.6g}"), "deg"]

    def length(self, lo, hi):
        return self.q(self.num(lo, hi), "l", self.L0)

    # -- bookkeeping
    def names(self, pred):
        return [n for n, v in self.env.items() if pred(v)]

    def pick(self, pred):
        c = self.names(pred)
        if not c:
            return None
        return self.rng.choice(c[-8:]) if self.rng.random() < 0.7 else self.rng.choice(c)

    def okpos(self, v):
        """Where single precision is good enough."""
        if not M.well(v.cls, v.c, v.D):
            return False
        try:
            x = v.cart()
        except NoModel:
            return False
        r = np.sqrt(sum(np.asarray(y) ** 2 for y in x))
        if not np.all((r > 0.05 * self.L0) & (r < 200 * self.L0)):
            return False
        if len(x) == 3:
            rho = np.hypot(x[0], x[1])
            if not np.all(rho > 0.1 * r):
                return False
            if v.cls == "ProlateSpheroidalPos" and not np.all(np.abs(x[2]) > 0.1 * r):
                return False
        if len(x) == 2 and not np.all(np.abs(x[0]) + np.abs(x[1]) > 0.05 * self.L0):
            return False
        return True

    def okval(self, v):
        if isinstance(v, V):
            if v.order == 0:
                return self.okpos(v)
            return all(np.all(np.isfinite(x)) for x in v.c.values())
        if isinstance(v, Four):
            return self.okpos(v.q) and bool(np.all(np.abs(v.ti.v) < 50 * self.T0))
        if isinstance(v, Sp):
            return self.okpos(v.parts["length"])
        if isinstance(v, QV):
            return bool(np.all(np.isfinite(v.v)))
        if isinstance(v, Tup):
            return all(self.okval(x) for x in v.x)
        if isinstance(v, Oper):
            return len(v.acts) <= 8
        return True

    def add(self, op, keep=True, may=False):
        """Append a step if the model covers it; returns the name of the result or None."""
        try:
            exp, at = M.predict(op, self.env)
        except NoModel:
            return None
        if not self.okval(exp):
            return None
        name = f"{self.prefix}{self.n}"
        self.n += 1
        op = {**op, "out": name, "n": "s." + op["k"]}
        if may:
            op["may"] = 1
        self.ops.append(op)
        if keep:
            self.env[name] = exp
        return name

    # -- steps
    def vecspec(self, cls):
        r = self.rng
        n = DIMN[cls]
        f = {}
        for k, w in COMPS[cls]:
            if cls.startswith("Cartesian"):
                f[k] = self.length(-5, 5)
            elif w == "l" and k == "z":
                f[k] = self.length(-4, 4)
            elif w == "l":
                f[k] = self.length(0.3, 6)
                if k in ("r", "distance") and n == 3 and self.shape == () and r.random() < 0.15 and self.isB:
                    f[k] = ["Distance", f[k][1], f[k][2]]
            elif k == "lat":
                f[k] = self.angle(-1.3, 1.3)
            elif (k, cls) in (("theta", "SphericalPos"), ("phi", "MathSphericalPos")):
                f[k] = self.angle(0.2, 2.9)
            elif k in ("mu", "nu"):
                D2 = self.D[0] ** 2
                v = self.num(1.1 * D2, 20 * D2) if k == "mu" else [self.num(0.05 * D2, 0.9 * D2), self.num(-0.9 * D2, -0.05 * D2)][r.randrange(2)]
                f[k] = ["q", v, self.D[1] + "2"]
            else:
                f[k] = self.angle(-3.1, 6.0) if r.random() < 0.9 else self.angle(-20, 20)
        if cls == "ProlateSpheroidalPos":
            f["Delta"] = ["q", self.D[0], self.D[1]]
        return f

    def ratespec(self, cls):
        o = M.order(cls)
        pc = M.posof(cls)
        f = {}
        pre = {1: "d_", 2: "d2_"}[o]
        V0 = self.L0 / self.T0 if not self.isB else 100.0
        for k, w in COMPS[pc]:
            kk = "lon_coslat" if cls == "LonCosLatSphericalVel" and k == "lon" else k
            if w == "a":
                u = self.rng.choice(self.fam["w" if o == 1 else "wa"])
                f[(pre if cls != "LonCosLatSphericalVel" else "d_") + kk] = ["q", self.num(-3, 3), u]
            elif w == "s":
                f[pre + kk] = ["q", self.num(-3, 3), f"{self.D[1]}2/{'s' if not self.isB else 'Gyr'}" + ("2" if o == 2 else "")]
            else:
                tgt = V0 if o == 1 else V0 / self.T0
                f[pre + kk] = self.q(self.num(-3, 3), "v" if o == 1 else "a", tgt)
        return f

    def step(self):
        r = self.rng
        c = r.choices(list(STEPS), [w for w in STEPS.values()])[0]
        before = len(self.ops)
        getattr(self, "s_" + c)()
        return len(self.ops) > before

    def s_newpos(self, n=None):
        cls = self.rng.choice(POS[n or self.rng.choice((3, 3, 3, 3, 2, 1))])
        if cls.startswith("Cartesian") and self.rng.random() < 0.4:
            k = DIMN[cls]
            if k > 1 or self.shape:
                v = np.stack([np.asarray(self.num(-5, 5)) for _ in range(k)], axis=-1)
                return self.add({"k": "from", "a": [["cls", cls], self.q(v, "l", self.L0)]})
        f = self.vecspec(cls)
        if self.rng.random() < 0.25:
            return self.add({"k": "from", "a": [["cls", cls], ["map", f]]})
        return self.add({"k": "init", "a": [["cls", cls]], "kw": f})

    def s_newrate(self, n=None, cls=None):
        n = n or self.rng.choice((3, 3, 3, 2, 1))
        cls = cls or self.rng.choice((VEL if self.rng.random() < 0.75 else ACC)[n])
        if cls == "CartesianVel3D" and self.rng.random() < 0.3 and self.shape == ():
            v = np.stack([np.asarray(self.num(-3, 3)) for _ in range(3)], axis=-1)
            return self.add({"k": "from", "a": [["cls", cls], self.q(v, "v", self.L0 / self.T0 if not self.isB else 100.0)]})
        return self.add({"k": "init", "a": [["cls", cls]], "kw": self.ratespec(cls)})

    def s_rep(self):
        n = self.pick(lambda v: isinstance(v, V) and v.order == 0)
        if n is None:
            return self.s_newpos()
        v = self.env[n]
        d = DIMN[v.cls]
        cls = self.rng.choice(POS[d])
        kw = {}
        if cls == "ProlateSpheroidalPos" and (v.cls != cls or self.rng.random() < 0.3):
            kw = {"Delta": ["q", self.D[0] * (1 if v.cls != cls else self.rng.choice((1, 1.5))), self.D[1]]}
        if self.rng.random() < 0.12:
            cls = self.rng.choice(POS[self.rng.choice([1, 2, 3])])
            if d < DIMN[cls]:
                kw = {k: s for k, s in (("z", self.length(0.5, 3)), ("theta", self.angle(0.3, 2.5)), ("phi", self.angle(0.1, 2.9)), ("y", self.length(-3, 3))) if self.rng.random() < 0.7}
        kind = "repf" if self.rng.random() < 0.25 else "rep"
        mode = {"m": "jit"} if self.rng.random() < 0.12 else {}
        a = [["stored", n], ["cls", cls]] if kind == "rep" or True else None
        return self.add({"k": kind, "a": a, **({"kw": kw} if kw else {}), **mode}, may=d != DIMN[cls] or cls == "RadialPos")

    def s_reprate(self):
        n = self.pick(lambda v: isinstance(v, V) and v.order)
        if n is None:
            return self.s_newrate()
        v = self.env[n]
        d = DIMN[M.posof(v.cls)]
        p = self.pick(lambda x: isinstance(x, V) and x.order == 0 and DIMN[x.cls] == d)
        if p is None:
            return self.s_newpos(d)
        cls = self.rng.choice((VEL if v.order == 1 else ACC)[d])
        kw = {}
        if "Prolate" in cls + v.cls:
            kw = {"Delta": ["q", self.D[0], self.D[1]]}
        mode = {"m": "jit"} if self.rng.random() < 0.12 else {}
        # the result belongs to the same position, which later steps need
        return self.add({"k": "rep", "a": [["stored", n], ["cls", cls], ["stored", p]], **({"kw": kw} if kw else {}), **mode}, may="Prolate" in cls + v.cls or v.order == 2)

    def s_arith(self):
        r = self.rng
        k = r.choice(["add", "sub", "neg", "mul", "mul", "div"])
        n = self.pick(lambda v: isinstance(v, V) and v.order == 0)
        if n is None:
            return self.s_newpos()
        if k in ("add", "sub"):
            d = DIMN[self.env[n].cls]
            m = self.pick(lambda v: isinstance(v, V) and v.order == 0 and DIMN[v.cls] == d)
            return self.add({"k": k, "a": [["stored", n], ["stored", m]]}, may=True)
        if k == "neg":
            return self.add({"k": k, "a": [["stored", n]]}, may=True)
        s = ["lit", float(f"{r.choice((r.uniform(0.2, 3), -r.uniform(0.2, 2)))  :.3g}") if r.random() < 0.8 else r.choice((2, 3, -1))]
        a = [["stored", n], s]
        if k == "mul" and r.random() < 0.5:
            a.reverse()
        return self.add({"k": k, "a": a}, may=True)

    def s_ratearith(self):
        r = self.rng
        n = self.pick(lambda v: isinstance(v, V) and v.order and v.cls.startswith("Cartesian"))
        if n is None:
            return self.s_newrate()
        v = self.env[n]
        if r.random() < 0.4:
            return self.add({"k": "mul", "a": [["stored", n], self.timeq(0.3, 3)]}, may=True)
        m = self.pick(lambda w: isinstance(w, V) and w.cls == v.cls)
        return self.add({"k": r.choice(["add", "sub"]), "a": [["stored", n], ["stored", m]]}, may=True)

    def timeq(self, lo, hi):
        u = self.rng.choice(self.fam["t"])
        x = self.rng.uniform(lo, hi) * self.T0 / M.unit(u)[0]
        if self.isB:
            x = self.rng.uniform(lo, hi) * self.L0 / 100.0 / M.unit(u)[0]
        return ["q", float(f"{x:.5g}"), u]

    def s_norm(self):
        n = self.pick(lambda v: isinstance(v, (V, Four)))
        if n is None:
            return self.s_newpos()
        v = self.env[n]
        a = [["stored", n]]
        if isinstance(v, V) and v.order and not v.cls.startswith("Cartesian"):
            d = DIMN[M.posof(v.cls)]
            p = self.pick(lambda x: isinstance(x, V) and x.order == 0 and DIMN[x.cls] == d)
            if p is None or v.order == 2:
                return None
            a.append(["stored", p])
        return self.add({"k": "norm", "a": a}, may="Prolate" in getattr(v, "cls", ""))

    def vec3q(self, dim, target, lo=-4, hi=4):
        v = [self.rng.uniform(lo, hi) for _ in range(3)]
        return self.q(v, dim, target)

    def four4q(self):
        L = self.rng.choice(["km", "m"] if not self.isB else ["kpc"])
        s = M.unit(L)[0] / self.L0
        return ["q", [float(f"{self.rng.uniform(-3, 3):.4g}")] + [float(f"{self.rng.uniform(-3, 3) / s:.4g}") for _ in range(3)], L]

    def s_newop(self):
        r = self.rng
        c = r.choice(["GalileanRotation", "GalileanRotation", "GalileanSpatialTranslation", "GalileanSpatialTranslation", "GalileanTranslation", "GalileanBoost", "GalileanOperator", "VelocityBoost", "Identity"])
        V0 = 2 if not self.isB else 30.0
        if c == "GalileanRotation":
            seq = r.choice(["x", "z", "xyz", "zyx", "XYZ"])
            return self.add({"k": "euler", "a": [["lit", seq], ["q", [round(r.uniform(-170, 170), 2) for _ in seq] if len(seq) > 1 else round(r.uniform(-170, 170), 2), "deg"]]})
        if c == "GalileanSpatialTranslation":
            p = self.pick(lambda v: isinstance(v, V) and v.order == 0 and DIMN[v.cls] == 3 and v.D is None and np.shape(v.cart()[0]) == ())
            t = ["stored", p] if p and r.random() < 0.4 else self.vec3q("l", self.L0)
            return self.add({"k": "init", "a": [["cls", c]], "kw": {"translation": t}}, may=t[0] == "stored")
        if c == "GalileanTranslation":
            return self.add({"k": "init", "a": [["cls", c]], "kw": {"translation": self.four4q()}})
        if c in ("GalileanBoost", "VelocityBoost"):
            return self.add({"k": "init", "a": [["cls", c]], "kw": {"velocity": self.vec3q("v", V0, -1, 1)}})
        if c == "Identity":
            return self.add({"k": "init", "a": [["cls", c]]})
        rot = self.pick(lambda v: isinstance(v, Oper) and v.cls == "GalileanRotation")
        kw = {"translation": self.four4q(), "velocity": self.vec3q("v", V0, -1, 1)}
        if rot:
            kw["rotation"] = ["stored", rot]
        for k in list(kw):
            if r.random() < 0.2:
                kw.pop(k)
        return self.add({"k": "init", "a": [["cls", c]], "kw": kw}) if kw else None

    def s_compose(self):
        r = self.rng
        n = self.pick(lambda v: isinstance(v, Oper) and v.cls != "frame")
        m = self.pick(lambda v: isinstance(v, Oper) and v.cls != "frame")
        if n is None:
            return self.s_newop()
        k = r.choice(["or", "or", "pipe", "simplify", "simplify", "inverse", "inverse", "matmul"])
        if k == "or":
            return self.add({"k": "or", "a": [["stored", n], ["stored", m]]})
        if k == "pipe":
            return self.add({"k": "pipe", "a": [["stored", n], ["stored", m]]})
        if k == "matmul":
            rots = self.names(lambda v: isinstance(v, Oper) and v.cls == "GalileanRotation")
            if not rots:
                return self.s_newop()
            return self.add({"k": "matmul", "a": [["stored", r.choice(rots)], ["stored", r.choice(rots)]]})
        return self.add({"k": k, "a": [["stored", n]]})

    def s_act(self):
        r = self.rng
        n = self.pick(lambda v: isinstance(v, Oper) and v.cls != "frame")
        if n is None:
            return self.s_newop()
        o = self.env[n]
        timey = any(a[0] in ("gt", "gb") for a in o.acts)
        k = r.choice(["call", "call", "call", "invcall"])
        if r.random() < 0.3:
            f = self.pick(lambda v: isinstance(v, Four))
            if f is None:
                return self.s_newfour()
            return self.add({"k": k, "a": [["stored", n], ["stored", f]]}, may=o.cls == "VelocityBoost")
        p = self.pick(lambda v: isinstance(v, V) and v.order == 0 and DIMN[v.cls] == 3 and v.D is None)
        if p is None:
            return self.s_newpos(3)
        mode = {"m": "jit"} if r.random() < 0.12 else {}
        if timey or r.random() < 0.2:
            t = self.timeq(-2, 2) if not self.isB else self.timeq(-0.5, 0.5)
            return self.add({"k": k, "a": [["stored", n], ["stored", p], t], **mode}, may=True)
        return self.add({"k": k, "a": [["stored", n], ["stored", p]], **mode})

    def s_newfour(self):
        p = self.pick(lambda v: isinstance(v, V) and v.order == 0 and DIMN[v.cls] == 3 and v.D is None)
        if p is None:
            return self.s_newpos(3)
        t = self.timeq(-3, 3)
        if self.shape:
            t = ["q", [t[1]] * self.shape[0], t[2]]
        return self.add({"k": "init", "a": [["cls", "FourVector"]], "kw": {"t": t, "q": ["stored", p]}}, may=True)

    def s_space(self):
        r = self.rng
        s = self.pick(lambda v: isinstance(v, Sp))
        if s is None or r.random() < 0.3:
            d = r.choice((3, 3, 2))
            p = self.pick(lambda x: isinstance(x, V) and x.order == 0 and DIMN[x.cls] == d and x.D is None)
            v = self.pick(lambda x: isinstance(x, V) and x.order == 1 and DIMN[M.posof(x.cls)] == d and "CosLat" not in x.cls and "Prolate" not in x.cls)
            if p is None or v is None:
                return self.s_newrate(d)
            kw = {"length": ["stored", p], "speed": ["stored", v]}
            a = self.pick(lambda x: isinstance(x, V) and x.order == 2 and DIMN[M.posof(x.cls)] == d and "Prolate" not in x.cls)
            if a and r.random() < 0.5:
                kw["acceleration"] = ["stored", a]
            return self.add({"k": "init", "a": [["cls", "Space"]], "kw": kw})
        if r.random() < 0.25:
            return self.add({"k": "getitem", "a": [["stored", s], ["lit", r.choice(sorted(self.env[s].parts))]]})
        d = DIMN[self.env[s].parts["length"].cls]
        cls = r.choice([c for c in POS[d] if "Prolate" not in c])
        return self.add({"k": "rep", "a": [["stored", s], ["cls", cls]]})

    def s_frame(self):
        if not self.isB:
            return self.s_rep()
        r = self.rng
        f = self.pick(lambda v: isinstance(v, Oper) and v.cls in ("frame",))
        if f is None or r.random() < 0.2:
            g = ["frame", "Galactocentric", {}]
            if r.random() < 0.4:
                g[2]["galcen_v_sun"] = self.vec3frame()
            if r.random() < 0.3:
                g[2]["roll"] = ["q", round(r.uniform(-30, 30), 1), "deg"]
            if r.random() < 0.3:
                g[2]["z_sun"] = ["q", round(r.uniform(5, 60), 1), "pc"]
            fr = [["frame", "ICRS", {}], g]
            r.shuffle(fr)
            return self.add({"k": r.choice(["fop", "xop"]), "a": fr})
        if r.random() < 0.15:
            return self.add({"k": "inverse", "a": [["stored", f]]})
        # frame transformations take one position and velocity, not arrays of them
        one = lambda x: all(np.shape(y) == () for y in x.c.values())  # noqa: E731
        p = self.pick(lambda x: isinstance(x, V) and x.order == 0 and DIMN[x.cls] == 3 and x.D is None and one(x))
        v = self.pick(lambda x: isinstance(x, V) and x.order == 1 and DIMN[M.posof(x.cls)] == 3 and "Prolate" not in x.cls and one(x))
        if p is None or v is None:
            return self.s_newrate(3) if not self.shape else None
        return self.add({"k": "call", "a": [["stored", f], ["stored", p], ["stored", v]]})

    def vec3frame(self):
        r = self.rng
        return ["vec", "CartesianVel3D", {"d_x": ["q", round(r.uniform(-30, 30), 1), "km/s"], "d_y": ["q", round(r.uniform(150, 300), 1), "km/s"], "d_z": ["q", round(r.uniform(-20, 20), 1), "km/s"]}]

    def s_astropy(self):
        n = self.pick(lambda v: isinstance(v, V) and v.cls in M.CX2AP)
        a = self.pick(lambda v: isinstance(v, M.Ap))
        if a and self.rng.random() < 0.6:
            return self.add({"k": "conv", "a": [["stored", a], ["cls", self.rng.choice([c for c in POS3 if c != "ProlateSpheroidalPos"])]]}, may=True)
        if n is None:
            return self.s_newpos(3)
        return self.add({"k": "conv", "a": [["stored", n], ["cls", M.CX2AP[self.env[n].cls]]]}, may=True)

    def s_same(self):
        n = self.pick(lambda v: isinstance(v, (V, Four, Sp, Oper)))
        if n is None:
            return None
        k = self.rng.choice(["copy", "deepcopy", "pickle5", "pickle2", "tree", "fieldsrb"])
        if k == "fieldsrb" and isinstance(self.env[n], Sp):
            k = "tree"   # the standard library's replace() leaves the parts of a Space out
        return self.add({"k": k, "a": [["stored", n]]}, may=isinstance(self.env[n], Sp))

    def s_item(self):
        if not self.shape:
            return self.s_uconv()
        n = self.pick(lambda v: isinstance(v, (V, Four, Sp)) and np.shape(next(iter(v.c.values())) if isinstance(v, V) else 0) == self.shape)
        if n is None:
            return None
        i = self.rng.choice([["idx", "::-1"], ["idx", "0:2"]])
        return self.add({"k": "getitem", "a": [["stored", n], i]}, may=True)

    def s_uconv(self):
        n = self.pick(lambda v: isinstance(v, V) and v.order == 0)
        if n is None:
            return None
        v = self.env[n]
        d = {"length": ["lit", self.rng.choice(self.fam["l"])], "angle": ["lit", self.rng.choice(["rad", "deg"])]}
        if v.cls == "ProlateSpheroidalPos":
            return None
        return self.add({"k": "uconv", "a": [["stored", n], ["dmap", d]]}, may=True)

    def s_unpack(self):
        """An item of a tuple result."""
        n = self.pick(lambda v: isinstance(v, Tup))
        if n is None:
            return self.s_act()
        i = self.rng.randrange(len(self.env[n].x))
        return self.add({"k": "getitem", "a": [["stored", n], ["lit", i]]})


STEPS = {"newpos": 6, "newrate": 6, "rep": 14, "reprate": 12, "arith": 8, "ratearith": 4, "norm": 4, "newop": 7, "compose": 8, "act": 14, "newfour": 4, "space": 7, "frame": 8, "astropy": 4, "same": 4,
         "item": 2, "uconv": 3, "unpack": 4}


def session(rng, nroot, nbranch, nb=2):
    """Roots and independent branches that use them: (roots, [branch ops, ...])."""
    s = Sess(rng, nroot)
    s.s_newpos(3)
    s.s_newrate(3)
    s.s_newop()
    for _ in range(nroot * 4):
        if len(s.ops) >= nroot:
            break
        s.step()
    root_ops, root_env = list(s.ops), dict(s.env)
    out = []
    for b in range(nb):
        s.prefix, s.n, s.ops, s.env = "abcdefgh"[b], 0, [], dict(root_env)
        for _ in range(nbranch * 4):
            if len(s.ops) >= nbranch:
                break
            s.step()
        out.append(s.ops)
    return root_ops, out


def needs(op):
    """Names of the stored values a step uses."""
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "stored":
                out.append(x[1])
                return
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(op.get("a", []))
    walk(op.get("kw", {}))
    return out
