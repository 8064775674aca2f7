"""Seeded generation of operations (JSON) covering the public API.

Every kind is a function ``kind(S, V)``: ``S`` decides structure (classes,
shapes, units), ``V`` decides numbers, so that variants of one call that
differ only in numbers, only in units, only in shape ... can be produced.
"""
from __future__ import annotations

import copy
import json
import os
import random

LEN = [["km", "m"], ["kpc", "pc"], ["AU", "AU"], ["m", "cm"], ["kpc", "kpc"]]
SPD = ["km/s", "m/s"]
ACCU = ["km/s2", "m/s2"]
ANG = ["deg", "rad"]

POS3 = ["CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos"]
POS3P = POS3 + ["ProlateSpheroidalPos"]
VEL3 = ["CartesianVel3D", "CylindricalVel", "SphericalVel", "MathSphericalVel", "LonLatSphericalVel"]
ACC3 = ["CartesianAcc3D", "CylindricalAcc", "SphericalAcc", "MathSphericalAcc", "LonLatSphericalAcc"]
POS2 = ["CartesianPos2D", "PolarPos"]
VEL2 = ["CartesianVel2D", "PolarVel"]
ACC2 = ["CartesianAcc2D", "PolarAcc"]
POS1 = ["CartesianPos1D", "RadialPos"]
VEL1 = ["CartesianVel1D", "RadialVel"]
ACC1 = ["CartesianAcc1D", "RadialAcc"]
REPOF = {"CartesianPos3D": "CartesianRepresentation", "CylindricalPos": "CylindricalRepresentation",
         "SphericalPos": "PhysicsSphericalRepresentation", "LonLatSphericalPos": "SphericalRepresentation"}
DIFOF = {"CartesianVel3D": "CartesianDifferential", "CylindricalVel": "CylindricalDifferential",
         "SphericalVel": "PhysicsSphericalDifferential", "LonLatSphericalVel": "SphericalDifferential",
         "LonCosLatSphericalVel": "SphericalCosLatDifferential"}
DIM = {**{c: 3 for c in POS3P}, **{c: 2 for c in POS2}, **{c: 1 for c in POS1}}


def num(V, lo, hi, shape, nd=3):
    if not shape:
        return round(V.uniform(lo, hi), nd)
    return [num(V, lo, hi, shape[1:], nd) for _ in range(shape[0])]


def snum(V, lo, hi, shape, nd=3):
    """Signed, bounded away from zero."""
    if not shape:
        return round(V.choice((-1, 1)) * V.uniform(lo, hi), nd)
    return [snum(V, lo, hi, shape[1:], nd) for _ in range(shape[0])]


def ang(V, lo, hi, shape, unit, nd=3):
    """Angle between lo and hi degrees, in unit."""
    if not shape:
        v = V.uniform(lo, hi)
        return round(v if unit == "deg" else v * 0.017453292519943295, nd)
    return [ang(V, lo, hi, shape[1:], unit, nd) for _ in range(shape[0])]


def shape_of(S, w=(5, 2, 2, 1)):
    return S.choices([[], [1], [2], [2, 2]], w)[0]


def units(S):
    g = S.choice(LEN)
    return {"g": g, "a": S.choice(ANG), "s": S.choice(SPD), "c": S.choice(ACCU)}


def Lq(S, V, U, lo=0.4, hi=5.0, shape=(), signed=True):
    return ["q", (snum if signed else num)(V, lo, hi, shape), S.choice(U["g"])]


def pos(S, V, cls, shape=None, U=None):
    U = U or units(S)
    sh = shape_of(S) if shape is None else shape
    aq = lambda lo, hi: ["q", ang(V, lo, hi, sh, U["a"]), U["a"]]  # noqa: E731
    if cls == "CartesianPos1D":
        f = {"x": Lq(S, V, U, shape=sh)}
    elif cls == "RadialPos":
        f = {"r": Lq(S, V, U, shape=sh, signed=False)}
    elif cls == "CartesianPos2D":
        f = {"x": Lq(S, V, U, shape=sh), "y": Lq(S, V, U, shape=sh)}
    elif cls == "PolarPos":
        f = {"r": Lq(S, V, U, shape=sh, signed=False), "phi": aq(1, 359)}
    elif cls == "TwoSpherePos":
        f = {"theta": aq(15, 165), "phi": aq(1, 359)}
    elif cls == "CartesianPos3D":
        f = {k: Lq(S, V, U, shape=sh) for k in "xyz"}
    elif cls == "CylindricalPos":
        f = {"rho": Lq(S, V, U, shape=sh, signed=False), "phi": aq(1, 359), "z": Lq(S, V, U, shape=sh)}
    elif cls == "SphericalPos":
        f = {"r": Lq(S, V, U, shape=sh, signed=False), "theta": aq(15, 165), "phi": aq(1, 359)}
    elif cls == "MathSphericalPos":
        f = {"r": Lq(S, V, U, shape=sh, signed=False), "theta": aq(1, 359), "phi": aq(15, 165)}
    elif cls == "LonLatSphericalPos":
        f = {"lon": aq(1, 359), "lat": aq(-75, 75), "distance": Lq(S, V, U, shape=sh, signed=False)}
    elif cls == "ProlateSpheroidalPos":
        lu = U["g"][0]
        f = {"mu": ["q", num(V, 4.5, 9, sh), lu + "2"], "nu": ["q", snum(V, 0.3, 1.8, sh), lu + "2"],
             "phi": aq(1, 359), "Delta": ["q", num(V, 1.4, 2.0, []), lu]}
    elif cls == "CartesianPosND":
        f = {"q": Lq(S, V, U, shape=[*sh, 4])}
    else:
        raise KeyError(cls)
    return ["vec", cls, f]


def vel(S, V, cls, shape=None, U=None, acc=False):
    U = U or units(S)
    sh = shape_of(S) if shape is None else shape
    pre = "d2_" if acc else "d_"
    su = U["c"] if acc else U["s"]
    # an angular rate that matches speeds of km/s at that length scale is tiny for kpc; units are physical
    au = {"deg": "deg", "rad": "rad"}[U["a"]] + ("/s2" if acc else "/s")
    lin = lambda: ["q", snum(V, 0.4, 5, sh), su]  # noqa: E731
    an = lambda: ["q", snum(V, 0.05, 0.9, sh), au]  # noqa: E731
    base = cls[:-5] if cls.endswith(("Vel3D", "Acc3D", "Vel2D", "Acc2D", "Vel1D", "Acc1D", "VelND", "AccND")) else cls[:-3]
    t = {"Cartesian": None, "Cylindrical": [("rho", 0), ("phi", 1), ("z", 0)], "Spherical": [("r", 0), ("theta", 1), ("phi", 1)],
         "MathSpherical": [("r", 0), ("theta", 1), ("phi", 1)], "LonLatSpherical": [("lon", 1), ("lat", 1), ("distance", 0)],
         "LonCosLatSpherical": [("lon_coslat", 1), ("lat", 1), ("distance", 0)], "Polar": [("r", 0), ("phi", 1)],
         "Radial": [("r", 0)], "TwoSphere": [("theta", 1), ("phi", 1)]}[base]
    if base == "Cartesian":
        d = cls[-2]
        if d == "N":
            return ["vec", cls, {pre + "q": ["q", snum(V, 0.4, 5, [*sh, 4]), su]}]
        t = [(k, 0) for k in "xyz"[: int(d)]]
    return ["vec", cls, {pre + k: (an() if a else lin()) for k, a in t}]


def _absall(v):
    return [_absall(x) for x in v] if isinstance(v, list) else abs(v)


def one_unit(U):
    return {**U, "g": [U["g"][0]] * 2}


def scal(V):
    return ["lit", round(V.choice((-1, 1)) * V.uniform(0.5, 3), 3)]


def tq(S, V, shape=()):
    return ["q", num(V, 0.5, 9, list(shape)), S.choice(["s", "Myr", "ms"])]


def qpos(S, V, n=3, shape=()):
    U = units(S)
    return ["q", snum(V, 0.4, 5, [*shape, n]), U["g"][0]]


def rotmat(V):
    import math
    a, b, c = (V.uniform(-3, 3) for _ in range(3))
    ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
    m = [[ca * cb, ca * sb * sc - sa * cc, ca * sb * cc + sa * sc],
         [sa * cb, sa * sb * sc + ca * cc, sa * sb * cc - ca * sc],
         [-sb, cb * sc, cb * cc]]
    return [[round(x, 6) for x in r] for r in m]


def oper(S, V, kind=None, U=None):
    U = U or units(S)
    kind = kind or S.choice(["rot", "rotm", "trans", "transv", "boost", "transl4", "vboost", "gal", "ident"])
    if kind == "rot":
        return ["op", "GalileanRotation", {"seq": S.choice(["z", "x", "y", "xyz", "zyx"][:3]), "angles": ["q", num(V, -170, 170, []), "deg"]}]
    if kind == "rotm":
        return ["op", "GalileanRotation", {"rotation": ["jnp", rotmat(V), "float32"]}]
    if kind == "trans":
        return ["op", "GalileanSpatialTranslation", {"translation": ["q", snum(V, 0.4, 5, [3]), U["g"][0]]}]
    if kind == "transv":
        return ["op", "GalileanSpatialTranslation", {"translation": pos(S, V, S.choice(POS3), [], U)}]
    if kind == "boost":
        return ["op", "GalileanBoost", {"velocity": ["q", snum(V, 0.4, 5, [3]), U["s"]]}]
    if kind == "transl4":
        return ["op", "GalileanTranslation", {"translation": ["q", snum(V, 0.4, 5, [4]), U["g"][0]]}]
    if kind == "vboost":
        return ["op", "VelocityBoost", {"velocity": ["q", snum(V, 0.4, 5, [3]), U["s"]]}]
    if kind == "gal":
        return ["op", "GalileanOperator", {"rotation": ["jnp", rotmat(V), "float32"],
                                           "translation": ["q", snum(V, 0.4, 5, [4]), U["g"][0]],
                                           "velocity": ["q", snum(V, 0.4, 5, [3]), U["s"]]}]
    if kind == "ident":
        return ["op", "Identity", {}]
    raise KeyError(kind)


def pipe(S, V, n=None, kinds=("rot", "rotm", "trans", "transv", "ident"), U=None):
    n = n or S.choice([2, 3])
    return ["op", "Pipe", {"operators": [oper(S, V, S.choice(list(kinds)), U) for _ in range(n)]}]


def four(S, V, cls=None, shape=None, U=None):
    sh = shape_of(S, (4, 1, 2, 0)) if shape is None else shape
    U = U or units(S)
    return ["vec", "FourVector", {"t": ["q", num(V, 0.5, 9, sh), S.choice(["s", "ms"])], "q": pos(S, V, cls or S.choice(POS3), sh, U)}]


def galcen(S, V):
    f = {}
    which = S.sample(["galcen", "roll", "z_sun", "galcen_v_sun"], S.randint(1, 4)) if S.random() < 0.9 else []
    if "galcen" in which:
        f["galcen"] = ["vec", "LonLatSphericalPos", {"lon": ["q", num(V, 200, 300, []), "deg"], "lat": ["q", num(V, -60, 60, []), "deg"],
                                                     "distance": ["q", num(V, 7, 9, []), "kpc"]}]
    if "roll" in which:
        f["roll"] = ["q", num(V, -30, 90, []), "deg"]
    if "z_sun" in which:
        f["z_sun"] = ["q", num(V, 5, 60, []), "pc"]
    if "galcen_v_sun" in which:
        f["galcen_v_sun"] = ["vec", "CartesianVel3D", {k: ["q", snum(V, 5, 250, []), "km/s"] for k in ("d_x", "d_y", "d_z")}]
    return ["frame", "Galactocentric", f]


def space(S, V, c=None, shape=None, withacc=None):
    i = POS3.index(c) if c else S.randrange(len(POS3))
    j = S.randrange(len(VEL3))
    U = units(S)
    sh = S.choice([[], [2]]) if shape is None else shape
    d = {"length": pos(S, V, POS3[i], sh, U), "speed": vel(S, V, VEL3[j], sh, U)}
    if (S.random() < 0.4) if withacc is None else withacc:
        d["acceleration"] = vel(S, V, ACC3[S.randrange(len(ACC3))], sh, U, acc=True)
    return ["space", d]


def distq(S, V, what=None):
    what = what or S.choice(["Distance", "Parallax", "DistanceModulus"])
    sh = shape_of(S, (4, 1, 2, 0))
    if what == "Distance":
        return [what, num(V, 0.5, 50, sh), S.choice(["kpc", "pc", "km"])]
    if what == "Parallax":
        return [what, num(V, 0.5, 50, sh), S.choice(["mas", "arcsec", "deg"])]
    return [what, num(V, 5, 25, sh), "mag"]


def OP(k, *a, m="eager", **kw):
    d = {"k": k, "a": list(a)}
    if kw:
        d["kw"] = kw
    if m != "eager":
        d["m"] = m
    return d


KINDS: dict = {}


def kind(name, cost=1, tags=(), modes=()):
    def deco(f):
        KINDS[name] = dict(f=f, cost=cost, tags=set(tags), modes=tuple(modes))
        return f
    return deco


TR = ("jit", "vmap", "fwd", "rev", "jitfwd", "jitc", "fwdc")

# --- construction -------------------------------------------------------------
@kind("init3", tags=("ctor", "pos3"))
def _(S, V):
    v = pos(S, V, S.choice(POS3P))
    return OP("initmap", ["cls", v[1]], ["map", v[2]])


@kind("init21", tags=("ctor",))
def _(S, V):
    v = pos(S, V, S.choice(POS2 + POS1 + ["TwoSpherePos", "CartesianPosND"]))
    return OP("initmap", ["cls", v[1]], ["map", v[2]])


@kind("initvel", tags=("ctor",))
def _(S, V):
    c = S.choice(VEL3 + VEL2 + VEL1 + ["LonCosLatSphericalVel", "TwoSphereVel", "CartesianVelND"] + ACC3 + ACC2 + ACC1)
    v = vel(S, V, c, acc="Acc" in c)
    return OP("initmap", ["cls", v[1]], ["map", v[2]])


@kind("initpartial", tags=("ctor",))
def _(S, V):
    """Components given as angles, distances, parallaxes and bare quantities."""
    c = S.choice(["SphericalPos", "LonLatSphericalPos", "CylindricalPos", "MathSphericalPos"])
    d = distq(S, V)
    sh = []
    d[1] = num(V, 5, 20, sh)
    a = lambda lo, hi: [S.choice(["q", "angle"]), ang(V, lo, hi, sh, "deg"), "deg"]  # noqa: E731
    if c == "SphericalPos":
        f = {"r": d, "theta": a(20, 160), "phi": a(0, 720)}
    elif c == "MathSphericalPos":
        f = {"r": d, "theta": a(0, 720), "phi": a(20, 160)}
    elif c == "LonLatSphericalPos":
        f = {"lon": a(-360, 720), "lat": a(-80, 80), "distance": d}
    else:
        f = {"rho": ["q", num(V, 0.5, 4, sh), "kpc"], "phi": a(-360, 720), "z": ["q", snum(V, 0.5, 4, sh), "pc"]}
    return OP("initmap", ["cls", c], ["map", f])


@kind("fromq", tags=("ctor",))
def _(S, V):
    c, n, u = S.choice([("CartesianPos3D", 3, "km"), ("CartesianPos2D", 2, "km"), ("CartesianPos1D", 1, "km"), ("CartesianVel3D", 3, "km/s"),
                        ("CartesianVel2D", 2, "km/s"), ("CartesianAcc3D", 3, "km/s2"), ("FourVector", 4, "km"), ("CartesianPosND", 5, "km"), ("AbstractPos3D", 3, "km"), ("AbstractVel3D", 3, "km/s")])
    if u == "km":
        u = S.choice(["km", "m", "pc"])
    sh = S.choice([[], [2]])
    vals = snum(V, 0.4, 5, [*sh, n])
    how = S.choice(["q", "listunit", "npunit", "int", "qn"])
    if how == "q":
        return OP("from", ["cls", c], ["q", vals, u])
    if how == "listunit":
        return OP("from", ["cls", c], ["list", vals], ["lit", u])
    if how == "npunit":
        return OP("from", ["cls", c], ["np", vals, S.choice(["float64", "float32"])], ["lit", u])
    if how == "qn":
        return OP("from", ["cls", c], ["qn", vals, u, S.choice(["float64", "float32"])])
    iv = [int(x * 7) or 3 for x in (vals if not sh else vals[0])]
    return OP("from", ["cls", c], ["qi", iv, u])


@kind("frommap", tags=("ctor",))
def _(S, V):
    c = S.choice(POS3 + POS2 + VEL3 + ["ProlateSpheroidalPos"])
    v = vel(S, V, c) if "Vel" in c else pos(S, V, c)
    f = v[2]
    if S.random() < 0.3 and c != "ProlateSpheroidalPos":
        f = {k: ["apq", *s[1:]] for k, s in f.items()}
    return OP("from", ["cls", c], ["map", f])


@kind("fromnorm", tags=("ctor",))
def _(S, V):
    """Keyword construction with wrap-around of out-of-range values."""
    c = S.choice(["SphericalPos", "MathSphericalPos", "LonLatSphericalPos"])
    sh = S.choice([[], [2]])
    U = units(S)
    a = lambda lo, hi: ["q", ang(V, lo, hi, sh, "deg"), "deg"]  # noqa: E731
    r = ["q", snum(V, 0.5, 5, sh), U["g"][0]]
    if c == "LonLatSphericalPos":
        f = {"lon": a(-300, 700), "lat": a(-170, 170), "distance": r}
    else:
        f = {"r": r, "theta": a(-300, 700), "phi": a(-300, 700)}
        if c == "MathSphericalPos":
            f["theta"], f["phi"] = a(0, 359), a(-170, 350)
    return {"k": "from", "a": [["cls", c]], "kw": f}


@kind("fromself", tags=("ctor",))
def _(S, V):
    v = pos(S, V, S.choice(POS3))
    return OP("from", ["cls", S.choice([v[1], "AbstractPos3D"])], v)


# --- position conversions ----------------------------------------------------
def _rep3(src):
    def f(S, V):
        dst = S.choice(POS3)
        return OP(S.choice(["rep", "repf"]), pos(S, V, src), ["cls", dst])
    return f


for _c in POS3:
    kind("rep3." + _c, tags=("conv", "model", "trace"), modes=TR)(_rep3(_c))


@kind("repprol", tags=("conv",))
def _(S, V):
    U = units(S)
    lu = U["g"][0]
    d = ["q", num(V, 0.3, 0.6, []), lu]
    if S.random() < 0.5:
        o = OP("rep", pos(S, V, S.choice(POS3[:2]), U={**U, "g": [lu, lu]}), ["cls", "ProlateSpheroidalPos"])
        o["kw"] = {"Delta": d}
        return o
    if S.random() < 0.3:
        o = OP("rep", pos(S, V, "ProlateSpheroidalPos", U=U), ["cls", "ProlateSpheroidalPos"])
        o["kw"] = {"Delta": d}
        return o
    return OP("rep", pos(S, V, "ProlateSpheroidalPos", U=U), ["cls", S.choice(POS3[:3])])


@kind("rep2", tags=("conv", "model", "trace"), modes=TR)
def _(S, V):
    return OP("rep", pos(S, V, S.choice(POS2)), ["cls", S.choice(POS2)])


@kind("rep1", tags=("conv", "model"), modes=TR)
def _(S, V):
    src, dst = S.choice(POS1), S.choice(POS1)
    v = pos(S, V, src)
    if dst == "RadialPos":
        for k in v[2]:
            v[2][k][1] = _absall(v[2][k][1])
    return OP("rep", v, ["cls", dst])


@kind("repup", tags=("conv",))
def _(S, V):
    src = S.choice(POS2 + POS1)
    U = units(S)
    dst = S.choice(["CartesianPos3D", "CylindricalPos", "SphericalPos"] if src in POS2 else ["CartesianPos2D", "CartesianPos3D", "PolarPos"])
    o = OP("rep", pos(S, V, src, U=U), ["cls", dst])
    if src in POS2 and dst in ("CartesianPos3D", "CylindricalPos") and S.random() < 0.6:
        o["kw"] = {"z": ["q", snum(V, 0.4, 5, []), U["g"][0]]}
    if src == "PolarPos" and dst == "SphericalPos" and S.random() < 0.6:
        o["kw"] = {"theta": ["q", ang(V, 20, 160, [], "rad"), "rad"]}
    if src == "CartesianPos1D" and dst == "CartesianPos3D" and S.random() < 0.5:
        o["kw"] = {"y": ["q", snum(V, 0.4, 5, []), U["g"][0]], "z": ["q", snum(V, 0.4, 5, []), U["g"][0]]}
    return o


@kind("repdown", tags=("conv", "warn"))
def _(S, V):
    src = S.choice(["CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos"] + POS2)
    dst = S.choice((POS2 if src in POS3 else []) + POS1)
    return OP(S.choice(["rep", "repf"]), pos(S, V, src), ["cls", dst])


@kind("repnd", tags=("conv",))
def _(S, V):
    return OP("rep", pos(S, V, "CartesianPosND"), ["cls", "CartesianPosND"])


# --- velocities and accelerations ---------------------------------------------
def _velrep(dim):
    P, W = {3: (POS3, VEL3), 2: (POS2, VEL2), 1: (POS1, VEL1)}[dim]

    def f(S, V):
        sh = S.choice([[], [], [2]])
        U = units(S)
        p = pos(S, V, S.choice(P), sh, U)
        if dim == 1:
            for k in p[2]:
                p[2][k][1] = _absall(p[2][k][1])
        if S.random() < 0.15 and dim == 3:
            p = ["q", snum(V, 0.4, 5, [*sh, 3]), U["g"][0]]
        return OP("rep", vel(S, V, S.choice(W), sh, U), ["cls", S.choice(W)], p)
    return f


kind("vel3", cost=3, tags=("conv", "model", "vel", "trace"), modes=("jit", "jitc"))(_velrep(3))
kind("vel2", cost=3, tags=("conv", "vel", "trace"), modes=("jit", "jitc"))(_velrep(2))
kind("vel1", cost=2, tags=("conv", "vel"))(_velrep(1))


@kind("velcoslat", cost=3, tags=("conv", "vel"))
def _(S, V):
    U = units(S)
    a, b = S.sample(["LonCosLatSphericalVel", "LonLatSphericalVel", "CartesianVel3D", "SphericalVel"], 2)
    if S.random() < 0.7:
        a, b = S.sample(["LonCosLatSphericalVel", "LonLatSphericalVel"], 2)
    return OP("rep", vel(S, V, a, [], U), ["cls", b], pos(S, V, S.choice(["LonLatSphericalPos", "CartesianPos3D"]), [], U))


@kind("acc3", cost=3, tags=("conv", "acc"))
def _(S, V):
    U = units(S)
    sh = S.choice([[], [], [2]])
    return OP("rep", vel(S, V, S.choice(ACC3), sh, U, acc=True), ["cls", S.choice(ACC3)], vel(S, V, S.choice(VEL3), sh, U), pos(S, V, S.choice(POS3), sh, U))


@kind("acc2", cost=2, tags=("conv", "acc"))
def _(S, V):
    U = units(S)
    return OP("rep", vel(S, V, S.choice(ACC2), [], U, acc=True), ["cls", S.choice(ACC2)], vel(S, V, S.choice(VEL2), [], U), pos(S, V, S.choice(POS2), [], U))


# --- arithmetic ---------------------------------------------------------------
@kind("addsub", cost=2, tags=("arith", "model", "trace"), modes=TR)
def _(S, V):
    U = one_unit(units(S))
    sh = S.choice([[], [2]])
    P = S.choice([POS3, POS3, POS2])
    return OP(S.choice(["add", "sub"]), pos(S, V, S.choice(P), sh, U), pos(S, V, S.choice(P), sh, U))


@kind("velarith", tags=("arith",))
def _(S, V):
    U = one_unit(units(S))
    c = S.choice(["CartesianVel3D", "CartesianVel3D", "CartesianVel2D", "CartesianAcc3D"])
    acc = "Acc" in c
    k = S.choice(["add", "neg"] + (["sub"] if c[-2] == "3" else []))
    if k == "neg":
        return OP(k, vel(S, V, c, None, U, acc))
    return OP(k, vel(S, V, c, [], U, acc), vel(S, V, c, [], U, acc))


@kind("velneg", tags=("arith",))
def _(S, V):
    c = S.choice(VEL3 + ACC3 + VEL2)
    return OP("neg", vel(S, V, c, acc="Acc" in c))


@kind("scale", tags=("arith",))
def _(S, V):
    c = S.choice(POS3 + POS2 + POS1)
    k = S.choice(["mul", "rmul", "div"])
    if k == "rmul":
        return OP("mul", scal(V), pos(S, V, c))
    if c in ("SphericalPos", "MathSphericalPos", "LonLatSphericalPos") and k == "div":
        c = "CartesianPos3D"
    sc = ["lit", round(V.uniform(0.5, 3), 3)] if k == "div" else scal(V)
    return OP(k, pos(S, V, c), sc)


@kind("negpos", tags=("arith", "trace"), modes=TR)
def _(S, V):
    return OP(S.choice(["neg", "pos", "neg"]), pos(S, V, S.choice(POS3 + POS2 + ["CartesianPos1D", "CartesianPosND"])))


@kind("posmul", tags=("arith",))
def _(S, V):
    U = one_unit(units(S))
    return OP("mul", pos(S, V, S.choice(POS3), [], U), pos(S, V, S.choice(POS3), [], U))


@kind("norm", tags=("arith", "model", "trace"), modes=TR)
def _(S, V):
    c = S.choice(POS3 + POS2 + POS1 + ["CartesianPosND"])
    return OP(S.choice(["norm", "abs"]), pos(S, V, c))


@kind("velnorm", cost=3, tags=("arith",))
def _(S, V):
    U = one_unit(units(S))
    if S.random() < 0.4:
        return OP("norm", vel(S, V, "CartesianVel3D", None, U))
    return OP("norm", vel(S, V, S.choice(VEL3), [], U), pos(S, V, S.choice(POS3), [], U))


@kind("eq", tags=("arith",))
def _(S, V):
    U = one_unit(units(S))
    a = pos(S, V, S.choice(POS3), [], U)
    b = copy.deepcopy(a) if S.random() < 0.5 else pos(S, V, S.choice(POS3), [], U)
    return OP("eq", a, b)


@kind("veltime", tags=("arith",))
def _(S, V):
    U = one_unit(units(S))
    if S.random() < 0.6:
        return OP("mul", vel(S, V, "CartesianVel3D", [], U), tq(S, V))
    return OP("mul", vel(S, V, S.choice(["CartesianAcc3D"]), [], U, True), tq(S, V))


@kind("normalize", tags=("arith",))
def _(S, V):
    return OP("normalize", S.choice([pos(S, V, "CartesianPos3D"), qpos(S, V), ["jnp", snum(V, 0.3, 4, [3]), "float32"]]))


# --- array behaviour -----------------------------------------------------------
@kind("getitem", tags=("array",))
def _(S, V):
    sh = S.choice([[3], [2, 2]])
    c = S.choice(POS3 + POS2 + VEL3 + ["ProlateSpheroidalPos"])
    v = vel(S, V, c, sh) if "Vel" in c else pos(S, V, c, sh)
    return OP("getitem", v, ["idx", S.choice([0, -1, "0:1", [0, "..."], "::-1"])])


@kind("bcast", tags=("array",))
def _(S, V):
    """Components of different shapes."""
    v = pos(S, V, "CartesianPos3D", [])
    v[2]["x"][1] = snum(V, 0.4, 5, [2])
    w = S.randrange(6)
    if w == 0:
        return OP("getitem", v, ["idx", 1])
    if w == 1:
        return OP("str", v)
    if w == 2:
        return OP("attrs", v, ["lit", ["shape", "ndim", "size", "shapes"]])
    if w == 3:
        return OP("meth", v, ["lit", "reshape"], ["lit", 1], ["lit", 2])
    if w == 4:
        return OP("rep", v, ["cls", "CylindricalPos"])
    return OP("conv", v, ["cls", "Quantity"])


@kind("reshape", tags=("array",))
def _(S, V):
    sh = [2, 2]
    c = S.choice(POS3 + VEL3 + ["PolarPos"])
    v = vel(S, V, c, sh) if "Vel" in c else pos(S, V, c, sh)
    n = S.choice(["reshape", "reshape2", "flatten", "ravel"])
    if n == "reshape":
        return OP("meth", v, ["lit", "reshape"], ["lit", 4])
    if n == "reshape2":
        return OP("meth", v, ["lit", "reshape"], ["lit", 1], ["lit", 4])
    return OP("meth", v, ["lit", n])


@kind("attrs", tags=("array",))
def _(S, V):
    c = S.choice(POS3 + VEL3 + POS2)
    sh = S.choice([[], [2], [2, 2]])
    v = vel(S, V, c, sh) if "Vel" in c else pos(S, V, c, sh)
    n = S.choice([["shape", "ndim", "size"], ["units", "dtypes"], ["shapes", "sizes"], ["components"]] + ([["T", "mT"]] if len(sh) == 2 else []))
    return OP("attrs", v, ["lit", n])


@kind("clsattr", tags=("array",))
def _(S, V):
    c = S.choice(POS3 + POS2 + POS1 + VEL3)
    n = ["components", "differential_cls"] + (["integral_cls"] if "Vel" in c else [])
    return OP("attrs", ["cls", c], ["lit", n])


@kind("asdict", tags=("array",))
def _(S, V):
    return OP("asdict", S.choice([pos(S, V, S.choice(POS3)), vel(S, V, S.choice(VEL3)), space(S, V)]))


# --- units ---------------------------------------------------------------------
@kind("uconvert", tags=("units",))
def _(S, V):
    c = S.choice(POS3 + VEL3 + POS2)
    v = vel(S, V, c) if "Vel" in c else pos(S, V, c)
    w = S.choice(["usys", "dmap", "smap", "cons", "fn"])
    if w == "usys":
        return OP("uconv", v, ["usys", S.choice(["galactic", "si", "cgs", "solarsystem"])])
    if w == "cons":
        return OP("uconv", v, ["consistent"])
    m = {"length": S.choice(["m", "kpc"]), "angle": S.choice(["rad", "arcmin"]), "speed": S.choice(["m/s", "km/h"]), "angular speed": "mas/yr"}
    m = {k: ["lit", x] for k, x in m.items()}
    if w == "dmap":
        return OP("uconv", v, ["dmap", m])
    if w == "smap":
        return OP("uconv", v, ["map", m])
    return OP("uconvf", v, ["usys", S.choice(["galactic", "si"])])


# --- display -------------------------------------------------------------------
@kind("str", tags=("disp",))
def _(S, V):
    c = S.choice(POS3P + VEL3 + POS2 + ["FourVector", "Space", "CartesianPosND"])
    v = four(S, V) if c == "FourVector" else space(S, V, shape=[]) if c == "Space" else vel(S, V, c) if "Vel" in c else pos(S, V, c)
    k = S.choice(["str", "repr", "str"])
    if c == "CartesianPosND":
        k = "repr"
    return OP(k, v)


@kind("strop", tags=("disp",))
def _(S, V):
    return OP(S.choice(["str", "repr"]), S.choice([oper(S, V), pipe(S, V), galcen(S, V)]))


@kind("latex", tags=("disp",))
def _(S, V):
    return OP(S.choice(["latex", "mime"]), pos(S, V, S.choice(POS3)))


# --- conversion to quantities and astropy ---------------------------------------
@kind("toq", tags=("conv", "model"))
def _(S, V):
    c = S.choice(POS3 + POS2 + ["CartesianVel3D", "CartesianAcc3D", "CartesianVel2D", "CartesianPosND", "RadialVel"])
    v = vel(S, V, c, acc="Acc" in c) if ("Vel" in c or "Acc" in c) else pos(S, V, c)
    t = S.choice(["Quantity", "Quantity", "UncheckedQuantity"])
    if c == "CartesianPosND":
        t = "Quantity"
    return OP("conv", v, ["cls", t])


@kind("toapy", tags=("apy",))
def _(S, V):
    if S.random() < 0.6:
        c = S.choice(list(REPOF))
        t = S.choice([REPOF[c], "BaseRepresentation", "apyQuantity"]) if c != "LonLatSphericalPos" else "BaseRepresentation"
        return OP("conv", pos(S, V, c), ["cls", t])
    c = S.choice(list(DIFOF))
    return OP("conv", vel(S, V, c), ["cls", S.choice([DIFOF[c], "BaseDifferential"])])


@kind("fromapy", tags=("apy", "ctor"))
def _(S, V):
    if S.random() < 0.6:
        c = S.choice(list(REPOF))
        v = pos(S, V, c)
        r = ["aprep", REPOF[c], {k: ["apq", *s[1:]] for k, s in v[2].items()}]
        w = S.choice(["from", "abs", "conv", "other"])
        if w == "conv":
            return OP("conv", r, ["cls", c])
        return OP("from", ["cls", {"from": c, "abs": "AbstractPos3D", "other": S.choice(list(REPOF))}[w]], r)
    c = S.choice(list(DIFOF)[:4])
    v = vel(S, V, c)
    r = ["aprep", DIFOF[c], {k: ["apq", *s[1:]] for k, s in v[2].items()}]
    return OP("from", ["cls", S.choice([c, "AbstractVel3D"])], r)


@kind("apyframe", tags=("apy", "frame"))
def _(S, V):
    if S.random() < 0.2:
        return OP("from", ["cls", "ICRS"], ["apicrs"])
    kw = {"z_sun": ["apq", num(V, 5, 60, []), "pc"]}
    if S.random() < 0.5:
        kw["roll"] = ["apq", num(V, -30, 90, []), "deg"]
    if S.random() < 0.5:
        kw["galcen_distance"] = ["apq", num(V, 7, 9, []), "kpc"]
    return OP("from", ["cls", "Galactocentric"], ["apgal", kw])


# --- distances and angles --------------------------------------------------------
@kind("dist", tags=("dist", "model", "trace"), modes=("jit", "fwd"))
def _(S, V):
    return OP("attr", distq(S, V), ["lit", S.choice(["distance", "parallax", "distance_modulus"])])


@kind("distfrom", tags=("dist", "ctor"))
def _(S, V):
    c = S.choice(["Distance", "Parallax"])
    d = distq(S, V, S.choice(["Distance", "Parallax", "DistanceModulus"] if c == "Distance" else ["Distance", "Parallax"]))
    if S.random() < 0.4:
        d = ["q", d[1], d[2]]
    if c == "Parallax" and d[0] == "q" and d[2] == "mag":
        d[2] = "kpc"
    if S.random() < 0.3:
        return OP("conv", ["q", num(V, 1, 9, []), "kpc"], ["cls", "Distance"])
    return OP("from", ["cls", c], d)


@kind("distarith", tags=("dist",))
def _(S, V):
    d = distq(S, V, S.choice(["Distance", "Parallax"]))
    w = S.choice(["add", "mul", "pow", "sqrt", "tan", "conv"])
    if w == "add":
        return OP("add", d, ["q", num(V, 1, 9, []), d[2]])
    if w == "mul":
        return OP("mul", d, ["lit", round(V.uniform(1, 3), 3)])
    if w == "pow":
        return OP("pow", d, ["lit", 2])
    if w == "conv":
        return OP("conv", d, ["cls", "Quantity"])
    if w == "tan":
        return OP("func", ["lit", "tan"], distq(S, V, "Parallax"))
    return OP("func", ["lit", S.choice(["sqrt", "cbrt"])], d)


@kind("angle", tags=("dist",))
def _(S, V):
    sh = shape_of(S, (4, 1, 2, 0))
    a = ["angle", ang(V, -170, 170, sh, "deg"), S.choice(["deg", "arcmin"])]
    w = S.choice(["sin", "cos", "add", "mul", "neg", "mod", "conv", "from", "from2"])
    if w in ("sin", "cos"):
        return OP("func", ["lit", w], a)
    if w == "add":
        return OP("add", a, ["angle", ang(V, 5, 20, [], "deg"), "deg"])
    if w == "mul":
        return OP("mul", a, ["lit", 2])
    if w == "neg":
        return OP("neg", a)
    if w == "mod":
        return OP("mod", a, ["angle", 360, "deg"])
    if w == "conv":
        return OP("conv", a, ["cls", "Quantity"])
    if w == "from":
        return OP("from", ["cls", "Angle"], ["q", ang(V, -170, 170, sh, "rad"), "rad"])
    return OP("conv", ["q", ang(V, -170, 170, sh, "rad"), "rad"], ["cls", "Angle"])


# --- spaces and four vectors --------------------------------------------------------
@kind("space", cost=5, tags=("space",))
def _(S, V):
    return OP("rep", space(S, V), ["cls", S.choice(POS3)])


@kind("spacemisc", tags=("space",))
def _(S, V):
    w = S.choice(["getitem", "idx", "neg", "items", "shape", "initmap", "from", "repr"])
    sp = space(S, V, shape=[2] if w == "idx" else None)
    if w == "getitem":
        return OP("getitem", sp, ["lit", S.choice(["length", "speed"])])
    if w == "idx":
        return OP("getitem", sp, ["idx", S.choice([0, 1, "0:1"])])
    if w == "shape":
        return OP("attrs", sp, ["lit", ["shape", "ndim", "shapes", "sizes"]])
    if w == "initmap":
        return OP("initmap", ["cls", "Space"], ["map", sp[1]])
    if w == "from":
        return OP("from", ["cls", "Space"], S.choice([sp, pos(S, V, S.choice(POS3))]))
    return OP(w, sp)


@kind("poincare", cost=4, tags=("space",))
def _(S, V):
    U = units(S)
    i = S.randrange(len(POS3))
    return OP("rep", ["space", {"length": pos(S, V, POS3[i], [], U), "speed": vel(S, V, VEL3[i], [], U)}], ["cls", "PoincarePolarVector"])


@kind("four", tags=("four", "model"))
def _(S, V):
    U = units(S)
    w = S.choice(["add", "sub", "neg", "norm", "x", "attrs", "conv", "init", "getitem"])
    if w in ("add", "sub"):
        c = S.choice(POS3)
        return OP(w, four(S, V, c, [], U), four(S, V, c, [], U))
    if w == "x":
        return OP("attr", four(S, V, "CartesianPos3D"), ["lit", S.choice(["x", "y", "z"])])
    if w == "attrs":
        return OP("attrs", four(S, V), ["lit", S.choice([["shape", "t"], ["q", "c"], ["units", "shapes"]])])
    if w == "conv":
        return OP("conv", four(S, V), ["cls", "Quantity"])
    if w == "init":
        v = four(S, V)
        return OP("initmap", ["cls", "FourVector"], ["map", v[2]])
    if w == "getitem":
        return OP("norm", four(S, V, "CartesianPos3D", [2]))
    return OP(w, four(S, V, U=U))


# --- operators ---------------------------------------------------------------------
@kind("opctor", tags=("op", "ctor"))
def _(S, V):
    w = S.choice(["euler", "rotfrom", "map", "trans", "pipe", "gal"])
    if w == "euler":
        return OP("euler", ["lit", S.choice(["x", "y", "z"])], ["q", num(V, -170, 170, []), S.choice(["deg", "arcmin"])])
    if w == "rotfrom":
        return OP("from", ["cls", "GalileanRotation"], ["rot", S.choice(["x", "z"]), num(V, -170, 170, [])])
    if w == "map":
        return OP("from", ["cls", "GalileanBoost"], ["map", {"velocity": ["q", snum(V, 0.4, 5, [3]), "km/s"]}])
    if w == "trans":
        n = S.choice([1, 2, 3])
        return OP("from", ["cls", "GalileanSpatialTranslation"], ["list", snum(V, 0.4, 5, [n])], ["lit", S.choice(["km", "kpc"])])
    if w == "gal":
        return OP("initmap", ["cls", "GalileanOperator"], ["map", {"translation": ["q", snum(V, 0.4, 5, [4]), "kpc"], "velocity": ["q", snum(V, 0.4, 5, [3]), "km/s"]}])
    return OP("pipel", ["lst", [oper(S, V, "rotm"), oper(S, V, "trans")]])


def _opcall(k):
    def f(S, V):
        U = units(S)
        o = oper(S, V, k, U)
        call = S.choice(["call", "call", "invcall"])
        sh = S.choice([[], [], [2]])
        if k in ("rot", "rotm", "trans", "transv"):
            w = S.choice(["vec", "vec", "q", "t"] + (["qt", "four"] if True else []))
            if w == "vec":
                return OP(call, o, pos(S, V, S.choice(POS3), sh, U))
            if w == "q":
                return OP(call, o, qpos(S, V))
            if w == "t":
                return OP(call, o, pos(S, V, S.choice(POS3), [], U), tq(S, V))
            if w == "qt":
                return OP(call, o, qpos(S, V), tq(S, V))
            return OP(call, o, four(S, V, S.choice(POS3), [], U))
        if k == "ident":
            return OP(call, o, *S.choice([[pos(S, V, S.choice(POS3), sh, U)], [qpos(S, V)], [pos(S, V, S.choice(POS3), sh, U), tq(S, V)]]))
        if k == "vboost":
            w = S.choice(["p", "qp", "q", "four"])
            if w == "p":
                return OP(call, o, vel(S, V, "CartesianVel3D", [], U))
            if w == "qp":
                return OP(call, o, pos(S, V, S.choice(POS3), [], U), vel(S, V, "CartesianVel3D", [], U))
            if w == "q":
                return OP(call, o, pos(S, V, S.choice(POS3), [], U))
            return OP(call, o, four(S, V, S.choice(POS3), [], U))
        w = S.choice(["t", "four", "qt"])
        if w == "t":
            return OP(call, o, pos(S, V, S.choice(POS3), [], U), tq(S, V))
        if w == "qt":
            return OP(call, o, qpos(S, V), tq(S, V))
        return OP(call, o, four(S, V, S.choice(POS3), [], U))
    return f


for _k in ("rot", "rotm", "trans", "transv", "boost", "transl4", "vboost", "gal", "ident"):
    kind("op." + _k, cost=2, tags=("op", "model", "trace") if _k in ("rot", "rotm", "trans", "transv") else ("op",), modes=("jit", "jitc"))(_opcall(_k))


@kind("op.transqp", cost=4, tags=("op",))
def _(S, V):
    U = units(S)
    i = S.randrange(len(POS3))
    return OP(S.choice(["call", "invcall"]), oper(S, V, S.choice(["trans", "transv"]), U), pos(S, V, POS3[i], [], U), vel(S, V, VEL3[S.randrange(5)], [], U))


@kind("op.pipe", cost=3, tags=("op", "model"))
def _(S, V):
    U = units(S)
    return OP(S.choice(["call", "call", "invcall"]), pipe(S, V, U=U), S.choice([pos(S, V, S.choice(POS3), [], U), qpos(S, V)]))


@kind("op.misc", cost=2, tags=("op",))
def _(S, V):
    w = S.choice(["inverse", "simplify", "or", "simplifyp", "attr", "neg", "getitem", "matmul", "orp"])
    U = units(S)
    if w == "inverse":
        return OP(w, S.choice([oper(S, V, U=U), pipe(S, V, U=U)]))
    if w == "simplify":
        return OP(w, S.choice([oper(S, V, U=U), ["op", "GalileanBoost", {"velocity": ["q", [0., 0., 0.], "km/s"]}], ["op", "GalileanSpatialTranslation", {"translation": ["q", [0., 0., 0.], "km"]}]]))
    if w == "simplifyp":
        k = S.choice(["trans", "boost", "rotm", "ident"])
        return OP("simplify", ["op", "Pipe", {"operators": [oper(S, V, k, U), oper(S, V, S.choice([k, "ident", "rotm"]), U), oper(S, V, k, U)]}])
    if w == "or":
        return OP("or", oper(S, V, U=U), oper(S, V, U=U))
    if w == "orp":
        return OP("or", pipe(S, V, U=U), S.choice([oper(S, V, U=U), pipe(S, V, U=U)]))
    if w == "attr":
        return OP("attr", S.choice([oper(S, V, U=U), pipe(S, V, U=U)]), ["lit", "is_inertial"])
    if w == "neg":
        return OP("neg", oper(S, V, S.choice(["rotm", "trans", "boost", "vboost"]), U))
    if w == "matmul":
        return OP("matmul", oper(S, V, "rotm"), oper(S, V, "rotm"))
    return OP("getitem", pipe(S, V, 3, U=U), ["idx", S.choice([0, -1, "0:2"])])


# --- frames --------------------------------------------------------------------------
def _fq(S, V, both):
    f = galcen(S, V)
    i = ["frame", "ICRS", {}]
    a, b = S.choice([(i, f), (f, i)])
    q = ["q", snum(V, 0.5, 9, [3]), "kpc"]
    if not both:
        return OP("fcall", a, b, q)
    w = S.choice(["qp", "vec"])
    if w == "qp":
        return OP("fcall", a, b, q, ["q", snum(V, 5, 200, [3]), "km/s"])
    U = {"g": ["kpc", "kpc"], "a": "deg", "s": "km/s", "c": "km/s2"}
    return OP("fcall", a, b, pos(S, V, S.choice(POS3), [], U), vel(S, V, "CartesianVel3D", [], U))


kind("frameq", cost=4, tags=("frame", "model"))(lambda S, V: _fq(S, V, False))
kind("frameqp", cost=8, tags=("frame",))(lambda S, V: _fq(S, V, True))


@kind("framegg", cost=6, tags=("frame",))
def _(S, V):
    a = galcen(S, V)
    b = copy.deepcopy(a) if S.random() < 0.3 else galcen(S, V)
    return OP("fcall", a, b, ["q", snum(V, 0.5, 9, [3]), "kpc"], ["q", snum(V, 5, 200, [3]), "km/s"])


@kind("framemisc", cost=2, tags=("frame",))
def _(S, V):
    w = S.choice(["init", "fop", "self", "inverse", "icrs", "from"])
    f = galcen(S, V)
    i = ["frame", "ICRS", {}]
    if w == "init":
        return OP("initmap", ["cls", "Galactocentric"], ["map", f[2]])
    if w == "fop":
        return OP("fop", *S.choice([(i, f), (f, i), (f, f), (i, i)]))
    if w == "self":
        return OP("xop", i, f)
    if w == "inverse":
        return OP("inverse", ["fop", *S.choice([(i, f), (f, i)])])
    if w == "from":
        return OP("from", ["cls", "Galactocentric"], S.choice([f, ["map", f[2]]]))
    return OP("fcall", i, i, pos(S, V, S.choice(POS3), []))


# --- copies -----------------------------------------------------------------------------
def anyobj(S, V):
    w = S.choice(["pos", "pos", "vel", "acc", "four", "space", "oper", "pipe", "gal", "dist", "angle", "nd"])
    if w == "pos":
        return pos(S, V, S.choice(POS3P + POS2 + POS1 + ["TwoSpherePos"]))
    if w == "vel":
        return vel(S, V, S.choice(VEL3 + VEL2 + VEL1 + ["LonCosLatSphericalVel"]))
    if w == "acc":
        return vel(S, V, S.choice(ACC3), acc=True)
    if w == "four":
        return four(S, V)
    if w == "space":
        return space(S, V)
    if w == "oper":
        return oper(S, V)
    if w == "pipe":
        return pipe(S, V)
    if w == "gal":
        return galcen(S, V)
    if w == "dist":
        return distq(S, V)
    if w == "nd":
        return pos(S, V, "CartesianPosND")
    return ["angle", ang(V, -170, 170, [], "deg"), "deg"]


@kind("copy", tags=("copy",))
def _(S, V):
    o = anyobj(S, V)
    k = S.choice(["copy", "deepcopy", "pickle2", "pickle5", "tree", "fieldsrb"])
    if k == "fieldsrb" and o[0] == "space":
        k = "tree"
    return OP(k, o)


# ---------------------------------------------------------------- invalid requests
def _q(v, un):
    return ["q", v, un]


RADIAL = {"SphericalPos": "r", "MathSphericalPos": "r", "LonLatSphericalPos": "distance", "CylindricalPos": "rho", "PolarPos": "r", "RadialPos": "r"}
POLAR = {"SphericalPos": "theta", "MathSphericalPos": "phi", "LonLatSphericalPos": "lat", "TwoSpherePos": "theta"}
ALLPOS = POS3P + POS2 + POS1 + ["TwoSpherePos", "CartesianPosND"]
ALLVEL = VEL3 + VEL2 + VEL1 + ["LonCosLatSphericalVel", "TwoSphereVel", "CartesianVelND"]
ALLACC = ACC3 + ACC2 + ACC1 + ["CartesianAccND"]
INV: dict = {}


def bad(f):
    INV[f.__name__] = f
    return f


def _bad(V, lo, hi, sh, sign=1):
    """Numbers with at least one in the forbidden range."""
    v = num(V, lo, hi, sh)
    if not sh:
        return sign * v
    i = V.randrange(sh[0])
    out = [x if j != i else sign * x for j, x in enumerate(v)]
    return out


@bad
def negr(S, V, U):
    c = S.choice(list(RADIAL))
    sh = S.choice([[], [], [2]])
    g = pos(S, V, c, sh, U)
    g[2][RADIAL[c]] = _q(_bad(V, 0.01, 5, sh, -1), U["g"][0])
    return OP("initmap", ["cls", c], ["map", g[2]])


@bad
def polarrange(S, V, U):
    c = S.choice(list(POLAR))
    sh = S.choice([[], [], [2]])
    g = pos(S, V, c, sh, U)
    good = [40.0, 50.0] if sh else None
    x = round(S.choice([V.uniform(181, 350), -V.uniform(1 if c != "LonLatSphericalPos" else 91, 170)]), 3)
    if c == "LonLatSphericalPos" and S.random() < 0.5:
        x = round(S.choice((-1, 1)) * V.uniform(91, 175), 3)
    if sh:
        good[V.randrange(2)] = x
        x = good
    g[2][POLAR[c]] = _q(x, "deg")
    return OP("initmap", ["cls", c], ["map", g[2]])


@bad
def dimpos(S, V, U):
    c = S.choice(ALLPOS)
    g = pos(S, V, c, [], U)
    k = S.choice(list(g[2]))
    v = [1.0, 2.0, 3.0, 4.0] if c == "CartesianPosND" else num(V, 0.5, 5, [])
    g[2][k] = _q(v, S.choice(["s", "kg", "km/s", "K"]))
    return OP("initmap", ["cls", c], ["map", g[2]])


@bad
def dimang(S, V, U):
    """An angle where a length belongs, or a length where an angle belongs."""
    c = S.choice(["SphericalPos", "MathSphericalPos", "LonLatSphericalPos", "CylindricalPos", "PolarPos"])
    g = pos(S, V, c, [], U)
    ks = [k for k in g[2] if k in ("theta", "phi", "lon", "lat")]
    k = S.choice(ks)
    g[2][k] = _q(num(V, 0.1, 1, []), S.choice(["km", "kpc", "m"]))
    return OP("initmap", ["cls", c], ["map", g[2]])


@bad
def dimvel(S, V, U):
    c = S.choice(ALLVEL + ALLACC)
    v = vel(S, V, c, [], U, acc="Acc" in c)
    k = S.choice(list(v[2]))
    x = [1.0, 2.0, 3.0, 4.0] if c.endswith("ND") else num(V, 0.5, 5, [])
    v[2][k] = _q(x, S.choice(["kg", "m2", "K"] + (["km/s"] if "Acc" in c else ["km/s2"])))
    return OP("initmap", ["cls", c], ["map", v[2]])


@bad
def missing(S, V, U):
    c = S.choice([x for x in ALLPOS + ALLVEL + ALLACC])
    g = vel(S, V, c, [], U, acc="Acc" in c) if ("Vel" in c or "Acc" in c) else pos(S, V, c, [], U)
    g[2].pop(S.choice(list(g[2])))
    return OP("initmap", ["cls", c], ["map", g[2]])


@bad
def extra(S, V, U):
    c = S.choice(ALLPOS + ALLVEL + ALLACC)
    g = vel(S, V, c, [], U, acc="Acc" in c) if ("Vel" in c or "Acc" in c) else pos(S, V, c, [], U)
    g[2]["w"] = _q(num(V, 0.5, 5, []), U["g"][0])
    return OP("initmap", ["cls", c], ["map", g[2]])


@bad
def frommapbad(S, V, U):
    """The same faults through from_."""
    c = S.choice(POS3 + POS2 + VEL3)
    g = vel(S, V, c, [], U) if "Vel" in c else pos(S, V, c, [], U)
    k = S.choice(list(g[2]))
    if S.random() < 0.5:
        g[2].pop(k)
    else:
        g[2][k] = _q(num(V, 0.5, 5, []), "kg")
    return OP("from", ["cls", c], ["map", g[2]])


@bad
def prol(S, V, U):
    g = pos(S, V, "ProlateSpheroidalPos", [], U)
    lu = U["g"][0]
    w = S.choice(["mu", "nu", "nuneg", "Delta", "Delta0"])
    if w == "mu":
        g[2]["mu"] = _q(num(V, 0.1, 1.5, []), lu + "2")
    elif w == "nu":
        g[2]["nu"] = _q(num(V, 6, 9, []), lu + "2")
    elif w == "nuneg":
        g[2]["nu"] = _q(num(V, -9, -6, []), lu + "2")
    elif w == "Delta":
        g[2]["Delta"] = _q(num(V, -2, -1, []), lu)
    else:
        g[2]["Delta"] = _q(0.0, lu)
    return OP("initmap", ["cls", "ProlateSpheroidalPos"], ["map", g[2]])


@bad
def prolrep(S, V, U):
    """Conversion to prolate spheroidal coordinates without, or with an impossible, focal length."""
    src = S.choice(["CylindricalPos", "CartesianPos3D", "ProlateSpheroidalPos"])
    o = OP("rep", pos(S, V, src, [], U), ["cls", "ProlateSpheroidalPos"])
    lu = U["g"][0]
    if src != "ProlateSpheroidalPos" and S.random() < 0.3:
        return o
    o["kw"] = {"Delta": _q(S.choice([0.0, -num(V, 0.5, 3, [])]), lu)}
    return o


@bad
def frame(S, V, U):
    n = ["frame", "NoFrame", {}]
    o = S.choice([["frame", "ICRS", {}], galcen(S, V), n])
    return OP(S.choice(["fop", "xop"]), *S.choice([(n, o), (o, n)]))


@bad
def distdim(S, V, U):
    c, un = S.choice([("Distance", ["deg", "s", "mag", "kg"]), ("Parallax", ["kpc", "s", "mag"]), ("DistanceModulus", ["kpc", "deg", "s"]), ("Angle", ["kpc", "s", "mag"])])
    return OP("init", ["cls", c], ["lit", num(V, 0.5, 5, [])], ["lit", S.choice(un)])


@bad
def plxneg(S, V, U):
    sh = S.choice([[], [2]])
    return OP("init", ["cls", "Parallax"], ["jnp", _bad(V, 0.5, 5, sh, -1), "float32"], ["lit", S.choice(["mas", "arcsec"])])


@bad
def plxfromneg(S, V, U):
    return OP("from", ["cls", "Parallax"], _q(-num(V, 0.5, 5, []), S.choice(["mas", "arcsec"])))


@bad
def setitem(S, V, U):
    return OP("setitem", pos(S, V, S.choice(POS3), [2], U), ["lit", 0], ["lit", 1.0])


@bad
def setattr_(S, V, U):
    p = S.choice([pos(S, V, S.choice(POS3 + POS2), [], U), vel(S, V, S.choice(VEL3), [], U)])
    return OP("setattr", p, ["lit", list(p[2])[0]], _q(num(V, 0.5, 5, []), U["g"][0]))


@bad
def setop(S, V, U):
    o = oper(S, V, S.choice(["trans", "boost", "rotm", "vboost"]), U)
    k = list(o[2])[0]
    return OP("setattr", o, ["lit", k], o[2][k])


@bad
def velnopos(S, V, U):
    a, b = S.sample(VEL3, 2)
    return OP("rep", vel(S, V, a, [], U), ["cls", b])


@bad
def accnopos(S, V, U):
    a, b = S.sample(ACC3, 2)
    o = OP("rep", vel(S, V, a, [], U, acc=True), ["cls", b])
    if S.random() < 0.5:
        o["a"].append(vel(S, V, VEL3[0], [], U))
    return o


@bad
def ndto3(S, V, U):
    return OP(S.choice(["rep", "repf"]), pos(S, V, "CartesianPosND", []), ["cls", S.choice(POS3 + POS2)])


@bad
def crosskind(S, V, U):
    """Conversions between kinds of vector."""
    w = S.randrange(4)
    if w == 0:
        return OP("rep", pos(S, V, S.choice(POS3), [], U), ["cls", S.choice(VEL3 + ACC3)])
    if w == 1:
        return OP("rep", vel(S, V, S.choice(VEL3), [], U), ["cls", S.choice(POS3 + ACC3)], pos(S, V, S.choice(POS3), [], U))
    if w == 2:
        return OP("rep", vel(S, V, S.choice(ACC3), [], U, acc=True), ["cls", S.choice(POS3 + VEL3)], vel(S, V, "CartesianVel3D", [], U), pos(S, V, S.choice(POS3), [], U))
    return OP("rep", pos(S, V, S.choice(POS3), [], U), ["cls", S.choice(["Galactocentric", "Distance", "GalileanRotation"])])


@bad
def posplusvel(S, V, U):
    U = one_unit(U)
    p, v, a = pos(S, V, S.choice(["CartesianPos3D", "SphericalPos", "CylindricalPos"]), [], U), vel(S, V, S.choice(["CartesianVel3D", "SphericalVel"]), [], U), vel(S, V, "CartesianAcc3D", [], U, True)
    x, y = S.sample([p, v, a], 2)
    return OP(S.choice(["add", "sub"]), x, y)


@bad
def posplusscalar(S, V, U):
    k = S.choice(["add", "sub"])
    return OP(k, pos(S, V, S.choice(POS3), [], U), S.choice([["lit", 1.5], ["jnp", [1.0, 2.0, 3.0], "float32"], ["lit", "a"]]))


@bad
def fourplus3(S, V, U):
    U = one_unit(U)
    x, y = four(S, V, "CartesianPos3D", [], U), pos(S, V, "CartesianPos3D", [], U)
    return OP(S.choice(["add", "sub"]), *S.choice([(x, y), (y, x)]))


@bad
def posmulvec(S, V, U):
    return OP("mul", ["jnp", num(V, 1, 2, [2]), "float32"], pos(S, V, S.choice(POS3), [], U))


@bad
def vecpow(S, V, U):
    return OP(S.choice(["pow", "mod"]), pos(S, V, S.choice(POS3), [], U), ["lit", 2])


@bad
def divvec(S, V, U):
    return OP("div", ["lit", num(V, 1, 2, [])], pos(S, V, S.choice(POS3), [], U))


@bad
def uconvmiss(S, V, U):
    return OP("uconv", pos(S, V, S.choice(["SphericalPos", "CylindricalPos", "LonLatSphericalPos"]), [], U), ["map", {S.choice(["length", "angle"]): ["lit", "m"]}])


@bad
def spacebad(S, V, U):
    return OP("initmap", ["cls", "Space"], ["map", {"length": pos(S, V, S.choice(POS3), [2], U), "speed": vel(S, V, S.choice(VEL3), [3], U)}])


@bad
def spacekey(S, V, U):
    return OP("getitem", space(S, V), ["lit", S.choice(["mass", "time", "acceleratio"])])


@bad
def pipebad(S, V, U):
    return OP("pipel", ["lit", S.choice([3, "a"])])


@bad
def transbad(S, V, U):
    return OP("init", ["cls", "GalileanSpatialTranslation"], _q(snum(V, 0.5, 4, [S.choice([5, 6])]), U["g"][0]))


@bad
def boostbad(S, V, U):
    c = S.choice(["GalileanBoost", "VelocityBoost"])
    return OP("init", ["cls", c], _q(snum(V, 0.5, 4, [3]), S.choice(["km", "s", "kg"])))


@bad
def transdim(S, V, U):
    return OP("init", ["cls", "GalileanSpatialTranslation"], _q(snum(V, 0.5, 4, [3]), S.choice(["km/s", "s", "kg"])))


@bad
def fourshape(S, V, U):
    return OP("init", ["cls", "FourVector"], _q(num(V, 1, 2, [2]), "s"), pos(S, V, S.choice(POS3), [], U))


@bad
def fourdim(S, V, U):
    return OP("init", ["cls", "FourVector"], _q(num(V, 1, 2, []), S.choice(["kg", "km"])), pos(S, V, S.choice(POS3), [], U))


@bad
def frame2(S, V, U):
    return OP("from", ["cls", "ICRS"], galcen(S, V))


@bad
def gcfdim(S, V, U):
    k, v = S.choice([("roll", _q(num(V, 1, 5, []), "km")), ("z_sun", _q(num(V, 1, 5, []), "deg")), ("galcen_v_sun", _q(snum(V, 1, 5, [3]), "km"))])
    return OP("initmap", ["cls", "Galactocentric"], ["map", {k: v}])


@bad
def matmulbad(S, V, U):
    return OP("matmul", oper(S, V, "rotm"), ["lit", 3])


@bad
def opbad(S, V, U):
    return OP("call", oper(S, V, S.choice(["rotm", "trans", "boost", "vboost"])), ["lit", "a"])


@bad
def rotvec2(S, V, U):
    return OP("call", oper(S, V, "rotm"), _q(snum(V, 0.5, 4, [2]), U["g"][0]))


@bad
def oponvel(S, V, U):
    return OP("call", oper(S, V, S.choice(["boost", "transl4"]), U), vel(S, V, "CartesianVel3D", [], U))


@bad
def convbad(S, V, U):
    x, cs = S.choice([(pos(S, V, S.choice(POS3), [], U), ["ICRS", "FourVector"]), (vel(S, V, S.choice(VEL3), [], U), ["Distance", "Angle", "ICRS", "FourVector"])])
    return OP("conv", x, ["cls", S.choice(cs)])


@bad
def fromwrongunit(S, V, U):
    c, un = S.choice([("CartesianPos3D", "km/s"), ("CartesianVel3D", "km"), ("CartesianAcc3D", "km"), ("CartesianPos2D", "s")])
    n = int(c[-2])
    w = S.randrange(3)
    v = snum(V, 0.5, 4, [n])
    if w == 0:
        return OP("from", ["cls", c], _q(v, un))
    if w == 1:
        return OP("from", ["cls", c], ["list", v], ["lit", un])
    return OP("from", ["cls", c], ["np", v, "float64"], ["lit", un])


@bad
def aprepbad(S, V, U):
    """Third-party frames that carry data, or of another kind."""
    return OP("from", ["cls", S.choice(["Galactocentric"])], ["apicrs"])


@bad
def normnopos(S, V, U):
    return OP("norm", vel(S, V, S.choice([v for v in VEL3 if v != "CartesianVel3D"]), [], U))


@bad
def idxbad(S, V, U):
    sh, i = S.choice([([], 0), ([], [0, 0]), ([2], [0, 0, 0, 0])])
    return OP("getitem", pos(S, V, S.choice(POS3), sh, U), ["idx", i])


@bad
def reshapebad(S, V, U):
    return OP("meth", pos(S, V, S.choice(POS3), [2], U), ["lit", "reshape"], ["lit", 5])


def inv(S, V):
    """A request that must raise."""
    U = units(S)
    w = S.choice(list(INV))
    o = INV[w](S, V, U)
    o["w"] = w
    return o


kind("invalid", tags=("invalid",))(inv)
for _w in list(INV):
    kind("inv." + _w, tags=("invalid", "invone"))(lambda S, V, _w=_w: {**INV[_w](S, V, units(S)), "w": _w})


# ---------------------------------------------------------------- variants
def make(name, sseed, vseed):
    """The call of kind ``name`` with structure seed and value seed."""
    S, V = random.Random(f"S{name}{sseed}"), random.Random(f"V{name}{vseed}")
    op = KINDS[name]["f"](S, V)
    op = copy.deepcopy(op)
    op["n"] = name
    return op


_NUMT = {"q", "apq", "np", "jnp", "list", "angle", "Distance", "Parallax", "DistanceModulus", "qn"}


def _numleaves(spec, out):
    if isinstance(spec, list):
        if spec and isinstance(spec[0], str) and spec[0] in _NUMT:
            out.append(spec)
            return out
        for s in spec:
            _numleaves(s, out)
    elif isinstance(spec, dict):
        for s in spec.values():
            _numleaves(s, out)
    return out


def _scale(v, f):
    if isinstance(v, list):
        return [_scale(x, f) for x in v]
    return round(v * f, 6) if isinstance(v, float) else v


UNITSWAP = {"km": "m", "m": "km", "kpc": "pc", "pc": "kpc", "cm": "m", "AU": "km", "km/s": "m/s", "m/s": "km/s", "rad": "deg", "deg": "arcmin",
            "s": "ms", "ms": "s", "Myr": "s", "km2": "m2", "m2": "km2", "kpc2": "pc2", "deg/s": "rad/s", "rad/s": "deg/s", "mas": "arcsec", "arcsec": "mas"}


def variant(op, how, rng):
    """A call with the same structure as ``op`` that differs in one respect."""
    o = copy.deepcopy(op)
    if op["k"] == "doc":
        return docop(op["n"], o["a"][0][1], o["a"][1][1], {"near": 1.0003, "one": 1.05}.get(how, 1.3))
    leaves = _numleaves([o.get("a", []), o.get("kw", {})], [])
    if not leaves:
        return o
    if how == "near":
        for s in leaves:
            s[1] = _scale(s[1], 1.0003)
    elif how == "one":
        s = rng.choice(leaves)
        s[1] = _scale(s[1], 1.05)
    elif how == "unit":
        cands = [s for s in leaves if len(s) > 2 and s[2] in UNITSWAP]
        if cands:
            s = rng.choice(cands)
            s[2] = UNITSWAP[s[2]]
    elif how == "kw":
        for k, s in o.get("kw", {}).items():
            for s in _numleaves([s], []):
                s[1] = _scale(s[1], 0.55)
    elif how == "units":
        for s in leaves:
            if len(s) > 2 and s[2] in UNITSWAP:
                s[2] = UNITSWAP[s[2]]
    return o


def docop(name, env, x, f=1):
    return {"k": "doc", "a": [["docenv", env, f], ["lit", x], ["lit", f]], "n": name}


from . import gen2  # noqa: E402, F401

# --- calls taken from the library's own examples, and the structures that together reach all of its code
CORPUS = {"docs": [], "ops": []}
_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json")
if os.path.exists(_p):
    with open(_p) as _f:
        CORPUS = json.load(_f)
for _i, _d in enumerate(CORPUS["docs"]):
    def _doc(S, V, _i=_i, _d=_d):
        return docop(f"doc.{_i}", _d["env"], _d["x"], V.choice([1, 1, 1.0003, 1.3, 0.8]))
    kind(f"doc.{_i}", cost=4, tags=("doc",))(_doc)
