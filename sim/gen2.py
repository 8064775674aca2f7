"""More call kinds: the parts of the public surface the first catalogue leaves out (registered on import of sim.gen)."""
from __future__ import annotations

import copy

from .gen import (ACC1, ACC2, ACC3, DIFOF, OP, POS1, POS2, POS3, POS3P, REPOF, TR, VEL1, VEL2, VEL3, KINDS, ang, distq, four, galcen, kind, num, one_unit, oper, pipe, pos,
                  rotmat, scal, snum, space, tq, units, vel)

ALLV = POS3P + POS2 + POS1 + ["TwoSpherePos", "CartesianPosND"] + VEL3 + VEL2 + VEL1 + ["LonCosLatSphericalVel", "TwoSphereVel", "CartesianVelND", "ProlateSpheroidalVel"] + ACC3 + ACC2 + ACC1 + [
    "CartesianAccND", "TwoSphereAcc", "ProlateSpheroidalAcc"]
GEN = "CartesianGeneric3D"


def anyv(S, V, c, sh=None, U=None):
    U = U or units(S)
    sh = S.choice([[], [2]]) if sh is None else sh
    if c == "ProlateSpheroidalVel":
        return ["vec", c, {"d_mu": ["q", snum(V, 0.4, 5, sh), "km2/s"], "d_nu": ["q", snum(V, 0.4, 5, sh), "km2/s"], "d_phi": ["q", snum(V, 0.1, 0.9, sh), "rad/s"]}]
    if c == "ProlateSpheroidalAcc":
        return ["vec", c, {"d2_mu": ["q", snum(V, 0.4, 5, sh), "km2/s2"], "d2_nu": ["q", snum(V, 0.4, 5, sh), "km2/s2"], "d2_phi": ["q", snum(V, 0.1, 0.9, sh), "rad/s2"]}]
    if c == GEN:
        u = S.choice(["km", "kg m / s", "erg"])
        return ["vec", c, {k: ["q", snum(V, 0.4, 5, sh), u] for k in "xyz"}]
    if c == "PoincarePolarVector":
        return ["vec", c, {"rho": ["q", num(V, 0.4, 5, sh), "km"], "pp_phi": ["q", snum(V, 0.4, 5, sh), "km rad(1/2) / s(1/2)"], "z": ["q", snum(V, 0.4, 5, sh), "km"],
                           "d_rho": ["q", snum(V, 0.4, 5, sh), "km/s"], "d_pp_phi": ["q", snum(V, 0.4, 5, sh), "km rad(1/2) / s(1/2)"], "d_z": ["q", snum(V, 0.4, 5, sh), "km/s"]}]
    if c == "FourVector":
        return four(S, V, None, sh, U)
    if c == "Space":
        return space(S, V, shape=sh)
    if "Acc" in c:
        return vel(S, V, c, sh, U, True)
    if "Vel" in c:
        return vel(S, V, c, sh, U)
    return pos(S, V, c, sh, U)


ALLO = [*ALLV, GEN, "PoincarePolarVector", "FourVector", "Space"]


# --- every class: construction, array behaviour, arithmetic ------------------------
@kind("y.init", tags=("ctor",))
def _(S, V):
    v = anyv(S, V, S.choice(ALLV + [GEN, "PoincarePolarVector"]))
    return OP("initmap", ["cls", v[1]], ["map", v[2]])


@kind("y.from", tags=("ctor",))
def _(S, V):
    c, n, u = S.choice([("CartesianPos1D", 1, "km"), ("RadialPos", 1, "km"), ("CartesianVel1D", 1, "km/s"), ("RadialVel", 1, "km/s"), ("CartesianAcc1D", 1, "km/s2"), ("RadialAcc", 1, "km/s2"),
                        ("CartesianPos2D", 2, "km"), ("CartesianVel2D", 2, "km/s"), ("CartesianAcc2D", 2, "km/s2"), ("CartesianAcc3D", 3, "km/s2"), ("CartesianVelND", 4, "km/s"),
                        ("CartesianAccND", 4, "km/s2"), ("CartesianPosND", 3, "km"), (GEN, 3, "kg m/s"), ("AbstractPos3D", 3, "km"), ("AbstractVel3D", 3, "km/s"), ("AbstractAcc3D", 3, "km/s2"),
                        ("FourVector", 4, "km"), ("AbstractPos", 3, "km"), ("AbstractVel", 3, "km/s")])
    vals = snum(V, 0.4, 5, [n])
    if c in ("RadialPos",):
        vals = num(V, 0.4, 5, [1])
    if n == 1 and S.random() < 0.5:
        return OP("from", ["cls", c], ["q", vals[0], u])
    w = S.choice(["q", "list", "np", "2", "jnp"])
    if w == "2":
        vals = [vals, [x * 2 for x in vals]]
        w = "q"
    if w == "q":
        return OP("from", ["cls", c], ["q", vals, u])
    if w == "list":
        return OP("from", ["cls", c], ["list", vals], ["lit", u])
    if w == "jnp":
        return OP("from", ["cls", c], ["jnp", vals, "float32"], ["lit", u])
    return OP("from", ["cls", c], ["np", vals, "float64"], ["lit", u])


@kind("y.frompos", tags=("ctor",))
def _(S, V):
    """Construction from another vector."""
    w = S.randrange(5)
    if w == 0:
        v = pos(S, V, S.choice(POS3))
        return OP("from", ["cls", "FourVector"], tq(S, V), v)
    if w == 1:
        return OP("from", ["cls", "Space"], ["map", space(S, V)[1]])
    if w == 2:
        v = anyv(S, V, S.choice(ALLV))
        return OP("from", ["cls", v[1]], v)
    if w == 3:
        return OP("init", ["cls", "FourVector"], tq(S, V), pos(S, V, S.choice(POS3), []))
    return OP("from", ["cls", "Space"], pos(S, V, S.choice(POS3)), vel(S, V, S.choice(VEL3)))


@kind("y.attr", tags=("array",))
def _(S, V):
    c = S.choice(ALLO)
    sh = S.choice([[], [2], [2, 2]])
    v = anyv(S, V, c, sh)
    n = S.choice([["shape", "ndim"], ["size"], ["shapes"], ["sizes"], ["dtypes"], ["units"], ["components"], ["mT", "T"] if len(sh) == 2 else ["T"] if sh else ["shape"]])
    return OP("attrs", v, ["lit", n])


@kind("y.cls", tags=("array",))
def _(S, V):
    c = S.choice(ALLV + ["PoincarePolarVector", "FourVector"])
    return OP("attrs", ["cls", c], ["lit", S.choice([["components"], ["differential_cls"] if "Acc" not in c else ["integral_cls"], ["integral_cls"] if "Vel" in c else ["differential_cls"] if "Acc" not in c else
                                                     ["components"]])])


@kind("y.reshape", tags=("array",))
def _(S, V):
    c = S.choice(ALLO)
    v = anyv(S, V, c, [2, 2])
    n = S.choice(["reshape", "flatten", "ravel", "idx", "idx2", "len", "bool"])
    if n == "reshape":
        return OP("meth", v, ["lit", "reshape"], ["lit", 4])
    if n == "idx":
        return OP("getitem", v, ["idx", S.choice([0, -1, "0:1", [0, 1], "..."])])
    if n == "idx2":
        return OP("getitem", v, ["np", [1, 0], "int32"])
    if n == "len":
        return OP("len", v)
    if n == "bool":
        return OP("getitem", v, ["np", [True, False], "bool"])
    return OP("meth", v, ["lit", n])


@kind("y.unary", tags=("arith",), modes=("jit", "jitc"))
def _(S, V):
    c = S.choice(ALLO)
    v = anyv(S, V, c)
    return OP(S.choice(["neg", "neg", "pos"]), v)


@kind("y.binary", tags=("arith",))
def _(S, V):
    c = S.choice([x for x in ALLV if x.startswith("Cartesian")] + POS3 + POS2 + POS1 + ["FourVector", "Space"])
    U = one_unit(units(S))
    U["s"] = "km/s"
    sh = S.choice([[], [2]])
    a, b = anyv(S, V, c, sh, U), anyv(S, V, c, sh, U)
    return OP(S.choice(["add", "sub"]), a, b)


@kind("y.scale", tags=("arith",))
def _(S, V):
    c = S.choice(POS3 + POS2 + POS1 + ["CartesianPosND", "CartesianVelND", GEN] + VEL3[:1] + VEL2[:1] + VEL1 + ["CartesianAcc1D", "CartesianAcc2D", "CartesianAcc3D"])
    v = anyv(S, V, c)
    w = S.choice(["mul", "rmul", "div", "qmul"])
    k = ["lit", round(V.uniform(0.5, 3), 3)]
    if w == "rmul":
        return OP("mul", k, v)
    if w == "qmul":
        return OP("mul", ["q", round(V.uniform(0.5, 3), 3), ""], v)
    return OP(w, v, k)


@kind("y.time", tags=("arith",))
def _(S, V):
    c, p = S.choice([("CartesianVel1D", 1), ("CartesianVel2D", 1), ("CartesianVel3D", 1), ("CylindricalVel", 1), ("SphericalVel", 1), ("CartesianAcc1D", 1), ("CartesianAcc2D", 1), ("CartesianAcc3D", 1),
                     ("CartesianAcc3D", 2), ("CartesianAcc2D", 2), ("CartesianAcc1D", 2), ("CylindricalAcc", 1)])
    v = anyv(S, V, c, [])
    t = ["q", num(V, 0.5, 9, []), "s" if p == 1 else "s2"]
    return OP("mul", *([v, t] if S.random() < 0.5 else [t, v]))


@kind("y.norm", cost=2, tags=("arith",))
def _(S, V):
    w = S.choice(["cart", "cart", "vel", "acc", "four", "abs"])
    U = one_unit(units(S))
    if w == "cart":
        return OP("norm", anyv(S, V, S.choice(["CartesianVel1D", "CartesianVel2D", "CartesianVel3D", "CartesianVelND", "CartesianAcc1D", "CartesianAcc2D", "CartesianAcc3D", "CartesianAccND", "CartesianPosND",
                                               "ProlateSpheroidalPos"])))
    if w == "vel":
        return OP("norm", vel(S, V, S.choice(VEL2), [], U), pos(S, V, S.choice(POS2), [], U))
    if w == "acc":
        return OP("norm", vel(S, V, S.choice(ACC3), [], U, True), vel(S, V, S.choice(VEL3), [], U), pos(S, V, S.choice(POS3), [], U))
    if w == "four":
        return OP("norm", four(S, V))
    return OP("abs", anyv(S, V, S.choice(POS3P + POS2 + POS1 + ["CartesianPosND", "FourVector"])))


@kind("y.eq", tags=("arith",))
def _(S, V):
    U = one_unit(units(S))
    c = S.choice(ALLO)
    a = anyv(S, V, c, None, U)
    q = S.random()
    b = copy.deepcopy(a) if q < 0.4 else anyv(S, V, c, [], U) if q < 0.7 else anyv(S, V, S.choice(POS3 + VEL3), [], U) if q < 0.9 else ["lit", 1]
    return OP("eq", a, b)


@kind("y.misc", tags=("array", "disp"))
def _(S, V):
    v = anyv(S, V, S.choice(ALLO))
    w = S.choice(["aval", "asdict", "hash", "repr", "str", "devices", "setattr", "latex", "ns", "todev"])
    if w == "devices":
        return OP("attr", v, ["lit", S.choice(["device", "devices"])])
    if w == "ns":
        return OP("nsname", v)
    if w == "todev":
        return OP("todev", v)
    if w == "setattr":
        v = anyv(S, V, S.choice(ALLV))
        return OP("setattr", v, ["lit", next(iter(v[2]))], ["q", 1.0, "km"])
    if w == "str" and v[0] == "vec" and v[1].endswith("ND"):
        w = "repr"
    return OP(w, v)


@kind("y.uconv", tags=("units",))
def _(S, V):
    v = anyv(S, V, S.choice(ALLO))
    w = S.choice(["usys", "cons", "map", "fn", "fnm"])
    if w == "usys":
        return OP("uconv", v, ["usys", S.choice(["galactic", "si", "cgs", "solarsystem"])])
    if w == "cons":
        return OP("uconv", v, ["consistent"])
    if w == "fn":
        return OP("uconvf", v, ["usys", S.choice(["galactic", "si"])])
    m = {"length": "m", "angle": "rad", "speed": "m/s", "acceleration": "m/s2", "angular speed": "mas/yr", "angular acceleration": "mas/yr2", "time": "ms", "area": "m2", "diffusivity": "m2/s"}
    m = {k: ["lit", x] for k, x in m.items()}
    return OP("uconv" if w == "map" else "uconvf", v, [S.choice(["map", "dmap"]), m])


@kind("y.fields", tags=("array",))
def _(S, V):
    """The dataclassish interface."""
    v = anyv(S, V, S.choice(ALLO))
    w = S.choice(["fields", "field_keys", "field_values", "field_items", "asdict"])
    if S.random() < 0.4:
        c = v[1] if v[0] == "vec" else "Space"
        return OP("dcf", ["lit", S.choice(["fields", "field_keys"])], ["cls", "AttrFilter"], S.choice([v, ["cls", c]]))
    if S.random() < 0.4:
        return OP("dcf", ["lit", w], ["cls", "AttrFilter"], v)
    return OP("dcf", ["lit", w], v)


@kind("y.replace", tags=("array",))
def _(S, V):
    w = S.randrange(4)
    if w == 0:
        return OP("dcrep", space(S, V, shape=[]), length=pos(S, V, S.choice(POS3), []))
    if w == 1:
        v = anyv(S, V, S.choice(ALLV), [])
        u = anyv(S, V, v[1], [])
        k = S.choice(list(v[2]))
        return OP("dcrep", v, **{k: u[2][k] if not isinstance(v[2][k][2], str) or True else None})
    if w == 2:
        return OP("dcrep", galcen(S, V), roll=["q", num(V, -30, 90, []), "deg"])
    v = pos(S, V, S.choice(POS3), [])
    u = pos(S, V, v[1], [])
    return OP("dcrep", v, **u[2])


# --- conversions --------------------------------------------------------------------
for _s in POS3P + POS2 + POS1:
    def _all(S, V, _s=_s):
        t = S.choice(POS3P + POS2 + POS1)
        kw = {}
        U = units(S)
        v = pos(S, V, _s, None, U)
        if t == "ProlateSpheroidalPos":
            lu = U["g"][0]
            v = pos(S, V, _s, [], one_unit(U))
            kw["Delta"] = ["q", num(V, 0.1, 0.2, []), lu]
        elif _s in POS1 or _s in POS2:
            for k in S.choice([[], ["y"], ["z"], ["theta", "phi"], ["phi", "z"], ["y", "z"]]):
                kw[k] = ["q", ang(V, 10, 80, [], "deg"), "deg"] if k in ("theta", "phi") else ["q", num(V, 0.5, 4, []), "km"]
        return OP(S.choice(["rep", "repf"]), v, ["cls", t], **kw)
    kind("y.conv." + _s, tags=("convx",))(_all)


@kind("y.convself", tags=("convx",))
def _(S, V):
    c = S.choice(["CartesianPosND", "CartesianVelND", "CartesianAccND", "PoincarePolarVector", "FourVector"] + ["CartesianVel1D", "CartesianVel2D", "CartesianVel3D", "CartesianAcc1D", "CartesianAcc2D",
                                                                                                       "CartesianAcc3D"])
    v = anyv(S, V, c, [])
    if c == "FourVector":
        return OP("rep", v, ["cls", S.choice(POS3)])
    if c == "PoincarePolarVector":
        return OP("repf", v, ["cls", S.choice(["Space", c])])
    return OP("repf", v, ["cls", c])


@kind("y.convsp", cost=5, tags=("space",))
def _(S, V):
    return OP("repf", space(S, V), ["cls", S.choice([*POS3, "Space"])])


@kind("y.vel1", cost=2, tags=("convx", "vel"))
def _(S, V):
    U = one_unit(units(S))
    fam = S.choice([("1", VEL1, POS1), ("2", VEL2, POS2)])
    a, b = S.choice(fam[1]), S.choice(fam[1])
    return OP(S.choice(["rep", "repf"]), vel(S, V, a, [], U), ["cls", b], pos(S, V, S.choice(fam[2]), [], U))


@kind("y.velkw", cost=4, tags=("convx", "vel"), modes=("jitc",))
def _(S, V):
    """Velocity and acceleration conversions with a focal length."""
    U = one_unit(units(S))
    lu = U["g"][0]
    d = ["q", num(V, 0.1, 0.2, []), lu]
    w = S.choice(["to", "to", "from", "acc"])
    q = pos(S, V, S.choice(["CartesianPos3D", "CylindricalPos", "SphericalPos"]), [], U)
    v = vel(S, V, S.choice(["CylindricalVel", "CartesianVel3D", "SphericalVel"]), [], U)
    if w == "from":
        return OP("repf", v, ["cls", S.choice(["CartesianVel3D", "CylindricalVel"])], pos(S, V, "ProlateSpheroidalPos", [], U))
    if w == "acc":
        return OP("repf", vel(S, V, "CylindricalAcc", [], U, True), ["cls", "SphericalAcc"], v, q)
    return OP(S.choice(["rep", "repf"]), v, ["cls", "ProlateSpheroidalVel"], q, Delta=d)


@kind("y.velself", cost=2, tags=("convx", "vel"))
def _(S, V):
    U = one_unit(units(S))
    c = S.choice(VEL3 + ["LonCosLatSphericalVel"])
    t = S.choice(VEL3 + ["LonCosLatSphericalVel"])
    return OP("repf", vel(S, V, c, [], U), ["cls", t], pos(S, V, S.choice(POS3), [], U))


@kind("y.acc1", cost=3, tags=("convx", "acc"))
def _(S, V):
    U = one_unit(units(S))
    i = S.choice([0, 1])
    A, VV, P = [(ACC1, VEL1, POS1), (ACC2, VEL2, POS2)][i]
    return OP("repf", vel(S, V, S.choice(A), [], U, True), ["cls", S.choice(A)], vel(S, V, S.choice(VV), [], U), pos(S, V, S.choice(P), [], U))


@kind("y.toq", tags=("convx",))
def _(S, V):
    v = anyv(S, V, S.choice([x for x in ALLV if "Prol" not in x]))
    return OP("conv", v, ["cls", S.choice(["Quantity", "UncheckedQuantity", "Distance"] if "Pos1D" in v[1] or v[1] == "RadialPos" else ["Quantity", "UncheckedQuantity"])])


@kind("y.angconv", tags=("convx", "dist"))
def _(S, V):
    o = S.choice([["angle", ang(V, -170, 170, [], "deg"), "deg"], distq(S, V)])
    return OP("conv", o, ["cls", S.choice(["Quantity", "UncheckedQuantity"])])


@kind("y.qconv", tags=("convx", "dist"))
def _(S, V):
    t, u, lo, hi = S.choice([("Distance", "kpc", 1, 9), ("Parallax", "mas", 1, 9), ("DistanceModulus", "mag", 5, 20), ("Angle", "deg", -170, 170)])
    q = S.choice(["q", "apq"])
    if q == "q" and S.random() < 0.3:
        return OP("conv", [t if t != "Angle" else "angle", num(V, lo, hi, []), u], ["cls", t])
    return OP("conv", [q, num(V, lo, hi, []), u], ["cls", t])


@kind("y.angfn", tags=("dist",))
def _(S, V):
    a = ["angle", num(V, 5, 80, S.choice([[], [3]])), "deg"]
    w = S.choice(["sqrt", "cbrt", "pow", "pow2", "dot", "mul", "abs", "divq"])
    if w in ("sqrt", "cbrt"):
        return OP("func", ["lit", w], a)
    if w == "pow":
        return OP("pow", a, ["lit", 2])
    if w == "pow2":
        return OP("func", ["lit", "power"], a, ["lit", 2.5])
    if w == "dot":
        return OP("matmul", ["angle", num(V, 5, 80, [3]), "deg"], ["angle", num(V, 5, 80, [3]), "rad"])
    if w == "mul":
        return OP("mul", a, ["q", round(V.uniform(1, 2), 2), "km"])
    if w == "divq":
        return OP("div", a, ["q", round(V.uniform(1, 2), 2), "s"])
    return OP("abs", a)


@kind("y.distfn", tags=("dist",))
def _(S, V):
    d = distq(S, V, S.choice(["Distance", "Parallax", "DistanceModulus"]))
    w = S.choice(["dot", "pow2", "pow", "mul", "neg", "sub", "div", "attr", "reprs", "uconv"])
    if w == "dot":
        return OP("matmul", ["Distance", num(V, 1, 8, [3]), "km"], ["Distance", num(V, 1, 8, [3]), "m"])
    if w == "pow2":
        return OP("func", ["lit", "power"], d, ["lit", 2.5])
    if w == "pow":
        return OP("pow", d, ["lit", 3])
    if w == "mul":
        return OP("mul", d, copy.deepcopy(d))
    if w == "neg":
        return OP("neg", d)
    if w == "sub":
        return OP("sub", d, copy.deepcopy(d))
    if w == "div":
        return OP("div", d, ["q", 2.5, "s"])
    if w == "reprs":
        return OP(S.choice(["repr", "str"]), d)
    if w == "uconv":
        return OP("uconvf", d, ["lit", {"Distance": "pc", "Parallax": "deg", "DistanceModulus": "mag"}[d[0]]])
    return OP("attr", d, ["lit", S.choice(["distance", "parallax", "distance_modulus", "ndim", "shape", "unit"])])


@kind("y.distfrom", tags=("dist", "ctor"))
def _(S, V):
    t = S.choice(["Distance", "Parallax", "DistanceModulus"])
    w = S.choice(["list", "np", "q", "d"])
    u, lo, hi = {"Distance": ("kpc", 1, 9), "Parallax": ("mas", 1, 9), "DistanceModulus": ("mag", 5, 20)}[t]
    if w == "list":
        return OP("from", ["cls", t], ["list", num(V, lo, hi, [2])], ["lit", u])
    if w == "np":
        return OP("from", ["cls", t], ["np", num(V, lo, hi, [2]), "float64"], ["lit", u])
    if w == "q":
        return OP("from", ["cls", t], ["q", num(V, lo, hi, []), u])
    return OP("from", ["cls", t], distq(S, V))


@kind("y.angfrom", tags=("dist", "ctor"))
def _(S, V):
    v = ang(V, -300, 300, S.choice([[], [2]]), "deg")
    w = S.choice(["list", "np", "self", "repr"])
    a = ["angle", v, "deg"]
    if w == "list":
        return OP("from", ["cls", "Angle"], ["list", v], ["lit", "deg"])
    if w == "np":
        return OP("from", ["cls", "Angle"], ["np", v, "float64"], ["lit", "deg"])
    if w == "self":
        return OP("from", ["cls", "Angle"], a)
    if w == "repr":
        return OP(S.choice(["repr", "str"]), a)
    return OP("from", ["cls", "Angle"], ["q", v, "deg"])


@kind("y.normalize", tags=("arith",))
def _(S, V):
    return OP("normalize", S.choice([pos(S, V, "CartesianPos3D", []), ["q", snum(V, 0.3, 4, [3]), "km"], ["jnp", snum(V, 0.3, 4, [3]), "float32"]]))


# --- astropy ------------------------------------------------------------------------------
REP = dict(REPOF)
DIF = dict(DIFOF)


@kind("y.toapy", tags=("apy",))
def _(S, V):
    c = S.choice(list(REP) + list(DIF))
    if c in REP:
        return OP("conv", pos(S, V, c), ["cls", S.choice([REP[c], "BaseRepresentation"])])
    return OP("conv", vel(S, V, c), ["cls", S.choice([DIF[c], "BaseDifferential"])])


@kind("y.fromapy", tags=("apy", "ctor"))
def _(S, V):
    c = S.choice(list(REP) + list(DIF))
    v = anyv(S, V, c)
    r = ["aprep", REP.get(c) or DIF[c], {k: ["apq", *s[1:]] for k, s in v[2].items()}]
    w = S.choice(["conv", "from", "abs"])
    if w == "conv":
        return OP("conv", r, ["cls", S.choice([c, c, "AbstractPos3D" if c in REP else "AbstractVel3D"])])
    return OP("from", ["cls", c if w == "from" else "AbstractPos3D" if c in REP else "AbstractVel3D"], r)


@kind("y.fromapyother", tags=("apy", "ctor"))
def _(S, V):
    c = S.choice(list(REP))
    v = anyv(S, V, c)
    r = ["aprep", REP[c], {k: ["apq", *s[1:]] for k, s in v[2].items()}]
    return OP("from", ["cls", S.choice(list(REP))], r)


@kind("y.apyq", tags=("apy", "ctor"))
def _(S, V):
    n, c, u = S.choice([(3, "CartesianPos3D", "km"), (3, "CartesianVel3D", "km/s"), (2, "CartesianPos2D", "km"), (1, "CartesianPos1D", "km"), (4, "FourVector", "km"), (3, "CartesianAcc3D", "km/s2")])
    return OP("from", ["cls", c], ["apq", snum(V, 0.4, 5, [n]), u])


# --- operators ------------------------------------------------------------------------------
OPK = ["rot", "rotm", "trans", "transv", "boost", "transl4", "vboost", "gal", "ident"]


def zero(S, name):
    if name == "rot":
        return ["op", "GalileanRotation", {"rotation": ["jnp", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "float32"]}]
    if name == "trans":
        return ["op", "GalileanSpatialTranslation", {"translation": ["q", [0.0, 0.0, 0.0], "km"]}]
    if name == "boost":
        return ["op", "GalileanBoost", {"velocity": ["q", [0.0, 0.0, 0.0], "km/s"]}]
    if name == "vboost":
        return ["op", "VelocityBoost", {"velocity": ["q", [0.0, 0.0, 0.0], "km/s"]}]
    if name == "transl4":
        return ["op", "GalileanTranslation", {"translation": ["q", [0.0, 0.0, 0.0, 0.0], "km"]}]
    return ["op", "GalileanOperator", {"rotation": ["jnp", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "float32"], "translation": ["q", [0.0] * 4, "km"], "velocity": ["q", [0.0] * 3, "km/s"]}]


@kind("y.simplify", cost=2, tags=("op",))
def _(S, V):
    U = one_unit(units(S))
    q = S.random()
    if q < 0.3:
        return OP("simplify", zero(S, S.choice(["rot", "trans", "boost", "vboost", "transl4", "gal"])))
    if q < 0.5:
        return OP("simplify", oper(S, V, S.choice(OPK), U))
    k = S.choice(["rot", "rotm", "trans", "transv", "boost", "vboost", "transl4", "ident"])
    a = oper(S, V, k, U)
    b = oper(S, V, S.choice([k, k, "ident", S.choice(OPK)]), U)
    return OP("simplify", ["op", "Pipe", {"operators": [a, b] + ([oper(S, V, S.choice(OPK), U)] if S.random() < 0.4 else [])}])


@kind("y.opattr", tags=("op",))
def _(S, V):
    o = oper(S, V, S.choice(OPK))
    w = S.choice(["inertial", "neg", "inverse", "str", "repr", "or", "getitem", "iter", "eq", "inv2", "orp"])
    if w == "inertial":
        return OP("attr", S.choice([o, pipe(S, V), ["fop", galcen(S, V), ["frame", "ICRS", {}]]]), ["lit", "is_inertial"])
    if w in ("neg", "inverse", "str", "repr"):
        return OP(w, S.choice([o, o, pipe(S, V)]) if w != "neg" else oper(S, V, S.choice(["rot", "trans", "boost", "vboost"])))
    if w == "or":
        return OP("or", o, S.choice([oper(S, V, S.choice(OPK)), pipe(S, V)]))
    if w == "orp":
        return OP("or", pipe(S, V), S.choice([oper(S, V, S.choice(OPK)), pipe(S, V)]))
    if w == "getitem":
        return OP("getitem", S.choice([pipe(S, V, 3), oper(S, V, "gal")]), ["idx", S.choice([0, 1, "0:2"])])
    if w == "iter":
        return OP("tuple", S.choice([pipe(S, V, 3), oper(S, V, "gal")]))
    if w == "inv2":
        return OP("attr", ["op", "Pipe", {"operators": [o, oper(S, V, S.choice(OPK))]}], ["lit", "inverse"])
    return OP("eq", o, S.choice([copy.deepcopy(o), oper(S, V, S.choice(OPK))]))


@kind("y.opfrom", tags=("op", "ctor"))
def _(S, V):
    U = one_unit(units(S))
    w = S.choice(["rot", "trans", "transl", "boost", "vboost", "gal", "map", "self", "rotq", "transpos", "transshape", "seq", "transl2", "idpipe"])
    if w == "rot":
        return OP("from", ["cls", "GalileanRotation"], ["jnp", rotmat(V), "float32"])
    if w == "rotq":
        return OP("init", ["cls", "GalileanRotation"], ["rot", S.choice(["z", "x"]), num(V, -90, 90, [])])
    if w == "trans":
        return OP("from", ["cls", "GalileanSpatialTranslation"], S.choice([["q", snum(V, 0.4, 5, [3]), "kpc"]]))
    if w == "transshape":
        n = S.choice([1, 2, 3])
        return OP("init", ["cls", "GalileanSpatialTranslation"], ["q", snum(V, 0.4, 5, [n]) if n > 1 or S.random() < 0.5 else snum(V, 0.4, 5, []), "kpc"])
    if w == "transpos":
        return OP("init", ["cls", "GalileanSpatialTranslation"], pos(S, V, S.choice(POS3 + POS2 + POS1), [], U))
    if w == "transl":
        return OP("from", ["cls", "GalileanTranslation"], ["q", snum(V, 0.4, 5, [4]), "kpc"])
    if w == "transl2":
        return OP("init", ["cls", "GalileanTranslation"], four(S, V, S.choice(POS3), []))
    if w == "boost":
        return OP("from", ["cls", "GalileanBoost"], ["q", snum(V, 0.4, 5, [3]), "km/s"])
    if w == "vboost":
        return OP("from", ["cls", "VelocityBoost"], S.choice([["q", snum(V, 0.4, 5, [3]), "km/s"], vel(S, V, "CartesianVel3D", [])]))
    if w == "gal":
        return OP("initmap", ["cls", "GalileanOperator"], ["map", {"translation": ["q", snum(V, 0.4, 5, [4]), "kpc"], "velocity": ["q", snum(V, 0.4, 5, [3]), "km/s"]}])
    if w == "map":
        return OP("from", ["cls", "GalileanBoost"], ["map", {"velocity": ["q", snum(V, 0.4, 5, [3]), "km/s"]}])
    if w == "self":
        o = oper(S, V, S.choice(OPK))
        return OP("from", ["cls", o[1]], o)
    if w == "idpipe":
        return OP("init", ["cls", "Pipe"], ["tup", [["op", "Identity", {}], oper(S, V, "rot")]])
    return OP("init", ["cls", "Pipe"], [S.choice(["lst", "tup"]), [oper(S, V, "trans"), oper(S, V, "rot")]])


@kind("y.opcall", cost=3, tags=("op",), modes=("jit", "jitc"))
def _(S, V):
    """Operators on quantities, positions in other representations and dimensions, four-vectors, phase-space pairs, spaces."""
    U = one_unit(units(S))
    k = S.choice(OPK + ["pipe", "galpipe"])
    o = pipe(S, V, U=U) if k == "pipe" else ["op", "Pipe", {"operators": [oper(S, V, "gal", U), oper(S, V, "boost", U)]}] if k == "galpipe" else oper(S, V, k, U)
    w = S.choice(["q", "qb", "pos", "four", "tq", "tpos", "qp", "qpvec", "space", "arr", "tqp", "vel"])
    p3 = lambda: pos(S, V, S.choice(POS3), [], U)  # noqa: E731
    v3 = lambda: vel(S, V, S.choice(VEL3), [], U)  # noqa: E731
    t = ["q", num(V, 0.5, 9, []), "s"]
    L = U["g"][0]
    if w == "q":
        a = [["q", snum(V, 0.4, 5, [3]), L]]
    elif w == "qb":
        a = [["q", snum(V, 0.4, 5, [2, 3]), L]]
    elif w == "pos":
        a = [p3()]
    elif w == "four":
        a = [four(S, V, S.choice(POS3), [], U)]
    elif w == "tq":
        a = [t, ["q", snum(V, 0.4, 5, [3]), L]] if S.random() < 0.5 else [["q", snum(V, 0.4, 5, [3]), L], t]
    elif w == "tpos":
        a = [t, p3()] if S.random() < 0.5 else [p3(), t]
    elif w == "qp":
        a = [["q", snum(V, 0.4, 5, [3]), L], ["q", snum(V, 0.4, 5, [3]), "km/s"]]
    elif w == "qpvec":
        a = [p3(), v3()]
    elif w == "space":
        a = [space(S, V, shape=[])]
    elif w == "tqp":
        a = [t, p3(), v3()] if S.random() < 0.5 else [p3(), v3(), t]
    elif w == "vel":
        a = [v3()]
    else:
        a = [["jnp", snum(V, 0.4, 5, [3]), "float32"]]
    return OP(S.choice(["call", "call", "invcall"]), o, *a)


@kind("y.opdim", tags=("op",))
def _(S, V):
    """Translations of one- and two-dimensional positions."""
    U = one_unit(units(S))
    n = S.choice([1, 2])
    o = ["op", "GalileanSpatialTranslation", {"translation": pos(S, V, S.choice(POS2 if n == 2 else POS1), [], U)}]
    return OP(S.choice(["call", "invcall"]), o, pos(S, V, S.choice(POS2 if n == 2 else POS1), [], U))


@kind("y.frames", cost=4, tags=("frame",))
def _(S, V):
    I = ["frame", "ICRS", {}]  # noqa: E741
    N = ["frame", "NoFrame", {}]
    G = lambda: galcen(S, V)  # noqa: E731
    w = S.choice(["fop", "null", "inv", "inertial", "xop", "str", "q", "qp", "from", "simplify", "eqf", "gg"])
    if w == "fop":
        return OP("fop", *S.choice([[I, I], [I, G()], [G(), I]]))
    if w == "null":
        return OP("fop", *S.choice([[N, I], [I, N], [N, N]]))
    if w == "inv":
        return OP("inverse", ["fop", *S.choice([[I, G()], [G(), I]])])
    if w == "inertial":
        return OP("attr", ["fop", *S.choice([[I, G()], [G(), I], [G(), G()]])], ["lit", "is_inertial"])
    if w == "xop":
        return OP("xop", *S.choice([[I, G()], [G(), I], [I, I]]))
    if w == "str":
        return OP(S.choice(["str", "repr"]), S.choice([I, G(), N, ["fop", I, G()]]))
    if w == "simplify":
        return OP("simplify", ["fop", *S.choice([[I, G()], [G(), I]])])
    if w == "from":
        return OP("from", ["cls", S.choice(["ICRS", "Galactocentric"])], S.choice([I, G()]))
    if w == "eqf":
        g = G()
        return OP("eq", g, S.choice([copy.deepcopy(g), G(), I]))
    A = S.choice([[I, G()], [G(), I], [G(), G()]]) if w == "gg" else S.choice([[I, G()], [G(), I]])
    if w == "q":
        return OP("fcall", *A, S.choice([["q", snum(V, 1, 9, [3]), "kpc"], ["q", snum(V, 1, 9, [2, 3]), "kpc"]]))
    U = {"g": ["kpc", "kpc"], "s": "km/s", "a": "deg", "c": "km/s2"}
    return OP("fcall", *A, pos(S, V, S.choice(POS3), [], U), vel(S, V, S.choice(VEL3), [], U))


_ = (scal, tq, TR, KINDS)
