"""Reference model: the geometry of vectors, operators and frames in plain float64 numpy.

Values are in km, s, rad (and powers).  The model shares nothing with the
library; it reads the descriptions of inputs and the components of results.
"""
from __future__ import annotations

import math
from functools import lru_cache

import numpy as np


class NoModel(Exception):
    """The model says nothing about this."""


@lru_cache(None)
def unit(s):
    """Scale to km, s, rad and the powers of length and time."""
    import astropy.units as au
    if s == "mag":
        return 1.0, ("mag",)
    d = au.Unit(s).decompose(bases=[au.km, au.s, au.rad, au.kg])
    L = T = 0.0
    for b, p in zip(d.bases, d.powers):
        if b == au.km:
            L = float(p)
        elif b == au.s:
            T = float(p)
        elif b != au.rad:
            raise NoModel(s)
    return float(d.scale), (L, T)


AU_KM = 1.495978707e8
C_KMS = 299792.458
PC_KM = 3.0856775814913674e13

# components; dimension: l length, a angle
COMPS = {
    "CartesianPos3D": "x:l y:l z:l", "CylindricalPos": "rho:l phi:a z:l", "SphericalPos": "r:l theta:a phi:a", "MathSphericalPos": "r:l theta:a phi:a",
    "LonLatSphericalPos": "lon:a lat:a distance:l", "ProlateSpheroidalPos": "mu:s nu:s phi:a", "CartesianPos2D": "x:l y:l", "PolarPos": "r:l phi:a", "CartesianPos1D": "x:l", "RadialPos": "r:l",
    "TwoSpherePos": "theta:a phi:a", "CartesianPosND": "q:l",
}
COMPS = {c: [tuple(x.split(":")) for x in s.split()] for c, s in COMPS.items()}
DIMN = {"CartesianPos3D": 3, "CylindricalPos": 3, "SphericalPos": 3, "MathSphericalPos": 3, "LonLatSphericalPos": 3, "ProlateSpheroidalPos": 3, "CartesianPos2D": 2, "PolarPos": 2,
        "CartesianPos1D": 1, "RadialPos": 1, "TwoSpherePos": 22, "CartesianPosND": 99}
CART = {1: "CartesianPos1D", 2: "CartesianPos2D", 3: "CartesianPos3D"}


def stem(c):
    for s in ("Pos", "Vel", "Acc"):
        for d in ("1D", "2D", "3D", "ND", ""):
            if c.endswith(s + d) and (d or c.endswith(s)):
                return c[: -len(s + d)], s, d
    raise NoModel(c)


def posof(c):
    """The position class a velocity or acceleration class belongs to."""
    if c in ("LonCosLatSphericalVel",):
        return "LonLatSphericalPos"
    b, _, d = stem(c)
    return b + "Pos" + d


def sister(c, what):
    b, _, d = stem(c)
    return b + what + d


def order(c):
    return {"Pos": 0, "Vel": 1, "Acc": 2}[stem(c)[1]]


# ----------------------------------------------------------------- positions
def to_cart(cls, c, D=None):
    f = [c[k] for k, _ in COMPS[cls]]
    if cls.startswith("CartesianPos"):
        return f
    if cls == "CylindricalPos":
        return [f[0] * np.cos(f[1]), f[0] * np.sin(f[1]), f[2]]
    if cls == "SphericalPos":
        r, th, ph = f
        return [r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)]
    if cls == "MathSphericalPos":
        r, az, po = f
        return [r * np.sin(po) * np.cos(az), r * np.sin(po) * np.sin(az), r * np.cos(po)]
    if cls == "LonLatSphericalPos":
        lon, lat, r = f
        return [r * np.cos(lat) * np.cos(lon), r * np.cos(lat) * np.sin(lon), r * np.sin(lat)]
    if cls == "ProlateSpheroidalPos":
        mu, nu, ph = f
        D2 = D ** 2
        R = np.sqrt(np.maximum((mu - D2) * (1 - np.abs(nu) / D2), 0))
        z = np.sqrt(np.maximum(mu * np.abs(nu) / D2, 0)) * np.sign(nu)
        return [R * np.cos(ph), R * np.sin(ph), z]
    if cls == "PolarPos":
        return [f[0] * np.cos(f[1]), f[0] * np.sin(f[1])]
    if cls == "RadialPos":
        return [f[0]]
    if cls == "TwoSpherePos":
        return [np.sin(f[0]) * np.cos(f[1]), np.sin(f[0]) * np.sin(f[1]), np.cos(f[0])]
    raise NoModel(cls)


def from_cart(cls, x, D=None):
    if cls.startswith("CartesianPos"):
        f = x
    elif cls == "CylindricalPos":
        f = [np.hypot(x[0], x[1]), np.arctan2(x[1], x[0]), x[2]]
    elif cls in ("SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
        rho = np.hypot(x[0], x[1])
        r, pol, az = np.hypot(rho, x[2]), np.arctan2(rho, x[2]), np.arctan2(x[1], x[0])
        f = {"S": [r, pol, az], "M": [r, az, pol], "L": [az, np.arctan2(x[2], rho), r]}[cls[0]]
    elif cls == "ProlateSpheroidalPos":
        if D is None:
            raise NoModel("Delta")
        D2 = D ** 2
        R2, z2 = x[0] ** 2 + x[1] ** 2, x[2] ** 2
        b = R2 + z2 + D2
        disc = np.sqrt((R2 + z2 - D2) ** 2 + 4 * R2 * D2)
        mu = 0.5 * (b + disc)
        f = [mu, D2 * z2 / mu * np.sign(x[2]), np.arctan2(x[1], x[0])]
    elif cls == "PolarPos":
        f = [np.hypot(x[0], x[1]), np.arctan2(x[1], x[0])]
    elif cls == "RadialPos":
        f = [x[0]]
    else:
        raise NoModel(cls)
    return dict(zip([k for k, _ in COMPS[cls]], f))


def conv(src, dst, c, kw=None, D=None):
    """Position conversion; ``D`` is the source's focal length.  Returns components and the result's focal length."""
    kw = kw or {}
    Dn = kw.get("Delta", D if dst == src else None)
    if src == dst:
        if src == "ProlateSpheroidalPos" and "Delta" in kw:
            return from_cart(dst, to_cart(src, c, D), kw["Delta"]), kw["Delta"]
        return dict(c), D
    if src not in DIMN or dst not in DIMN:
        raise NoModel(f"{src}->{dst}")
    ns, nd = DIMN[src], DIMN[dst]
    if ns == nd and ns in (1, 2, 3):
        return from_cart(dst, to_cart(src, c, D), Dn), (Dn if dst == "ProlateSpheroidalPos" else None)
    z0 = np.zeros_like(next(iter(c.values())))

    def k(n):
        return kw.get(n, 0.0) + z0
    if ns == 3 and nd == 2:
        if src == "LonLatSphericalPos":
            raise NoModel
        return from_cart(dst, to_cart(src, c, D)[:2]), None
    if ns == 3 and nd == 1:
        if src == "LonLatSphericalPos":
            raise NoModel
        x = to_cart(src, c, D)
        if dst == "CartesianPos1D":
            return {"x": x[0]}, None
        if src == "CylindricalPos":
            return {"r": c["rho"]}, None
        return {"r": np.sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2)}, None
    if ns == 2 and nd == 1:
        x = to_cart(src, c)
        return ({"x": x[0]} if dst == "CartesianPos1D" else {"r": np.hypot(*x)}), None
    if ns == 1:
        v = c["x"] if src == "CartesianPos1D" else c["r"]
        if dst == "CartesianPos2D":
            return {"x": v, "y": k("y")}, None
        if dst == "PolarPos":
            return {"r": v, "phi": k("phi")}, None
        if dst == "CartesianPos3D":
            return {"x": v, "y": k("y"), "z": k("z")}, None
        if dst in ("SphericalPos", "MathSphericalPos"):
            return {"r": v, "theta": k("theta"), "phi": k("phi")}, None
        if dst == "CylindricalPos":
            return {"rho": v, "phi": k("phi"), "z": k("z")}, None
    if ns == 2 and src == "CartesianPos2D" and dst in ("CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos"):
        return from_cart(dst, [c["x"], c["y"], k("z")]), None
    if src == "PolarPos":
        if dst == "CartesianPos3D":
            return from_cart(dst, [*to_cart(src, c), k("z")]), None
        if dst == "CylindricalPos":
            return {"rho": c["r"], "phi": c["phi"], "z": k("z")}, None
        if dst == "SphericalPos":
            return {"r": c["r"], "theta": k("theta"), "phi": c["phi"]}, None
        if dst == "MathSphericalPos":
            return {"r": c["r"], "theta": c["phi"], "phi": k("phi")}, None
    raise NoModel(f"{src}->{dst}")


def cart_jac(cls, c, D=None):
    """d(Cartesian)/d(components) by central differences: list of rows (one per component)."""
    names = [k for k, _ in COMPS[cls]]
    if cls.startswith("CartesianPos"):
        z = np.zeros_like(c[names[0]])
        return {k: [z + (1.0 if i == j else 0.0) for j in range(len(names))] for i, k in enumerate(names)}
    out = {}
    for k, w in COMPS[cls]:
        h = 1e-5 if w == "a" else 1e-6 * (np.max(np.abs(c[k])) or 1.0)
        a, b = dict(c), dict(c)
        a[k], b[k] = c[k] + h, c[k] - h
        out[k] = [(p - m) / (2 * h) for p, m in zip(to_cart(cls, a, D), to_cart(cls, b, D))]
    return out


def push_cart(cls, c, rates, D=None):
    """Cartesian rate of a rate of change of the components."""
    J = cart_jac(cls, c, D)
    n = len(next(iter(J.values())))
    return [sum(J[k][i] * rates[k] for k in J) for i in range(n)]


def pull_cart(cls, c, x, D=None):
    """Rate of change of the components for a Cartesian rate."""
    J = cart_jac(cls, c, D)
    names = list(J)
    M = np.stack([np.stack(np.broadcast_arrays(*J[k]), axis=-1) for k in names], axis=-1)   # (..., n, n): row Cartesian, column component
    b = np.stack(np.broadcast_arrays(*x), axis=-1)[..., None]
    s = np.linalg.solve(M, np.broadcast_to(b, M.shape[:-1] + (1,)))[..., 0]
    return {k: s[..., i] for i, k in enumerate(names)}


def well(cls, c, D=None):
    """Far enough from the axis, the centre and the focal plane for derivatives to be well conditioned."""
    if cls.startswith("CartesianPos") or cls in ("RadialPos",):
        return True
    x = to_cart(cls, c, D)
    if DIMN.get(cls) == 2:
        return bool(np.all(np.hypot(*x) > 0))
    if DIMN.get(cls) == 22:
        return bool(np.all(np.abs(np.sin(c["theta"])) > 0.05))
    rho = np.hypot(x[0], x[1])
    r = np.hypot(rho, x[2])
    return bool(np.all(rho > 0.05 * r) and np.all(r > 0)) and (cls != "ProlateSpheroidalPos" or bool(np.all(np.abs(x[2]) > 0.05 * r)))


# -------------------------------------------------------------------- values
class V:
    """A vector: position, velocity or acceleration."""
    t = "vec"

    def __init__(self, cls, c, D=None):
        self.cls, self.c, self.D = cls, c, D

    @property
    def order(self):
        return order(self.cls)

    def rates(self):
        """Components keyed by the position's component names (LonCosLat kept as given)."""
        pre = {0: "", 1: "d_", 2: "d2_"}[self.order]
        return {k[len(pre):]: v for k, v in self.c.items()}

    def cart(self):
        return to_cart(self.cls, self.c, self.D)

    def scale(self):
        if DIMN.get(self.cls) == 22:
            return 1.0
        return max(float(np.max(np.abs(np.asarray(x)))) for x in self.cart()) if self.cls != "CartesianPosND" else float(np.max(np.abs(self.c["q"])))

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={np.asarray(v).tolist()}' for k, v in self.c.items())}{'' if self.D is None else f', Delta={float(np.max(self.D))}'}) [km, s, rad]"


class QV:
    t = "q"

    def __init__(self, v, dim, cls="Quantity"):
        self.v, self.dim, self.cls = np.asarray(v, dtype=complex if np.iscomplexobj(v) else float), dim, cls

    def __repr__(self):
        return f"{self.cls}({self.v.tolist()}, dim={self.dim})"


class Four:
    t = "four"

    def __init__(self, ti, q):
        self.ti, self.q = ti, q

    def __repr__(self):
        return f"FourVector(t={self.ti}, q={self.q})"


class Sp:
    t = "space"

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return f"Space({self.parts})"


class Tup:
    t = "tup"

    def __init__(self, x):
        self.x = list(x)

    def __repr__(self):
        return repr(tuple(self.x))


class Arr:
    t = "arr"

    def __init__(self, v):
        self.v = np.asarray(v)

    def __repr__(self):
        return f"array {self.v.tolist()}"


class Oper:
    """What an operator does: elementary actions in the order they are applied."""
    t = "oper"

    def __init__(self, acts, cls=None, fields=None):
        self.acts, self.cls, self.fields = acts, cls, fields

    def __repr__(self):
        return f"{self.cls}: {[a[0] for a in self.acts]}"


class Frame:
    t = "frame"

    def __init__(self, cls, p):
        self.cls, self.p = cls, p


class Ap:
    """Astropy representation."""
    t = "ap"

    def __init__(self, cls, c, dif=None):
        self.cls, self.c, self.dif = cls, c, dif or {}

    def __repr__(self):
        return f"{self.cls}({self.c}) {self.dif or ''}"


class Gen:
    """CartesianGeneric3D."""
    t = "gen"

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"CartesianGeneric3D({self.c})"


class Raises:
    t = "raises"

    def __repr__(self):
        return "an exception"


class Maybe:
    """The call may be refused; if it returns, then with this value."""
    t = "maybe"

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"{self.v!r} (or an exception)"


# ------------------------------------------------------------------- reading
def rq(v, u):
    s, d = unit(u)
    return np.asarray(v, dtype=float) * s, d


def radial(spec):
    """Length given as Distance, Parallax, DistanceModulus or plain quantity."""
    if spec[0] == "Parallax":
        a, _ = rq(spec[1], spec[2])
        return AU_KM / np.tan(a)
    if spec[0] == "DistanceModulus":
        return 10 ** (np.asarray(spec[1], dtype=float) / 5 + 1) * PC_KM
    v, d = rq(spec[1], spec[2])
    return v


def read_vec(cls, f):
    """A vector from component descriptions."""
    if cls == "FourVector":
        return Four(QV(*rq(f["t"][1], f["t"][2])), read_spec(f["q"]))
    stem(cls)
    c, D = {}, None
    for k, s in f.items():
        v = radial(s)
        if k == "Delta":
            D = v
        else:
            c[k] = v
    return V(cls, c, D)


def read_spec(s, env=None):
    t = s[0]
    if t == "stored":
        if env is None or s[1] not in env or env[s[1]] is None:
            raise NoModel("stored " + str(s[1]))
        return env[s[1]]
    if t in ("q", "qi", "qn", "apq"):
        return QV(*rq(s[1], s[2]))
    if t in ("Distance", "Parallax", "DistanceModulus", "angle"):
        return QV(*rq(s[1], s[2]), cls={"angle": "Angle"}.get(t, t))
    if t == "vec":
        return read_vec(s[1], s[2])
    if t == "space":
        return Sp({{"velocity": "speed"}.get(k, k): read_spec(v, env) for k, v in s[1].items()})
    if t == "lit":
        return s[1]
    if t in ("list", "np", "jnp"):
        return Arr(np.asarray(s[1], dtype=float))
    if t == "cls":
        return ("cls", s[1])
    if t == "map":
        return {k: v for k, v in s[1].items()}
    if t == "tup":
        return Tup([read_spec(x, env) for x in s[1]])
    if t == "lst":
        return Tup([read_spec(x, env) for x in s[1]])
    if t == "op":
        return read_op(s[1], s[2], env)
    if t == "aprep" and s[1] in AP2CX:
        return Ap(s[1], {k: rq(v[1], v[2])[0] for k, v in s[2].items()})
    if t == "frame":
        return read_frame(s[1], s[2])
    if t == "fop":
        return frame_oper(read_spec(s[1], env), read_spec(s[2], env))
    if t == "rot":
        return Arr(euler(s[1], np.deg2rad(np.asarray(s[2], dtype=float))))
    if t == "idx":
        return ("idx", s[1])
    raise NoModel(t)


def axis(a, th):
    c, s = math.cos(th), math.sin(th)
    return {"x": np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), "y": np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]), "z": np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])}[a]


def euler(seq, ang):
    ang = np.atleast_1d(ang)
    R = np.eye(3)
    for a, th in zip(seq, ang):
        if a.isupper():
            R = R @ axis(a.lower(), float(th))
        else:
            R = axis(a, float(th)) @ R
    return R


def vec3(s, env=None):
    v = read_spec(s, env) if isinstance(s, list) else s
    if isinstance(v, V):
        if v.order == 0:
            return np.stack(np.broadcast_arrays(*v.cart()), axis=-1)
        if v.cls in ("CartesianVel3D", "CartesianAcc3D"):
            return np.stack(list(v.c.values()), axis=-1)
        raise NoModel
    return v.v


def four4(s, env=None):
    v = read_spec(s, env) if isinstance(s, list) else s
    if isinstance(v, Four):
        return v.ti.v, vec3(v.q)
    return v.v[..., 0] / C_KMS, v.v[..., 1:]


def read_op(name, kw, env=None):
    if name == "GalileanRotation":
        if "seq" in kw:
            R = euler(kw["seq"], read_spec(kw["angles"]).v)
        else:
            r = read_spec(kw["rotation"], env)
            R = r.acts[0][1] if isinstance(r, Oper) else r.v
        return Oper([("rot", R)], name)
    if name == "GalileanSpatialTranslation":
        return Oper([("st", vec3(kw["translation"], env))], name)
    if name == "GalileanTranslation":
        return Oper([("gt", *four4(kw["translation"], env))], name)
    if name == "GalileanBoost":
        return Oper([("gb", vec3(kw["velocity"], env))], name)
    if name == "VelocityBoost":
        return Oper([("vb", vec3(kw["velocity"], env))], name)
    if name == "Identity":
        return Oper([], name)
    if name == "Pipe":
        return Oper([a for o in kw["operators"] for a in read_spec(o, env).acts], name)
    if name == "GalileanOperator":
        acts = []
        R = read_spec(kw["rotation"], env) if "rotation" in kw else Arr(np.eye(3))
        acts.append(R.acts[0] if isinstance(R, Oper) else ("rot", R.v))
        tr = read_spec(kw["translation"], env) if "translation" in kw else QV(np.zeros(4), (1, 0))
        acts.append(tr.acts[0] if isinstance(tr, Oper) else ("gt", *four4(tr)))
        ve = read_spec(kw["velocity"], env) if "velocity" in kw else QV(np.zeros(3), (1, -1))
        acts.append(ve.acts[0] if isinstance(ve, Oper) else ("gb", vec3(ve)))
        return Oper(acts, name)
    raise NoModel(name)


def read_frame(name, f):
    if name == "ICRS":
        return Frame(name, {})
    if name != "Galactocentric":
        raise NoModel(name)
    p = {"lon": math.radians(266.4051), "lat": math.radians(-28.936175), "d": 8.122e3 * PC_KM, "roll": 0.0, "z_sun": 20.8 * PC_KM, "v": np.array([12.9, 245.6, 7.78])}
    if "galcen" in f:
        g = read_spec(f["galcen"])
        p["lon"], p["lat"], p["d"] = float(g.c["lon"]), float(g.c["lat"]), float(g.c["distance"])
    if "roll" in f:
        p["roll"] = float(read_spec(f["roll"]).v)
    if "z_sun" in f:
        p["z_sun"] = float(read_spec(f["z_sun"]).v)
    if "galcen_v_sun" in f:
        p["v"] = vec3(f["galcen_v_sun"])
    return Frame(name, p)


def _gcf(p):
    R = axis("x", p["roll"] - math.radians(58.5986320306)) @ axis("y", p["lat"]) @ axis("z", -p["lon"])
    H = axis("y", math.asin(p["z_sun"] / p["d"]))
    return H @ R, -(H @ np.array([p["d"], 0, 0])), p["v"]


def frame_oper(a, b):
    if a.cls == b.cls == "ICRS":
        return Oper([], "Identity")
    acts = []
    if a.cls == "Galactocentric":
        A, o, v = _gcf(a.p)
        acts.append(("aff", A.T, -(A.T @ o), -(A.T @ v)))
    if b.cls == "Galactocentric":
        acts.append(("aff", *_gcf(b.p)))
    return Oper(acts, "frame")


def inv_act(a):
    if a[0] == "rot":
        return ("rot", a[1].T)
    if a[0] in ("st", "gb", "vb"):
        return (a[0], -a[1])
    if a[0] == "gt":
        return ("gt", -a[1], -a[2])
    A, o, v = a[1:]
    return ("aff", A.T, -(A.T @ o), -(A.T @ v))


def mv(R, q):
    return np.einsum("ij,...j->...i", R, q)


def apply(acts, q=None, t=None, p=None):
    """Act on Cartesian position, time and velocity (any may be absent)."""
    for a in acts:
        if a[0] == "rot":
            q = mv(a[1], q)
            if p is not None:
                raise NoModel
        elif a[0] == "st":
            q = q + a[1]
        elif a[0] == "gt":
            q, t = q + a[2], t + a[1]
        elif a[0] == "gb":
            q = q + a[1] * np.asarray(t)[..., None]
        elif a[0] == "vb":
            p = p + a[1] if p is not None else None
        else:
            q = mv(a[1], q) + a[2]
            if p is not None:
                p = mv(a[1], p) + a[3]
    return q, t, p


# ------------------------------------------------------------------ outcomes
def read_out(o):
    """A value the library returned, from its serialised form; None if opaque."""
    t = o["t"]
    if t == "vec" and o["c"] == "CartesianGeneric3D":
        return Gen({k: rq(*x)[0] for k, x in o["f"].items()})
    if t == "vec" and o["c"] not in COMPS:
        try:
            if posof(o["c"]) not in COMPS:
                return None
        except NoModel:
            return None
    if t == "vec":
        c, D = {}, None
        for k, (v, u) in o["f"].items():
            x, d = rq(v, u)
            if d == ("mag",):
                x = 10 ** (x / 5 + 1) * PC_KM
            elif k in ("r", "distance") and d == (0, 0):
                x = AU_KM / np.tan(x)
            if k == "Delta":
                D = x
            else:
                c[k] = x
        r = V(o["c"], c, D)
        r.dims = {k: (1, 0) if k in ("r", "distance") and unit(u)[1] in (("mag",), (0, 0)) else unit(u)[1] for k, (v, u) in o["f"].items()}
        return r
    if t == "four":
        return Four(QV(*rq(*o["ti"])), read_out(o["q"]))
    if t == "space":
        return Sp({k: read_out(v) for k, v in o["parts"].items()})
    if t == "q":
        v = np.asarray(o["v"], dtype=float)
        if "i" in o:
            v = v + 1j * np.asarray(o["i"], dtype=float)
        s, d = unit(o["u"])
        return QV(v * s, d, o["c"])
    if t == "tup":
        return Tup([read_out(x) for x in o["x"]])
    if t == "arr":
        return Arr(o["v"])
    if t == "ap":
        return Ap(o["c"], {k: rq(*x)[0] for k, x in o["f"].items()}, {k: (c, {n: rq(*x)[0] for n, x in f.items()}) for k, (c, f) in o.get("d", {}).items()})
    return None


DIMS = {"l": (1, 0), "a": (0, 0), "s": (2, 0)}


def vec_dims(v):
    """Are the units of the components those of the class?"""
    n = v.order
    comps = dict(COMPS[posof(v.cls) if n else v.cls])
    for k, d in getattr(v, "dims", {}).items():
        if k == "Delta":
            want = (1, 0)
        else:
            b = k.split("_", 1)[1] if n else k
            b = {"lon_coslat": "lon"}.get(b, b)
            if b not in comps:
                return f"unexpected component {k}"
            L, T = DIMS[comps[b]]
            want = (L, T - n)
        if d != want:
            return f"component {k} has dimensions {d}, not {want}"
    return None


RANGE = {"SphericalPos": {"r": (0, None), "theta": (0, math.pi)}, "MathSphericalPos": {"r": (0, None), "phi": (0, math.pi)}, "LonLatSphericalPos": {"lat": (-math.pi / 2, math.pi / 2), "distance": (0, None)},
         "CylindricalPos": {"rho": (0, None)}, "PolarPos": {"r": (0, None)}, "RadialPos": {"r": (0, None)}}
TOL = 2e-3


def close(a, b, scale, tol=TOL):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {b.shape}, not {a.shape}"
    if not np.all(np.isfinite(b)):
        return "not finite" if np.all(np.isfinite(a)) else None
    e = np.max(np.abs(a - b)) if a.size else 0.0
    return None if e <= tol * scale + 1e-30 else f"off by {e:.3g} (scale {scale:.3g})"


def compare(exp, got, at=None, tol=TOL):
    """None, or what is wrong.  ``at`` is the position (model value) of a velocity or acceleration."""
    if isinstance(exp, V):
        if not isinstance(got, V):
            return f"a {type(got).__name__}, not a {exp.cls}"
        if exp.cls != got.cls:
            return f"class {got.cls}, not {exp.cls}"
        if set(exp.c) != set(got.c):
            return f"components {sorted(got.c)}"
        bad = vec_dims(got)
        if bad:
            return bad
        sa, sb = (np.broadcast_shapes(*(np.shape(x) for x in v.c.values())) for v in (exp, got))
        if sa != sb:
            return f"shape {sb}, not {sa}"
        if exp.D is not None and (got.D is None or close(np.broadcast_to(exp.D, np.shape(got.D)), got.D, float(np.max(exp.D)), 1e-5)):
            return f"Delta {got.D}, not {exp.D}"
        if exp.order == 0:
            for k, (lo, hi) in RANGE.get(exp.cls, {}).items():
                v = got.c[k]
                if (lo is not None and np.any(v < lo - 1e-4 * (hi is not None or lo < 0))) or (hi is not None and np.any(v > hi + 1e-4)):
                    return f"component {k} = {v.tolist()} out of range"
            s = max(exp.scale(), 1e-300)
            if exp.cls == "ProlateSpheroidalPos":
                s = max(s, float(np.max(exp.D)))
                tol = max(tol, 1e-2)
            for a, b in zip(exp.cart(), got.cart()):
                e = close(*np.broadcast_arrays(a, b), s, tol)
                if e:
                    return e
            return None
        if at is None:
            s = {k: max(float(np.max(np.abs(v))), 1e-300) for k, v in exp.c.items()}
            for k in exp.c:
                e = close(exp.c[k], got.c[k], s[k], tol)
                if e:
                    return f"component {k}: {e}"
            return None
        pc = posof(exp.cls)
        if not well(pc, at.c, at.D):
            return None
        if pc == "ProlateSpheroidalPos":
            tol = max(tol, 1e-2)
        A, B = push_cart(pc, at.c, _rates(exp, at), at.D), push_cart(pc, at.c, _rates(got, at), at.D)
        s = max(float(np.max(np.abs(x))) for x in A)
        for a, b in zip(A, B):
            e = close(*np.broadcast_arrays(a, b), s, tol)
            if e:
                return e
        return None
    if isinstance(exp, QV):
        if not isinstance(got, QV):
            return f"a {type(got).__name__}, not a quantity"
        if exp.cls in ("Distance", "Parallax", "DistanceModulus", "Angle") and got.cls != exp.cls:
            return f"class {got.cls}, not {exp.cls}"
        if exp.dim != (None,) and tuple(exp.dim) != tuple(got.dim):
            return f"dimensions {got.dim}, not {exp.dim}"
        s = max(float(np.max(np.abs(exp.v))) if exp.v.size else 0, 1e-300)
        return close(exp.v, got.v, s, tol)
    if isinstance(exp, Four):
        if not isinstance(got, Four):
            return f"a {type(got).__name__}, not a FourVector"
        return (lambda e: e and "t: " + e)(compare(exp.ti, got.ti)) or (lambda e: e and "q: " + e)(compare(exp.q, got.q))
    if isinstance(exp, Sp):
        if not isinstance(got, Sp) or set(exp.parts) != set(got.parts):
            return "other parts"
        q = exp.parts.get("length")
        for k, v in exp.parts.items():
            a = None
            if v.order:
                if q is None:
                    continue
                pc = posof(v.cls)
                c, D = conv(q.cls, pc, q.c, {}, q.D)
                a = V(pc, c, D)
            e = compare(v, got.parts[k], a)
            if e:
                return f"{k}: {e}"
        return None
    if isinstance(exp, Tup):
        if not isinstance(got, Tup) or len(exp.x) != len(got.x):
            return "not a tuple of the same length"
        pos = next((x for x in exp.x if isinstance(x, V) and x.order == 0), None)
        for i, (a, b) in enumerate(zip(exp.x, got.x)):
            at = None
            if isinstance(a, V) and a.order and pos is not None:
                pc = posof(a.cls)
                c, D = conv(pos.cls, pc, pos.c, {}, pos.D)
                at = V(pc, c, D)
            e = compare(a, b, at)
            if e:
                return f"item {i}: {e}"
        return None
    if isinstance(exp, Arr):
        if not isinstance(got, Arr):
            return f"a {type(got).__name__}, not an array"
        if exp.v.dtype == bool:
            return None if exp.v.shape == got.v.shape and np.array_equal(exp.v, got.v.astype(bool)) else f"{got.v.tolist()}, not {exp.v.tolist()}"
        return close(exp.v, got.v, max(float(np.max(np.abs(exp.v))) if exp.v.size else 0, 1e-300), tol)
    if isinstance(exp, Gen):
        if not isinstance(got, Gen):
            return f"{got!r}"
        for k in exp.c:
            e = close(exp.c[k], got.c[k], 1.0, tol)
            if e:
                return f"component {k}: {e}"
        return None
    if isinstance(exp, Ap):
        if not isinstance(got, Ap) or exp.cls != got.cls:
            return f"{got!r}, not a {exp.cls}"
        a, b = V(AP2CX[exp.cls], {AP2COMP[exp.cls].get(k, k): v for k, v in exp.c.items()}), V(AP2CX[exp.cls], {AP2COMP[exp.cls].get(k, k): v for k, v in got.c.items()})
        return compare(a, b)
    return None


AP2CX = {"CartesianRepresentation": "CartesianPos3D", "CylindricalRepresentation": "CylindricalPos", "PhysicsSphericalRepresentation": "SphericalPos", "SphericalRepresentation": "LonLatSphericalPos"}
CX2AP = {v: k for k, v in AP2CX.items()}
AP2COMP = {"CartesianRepresentation": {}, "CylindricalRepresentation": {}, "PhysicsSphericalRepresentation": {}, "SphericalRepresentation": {}}


def _rates(v, at):
    r = v.rates()
    if "lon_coslat" in r:
        r = {"lon": r["lon_coslat"] / np.cos(at.c["lat"]), "lat": r["lat"], "distance": r["distance"]}
    return r


# ---------------------------------------------------------------- prediction
def conv_rate(v, dst, pos, kw=None):
    """Velocity or acceleration at a position, in another representation, plus the position there."""
    kw = kw or {}
    if dst == v.cls:
        pc = posof(dst)
        c, D = conv(pos.cls, pc, pos.c, {**kw, **({"Delta": pos.D} if pos.D is not None and "Delta" not in kw else {})}, pos.D)
        return V(dst, dict(v.c)), V(pc, c, D)
    src, d = posof(v.cls), posof(dst)
    if DIMN[src] != DIMN[d]:
        raise NoModel
    k1 = dict(kw)
    c, D = conv(pos.cls, src, pos.c, k1, pos.D)
    at = V(src, c, D)
    if not well(src, c, D):
        raise NoModel("ill conditioned")
    x = push_cart(src, c, _rates(v, at), D)
    c2, D2 = conv(src, d, c, k1, D)
    if not well(d, c2, D2):
        raise NoModel("ill conditioned")
    r = pull_cart(d, c2, x, D2)
    pre = {1: "d_", 2: "d2_"}[v.order]
    if dst == "LonCosLatSphericalVel":
        r = {"lon_coslat": r["lon"] * np.cos(c2["lat"]), "lat": r["lat"], "distance": r["distance"]}
    return V(dst, {pre + k: val for k, val in r.items()}), V(d, c2, D2)


def qpos(q, n=3):
    """Cartesian position from a length array."""
    if isinstance(q, V):
        return q
    if q.v.shape[-1] != n:
        raise NoModel
    return V(CART[n], {k: q.v[..., i] for i, k in enumerate("xyz"[:n])})


def qrate(q, order_, n=3):
    if isinstance(q, V):
        return q
    pre = {1: "d_", 2: "d2_"}[order_]
    return V(f"Cartesian{ {1: 'Vel', 2: 'Acc'}[order_]}{n}D", {pre + k: q.v[..., i] for i, k in enumerate("xyz"[:n])})


ABS = {"AbstractPos1D": "CartesianPos1D", "AbstractPos2D": "CartesianPos2D", "AbstractPos3D": "CartesianPos3D", "AbstractVel1D": "CartesianVel1D", "AbstractVel2D": "CartesianVel2D",
       "AbstractVel3D": "CartesianVel3D", "AbstractAcc1D": "CartesianAcc1D", "AbstractAcc2D": "CartesianAcc2D", "AbstractAcc3D": "CartesianAcc3D"}


def represent(x, args, kw):
    c = args[0][1]
    kwv = {k: (radialq(v)) for k, v in kw.items()}
    if isinstance(x, Sp):
        q = x.parts["length"]
        out = {}
        for k, v in x.parts.items():
            if v.order == 0:
                cc, D = conv(v.cls, c, v.c, kwv, v.D)
                out[k] = V(c, cc, D)
            else:
                out[k] = conv_rate(v, sister(c, {1: "Vel", 2: "Acc"}[v.order]), q, kwv)[0]
        return Sp(out), None
    if not isinstance(x, V):
        raise NoModel
    if x.order == 0:
        if c not in COMPS:
            raise NoModel
        if len(args) > 1:
            raise NoModel
        cc, D = conv(x.cls, c, x.c, kwv, x.D)
        return V(c, cc, D), None
    n = DIMN[posof(x.cls)]
    if n not in (1, 2, 3):
        raise NoModel
    pos = qpos(args[-1], n)
    if not isinstance(pos, V) or pos.order:
        raise NoModel
    if DIMN[pos.cls] != n:
        raise NoModel
    return conv_rate(x, c, pos, kwv)


def radialq(v):
    return v.v if isinstance(v, QV) else v


def build(cls, src, args):
    """``cls.from_(...)`` and ``cls(...)``."""
    cls0, cls = cls, ABS.get(cls, cls)
    if isinstance(src, V):
        if src.cls == cls or cls0.startswith("Abstract") and order(cls) == src.order and len(args) == 0:
            return src
        if cls == "FourVector" or cls.startswith("Abstract"):
            raise NoModel
        return represent(src, [("cls", cls)], {})[0] if src.order == 0 and len(args) == 0 else _nomodel()
    if isinstance(src, Ap):
        d = AP2CX[src.cls]
        if cls0 in COMPS:
            cc, D = conv(d, cls, src.c)
            return V(cls, cc, D)
        raise NoModel
    if isinstance(src, dict):
        if cls == "Space":
            return Sp({{"velocity": "speed"}.get(k, k): read_spec(v) for k, v in src.items()})
        return read_vec(cls, src)
    if isinstance(src, Arr) and args and isinstance(args[0], str):
        s, d = unit(args[0])
        src = QV(src.v * s, d)
    if isinstance(src, QV):
        if cls == "FourVector":
            return Four(QV(src.v[..., 0] / C_KMS, (0, 1)), V("CartesianPos3D", {k: src.v[..., i + 1] for i, k in enumerate("xyz")}))
        b, w, d = stem(cls)
        pre = {"Pos": "", "Vel": "d_", "Acc": "d2_"}[w]
        if b == "Cartesian" and d != "ND":
            n = int(d[0])
            if n == 1 and (src.v.ndim == 0):
                return V(cls, {pre + "x": src.v})
            if src.v.shape[-1] != n:
                raise NoModel
            return V(cls, {pre + k: src.v[..., i] for i, k in enumerate("xyz"[:n])})
        raise NoModel
    raise NoModel


def init_kw(cls, spec, kw, env):
    if cls == "Space":
        return Sp({{"velocity": "speed"}.get(k, k): v for k, v in kw.items()})
    if cls == "FourVector":
        return Four(kw["t"], qpos(kw["q"]))
    if cls in ("ICRS", "Galactocentric"):
        return read_frame(cls, spec)
    if cls.startswith("Galilean") or cls in ("VelocityBoost", "Identity"):
        return read_op(cls, spec, env)
    return read_vec(cls, spec)


def _nomodel():
    raise NoModel


def cart3(x):
    return np.stack(np.broadcast_arrays(*x), axis=-1)


def from3(x, cls, D=None):
    c = from_cart(cls, [x[..., i] for i in range(3)], D)
    return V(cls, c, D)


def act(op, args):
    """Operator applied to arguments."""
    acts = op.acts
    if len(args) == 1:
        a = args[0]
        if isinstance(a, QV) and a.v.shape and a.v.shape[-1] == 3:
            if any(x[0] in ("gt", "gb") for x in acts):
                raise NoModel
            return QV(apply(acts, a.v)[0], (1, 0))
        if isinstance(a, V) and a.order == 0 and DIMN[a.cls] == 3:
            if any(x[0] in ("gt", "gb", "aff") for x in acts):
                raise NoModel
            if not acts:
                return a
            return from3(apply(acts, cart3(a.cart()))[0], a.cls)
        if isinstance(a, V) and a.order == 1 and a.cls == "CartesianVel3D" and op.cls == "VelocityBoost":
            return V(a.cls, {k: a.c[k] + acts[0][1][..., i] for i, k in enumerate(a.c)})
        if isinstance(a, Four):
            if any(x[0] == "aff" for x in acts):
                raise NoModel
            q, t, _ = apply(acts, cart3(a.q.cart()), a.ti.v)
            return Four(QV(t, (0, 1)), from3(q, a.q.cls))
        raise NoModel
    if len(args) == 2:
        a, b = args
        if isinstance(a, QV) and isinstance(b, QV) and b.dim == (0, 1):
            q, t, _ = apply(acts, a.v, b.v)
            return Tup([QV(q, (1, 0)), QV(t, (0, 1))])
        if isinstance(a, V) and isinstance(b, QV) and b.dim == (0, 1):
            q, t, _ = apply(acts, cart3(a.cart()), b.v)
            return Tup([from3(q, a.cls), QV(t, (0, 1))])
        if isinstance(a, QV) and isinstance(b, QV) and b.dim == (1, -1) and op.cls == "frame":
            q, _, p = apply(acts, a.v, None, b.v)
            return Tup([QV(q, (1, 0)), QV(p, (1, -1))])
        if isinstance(a, V) and isinstance(b, V) and b.order == 1:
            if not acts:
                return Tup([a, b])
            vc, at = conv_rate(b, "CartesianVel3D", a)
            q, _, p = apply(acts, cart3(a.cart()), None, np.stack(list(vc.c.values()), axis=-1))
            pv = V("CartesianVel3D", {k: p[..., i] for i, k in enumerate(("d_x", "d_y", "d_z"))})
            if op.cls == "frame":
                return Tup([from3(q, "CartesianPos3D"), pv])
            na = from3(q, a.cls)
            return Tup([na, conv_rate(pv, b.cls, na)[0]])
    raise NoModel


def _idx(v, i):
    def one(x):
        if isinstance(x, list):
            return tuple(one(y) for y in x)
        if isinstance(x, str):
            if x == "...":
                return Ellipsis
            if x == "None":
                return None
            return slice(*[int(y) if y else None for y in x.split(":")])
        return x
    return np.asarray(v)[one(i)]


def vmap_comps(x, f):
    if isinstance(x, V):
        return V(x.cls, {k: f(np.asarray(v)) for k, v in x.c.items()}, x.D if np.ndim(x.D) == 0 or x.D is None else f(x.D))
    if isinstance(x, Four):
        return Four(QV(f(x.ti.v), x.ti.dim), vmap_comps(x.q, f))
    if isinstance(x, Sp):
        return Sp({k: vmap_comps(v, f) for k, v in x.parts.items()})
    if isinstance(x, QV):
        return QV(f(x.v), x.dim, x.cls)
    raise NoModel


def predict(op, env):
    """(expected value, position at which a rate is to be compared) for a call; raises NoModel."""
    try:
        with np.errstate(all="ignore"):
            return _predict(op, env)
    except NoModel:
        raise
    except (AttributeError, KeyError, IndexError, ValueError, TypeError, FloatingPointError, ZeroDivisionError, np.linalg.LinAlgError) as e:
        raise NoModel(f"model: {type(e).__name__} {e}") from e


def _predict(op, env):
    """(expected value, position at which a rate is to be compared) for a call; raises NoModel."""
    k = op["k"]
    if k in ("uconv", "uconvf"):   # any unit: the value is the same
        x = read_spec(op["a"][0], env)
        if isinstance(x, QV) or op.get("m", "eager") != "eager":
            raise NoModel
        return x, None
    A = [read_spec(s, env) for s in op.get("a", ())]
    KW = {n: read_spec(s, env) for n, s in op.get("kw", {}).items()}
    if op.get("m", "eager") not in ("eager", "jit", "jitc", "jit1"):
        raise NoModel
    if k in ("rep", "repf"):
        return represent(A[0], A[1:], KW)
    if k in ("init", "initmap", "from"):
        cls = A[0][1]
        if cls in ("Distance", "Parallax", "DistanceModulus") and isinstance(A[1], QV):
            return distance(cls, A[1]), None
        if cls in ("GalileanOperator", "GalileanRotation", "GalileanSpatialTranslation", "GalileanTranslation", "GalileanBoost", "VelocityBoost") and k == "from" and len(A) == 2 and isinstance(A[1], (QV, Arr)):
            n = {"GalileanRotation": "rotation", "GalileanBoost": "velocity", "VelocityBoost": "velocity"}.get(cls, "translation")
            if cls == "GalileanOperator":
                raise NoModel
            return read_op(cls, {n: op["a"][1]}, env), None
        if cls == "FourVector" and k != "initmap" and len(A) == 3 and isinstance(A[1], QV):
            return Four(A[1], qpos(A[2])), None
        if len(A) < 2:
            if k == "init" and KW:
                return init_kw(cls, op["kw"], KW, env), None
            raise NoModel
        return build(cls, A[1], A[2:]), None
    if k in ("add", "sub"):
        s = 1 if k == "add" else -1
        a, b = A
        if isinstance(a, V) and isinstance(b, V) and a.order == b.order == 0 and DIMN[a.cls] == DIMN[b.cls] and DIMN[a.cls] in (1, 2, 3):
            if a.D is not None or b.D is not None:
                raise NoModel
            x = [p + s * q for p, q in zip(a.cart(), b.cart())]
            if a.cls == "RadialPos" and np.any(x[0] < 0):
                raise NoModel
            return V(a.cls, from_cart(a.cls, x)), None
        if isinstance(a, V) and isinstance(b, V) and a.cls == b.cls and a.cls.startswith("Cartesian"):
            return V(a.cls, {n: a.c[n] + s * b.c[n] for n in a.c}), None
        if isinstance(a, Four) and isinstance(b, Four):
            q = V(a.q.cls, from_cart(a.q.cls, [p + s * r for p, r in zip(a.q.cart(), b.q.cart())]))
            return Four(QV(a.ti.v + s * b.ti.v, a.ti.dim), q), None
        if isinstance(a, QV) and isinstance(b, QV) and a.dim == b.dim and a.dim != ("mag",):
            return QV(a.v + s * b.v, a.dim), None
        raise NoModel
    if k == "neg":
        a = A[0]
        if isinstance(a, V):
            if a.order == 0:
                if a.D is not None or a.cls in ("RadialPos", "TwoSpherePos"):
                    raise NoModel
                if a.cls == "CartesianPosND":
                    return V(a.cls, {"q": -a.c["q"]}), None
                return V(a.cls, from_cart(a.cls, [-x for x in a.cart()])), None
            return V(a.cls, {n: -x for n, x in a.c.items()}), None
        if isinstance(a, Oper) and a.cls in ("GalileanSpatialTranslation", "GalileanBoost", "VelocityBoost"):
            return Oper([inv_act(x) for x in a.acts], a.cls), None
        raise NoModel
    if k in ("mul", "div"):
        a, b = A
        if isinstance(b, V) and k == "mul":
            a, b = b, a
        if isinstance(a, V) and isinstance(b, (int, float)) and a.order == 0 and a.cls not in ("TwoSpherePos",):
            if a.D is not None:
                raise NoModel
            f = b if k == "mul" else 1 / b
            if f < 0 and a.cls in ("RadialPos", "MathSphericalPos", "PolarPos"):
                raise NoModel   # refused
            if a.cls == "CartesianPosND":
                return V(a.cls, {"q": a.c["q"] * f}), None
            return V(a.cls, from_cart(a.cls, [x * f for x in a.cart()])), None
        if isinstance(a, V) and isinstance(b, QV) and a.order and k == "mul" and b.dim in ((0, 1), (0, 2)):
            n = a.order - int(b.dim[1])
            if n < 0 or not a.cls.startswith("Cartesian") or "ND" in a.cls:
                raise NoModel
            return V(sister(a.cls, ["Pos", "Vel"][n]), {["", "d_"][n] + m: x * b.v for m, x in a.rates().items()}), None
        raise NoModel
    if k in ("norm", "abs"):
        a = A[0]
        if isinstance(a, Four) and k == "norm":
            q = cart3(a.q.cart())
            return QV(np.sqrt((C_KMS ** 2 * a.ti.v ** 2 - np.sum(q * q, axis=-1)).astype(complex)), (1, 0)), None
        if isinstance(a, V) and a.order == 0 and DIMN[a.cls] in (1, 2, 3):
            return QV(np.sqrt(sum(x * x for x in a.cart())), (1, 0)), None
        if isinstance(a, V) and a.order and k == "norm" and DIMN[posof(a.cls)] in (1, 2, 3):
            n = DIMN[posof(a.cls)]
            dim = (1, -a.order)
            if a.cls.startswith("Cartesian") and len(A) == 1:
                return QV(np.sqrt(sum(x * x for x in a.c.values())), dim), None
            if len(A) < 2:
                raise NoModel
            w = {1: "CartesianVel", 2: "CartesianAcc"}[a.order] + f"{n}D"
            v = conv_rate(a, w, qpos(A[-1], n))[0]
            return QV(np.sqrt(sum(x * x for x in v.c.values())), dim), None
        raise NoModel
    if k == "call":
        o = A[0]
        if not isinstance(o, Oper) or KW:
            raise NoModel
        return act(o, A[1:]), None
    if k == "fcall":
        return act(frame_oper(A[0], A[1]), A[2:]), None
    if k in ("fop", "xop"):
        return frame_oper(A[0], A[1]), None
    if k in ("inverse",):
        o = A[0]
        if not isinstance(o, Oper):
            raise NoModel
        return Oper([inv_act(x) for x in reversed(o.acts)], {"GalileanOperator": "Pipe"}.get(o.cls, o.cls)), None
    if k in ("simplify", "simplify2"):
        return Oper(A[0].acts, "any" if A[0].cls != "VelocityBoost" else "VelocityBoost"), None
    if k == "or":
        return Oper(A[0].acts + A[1].acts, "Pipe"), None
    if k == "pipe":
        return Oper([x for o in A for x in o.acts], "Pipe"), None
    if k == "pipel":
        return Oper([x for o in A[0].x for x in o.acts], "Pipe"), None
    if k == "matmul":
        if not all(isinstance(a, Oper) and a.cls == "GalileanRotation" for a in A):
            raise NoModel
        return Oper([("rot", A[0].acts[0][1] @ A[1].acts[0][1])], "GalileanRotation"), None
    if k == "euler":
        return Oper([("rot", euler(A[0], A[1].v))], "GalileanRotation"), None
    if k in ("copy", "deepcopy", "pickle2", "pickle5", "tree", "fieldsrb"):
        return A[0], None
    if k == "pos":
        return A[0], None
    if k == "invcall":
        o = A[0]
        if not isinstance(o, Oper) or KW:
            raise NoModel
        return act(Oper([inv_act(x) for x in reversed(o.acts)], {"GalileanOperator": "Pipe"}.get(o.cls, o.cls)), A[1:]), None
    if k == "fround":
        x = A[2:]
        return (x[0] if len(x) == 1 else act(Oper(frame_oper(A[0], A[1]).acts + frame_oper(A[1], A[0]).acts, "frame"), x)), None
    if k == "normalize" and isinstance(A[0], V) and A[0].cls == "CartesianPos3D":
        x = cart3(A[0].cart())
        x = x / np.linalg.norm(x, axis=-1, keepdims=True)
        return Gen({n: x[..., i] for i, n in enumerate("xyz")}), None
    if k == "dcrep" and isinstance(A[0], V) and all(isinstance(v, QV) for v in KW.values()):
        return V(A[0].cls, {**A[0].c, **{n: v.v for n, v in KW.items() if n != "Delta"}}, KW["Delta"].v if "Delta" in KW else A[0].D), None
    if k == "getitem":
        a = A[0]
        if isinstance(a, Sp) and isinstance(A[1], str):
            return a.parts[A[1]], None
        if isinstance(a, Tup) and isinstance(A[1], int):
            x = a.x[A[1]]
            pos = next((y for y in a.x if isinstance(y, V) and y.order == 0), None)
            if isinstance(x, V) and x.order and pos is not None:
                pc = posof(x.cls)
                c, D = conv(pos.cls, pc, pos.c, {}, pos.D)
                return x, V(pc, c, D)
            return x, None
        if isinstance(a, (V, Four, Sp)) and isinstance(A[1], tuple) and A[1][0] == "idx":
            if isinstance(a, V) and a.D is not None or getattr(a, "cls", "") == "CartesianPosND":
                raise NoModel
            return vmap_comps(a, lambda v: _idx(v, A[1][1])), None
        raise NoModel
    if k == "attr":
        a, n = A
        if isinstance(a, V) and n in a.c:
            return QV(a.c[n], (None,)), None
        if isinstance(a, Four) and n in ("t", "q"):
            return (a.ti if n == "t" else a.q), None
        raise NoModel
    if k == "meth":
        a, n = A[:2]
        if n in ("flatten", "ravel") and isinstance(a, V) and a.cls != "CartesianPosND" and a.D is None:
            return vmap_comps(a, lambda v: v.reshape(-1)), None
        if n == "reshape" and isinstance(a, V) and a.cls != "CartesianPosND" and a.D is None:
            sh = A[2].x if isinstance(A[2], Tup) else A[2:]
            full = np.broadcast_shapes(*(np.shape(x) for x in a.c.values()))
            return vmap_comps(a, lambda v: np.broadcast_to(v, full).reshape([int(x) for x in sh])), None
        raise NoModel
    if k == "eq":
        a, b = A
        if isinstance(a, V) and isinstance(b, V) and op["a"][0] == op["a"][1]:
            if a.order:
                raise NoModel
            return Arr(np.ones(np.shape(next(iter(a.c.values()))), dtype=bool)), None
        raise NoModel
    if k == "conv":
        a, c = A[0], A[1][1]
        if isinstance(a, V) and a.order == 0 and c == CX2AP.get(a.cls):
            d = AP2CX[c]
            return Ap(c, conv(a.cls, d, a.c)[0]), None
        if isinstance(a, Ap) and c in COMPS and DIMN[c] == 3:
            cc, D = conv(AP2CX[a.cls], c, a.c)
            return V(c, cc, D), None
        if isinstance(a, V) and a.order == 0 and c in ("Quantity",) and DIMN[a.cls] == 3:
            return QV(cart3(a.cart()), (1, 0)), None
        raise NoModel
    raise NoModel(k)


def distance(cls, q):
    def km():
        if q.dim == ("mag",):
            return 10 ** (q.v / 5 + 1) * PC_KM
        if q.dim == (0, 0):
            return AU_KM / np.tan(q.v)
        if q.dim == (1, 0):
            return q.v
        raise NoModel
    d = km()
    if cls == "Distance":
        return QV(d, (1, 0), cls)
    if cls == "Parallax":
        return QV(np.arctan2(AU_KM, d), (0, 0), cls)
    return QV(5 * np.log10(d / (10 * PC_KM)), ("mag",), cls)
