"""Operation catalogue: JSON descriptions of public-API calls and how to run them.

An operation is ``{"k": kind, "a": [spec...], "kw": {name: spec}, "m": mode}``.
A *spec* describes an argument object.  Building arguments and making the call
are separate steps, so the caller "holds" the arguments while the call runs.
Only public names are used.
"""
from __future__ import annotations

import ast
import copy
import json
import operator
import pickle

from .ops_key import key_of  # noqa: F401

L = {"km": "km", "m": "m", "kpc": "kpc", "pc": "pc", "AU": "AU", "Mpc": "Mpc"}


class Lib:
    """Handles to the library and its companions (set after import)."""
    cx = u = jax = jnp = np = plum = eqx = apyc = apyu = dc = None


def load():
    import dataclassish
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import plum
    import unxt as u
    import astropy.coordinates as apyc
    import astropy.units as apyu
    import coordinax as cx
    Lib.cx, Lib.u, Lib.jax, Lib.jnp, Lib.np, Lib.plum, Lib.eqx = cx, u, jax, jnp, np, plum, eqx
    Lib.apyc, Lib.apyu, Lib.dc = apyc, apyu, dataclassish
    return Lib


def cls_of(name):
    cx, u = Lib.cx, Lib.u
    for ns in (cx.vecs, cx.ops, cx.frames, cx.distance, cx.angle, cx):
        if hasattr(ns, name):
            return getattr(ns, name)
    if name in EXT:
        return EXT[name]
    if name == "Quantity":
        return u.Quantity
    if name in ("UncheckedQuantity", "AbstractQuantity"):
        return getattr(u.quantity, name)
    if name == "apyQuantity":
        return Lib.apyu.Quantity
    if hasattr(Lib.apyc, name):
        return getattr(Lib.apyc, name)
    raise KeyError(name)


EXT: dict = {}   # classes defined by extension operations of the session
STORE: dict = {} # objects made available to later steps of the session


def mk(s):
    """Build the object a spec describes."""
    u, jnp, np = Lib.u, Lib.jnp, Lib.np
    t = s[0]
    if t == "q":
        return u.Quantity(jnp.asarray(s[1], dtype=float), s[2])
    if t == "qi":
        return u.Quantity(jnp.asarray(s[1]), s[2])
    if t == "qn":   # quantity over a numpy array
        return u.Quantity(np.array(s[1], dtype=s[3]), s[2])
    if t == "apq":
        return Lib.apyu.Quantity(np.array(s[1], dtype=float), s[2])
    if t == "np":
        return np.array(s[1], dtype=s[2])
    if t == "jnp":
        return jnp.asarray(s[1], dtype=s[2])
    if t == "list":
        return json.loads(json.dumps(s[1]))
    if t == "lit":
        return s[1]
    if t == "tup":
        return tuple(mk(v) for v in s[1])
    if t == "lst":
        return [mk(v) for v in s[1]]
    if t == "idx":
        return mkidx(s[1])
    if t == "vec":
        return cls_of(s[1])(**{k: mk(v) for k, v in s[2].items()})
    if t == "angle":
        return Lib.cx.angle.Angle(jnp.asarray(s[1], dtype=float), s[2])
    if t in ("Distance", "Parallax", "DistanceModulus"):
        return cls_of(t)(jnp.asarray(s[1], dtype=float), s[2])
    if t == "map":
        return {k: mk(v) for k, v in s[1].items()}
    if t == "dmap":
        return {u.dimension(k): mk(v) for k, v in s[1].items()}
    if t == "cls":
        return cls_of(s[1])
    if t == "usys":
        return u.unitsystem(s[1]) if isinstance(s[1], str) else u.unitsystem(*s[1])
    if t == "consistent":
        return Lib.cx.vecs.ToUnitsOptions.consistent
    if t == "op":
        name, kw = s[1], s[2]
        c = cls_of(name)
        if name == "GalileanRotation":
            if "seq" in kw:
                return c.from_euler(kw["seq"], mk(kw["angles"]))
            return c(mk(kw["rotation"]))
        if name == "Identity":
            return c()
        if name == "Pipe":
            return c(tuple(mk(o) for o in kw["operators"]))
        return c(**{k: mk(v) for k, v in kw.items()})
    if t == "frame":
        return cls_of(s[1])(**{k: mk(v) for k, v in s[2].items()})
    if t == "fop":
        return Lib.cx.frames.frame_transform_op(mk(s[1]), mk(s[2]))
    if t == "space":
        return Lib.cx.Space(**{k: mk(v) for k, v in s[1].items()})
    if t == "aprep":
        return cls_of(s[1])(**{k: mk(v) for k, v in s[2].items()})
    if t == "apgal":
        kw = {k: mk(v) for k, v in s[1].items()}
        return Lib.apyc.Galactocentric(**kw)
    if t == "apicrs":
        return Lib.apyc.ICRS()
    if t == "rot":
        from jax.scipy.spatial.transform import Rotation
        return Rotation.from_euler(s[1], jnp.asarray(s[2], dtype=float), degrees=True)
    if t == "stored":
        return STORE[s[1]]
    if t == "docenv":
        return docenv(s[1], s[2])
    if t == "pkl":
        import base64
        return pickle.loads(base64.b64decode(s[1]))
    raise KeyError(t)


class _Num(ast.NodeTransformer):
    """Other numbers in the quantities an example builds."""

    def __init__(self, f):
        self.f, self.on = f, 0

    def visit_Call(self, n):
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        hit = nm in ("Quantity", "from_", "Distance", "Parallax", "Angle", "DistanceModulus")
        n.func = self.visit(n.func)
        if hit and n.args:
            self.on += 1
            n.args[0] = self.visit(n.args[0])
            self.on -= 1
            n.args[1:] = [self.visit(a) for a in n.args[1:]]
        else:
            n.args = [self.visit(a) for a in n.args]
        n.keywords = [self.visit(k) for k in n.keywords]
        return n

    def visit_Constant(self, n):
        if self.on and isinstance(n.value, float):
            return ast.Constant(n.value * self.f)
        if self.on and type(n.value) is int and self.f not in (1, 1.0003):
            return ast.Constant(n.value + (1 if n.value > 0 else 0))
        return n


def docsrc(src, f, mode):
    t = ast.parse(src, mode=mode)
    if f != 1:
        t = ast.fix_missing_locations(_Num(f).visit(t))
    return compile(t, "<call>", mode)


def docenv(stmts, f):
    """The variables an example call needs."""
    env = {"convert": Lib.plum.convert, "__name__": "__main__"}
    for st in stmts:
        exec(docsrc(st, f, "exec"), env)  # noqa: S102
    env.pop("__builtins__", None)
    return env


def _doc(env, x, f):
    import builtins
    return eval(docsrc(x, f, "eval"), {"__builtins__": builtins, **env})  # noqa: S307


def mkidx(i):
    if isinstance(i, list):
        return tuple(mkidx(v) for v in i)
    if isinstance(i, str):
        if i == "...":
            return Ellipsis
        if i == "None":
            return None
        a = [int(v) if v else None for v in i.split(":")]
        return slice(*a)
    return i


# ---------------------------------------------------------------- call table
def _pk(proto):
    def f(x):
        return pickle.loads(pickle.dumps(x, protocol=proto))
    return f


def _tree(x):
    leaves, td = Lib.jax.tree.flatten(x)
    return Lib.jax.tree.unflatten(td, leaves)


def _fields_rebuild(x):
    import dataclasses
    return dataclasses.replace(x)


def _asdict_rebuild(x):
    return type(x)(**dict(x.asdict()))


def _attrs(x, names):
    return tuple(getattr(x, n) for n in names)


def _setitem(x, i, v):
    x[i] = v


def _setattr(x, n, v):
    setattr(x, n, v)
    return getattr(x, n)


def _invcall(op, *a):
    return op.inverse(*a)


def _roundtrip_frame(f1, f2, *a):
    fto = Lib.cx.frames.frame_transform_op
    r = fto(f1, f2)(*a)
    r = r if isinstance(r, tuple) else (r,)
    return fto(f2, f1)(*r)


def _dcf(n, *a):
    r = getattr(Lib.dc, n)(*a)
    return tuple(f.name for f in r) if n == "fields" else r


FN = {
    "rep": lambda x, c, *a, **k: x.represent_as(c, *a, **k),
    "repf": lambda x, c, *a, **k: Lib.cx.represent_as(x, c, *a, **k),
    "init": lambda c, *a, **k: c(*a, **k),
    "initmap": lambda c, m: c(**m),
    "from": lambda c, *a, **k: c.from_(*a, **k),
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
    "neg": operator.neg, "pos": operator.pos, "abs": operator.abs, "eq": operator.eq,
    "or": operator.or_, "matmul": operator.matmul, "getitem": operator.getitem, "len": len,
    "pow": operator.pow, "mod": operator.mod,
    "setitem": _setitem, "setattr": _setattr,
    "attr": lambda x, n: getattr(x, n),
    "attrs": lambda x, ns: _attrs(x, ns),
    "meth": lambda x, n, *a, **k: getattr(x, n)(*a, **k),
    "norm": lambda x, *a: x.norm(*a),
    "uconv": lambda x, *a: x.uconvert(*a),
    "uconvf": lambda x, *a: Lib.u.uconvert(*a, x),
    "str": str, "repr": repr,
    "latex": lambda x: x._repr_latex_(),
    "mime": lambda x: x._repr_mimebundle_(),
    "conv": lambda x, c: Lib.plum.convert(x, c),
    "normalize": lambda x: Lib.cx.vecs.normalize_vector(x),
    "call": lambda op, *a, **k: op(*a, **k),
    "invcall": _invcall,
    "inverse": lambda op: op.inverse,
    "simplify": lambda op: op.simplify(),
    "simplify2": lambda op, **k: op.simplify(),
    "pipe": lambda *ops: Lib.cx.ops.Pipe(tuple(ops)),
    "pipel": lambda ops: Lib.cx.ops.Pipe(ops),
    "fop": lambda a, b: Lib.cx.frames.frame_transform_op(a, b),
    "xop": lambda a, b: a.transform_op(b),
    "fcall": lambda a, b, *x: Lib.cx.frames.frame_transform_op(a, b)(*x),
    "fround": _roundtrip_frame,
    "euler": lambda s, a: Lib.cx.ops.GalileanRotation.from_euler(s, a),
    "copy": copy.copy, "deepcopy": copy.deepcopy,
    "pickle2": _pk(2), "pickle5": _pk(5), "tree": _tree, "fieldsrb": _fields_rebuild, "asdictrb": _asdict_rebuild,
    "asdict": lambda x: x.asdict(),
    "hash": lambda x: (hash(x) == hash(x),),
    "items": lambda x: tuple(x.items()),
    "func": lambda n, *a: getattr(Lib.jnpq(), n)(*a),
    "doc": _doc,
    "dcf": _dcf, "dcrep": lambda _x, /, **k: Lib.dc.replace(_x, **k), "tuple": tuple,
    "nsname": lambda x: x.__array_namespace__().__name__,
    "todev": lambda x: x.to_device(Lib.jax.devices()[0]),
    "aval": lambda x: str(x.aval()),
}


def _jnpq():
    import quaxed.numpy as qnp
    return qnp


Lib.jnpq = staticmethod(_jnpq)


def build(op):
    return through(op, tuple(mk(s) for s in op.get("a", ())), {k: mk(s) for k, s in op.get("kw", {}).items()})


# ------------------------------------------------- copies and stored forms
FORMS = ["copy", "deepcopy", "p0", "p1", "p2", "p3", "p4", "p5", "tree", "treemap", "jitid", "fieldsrb", "asdict"]


def ours(x):
    return not isinstance(x, type) and type(x).__module__.split(".")[0] in ("coordinax", "unxt")


def thru(form, x):
    """An equal object, made by copying, storing or rebuilding ``x``."""
    import dataclasses
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(thru(form, v) for v in x)
    if isinstance(x, dict):
        return {k: thru(form, v) for k, v in x.items()}
    if not ours(x):
        return x
    if form in ("tree", "treemap", "jitid") and isinstance(x, Lib.cx.Space):
        # JAX orders the keys of mappings
        y = FN["tree"](x) if form == "tree" else Lib.jax.tree.map(lambda v: v, x) if form == "treemap" else Lib.eqx.filter_jit(lambda v: v)(x)
        return type(x)(**{k: y[k] for k in x}) if set(y) == set(x) else y
    if form[0] == "p":
        return _pk(int(form[1:]))(x)
    if form == "treemap":
        return Lib.jax.tree.map(lambda v: v, x)
    if form == "jitid":
        return Lib.eqx.filter_jit(lambda v: v)(x)
    if form == "fieldsrb":
        # a phase-space point keeps its parts where the standard library does not see them
        return dataclasses.replace(x) if dataclasses.is_dataclass(x) and not isinstance(x, Lib.cx.Space) else x
    if form == "asdict":
        return _asdict_rebuild(x) if isinstance(x, Lib.cx.vecs.AbstractVector) and not isinstance(x, Lib.cx.Space) else x
    return FN[form](x)


def through(op, args, kw):
    """Operands replaced by copies (``via``) or by what another process stored (``pk``)."""
    import base64
    if "pk" in op:
        args = tuple(pickle.loads(base64.b64decode(op["pk"][str(i)])) if str(i) in op["pk"] else x for i, x in enumerate(args))
        kw = {k: pickle.loads(base64.b64decode(op["pk"][k])) if k in op["pk"] else x for k, x in kw.items()}
    if "via" in op:
        args = tuple(_vias(op["via"].get(str(i), ()), x) for i, x in enumerate(args))
        kw = {k: _vias(op["via"].get(k, ()), x) for k, x in kw.items()}
    return args, kw


def _vias(forms, x):
    for f in forms:
        x = thru(f, x)
    return x


class _Abandon(Exception):
    """Raised by the simulated caller to abandon a trace."""


def caller(op, jitcache):
    """The callable a client uses for this op, honouring its mode."""
    fn = FN[op["k"]]
    if "ld" in op:   # the result itself, read back from what another process stored
        import base64
        return (lambda *a, **k: STORE[op["ld"][1:]]) if op["ld"][0] == "@" else (lambda *a, **k: pickle.loads(base64.b64decode(op["ld"])))
    if "post" in op:
        run = caller({k: v for k, v in op.items() if k != "post"}, jitcache)
        return lambda *a, **k: _vias(op["post"], run(*a, **k))
    mode = op.get("m", "eager")
    if mode == "eager":
        return fn
    jax, eqx, jnp = Lib.jax, Lib.eqx, Lib.jnp
    if mode == "jit":  # one compiled function per kind, kept for the session
        f = jitcache.get(op["k"])
        if f is None:
            f = jitcache[op["k"]] = eqx.filter_jit(lambda *a, **k: fn(*a, **k))
        return f
    if mode == "jit1":  # compiled anew
        return eqx.filter_jit(lambda *a, **k: fn(*a, **k))
    if mode in ("jitc", "fwdc", "vmapc"):  # the last operand is traced, the function closes over the other ones
        def run(*a, **k):
            ar = eqx.is_inexact_array
            js = [i for i, x in enumerate(a) if not isinstance(x, type) and any(ar(l) for l in jax.tree.leaves(x))]
            if not js:
                return fn(*a, **k)
            j = js[-1]
            leaves, td = jax.tree.flatten(a[j])
            on = [i for i, l in enumerate(leaves) if ar(l)]
            if len(js) == 1:
                on = on[-1:]

            def inner(*arrs):
                ls = list(leaves)
                for i, v in zip(on, arrs):
                    ls[i] = v
                return fn(*a[:j], jax.tree.unflatten(td, ls), *a[j + 1:], **k)
            arrs = [leaves[i] for i in on]
            if mode == "jitc":
                return eqx.filter_jit(inner)(*arrs)
            if mode == "vmapc":
                return jax.vmap(inner)(*[jnp.stack([x, x]) for x in arrs])

            def scalar(s):
                fl = [x for x in jax.tree.leaves(inner(arrs[0] * s, *arrs[1:])) if ar(x)]
                return sum([jnp.sum(jnp.real(x)) for x in fl], start=jnp.asarray(0.0))
            return jax.jacfwd(scalar)(jnp.asarray(1.0))
        return run
    if mode == "vmap":
        def run(*a, **k):
            leaves, td = jax.tree.flatten(a, is_leaf=lambda x: isinstance(x, type))
            isarr = [eqx.is_array(x) and getattr(x, "ndim", 0) > 0 for x in leaves]
            arrs = [x for x, b in zip(leaves, isarr) if b]

            def inner(*arrs):
                it = iter(arrs)
                aa = jax.tree.unflatten(td, [next(it) if b else x for x, b in zip(leaves, isarr)])
                out = fn(*aa, **k)
                return jax.tree.map(lambda v: v, out)
            return jax.vmap(inner)(*arrs)
        return run
    if mode in ("fwd", "rev", "jitfwd", "jitrev", "abandon", "abandonvmap"):
        def run(*a, **k):
            leaves, td = jax.tree.flatten(a, is_leaf=lambda x: isinstance(x, type))

            def scalar(s):
                first = [True]

                def sc(x):
                    if eqx.is_inexact_array(x) and first[0]:
                        first[0] = False
                        return x * s
                    return x
                aa = jax.tree.unflatten(td, [sc(x) for x in leaves])
                out = fn(*aa, **k)
                if mode.startswith("abandon"):
                    raise _Abandon
                fl = [x for x in jax.tree.leaves(out) if eqx.is_inexact_array(x)]
                return sum([jnp.sum(jnp.real(x)) for x in fl], start=jnp.asarray(0.0))
            one = jnp.asarray(1.0)
            if mode == "fwd":
                return jax.jacfwd(scalar)(one)
            if mode == "rev":
                return jax.grad(scalar)(one)
            if mode == "jitfwd":
                return jax.jit(jax.jacfwd(scalar))(one)
            if mode == "jitrev":
                return jax.jit(jax.grad(scalar))(one)
            if mode == "abandon":
                return jax.jit(scalar)(one)
            return jax.vmap(scalar)(jnp.ones((2,)))
        return run
    raise KeyError(mode)
