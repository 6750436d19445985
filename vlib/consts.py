"""Specification table of the measuring constructions."""
import jax.numpy as jnp
import numpy as np

from mpllayout import constructions as con
from mpllayout import primitives as pr

from . import geo, ref, specs
from .common import call_style, pick, sgn

_B = {}
DEFAULTS = {"dim": "width", "outer": True, "side": "left"}       # as declared by the constructions' signatures


class CSpec:
    def __init__(self, name, opts, kinds, make, f, params=None, deg=1, boxes=False):
        self.name, self.opts, self.kinds, self.make, self.f = name, opts, tuple(kinds), make, f
        self._params, self.deg, self.boxes = params, deg, boxes

    @property
    def label(self):
        o = ",".join(f"{k}={v}" for k, v in self.opts.items())
        return f"{self.name}({o})"

    def random_args(self, rng, smp):
        while True:
            a = [geo.rand_geom(rng, k, smp, self.boxes) for k in self.kinds]
            # stay away from the branch cut of angles
            if self.name == "Angle" and abs(ref.signed_angle(*a)) > np.pi - 0.01:
                continue
            return a

    def params(self, rng):
        return tuple(self._params(rng)) if self._params else ()

    def value(self, args, params=()):
        return np.atleast_1d(np.asarray(self.f(*args, *params), dtype=float)).ravel()

    def tol(self, args, params=()):
        S, e = geo.gscale(args), geo.min_edge(args)
        ratio = S / e if np.isfinite(e) and e > 0 else 1.0
        t = 1e-10 * max(1.0, ratio ** 2)
        return t if self.deg == 0 else t * S


def _reg(name, kinds, f, params=None, deg=1, boxes=False, **optchoices):
    def build(rng, **fixed):
        opts = {k: fixed.get(k, pick(rng, v)) for k, v in optchoices.items()}
        C = getattr(con, name)
        return CSpec(name, opts, kinds, call_style(rng, C, DEFAULTS, **opts), (lambda *a: f(*a, **opts)), params, deg, boxes)
    _B[name] = build


def _bool(rng):
    return (bool(rng.random() < 0.5),)


def _dir(rng):
    return (specs.direction(rng),)


_reg("Coordinate", "P", lambda p: p)
_reg("DirectedDistance", "PP", lambda a, b, d: ref.dot(b - a, d), _dir)
_reg("XDistance", "PP", lambda a, b: b[0] - a[0])
_reg("YDistance", "PP", lambda a, b: b[1] - a[1])
_reg("LineVector", "L", lambda l: l[1] - l[0])
_reg("UnitLineVector", "L", lambda l: (l[1] - l[0]) / ref.norm(l[1] - l[0]), deg=0)
_reg("Length", "L", lambda l: ref.norm(l[1] - l[0]))
_reg("DirectedLength", "L", lambda l, d: ref.dot(l[1] - l[0], d), _dir)
_reg("XLength", "L", lambda l: l[1][0] - l[0][0])
_reg("YLength", "L", lambda l: l[1][1] - l[0][1])
_reg("Midpoint", "L", lambda l: (l[0] + l[1]) / 2)
_reg("MidpointDirectedDistance", "LL", lambda a, b, d: ref.dot(b.mean(axis=0) - a.mean(axis=0), d), _dir)
_reg("MidpointXDistance", "LL", lambda a, b: b[:, 0].mean() - a[:, 0].mean())
_reg("MidpointYDistance", "LL", lambda a, b: b[:, 1].mean() - a[:, 1].mean())
_reg("Angle", "LL", ref.signed_angle, deg=0)
_reg("PointOnLineDistance", "PL", ref.point_on_line, _bool)
_reg("PointToLineDistance", "PL", ref.point_to_line, _bool)
_reg("RelativePointOnLineDistance", "PL", ref.relative_point_on_line, _bool, deg=0)
_reg("RectangleDim", "Q", lambda q, dim: ref.width(q) if dim == "width" else ref.height(q), boxes=True,
     dim=("width", "height"))
_reg("Width", "Q", ref.width, boxes=True)
_reg("Height", "Q", ref.height, boxes=True)
_reg("AspectRatio", "Q", lambda q: ref.width(q) / ref.height(q), deg=0, boxes=True)
_reg("Margin", "QQ", lambda a, b, outer, side: (ref.outer_margin if outer else ref.inner_margin)(a, b, side), boxes=True,
     outer=(True, False), side=ref.SIDES)
_reg("OuterMargin", "QQ", lambda a, b, side: ref.outer_margin(a, b, side), boxes=True, side=ref.SIDES)
_reg("InnerMargin", "QQ", lambda a, b, side: ref.inner_margin(a, b, side), boxes=True, side=ref.SIDES)

ALL = tuple(_B)
COMPOUND = ("RectangleDim", "Width", "Height", "Margin", "OuterMargin", "InnerMargin")
LEAF = tuple(n for n in ALL if n not in COMPOUND)


# -- user-defined constructions, written the documented way ------------------

def _num(a):
    """A number parameter, however it was given (these are our own constructions, which must accept what built-in ones do)."""
    return jnp.reshape(jnp.asarray(a, dtype=float), ())


class UserPL(con.LeafConstruction, con.make_signature_class((pr.Point, pr.Line))):
    """Point minus start of the line."""

    @classmethod
    def init_signature(cls):
        return cls.make_signature(2)

    @classmethod
    def assem(cls, prims):
        point, line = prims
        return point.value - line["Point0"].value


class UserLLP(con.LeafConstruction, con.make_signature_class((pr.Line, pr.Line, pr.Point))):
    """A plain number from three primitives and two parameters."""

    @classmethod
    def init_signature(cls):
        return cls.make_signature(1, (float, float))

    @classmethod
    def assem(cls, prims, a, b):
        l0, l1, p = prims
        return _num(a) * l0["Point1"].value[0] + _num(b) * l1["Point0"].value[1] - p.value[0]


class UserQ3(con.LeafConstruction, con.make_signature_class((pr.Quadrilateral,))):
    """Three numbers, one parameter."""

    @classmethod
    def init_signature(cls):
        return cls.make_signature(3, (float,))

    @classmethod
    def assem(cls, prims, a):
        q, = prims
        c = [q[f"Line{k}/Point0"].value for k in range(4)]
        return jnp.stack([c[0][0] * _num(a), c[1][1], c[2][0] + c[3][1]])


class UserTree(con.CompoundConstruction, con.make_signature_class((pr.Quadrilateral, pr.Point))):
    """A value of its own and children of different sizes, nested, which take parameters in another order."""

    def __init__(self, deep=True):
        super().__init__(deep=deep)

    @classmethod
    def init_children(cls, deep=True):
        keys = ("three", "dist") + (("inner",) if deep else ())
        cons = (UserQ3(), con.DirectedDistance()) + ((UserTree(deep=False),) if deep else ())
        prim_keys = (("arg0",), ("arg0/Line2/Point0", "arg1")) + ((("arg0", "arg1"),) if deep else ())

        def child_params(params):
            a, d = params
            return ((a,), (d,)) + (((2 * _num(a), d),) if deep else ())
        return keys, cons, prim_keys, child_params

    @classmethod
    def init_signature(cls, deep=True):
        return cls.make_signature(2, (float, np.ndarray))

    @classmethod
    def assem(cls, prims, a, d):
        return _num(a) * prims[1].value


def _q3(q, a):
    return np.array([q[0][0] * a, q[1][1], q[2][0] + q[3][1]])


def _utree(q, p, a, d, deep):
    own = np.concatenate([a * p, _q3(q, a), [ref.dot(p - q[2], d)]])
    return np.concatenate([own, _utree(q, p, 2 * a, d, False)]) if deep else own


def _user(cls, kinds, f, params=None, **optchoices):
    def build(rng, **fixed):
        opts = {k: fixed.get(k, pick(rng, v)) for k, v in optchoices.items()}
        return CSpec(cls.__name__, opts, kinds, lambda: cls(**opts), (lambda *a: f(*a, **opts)), params)
    _B[cls.__name__] = build


_user(UserPL, "PL", lambda p, l: p - l[0])
_user(UserLLP, "LLP", lambda l, m, p, a, b: a * l[1][0] + b * m[0][1] - p[0], lambda rng: tuple(map(float, rng.uniform(0.5, 2, 2))))
_user(UserQ3, "Q", _q3, lambda rng: (float(rng.uniform(0.5, 2)),))
_user(UserTree, "QP", _utree, lambda rng: (float(rng.uniform(0.5, 2)), specs.direction(rng)), deep=(True, False))
USER = ("UserPL", "UserLLP", "UserQ3", "UserTree")


def spec(name, rng, **fixed):
    return _B[name](rng, **fixed)


def total_size(node):
    """Number of values a construction tree declares."""
    return int(node.signature.value_size) + sum(total_size(c) for c in node.values())
