"""Specification table of all constraints: arguments, parameters, documented relation, reference error.

`err(args, params)` is the reference error (numpy, independent of the package); the relation holds iff it is zero.
`mode`:
  exact    residual equals err, component by component (measurement - prescribed value / documented product)
  abs      residual equals err up to a global sign (documented "difference"/"cross product" of two operands)
  multiset residual equals err up to order and signs
  zero     only "zero iff" is documented
`deg`: physical degree of the residual in length (for tolerances).
"""
import itertools

import numpy as np

from mpllayout import constraints as cr

from . import geo, ref
from .common import call_style, pick, sgn


class Spec:
    def __init__(self, name, opts, kinds, make, err, params=None, pkinds=(), mode="exact", deg=1, linear=False,
                 boxes=False, satisfy=None, relation=False):
        self.name, self.opts, self.kinds = name, opts, tuple(kinds)
        self.make, self.err = make, err
        self._params = params
        self.pkinds = tuple(pkinds)          # one of 'v' scalar, 'V' vector(2), 'd' direction, 'b' bool, 'a' array
        self.mode, self.deg, self.linear, self.boxes = mode, deg, linear, boxes
        self._satisfy = satisfy
        self.relation = relation             # no free value: geometry itself must satisfy it

    @property
    def label(self):
        o = ",".join(f"{k}={v}" for k, v in self.opts.items())
        return f"{self.name}({o})"

    def params(self, args, rng):
        """Parameters with which `args` satisfy the constraint (value constraints)."""
        return tuple(self._params(args, rng)) if self._params else ()

    def random_args(self, rng, smp):
        if self.kinds and self.kinds[0] == "A":
            return [geo.rand_axes_parts(rng, smp, self.opts.get("_need", ()))]
        return [geo.rand_geom(rng, k, smp, self.boxes) for k in self.kinds]

    def satisfy(self, rng, smp):
        if self._satisfy:
            return self._satisfy(rng, smp)
        args = self.random_args(rng, smp)
        return args, self.params(args, rng)

    def tol(self, args, params=()):
        S = geo.gscale(args)
        for p, k in zip(params, self.pkinds):
            if k != "b":
                S = max(S, float(np.max(np.abs(np.asarray(p, dtype=float)))) if np.size(p) else 0.0)
        e = geo.min_edge(args)
        ratio = S / e if np.isfinite(e) and e > 0 else 1.0
        if self.deg == 0:
            return 1e-10 * max(1.0, ratio ** 2)
        if self.deg == 2:
            return 1e-10 * S * S
        return 1e-10 * S * max(1.0, ratio)


def direction(rng):
    t = rng.uniform(-np.pi, np.pi)
    d = np.array([np.cos(t), np.sin(t)])
    r = rng.random()
    if r < 0.2:
        d = pick(rng, [np.array([1.0, 0.0]), np.array([0.0, 1.0]), np.array([-1.0, 0.0]), np.array([0.0, -1.0])])
    elif r < 0.35:
        d = d * rng.uniform(0.3, 3)          # not normalised
    return d


def _m(f):
    """value constraint with a single trailing value: params = (measurement,)"""
    return lambda args, rng: (float(f(*args)),)


def _bool(rng):
    return bool(rng.random() < 0.5)


def _rot(v, t):
    c, s = np.cos(t), np.sin(t)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


def spec(name, rng, **fixed):
    """A Spec for constraint `name` with random options (or the fixed ones)."""
    return _BUILD[name](rng, **fixed)


_BUILD = {}


def _reg(name):
    def deco(f):
        _BUILD[name] = f
        return f
    return deco


# ---- points

@_reg("Fix")
def _(rng):
    return Spec("Fix", {}, "P", cr.Fix, lambda a, p: a[0] - np.asarray(p[0], dtype=float),
                lambda a, r: (np.array(a[0]),), "V", linear=True)


@_reg("DirectedDistance")
def _(rng):
    def prm(a, r):
        d = direction(r)
        return (d, float(ref.dot(a[1] - a[0], d)))
    return Spec("DirectedDistance", {}, "PP", cr.DirectedDistance,
                lambda a, p: [ref.dot(a[1] - a[0], p[0]) - p[1]], prm, "dv", linear=True)


@_reg("XDistance")
def _(rng):
    return Spec("XDistance", {}, "PP", cr.XDistance, lambda a, p: [a[1][0] - a[0][0] - p[0]],
                _m(lambda a, b: b[0] - a[0]), "v", linear=True)


@_reg("YDistance")
def _(rng):
    return Spec("YDistance", {}, "PP", cr.YDistance, lambda a, p: [a[1][1] - a[0][1] - p[0]],
                _m(lambda a, b: b[1] - a[1]), "v", linear=True)


@_reg("Coincident")
def _(rng):
    def sat(r, smp):
        p = smp((2,))
        return [p.copy(), p.copy()], ()
    return Spec("Coincident", {}, "PP", cr.Coincident, lambda a, p: a[1] - a[0], mode="abs", linear=True,
                satisfy=sat, relation=True)


# ---- lines

@_reg("Length")
def _(rng):
    return Spec("Length", {}, "L", cr.Length, lambda a, p: [ref.norm(ref.vec(a[0])) - p[0]],
                _m(lambda l: ref.norm(ref.vec(l))), "v")


@_reg("DirectedLength")
def _(rng):
    def prm(a, r):
        d = direction(r)
        return (d, float(ref.dot(ref.vec(a[0]), d)))
    return Spec("DirectedLength", {}, "L", cr.DirectedLength,
                lambda a, p: [ref.dot(ref.vec(a[0]), p[0]) - p[1]], prm, "dv", linear=True)


@_reg("XLength")
def _(rng):
    return Spec("XLength", {}, "L", cr.XLength, lambda a, p: [ref.vec(a[0])[0] - p[0]],
                _m(lambda l: ref.vec(l)[0]), "v", linear=True)


@_reg("YLength")
def _(rng):
    return Spec("YLength", {}, "L", cr.YLength, lambda a, p: [ref.vec(a[0])[1] - p[0]],
                _m(lambda l: ref.vec(l)[1]), "v", linear=True)


def _axis_line(rng, smp, comp):
    while True:
        l = geo.rand_line(rng, smp)
        l[1][comp] = l[0][comp]
        if ref.norm(ref.vec(l)) > 0.02 * smp.base:
            return l


@_reg("Vertical")
def _(rng):
    return Spec("Vertical", {}, "L", cr.Vertical, lambda a, p: [ref.vec(a[0])[0]], linear=True, relation=True,
                satisfy=lambda r, s: ([_axis_line(r, s, 0)], ()))


@_reg("Horizontal")
def _(rng):
    return Spec("Horizontal", {}, "L", cr.Horizontal, lambda a, p: [ref.vec(a[0])[1]], linear=True, relation=True,
                satisfy=lambda r, s: ([_axis_line(r, s, 1)], ()))


@_reg("RelativeLength")
def _(rng):
    return Spec("RelativeLength", {}, "LL", cr.RelativeLength,
                lambda a, p: [ref.norm(ref.vec(a[0])) - p[0] * ref.norm(ref.vec(a[1]))],
                _m(lambda a, b: ref.norm(ref.vec(a)) / ref.norm(ref.vec(b))), "v", mode="zero")


@_reg("MidpointXDistance")
def _(rng):
    return Spec("MidpointXDistance", {}, "LL", cr.MidpointXDistance,
                lambda a, p: [a[1][:, 0].mean() - a[0][:, 0].mean() - p[0]],
                _m(lambda a, b: b[:, 0].mean() - a[:, 0].mean()), "v", linear=True)


@_reg("MidpointYDistance")
def _(rng):
    return Spec("MidpointYDistance", {}, "LL", cr.MidpointYDistance,
                lambda a, p: [a[1][:, 1].mean() - a[0][:, 1].mean() - p[0]],
                _m(lambda a, b: b[:, 1].mean() - a[:, 1].mean()), "v", linear=True)


def _rotated_pair(rng, smp, t):
    l0 = geo.rand_line(rng, smp)
    o = smp((2,))
    return [l0, np.array([o, o + sgn(rng) * rng.uniform(0.2, 3) * _rot(ref.vec(l0), t)])]


@_reg("Orthogonal")
def _(rng):
    return Spec("Orthogonal", {}, "LL", cr.Orthogonal, lambda a, p: [ref.dot(ref.vec(a[0]), ref.vec(a[1]))],
                deg=2, relation=True, satisfy=lambda r, s: (_rotated_pair(r, s, np.pi / 2), ()))


@_reg("Parallel")
def _(rng):
    return Spec("Parallel", {}, "LL", cr.Parallel, lambda a, p: [ref.cross(ref.vec(a[0]), ref.vec(a[1]))],
                deg=2, relation=True, satisfy=lambda r, s: (_rotated_pair(r, s, 0.0), ()))


@_reg("Angle")
def _(rng):
    def sat(r, s):
        while True:
            a = [geo.rand_line(r, s), geo.rand_line(r, s)]
            t = ref.signed_angle(*a)
            if abs(t) < np.pi - 0.02:
                return a, (t,)
    return Spec("Angle", {}, "LL", cr.Angle, lambda a, p: [ref.signed_angle(*a) - p[0]],
                _m(ref.signed_angle), "v", deg=0, satisfy=sat)


@_reg("Collinear")
def _(rng):
    def sat(r, s):
        l0 = geo.rand_line(r, s)
        v = ref.vec(l0)
        while True:
            t = r.uniform(-4, 4, 2)
            if abs(t[0] - t[1]) > 0.1:
                break
        return [l0, np.array([l0[0] + t[0] * v, l0[0] + t[1] * v])], ()
    return Spec("Collinear", {}, "LL", cr.Collinear, lambda a, p: ref.collinear_err(*a), mode="zero", deg=2,
                relation=True, satisfy=sat)


@_reg("CoincidentLines")
def _(rng):
    def sat(r, s):
        l0 = geo.rand_line(r, s)
        rev = _bool(r)
        return [l0, l0[::-1].copy() if rev else l0.copy()], (rev,)
    return Spec("CoincidentLines", {}, "LL", cr.CoincidentLines,
                lambda a, p: ref.coincident_lines_err(a[0], a[1], p[0]), pkinds="b", mode="multiset", linear=True,
                satisfy=sat, relation=True)


# ---- point and line

def _point_line(name, make, f, deg):
    def build(rng):
        def prm(a, r):
            rev = _bool(r)
            return (rev, float(f(a[0], a[1], rev)))
        return Spec(name, {}, "PL", make, lambda a, p: [f(a[0], a[1], p[0]) - p[1]], prm, "bv", deg=deg)
    _BUILD[name] = build


_point_line("PointOnLineDistance", cr.PointOnLineDistance, ref.point_on_line, 1)
_point_line("PointToLineDistance", cr.PointToLineDistance, ref.point_to_line, 1)
_point_line("RelativePointOnLineDistance", cr.RelativePointOnLineDistance, ref.relative_point_on_line, 0)


# ---- quadrilaterals

@_reg("Box")
def _(rng):
    def err(a, p):
        q = a[0]
        return [q[1][1] - q[0][1], q[2][1] - q[3][1], q[3][0] - q[0][0], q[2][0] - q[1][0]]
    return Spec("Box", {}, "Q", cr.Box, err, mode="multiset", linear=True, relation=True,
                satisfy=lambda r, s: ([geo.rand_box(r, s)], ()))


@_reg("Width")
def _(rng):
    return Spec("Width", {}, "Q", cr.Width, lambda a, p: [ref.width(a[0]) - p[0]], _m(ref.width), "v", linear=True,
                boxes=True)


@_reg("Height")
def _(rng):
    return Spec("Height", {}, "Q", cr.Height, lambda a, p: [ref.height(a[0]) - p[0]], _m(ref.height), "v",
                linear=True, boxes=True)


@_reg("AspectRatio")
def _(rng):
    return Spec("AspectRatio", {}, "Q", cr.AspectRatio, lambda a, p: [ref.width(a[0]) / ref.height(a[0]) - p[0]],
                _m(lambda q: ref.width(q) / ref.height(q)), "v", deg=0, boxes=True)


@_reg("AxisThicknessNone")
def _(rng, axis=None):
    axis = axis or pick(rng, "xy")
    make = (cr.XAxisThickness if axis == "x" else cr.YAxisThickness) if rng.random() < 0.5 else (
        call_style(rng, cr.AxisThickness, {"axis": "x"}, axis=axis))
    f = ref.height if axis == "x" else ref.width
    # with no matplotlib axis the prescribed thickness is zero
    def sat(r, s):
        q = geo.rand_box(r, s)
        if axis == "x":
            q[2][1], q[3][1] = q[1][1], q[0][1]
        else:
            q[1][0], q[2][0] = q[0][0], q[3][0]
        return [q], (None,)
    return Spec("AxisThicknessNone", {"axis": axis}, "Q", make, lambda a, p: [f(a[0])], linear=True, boxes=True,
                relation=True, satisfy=sat, params=lambda a, r: (None,), pkinds="b")


def _margin(name, make, f):
    def build(rng, side=None):
        side = side or pick(rng, ref.SIDES)
        return Spec(name, {"side": side}, "QQ", call_style(rng, make, {}, side=side),
                    lambda a, p: [f(a[0], a[1], side) - p[0]], _m(lambda a, b: f(a, b, side)), "v", linear=True,
                    boxes=True)
    _BUILD[name] = build


_margin("OuterMargin", cr.OuterMargin, ref.outer_margin)
_margin("InnerMargin", cr.InnerMargin, ref.inner_margin)


@_reg("OuterMarginArray")
def _(rng, side=None, n=None):
    side = side or pick(rng, ref.SIDES)
    n = n or pick(rng, (2, 2, 3, 4, 5, 12))
    def marg(a):
        return [ref.outer_margin(a[i], a[i + 1], side) for i in range(n - 1)]
    return Spec("OuterMarginArray", {"side": side, "n": n}, "Q" * n,
                call_style(rng, cr.OuterMarginArray, {}, shape=pick(rng, ((n,), n)), side=side),
                lambda a, p: [m - v for m, v in zip(marg(a), p)], lambda a, r: tuple(float(m) for m in marg(a)),
                "v" * (n - 1), linear=True, boxes=True)


@_reg("Align")
def _(rng, row=None):
    row = _bool(rng) if row is None else row
    make = pick(rng, (call_style(rng, cr.Align, {"row": True}, row=row), (cr.AlignRow if row else cr.AlignColumn)))
    sides = ("bottom", "top") if row else ("left", "right")
    def err(a, p):
        out = []
        for s in sides:
            out += ref.collinear_err(ref.edge_by_name(a[0], s), ref.edge_by_name(a[1], s))
        return out
    def sat(r, s):
        a, b = geo.rand_box(r, s), geo.rand_box(r, s)
        if row:
            b[:, 1] = a[:, 1]
        else:
            b[:, 0] = a[:, 0]
        return [a, b], ()
    return Spec("Align", {"row": row}, "QQ", make, err, mode="zero", deg=2, relation=True, satisfy=sat)


@_reg("CoincidentOutwardFaces")
def _(rng, side=None):
    side = side or pick(rng, ref.SIDES)
    def sat(r, s):
        a, b = geo.rand_quad(r, s), geo.rand_quad(r, s)
        for i, j in {"bottom": ((0, 3), (1, 2)), "top": ((3, 0), (2, 1)), "left": ((0, 1), (3, 2)),
                     "right": ((1, 0), (2, 3))}[side]:
            b[j] = a[i]
        return [a, b], ()
    return Spec("CoincidentOutwardFaces", {"side": side}, "QQ", call_style(rng, cr.CoincidentOutwardFaces, {}, side=side),
                lambda a, p: ref.outward_faces_err(a[0], a[1], side), mode="multiset", linear=True, satisfy=sat,
                relation=True)


# ---- grids

SHAPES = ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 5), (5, 1), (3, 3), (4, 2), (2, 5), (3, 4), (1, 12),
          (12, 1), (11, 2), (2, 11))


def rand_grid(rng, shape, scale=1.0):
    r, c = shape
    w = scale * rng.uniform(0.3, 3, c)
    h = scale * rng.uniform(0.3, 3, r)
    cm = scale * rng.uniform(-0.2, 1, c - 1)
    rm = scale * rng.uniform(-0.2, 1, r - 1)
    if rng.random() < 0.3:
        w[:] = w[0]
        h[:] = h[0]
    o = scale * rng.uniform(-3, 3, 2)
    quads = ref.make_grid(o[0], o[1], w, h, cm, rm)
    params = (w[1:] / w[0], h[1:] / h[0], cm, rm)
    return quads, params


@_reg("RectilinearGrid")
def _(rng, shape=None):
    shape = shape or pick(rng, SHAPES)
    return Spec("RectilinearGrid", {"shape": shape}, "Q" * (shape[0] * shape[1]),
                call_style(rng, cr.RectilinearGrid, {}, shape=shape), lambda a, p: ref.rectilinear_grid_err(a, shape),
                mode="zero", deg=2, boxes=True, relation=True,
                satisfy=lambda r, s: (rand_grid(r, shape, s.base)[0], ()))


@_reg("Grid")
def _(rng, shape=None):
    shape = shape or pick(rng, SHAPES)
    return Spec("Grid", {"shape": shape}, "Q" * (shape[0] * shape[1]), call_style(rng, cr.Grid, {}, shape=shape),
                lambda a, p: ref.grid_err(a, shape, *p), pkinds="aaaa", mode="zero", deg=1, boxes=True,
                relation=True, satisfy=lambda r, s: rand_grid(r, shape, s.base))


# ---- axes

@_reg("PositionAxis")
def _(rng, axis=None, side=None, twin=None):
    axis = axis or pick(rng, "xy")
    side = side or pick(rng, ("bottom", "top") if axis == "x" else ("left", "right"))
    twin = _bool(rng) if twin is None else twin
    key = f"{axis.upper()}Axis"
    need = (key, f"Twin{key}") if twin else (key,)
    C = cr.PositionXAxis if axis == "x" else cr.PositionYAxis
    make = pick(rng, (call_style(rng, cr.PositionAxis, {"axis": "x", "side": "bottom", "twin": False}, axis=axis, side=side, twin=twin),
                      call_style(rng, C, {"side": "bottom" if axis == "x" else "left", "twin": False}, side=side, twin=twin)))

    def err(a, p):
        out = ref.outward_faces_err(a[0]["Frame"], a[0][key], side)
        if twin:
            out += ref.outward_faces_err(a[0]["Frame"], a[0]["Twin" + key], ref.OPPOSITE[side])
        return out

    def sat(r, s):
        parts = geo.rand_axes_parts(r, s, need)
        f = parts["Frame"]
        for k, sd in ((key, side), ("Twin" + key, ref.OPPOSITE[side])):
            if k in parts and (k == key or twin):
                t = s.base * r.uniform(0.05, 1)
                x0, y0, x1, y1 = f[0][0], f[0][1], f[2][0], f[2][1]
                parts[k] = {"bottom": ref.box(x0, y0 - t, x1, y0), "top": ref.box(x0, y1, x1, y1 + t),
                            "left": ref.box(x0 - t, y0, x0, y1), "right": ref.box(x1, y0, x1 + t, y1)}[sd]
        return [parts], ()

    return Spec("PositionAxis", {"axis": axis, "side": side, "twin": twin, "_need": need}, "A", make, err,
                mode="multiset", linear=True, relation=True, satisfy=sat)


@_reg("PositionAxisLabel")
def _(rng, axis=None, twin=None):
    axis = axis or pick(rng, "xy")
    twin = _bool(rng) if twin is None else twin
    key = ("Twin" if twin else "") + f"{axis.upper()}AxisLabel"
    C = cr.PositionXAxisLabel if axis == "x" else cr.PositionYAxisLabel
    make = pick(rng, (call_style(rng, cr.PositionAxisLabel, {"axis": "x", "twin": False}, axis=axis, twin=twin),
                      call_style(rng, C, {"twin": False}, twin=twin)))

    def meas(parts):
        f, l = parts["Frame"], parts[key]
        if axis == "x":
            return (l[0] - ref.left(f)) / ref.width(f)
        return (l[1] - ref.bottom(f)) / ref.height(f)

    return Spec("PositionAxisLabel", {"axis": axis, "twin": twin, "_need": (key,)}, "A", make,
                lambda a, p: [meas(a[0]) - p[0]], _m(meas), "v", deg=0, boxes=True)


POINT_LINE = ("Fix", "DirectedDistance", "XDistance", "YDistance", "Coincident", "Length", "DirectedLength",
              "XLength", "YLength", "Vertical", "Horizontal", "RelativeLength", "MidpointXDistance",
              "MidpointYDistance", "Orthogonal", "Parallel", "Angle", "Collinear", "CoincidentLines",
              "PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance")
QUAD = ("Box", "Width", "Height", "AspectRatio", "AxisThicknessNone", "OuterMargin", "InnerMargin",
        "CoincidentOutwardFaces")
GRIDS = ("OuterMarginArray", "Align", "RectilinearGrid", "Grid")
AXES = ("PositionAxis", "PositionAxisLabel")
ALL = POINT_LINE + QUAD + GRIDS + AXES


def mk_args(sp, args):
    return tuple(geo.mk(k, a) for k, a in zip(sp.kinds, args))


# ---- single perturbations of a satisfied configuration

def perturbations(sp, args, params, rng, smp, limit=40):
    """Yield (description, args, params): one thing changed at a time."""
    out = []
    delta = lambda: sgn(rng) * smp.base * rng.uniform(0.05, 0.7)

    def slots(a):
        return list(a.keys()) if isinstance(a, dict) else [None]

    def get(a, s):
        return a if s is None else a[s]

    def put(a, s, v):
        if s is None:
            return v
        b = dict(a)
        b[s] = v
        return b

    for i, a in enumerate(args):
        for s in slots(a):
            g = np.asarray(get(a, s))
            def emit(desc, v, i=i, a=a, s=s):
                new = list(args)
                new[i] = put(a, s, v)
                out.append((f"arg{i}{'/' + s if s else ''}: {desc}", new, params))
            if not (sp.boxes and g.shape == (4, 2)):
                for j in range(g.size):                      # a single coordinate
                    v = g.copy().ravel()
                    v[j] += delta()
                    emit(f"coordinate {j}", v.reshape(g.shape))
            if g.ndim == 2:
                for c in range(2):                           # whole primitive along one axis
                    v = g.copy()
                    v[:, c] += delta()
                    emit(f"shift {'xy'[c]}", v)
            if g.shape == (2, 2):
                v = g.copy()
                v[1] = v[0] + _rot(ref.vec(g), pick(rng, (0.05, 0.4, -1.1, np.pi)))
                emit("rotate about start", v)
                v = g.copy()
                v[1] = v[0] + rng.uniform(1.2, 2) * ref.vec(g)
                emit("stretch", v)
                emit("flip", g[::-1].copy())
            if g.shape == (4, 2) and sp.boxes:
                for side in range(4):                        # move one side of a box
                    v = g.copy()
                    d = abs(delta())
                    if side == 0:
                        v[[0, 1], 1] -= d
                    elif side == 1:
                        v[[1, 2], 0] += d
                    elif side == 2:
                        v[[2, 3], 1] += d
                    else:
                        v[[3, 0], 0] -= d
                    emit(f"move side {side}", v)
    for j, (p, k) in enumerate(zip(params, sp.pkinds)):
        def emitp(desc, v, j=j):
            new = list(params)
            new[j] = v
            out.append((f"param{j}: {desc}", args, tuple(new)))
        if p is None:
            continue
        size = rng.uniform(0.05, 0.7) * sgn(rng) * (1.0 if sp.deg == 0 else smp.base)
        if k == "v":
            emitp("value", p + size)
            emitp("negated", -p)
        elif k in "Vda":
            v0 = np.array(p, dtype=float)
            for q in range(v0.size):
                v = v0.copy()
                v[q] += size if k != "d" else rng.uniform(0.1, 1)
                emitp(f"component {q}", v)
        elif k == "b":
            emitp("reversed", not p)
    if len(out) > limit:
        idx = rng.choice(len(out), limit, replace=False)
        out = [out[int(q)] for q in sorted(idx)]
    return out
