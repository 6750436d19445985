"""C17: primitives have the documented parts, in order, with shared vertices and the given values."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mpllayout import primitives as pr
from mpllayout.layout import Layout

from vlib import snap
from vlib.common import Skip, coord_sampler, expect_raises, pick, require


def value_exact(prim, want, what, **detail):
    got = np.asarray(prim.value)
    require(got.shape == np.shape(want), f"{what}: value has another shape", got=got, want=want, **detail)
    require(np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)), f"{what}: value differs", got=got, want=want, **detail)


def rep(rng, xy):
    """One of the accepted ways to write a coordinate; returns (given, expected float64)."""
    r = int(rng.integers(8))
    xy = np.asarray(xy, dtype=float)
    if r == 0:
        return [float(v) for v in xy], xy
    if r == 1:
        return tuple(float(v) for v in xy), xy
    if r == 2:
        return jnp.asarray(xy), xy
    if r == 3:
        k = np.round(xy)
        return [int(v) for v in k], k
    if r == 4:
        k = np.round(np.clip(xy, -1e9, 1e9)).astype(np.int64)
        return k, k.astype(float)
    if r == 5:
        k = xy.astype(np.float32)
        return k, k.astype(float)
    if r == 6:
        big = np.full((3, 4), np.nan)
        big[1, ::2] = xy
        return big[1, ::2], xy
    return xy.copy(), xy


def points(rng, n, repeat=True):
    """n points and, for each, its expected coordinates and identity label; sometimes a point is used twice."""
    smp = coord_sampler(rng)
    out = []
    for i in range(n):
        if repeat and out and rng.random() < 0.08:
            out.append(out[int(rng.integers(len(out)))])
            continue
        given, want = rep(rng, smp((2,)) if rng.random() < 0.9 else pick(rng, (np.zeros(2), np.ones(2), np.array([-0.0, 1e-300]), np.array([1e200, -1e200]))))
        p = pr.Point(given)
        value_exact(p, want, "Point", given=given)
        require(list(p.keys()) == [], "a point has parts", keys=list(p.keys()))
        out.append((p, want))
    return [p for p, _ in out], [w for _, w in out]


def is_line(line, a, b, wa, wb, what, **detail):
    require(type(line) is pr.Line, f"{what}: not a line", got=type(line), **detail)
    require(list(line.keys()) == ["Point0", "Point1"], f"{what}: parts of the line", got=list(line.keys()), **detail)
    require(np.size(line.value) == 0, f"{what}: a line has values", got=line.value, **detail)
    for key, p, w in (("Point0", a, wa), ("Point1", b, wb)):
        require(type(line[key]) is pr.Point, f"{what}: {key} is not a point", got=type(line[key]), **detail)
        value_exact(line[key], w, f"{what}: {key}", **detail)
        if p is not None:
            require(line[key].value is p.value, f"{what}: {key} does not share the given vertex", **detail)


def is_loop(poly, pts, wants, what, **detail):
    n = len(wants)
    require(list(poly.keys()) == [f"Line{i}" for i in range(n)], f"{what}: edges", got=list(poly.keys()), want=n, **detail)
    require(np.size(poly.value) == 0, f"{what}: polygon has values", got=poly.value, **detail)
    for i in range(n):
        j = (i + 1) % n
        is_line(poly[f"Line{i}"], pts and pts[i], pts and pts[j], wants[i], wants[j], f"{what}: Line{i}", **detail)
        require(poly[f"Line{i}"]["Point1"].value is poly[f"Line{j}"]["Point0"].value,
                f"{what}: the end of Line{i} is not the start of Line{j}", **detail)
    idx, prims = pr.filter_unique_values_from_prim(poly)
    distinct = len({id(p.value) for p in pts}) if pts else n
    got = [np.asarray(getattr(u, "value", u)) for u in prims]
    nonempty = [u for u in got if u.size]
    require(len(nonempty) == distinct, f"{what}: number of distinct vertices", got=len(nonempty), want=distinct, **detail)
    starts = [poly[f"Line{i}/Point0"] for i in range(n)]
    for i, s in enumerate(starts):
        value_exact(s, wants[i], f"{what}: vertex {i} by its path", **detail)


def shapes(rng, rec, idx):
    r = idx % 6
    if r == 0:
        pts, wants = points(rng, 2)
        value = pick(rng, (None, np.array([]), [], ()))
        seq = pick(rng, (tuple, list))(pts)
        line = pr.Line(value, seq) if rng.random() < 0.5 else pr.Line(prims=seq)
        is_line(line, *pts, *wants, "Line")
        rec.event("line")
        rec.state("line", pts[0] is pts[1])
    elif r == 1:
        line = pr.Line()
        is_line(line, None, None, [0, 0], [0, 1], "default Line")
        value_exact(pr.Point(), [0, 0], "default Point")
        a, b = pr.Point(), pr.Point()
        require(a.value is not b.value, "two default points share their vertex")
        l2 = pr.Line()
        require(l2["Point0"].value is not line["Point0"].value, "two default lines share a vertex")
        rec.event("default")
    elif r == 2:
        n = int(pick(rng, (1, 2, 3, 4, 5, 6, 7, 9, 12, 17, 30)))
        pts, wants = points(rng, n)
        seq = pick(rng, (tuple, list))(pts)
        keep = list(seq)
        kw = pick(rng, ({}, {"size": n}))
        poly = pr.Polygon(pick(rng, (None, np.array([]))), seq, **kw) if rng.random() < 0.5 else pr.Polygon(prims=seq, **kw)
        require(type(poly) is pr.Polygon, "type of a polygon", got=type(poly))
        require(list(seq) == keep, "the given list of points was changed")
        is_loop(poly, pts, wants, f"Polygon of {n} points")
        rec.event("polygon")
        rec.state("polygon", n, len(set(map(id, pts))))
    elif r == 3:
        n = int(pick(rng, (1, 2, 3, 4, 5, 6, 8, 11, 25, 60)))
        poly = pr.Polygon(size=n) if n != 3 or rng.random() < 0.5 else pr.Polygon()
        t = 2 * np.pi * np.arange(n) / n
        circle = np.stack([np.cos(t), np.sin(t)], -1)
        got = np.array([poly[f"Line{i}"]["Point0"].value for i in range(n)])
        require(np.allclose(got, circle, rtol=0, atol=1e-13), "default polygon is not on the unit circle", got=got, want=circle)
        is_loop(poly, None, got, f"default Polygon of size {n}")
        rec.event("default")
        rec.state("default polygon", n)
    elif r == 4:
        pts, wants = points(rng, 4)
        seq = pick(rng, (tuple, list))(pts)
        quad = pr.Quadrilateral(None, seq) if rng.random() < 0.5 else pr.Quadrilateral(children=seq)
        require(type(quad) is pr.Quadrilateral, "type of a quadrilateral", got=type(quad))
        is_loop(quad, pts, wants, "Quadrilateral")
        rec.event("quadrilateral")
        rec.state("quadrilateral", len(set(map(id, pts))))
    else:
        quad, other = pr.Quadrilateral(), pr.Quadrilateral()
        square = [[0, 0], [1, 0], [1, 1], [0, 1]]
        is_loop(quad, None, square, "default Quadrilateral")
        # bottom, right, top, left
        line = lambda i: (np.asarray(quad[f"Line{i}/Point0"].value), np.asarray(quad[f"Line{i}/Point1"].value))
        ys = [line(i)[0][1] + line(i)[1][1] for i in (0, 2)]
        xs = [line(i)[0][0] + line(i)[1][0] for i in (3, 1)]
        require(ys == [0, 2] and xs == [0, 2], "edges of the default quadrilateral are not bottom, right, top, left", ys=ys, xs=xs)
        a = {id(quad[f"Line{i}/Point0"].value) for i in range(4)}
        b = {id(other[f"Line{i}/Point0"].value) for i in range(4)}
        require(not a & b, "two default quadrilaterals share vertices")
        rec.event("default")


FLAGS = list(itertools.product((False, True), repeat=4))


def axes_keys(xaxis, yaxis, twinx, twiny):
    keys = ["Frame"]
    keys += ["XAxis", "XAxisLabel"] if xaxis else []
    keys += ["YAxis", "YAxisLabel"] if yaxis else []
    keys += ["TwinXAxis", "TwinXAxisLabel"] if xaxis and twinx else []
    keys += ["TwinYAxis", "TwinYAxisLabel"] if yaxis and twiny else []
    return keys


def axes(rng, rec, idx):
    flags = FLAGS[idx % 16]
    kw = dict(zip(("xaxis", "yaxis", "twinx", "twiny"), flags))
    if rng.random() < 0.5:
        kw = {k: v for k, v in kw.items() if v}
    keys = axes_keys(*flags)
    supplied = rng.random() < 0.7
    if supplied:
        parts, checks = [], {}
        common = points(rng, 1)
        for k in keys:
            if k.endswith("Label"):
                p, w = points(rng, 1)
                if rng.random() < 0.1:
                    p, w = common
                parts.append(p[0])
                checks[k] = (p, w)
            else:
                p, w = points(rng, 4)
                parts.append(pr.Quadrilateral(None, p))
                checks[k] = (p, w)
        seq = pick(rng, (tuple, list))(parts)
        ax = pr.Axes(pick(rng, (None, np.array([]))), seq, **kw)
    else:
        ax = pr.Axes(**kw)
        checks = {k: (None, [[0, 0]] if k.endswith("Label") else [[0, 0], [1, 0], [1, 1], [0, 1]]) for k in keys}
    require(type(ax) is pr.Axes, "type of axes", got=type(ax))
    require(list(ax.keys()) == keys, "parts of the axes", got=list(ax.keys()), want=keys, flags=flags)
    require(np.size(ax.value) == 0, "axes have values", got=ax.value)
    for k, (p, w) in checks.items():
        if k.endswith("Label"):
            require(type(ax[k]) is pr.Point, f"axes part {k} is not a point", got=type(ax[k]))
            value_exact(ax[k], w[0], f"axes part {k}", flags=flags)
            require(p is None or ax[k].value is p[0].value, f"axes part {k} does not share the supplied point")
        else:
            require(type(ax[k]) is pr.Quadrilateral, f"axes part {k} is not a quadrilateral", got=type(ax[k]))
            is_loop(ax[k], p, w, f"axes part {k}", flags=flags)
    if not supplied:
        ids = [id(v.value) for k in keys for v in ([ax[k]] if k.endswith("Label") else [ax[f"{k}/Line{i}/Point0"] for i in range(4)])]
        require(len(ids) == len(set(ids)), "default parts of axes share vertices", flags=flags)
    # the same parts after a trip through a layout
    if idx % 2:
        L = Layout()
        L.add_prim(ax, "Axes")
        got = L.root_prim["Axes"]
        require(list(got.keys()) == keys, "parts of the axes in a layout", got=list(got.keys()), want=keys)
        for k, (p, w) in checks.items():
            if k.endswith("Label"):
                value_exact(got[k], w[0], f"axes part {k} in a layout")
            else:
                is_loop(got[k], p, w, f"axes part {k} in a layout")
    rec.event("axes from supplied parts" if supplied else "default axes")
    rec.state("axes", flags, supplied)
    rec.sample(f"Axes{flags} supplied={supplied}: {keys}")


class Disc(pr.StaticPrimitive):
    """A radius and a centre."""
    signature = (1, (pr.Point,))

    @classmethod
    def init_children(cls, prims):
        return ("Center",), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0])

    @classmethod
    def default_prims(cls):
        return (pr.Point([0.5, 0.5]),)


class Path(pr.Primitive):
    """An open or closed path: number of lines depends on a keyword."""
    signature = (0, (pr.Line, ...))

    def __init__(self, value=None, prims=None, closed=False, size=4):
        super().__init__(value=value, prims=prims, closed=closed, size=size)

    @classmethod
    def init_children(cls, prims, closed=False, size=4):
        prims = list(prims)
        ends = prims[1:] + (prims[:1] if closed else [])
        lines = [pr.Line(np.array([]), (a, b)) for a, b in zip(prims, ends)]
        return [f"Step{i}" for i in range(len(lines))], lines

    @classmethod
    def default_value(cls, closed=False, size=4):
        return np.array(())

    @classmethod
    def default_prims(cls, closed=False, size=4):
        return [pr.Point([i, i * i]) for i in range(size)]


class Tagged(pr.PrimitiveNode):
    """Any number of (point, line) pairs."""
    signature = (0, (pr.Point, pr.Line, ...))


class Either(pr.PrimitiveNode):
    """One number with a point, a point and a line, or any number of lines."""
    signature = (1, {(pr.Point,), (pr.Point, pr.Line), (pr.Line, ...)})


def patterns(rng, rec, idx):
    """Declared part types: repeating units, alternatives and subclasses are accepted exactly as declared."""
    P = lambda: pr.Point(rng.normal(size=2))
    Ln = lambda: pr.Line(prims=(P(), P()))
    Q = lambda: pr.Quadrilateral(children=[P() for _ in range(4)])
    make = {"P": P, "L": Ln, "Q": Q, "C": lambda: SubPoint(rng.normal(size=2))}
    if rng.random() < 0.5:
        cls, value = Tagged, np.zeros(0)
        word = "PL" * int(rng.integers(0, 4))
    else:
        cls, value = Either, rng.normal(size=1)
        word = pick(rng, ("P", "PL", "L" * int(rng.integers(0, 4))))
    if rng.random() < 0.6 and word:
        # one mutation of a good word
        i, w = int(rng.integers(len(word))), list(word)
        r = int(rng.integers(5))
        if r == 0:
            w[i] = pick(rng, "PLQC")
        elif r == 1:
            del w[i]
        elif r == 2:
            w.insert(i, pick(rng, "PLQ"))
        elif r == 3:
            w = w + [pick(rng, "PLQ")]
        else:
            w = w[::-1]
        word = "".join(w)
    flat = word.replace("C", "P")
    if cls is Tagged:
        ok = len(flat) % 2 == 0 and flat == "PL" * (len(flat) // 2)
    else:
        ok = flat in ("P", "PL") or set(flat) <= {"L"}
    kids = {f"k{i}": make[ch]() for i, ch in enumerate(word)}
    if ok:
        n = cls(value, dict(kids))
        require(list(n.keys()) == list(kids) and all(n[k] is kids[k] for k in kids), "declared parts: parts differ", word=word)
    else:
        expect_raises(None, lambda: cls(value, dict(kids)), f"{cls.__name__} accepts parts of kinds {word}")
    rec.event("declared part types accepted" if ok else "declared part types rejected")
    rec.state("parts", cls.__name__, word)


class SubPoint(pr.Point):
    """A point of another class."""


def custom(rng, rec, idx):
    """User-defined primitives through the documented class methods."""
    if idx % 2:
        pts, wants = points(rng, 1)
        given, w = rep(rng, coord_sampler(rng)((2,)))
        given, w = np.asarray(given)[:1], np.asarray(w)[:1]
        use_v, use_p = rng.random() < 0.7, rng.random() < 0.7
        d = Disc(given if use_v else None, tuple(pts) if use_p else None)
        value_exact(d, w if use_v else [1.0], "custom primitive")
        require(list(d.keys()) == ["Center"], "custom primitive: parts", got=list(d.keys()))
        value_exact(d["Center"], wants[0] if use_p else [0.5, 0.5], "custom primitive: part")
        require(not use_p or d["Center"].value is pts[0].value, "custom primitive does not share the supplied point")
        rec.state("disc", use_v, use_p)
    else:
        closed, n = bool(rng.random() < 0.5), int(rng.integers(1, 9))
        supplied = rng.random() < 0.6
        pts, wants = points(rng, n) if supplied else (None, [[i, i * i] for i in range(n)])
        p = Path(None, pts, closed=closed, size=n)
        m = n if closed else n - 1
        require(list(p.keys()) == [f"Step{i}" for i in range(m)], "custom path: parts", got=list(p.keys()), want=m)
        for i in range(m):
            j = (i + 1) % n
            is_line(p[f"Step{i}"], pts and pts[i], pts and pts[j], wants[i], wants[j], f"custom path: Step{i}")
        rec.state("path", closed, n, supplied)
    rec.event("custom primitive")


def wrong(rng, rec, idx):
    """Parts which do not fit the documented types are not accepted silently."""
    P = lambda: pr.Point(rng.normal(size=2))
    Ln = lambda: pr.Line(prims=(P(), P()))
    Q = lambda: pr.Quadrilateral(children=[P() for _ in range(4)])
    flags = pick(rng, FLAGS)
    kw = dict(zip(("xaxis", "yaxis", "twinx", "twiny"), flags))
    keys = axes_keys(*flags)
    good = [P() if k.endswith("Label") else Q() for k in keys]
    j = int(rng.integers(len(good)))
    swapped = list(good)
    swapped[j] = pick(rng, (Ln, P if not keys[j].endswith("Label") else Q, lambda: pr.Polygon(prims=[P() for _ in range(3)])))()
    more = good + [pick(rng, (P, Q))()]
    cases = {
        "point of 1 number": lambda: pr.Point([1.0]),
        "point of 3 numbers": lambda: pr.Point([1.0, 2.0, 3.0]),
        "point of 4 numbers in a square": lambda: pr.Point([[1.0, 2.0], [3.0, 4.0]]),
        "point with parts": lambda: pr.Point([1.0, 2.0], (P(),)),
        "line of 1 point": lambda: pr.Line(prims=(P(),)),
        "line of 3 points": lambda: pr.Line(prims=(P(), P(), P())),
        "line of lines": lambda: pr.Line(prims=(Ln(), Ln())),
        "line of a point and a line": lambda: pr.Line(prims=(P(), Ln())),
        "line with values": lambda: pr.Line([1.0, 2.0], (P(), P())),
        "quadrilateral of 3 points": lambda: pr.Quadrilateral(children=[P() for _ in range(3)]),
        "quadrilateral of 5 points": lambda: pr.Quadrilateral(children=[P() for _ in range(5)]),
        "polygon of lines": lambda: pr.Polygon(prims=[Ln(), Ln(), Ln()]),
        "polygon with values": lambda: pr.Polygon([0.0], [P(), P(), P()]),
        "axes with a part of another type": lambda: pr.Axes(None, tuple(swapped), **kw),
        "axes with too many parts": lambda: pr.Axes(None, tuple(more), **kw),
        "axes with too few parts": lambda: pr.Axes(None, tuple(good[:-1]), **kw),
    }
    name = list(cases)[idx % len(cases)]
    expect_raises(None, cases[name], f"constructor accepts a {name}", flags=flags)
    rec.event("misfit rejected")
    rec.state("misfit", name)


GROUPS = {
    "shapes": dict(fn=shapes, quick=900, thorough=60000),
    "axes": dict(fn=axes, quick=320, thorough=12000),
    "custom": dict(fn=custom, quick=200, thorough=10000),
    "patterns": dict(fn=patterns, quick=200, thorough=10000),
    "wrong": dict(fn=wrong, quick=160, thorough=3200),
}
