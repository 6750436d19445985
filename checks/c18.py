"""C18: the artists of a drawing are exactly the geometry of the tree, labelled."""
import warnings

import jax.numpy as jnp
import numpy as np
from matplotlib import colormaps
from matplotlib import pyplot as plt
from matplotlib.text import Annotation

from mpllayout import primitives as pr
from mpllayout import ui

from vlib import snap, world
from vlib.common import Skip, coord_sampler, pick, require

from .c17 import Disc, Path, axes_keys

NAMES = ("A", "Line0", "Frame", "Axes1", "x y", "Figure", "Point0", "10", "name_with_underscore", "Ä", "b.c", "...", "Q")


def sampler(rng):
    r = rng.random()
    if r < 0.5:
        s = float(10 ** rng.uniform(-2, 2))
        o = rng.uniform(-3, 3, size=2) * s
        return lambda: o + rng.normal(size=2) * s
    if r < 0.75:
        return lambda: rng.integers(-3, 4, size=2).astype(float)      # axis-parallel, zero-length and repeated cases
    if r < 0.9:
        o = rng.integers(-1, 2, size=2).astype(float)
        return lambda: o.copy() if rng.random() < 0.7 else o + np.array(pick(rng, ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, -1), (1e-9, 0), (-1e-3, 1.0))))
    s = float(10 ** rng.uniform(-6, 6))
    return lambda: rng.normal(size=2) * s


def rand_tree(rng, xy, depth, root=True):
    """A random primitive."""
    def point(v=None):
        v = xy() if v is None else v
        r = rng.random()
        return pr.Point(jnp.asarray(v) if r < 0.3 else np.round(np.clip(v, -1e9, 1e9)).astype(int) if r < 0.36 else v)
    pool = []

    def vertex():
        if pool and rng.random() < 0.2:
            return pick(rng, pool)
        pool.append(point())
        return pool[-1]

    def quad():
        if rng.random() < 0.4:
            a, d = xy(), np.abs(xy())
            return pr.Quadrilateral(None, [point(a), point(a + [d[0], 0]), point(a + d), point(a + [0, d[1]])])
        return pr.Quadrilateral(None, [vertex() for _ in range(4)])
    kind = pick(rng, ("P", "P", "L", "L", "Q", "G", "A", "disc", "path") + (("group",) * 3 if depth > 0 else ()))
    if kind == "P":
        return vertex()
    if kind == "L":
        return pr.Line(prims=(vertex(), vertex()))
    if kind == "Q":
        return quad()
    if kind == "G":
        return pr.Polygon(prims=[vertex() for _ in range(int(pick(rng, (0, 1, 2, 3, 3, 4, 5, 8, 11, 14))))])
    if kind == "A":
        flags = [bool(rng.random() < 0.6) for _ in range(4)]
        parts = [vertex() if k.endswith("Label") else quad() for k in axes_keys(*flags)]
        return pr.Axes(None, tuple(parts), **dict(zip(("xaxis", "yaxis", "twinx", "twiny"), flags)))
    if kind == "disc":
        return Disc(np.array([1.5]), (vertex(),))
    if kind == "path":
        return Path(None, [vertex() for _ in range(int(rng.integers(1, 5)))], closed=bool(rng.random() < 0.5))
    return group(rng, [rand_tree(rng, xy, depth - 1) for _ in range(int(rng.integers(0, 4)))])


def group(rng, prims):
    names = list(rng.permutation(np.array(NAMES, dtype=object)))[:len(prims)]
    return pr.PrimitiveNode(np.array([]), dict(zip(names, prims)))


def expected(prim, key, out=None, depth=0):
    """[(kind, name, vertices, depth)] of what has to be drawn for a primitive."""
    out = [] if out is None else out
    vertex = lambda p: tuple(float(v) for v in np.asarray(p.value, dtype=float))
    if isinstance(prim, pr.Point):
        out.append(("point", key, (vertex(prim),), depth))
    elif isinstance(prim, pr.Line):
        a, b = vertex(prim["Point0"]), vertex(prim["Point1"])
        if a != b:
            out.append(("line", key, (a, b), depth))
        return out
    elif isinstance(prim, pr.Polygon):
        n = len(prim.children)
        if n:
            out.append(("polygon", key, tuple(vertex(prim[f"Line{i}"]["Point0"]) for i in range(n)), depth))
    for k, c in prim.children.items():
        expected(c, k, out, depth + 1)
    return out


def bag(items):
    return sorted(items, key=repr)


def visible_marker(line):
    return str(line.get_marker()) not in ("None", "none", "", " ")


def visible_line(line):
    return str(line.get_linestyle()) not in ("None", "none", "", " ") and line.get_linewidth() > 0


def observe(rec, ax, want, labels=True, before=None, drawn=False, max_depth=99):
    """Compare the artists of `ax` with the expected drawing."""
    lines, points = [], []
    for ln in ax.lines:
        x, y = (np.asarray(v, dtype=float) for v in ln.get_data())
        require(ln.get_visible() and ln.axes is ax, "an artist is not visible in the axes")
        require(ln.get_transform() == ax.transData, "a line is not drawn in data coordinates")
        xy = tuple(zip(x.tolist(), y.tolist()))
        if len(xy) == 1:
            require(visible_marker(ln), "a point is drawn without a marker", at=xy)
            points.append(xy)
        else:
            require(visible_line(ln), "a line is drawn with no visible line", at=xy)
            lines.append(xy)
        a = ln.get_alpha()
        require(a is None or 0 < a <= 1, "a line has no valid opacity", alpha=a)
    require(bag(points) == bag([v for k, _, v, _ in want if k == "point"]), "drawn points are not the free points of the tree",
            got=bag(points), want=bag([v for k, _, v, _ in want if k == "point"]))
    wl = bag([v for k, _, v, _ in want if k == "line"])
    require(bag(lines) == wl, "drawn lines are not the lines of the tree", got=bag(lines), want=wl)
    polys = []
    for p in ax.patches:
        v = np.asarray(p.get_xy(), dtype=float)
        require(type(p).__name__ == "Polygon" and p.get_closed(), "a patch is not a closed polygon", got=p)
        require(p.get_visible() and (p.get_alpha() is None or p.get_alpha() > 0), "a polygon is not visible")
        require(p.get_data_transform() == ax.transData, "a polygon is not drawn in data coordinates")
        polys.append(tuple(map(tuple, v.tolist())))
    # matplotlib closes a polygon by repeating its first vertex
    wp = [v for k, _, v, _ in want if k == "polygon"]
    close = lambda v: v if len(v) > 1 and v[0] == v[-1] else v + v[:1]
    require(bag(map(close, polys)) == bag(map(close, wp)), "drawn polygons are not the polygons of the tree",
            got=bag(polys), want=bag(wp))
    rec.event("points drawn", len(points))
    rec.event("lines drawn", len(lines))
    rec.event("polygons drawn", len(polys))
    extra = [a for a in ax.get_children() if type(a).__name__ not in ("Spine", "XAxis", "YAxis", "Line2D", "Polygon", "Annotation", "Text", "Rectangle")]
    require(not extra and not ax.collections and not ax.images and not ax.artists, "something else is drawn", extra=extra)
    if not labels:
        return
    texts = []
    for t in ax.texts:
        if not t.get_text():
            continue
        require(isinstance(t, Annotation) and t.get_visible(), "a label is not a visible annotation", got=t)
        require(t.arrow_patch is None, "a label has an arrow")
        require(t.xycoords == "data", "a label is not placed in data coordinates", got=t.xycoords)
        texts.append((t, t.get_text().split("/")[-1], tuple(float(v) for v in t.xy)))
    wt = []
    for k, key, v, depth in want:
        if depth > max_depth:
            continue
        at = v[0] if k != "line" else tuple((np.asarray(v[0]) + np.asarray(v[1])) / 2)
        wt.append((k, key, at, v))
    require(len(texts) == len(wt), "number of labels differs from number of drawn primitives", got=len(texts), want=len(wt),
            texts=[(b, c) for _, b, c in texts][:12])
    # pair labels with primitives of the same name at the same place
    left = list(texts)
    for k, key, at, v in wt:
        tol = 1e-9 * max(1e-300, np.max(np.abs(np.asarray(v))))
        cands = [j for j, (t, name, xy) in enumerate(left) if name == key and max(abs(xy[0] - at[0]), abs(xy[1] - at[1])) <= tol]
        if k == "line":
            d = np.asarray(v[1]) - np.asarray(v[0])
            theta = np.degrees(np.arctan2(d[1], d[0]))
            cands = [j for j in cands if abs((float(left[j][0].get_rotation()) - theta + 90) % 180 - 90) < 0.01]
        elif k == "point" or k == "polygon":
            cands = [j for j in cands if abs(float(left[j][0].get_rotation())) < 1e-9]
        require(cands, f"a {k} has no label with its name at its place and along it", name=key, at=at,
                labels=[(n, xy, t.get_rotation()) for t, n, xy in left if n == key][:6] or [(n, xy) for _, n, xy in left][:6])
        t = left.pop(cands[0])[0]
        rec.event(f"{k} label matched")
        if drawn:
            near(rec, ax, t, at, v, k)


def near(rec, ax, t, at, v, k):
    """On the canvas the label lies next to its primitive and along it."""
    fig = ax.figure
    bb = t.get_window_extent(fig.canvas.get_renderer())
    p = ax.transData.transform(at)
    box = ax.get_window_extent()
    if not (box.x0 <= p[0] <= box.x1 and box.y0 <= p[1] <= box.y1):
        return
    dx = max(bb.x0 - p[0], p[0] - bb.x1, 0)
    dy = max(bb.y0 - p[1], p[1] - bb.y1, 0)
    size = t.get_fontsize() * fig.dpi / 72
    require(max(dx, dy) <= size, f"the label of a {k} is drawn away from it", distance=(dx, dy), fontsize=size, text=t.get_text())
    rec.event("label near on canvas")


def figures(rng, rec, idx):
    xy = sampler(rng)
    n = int(pick(rng, (0, 1, 1, 2, 3, 4, 6)))
    if idx % 4 == 3:
        w = world.target(rng, scale=float(10 ** rng.uniform(-1, 1.5)), kinds="PLLQQAG")
        root = w.layout(w.X).root_prim
    elif idx % 60 == 8:
        m = int(rng.integers(20, 140))
        root = pr.PrimitiveNode(np.array([]), {f"{NAMES[j % len(NAMES)]}{j}": rand_tree(rng, xy, 0) for j in rng.permutation(m)})
        rec.event("layout with many primitives drawn")
    else:
        root = group(rng, [rand_tree(rng, xy, 2) for _ in range(n)]) if rng.random() < 0.9 else rand_tree(rng, xy, 2)
    want = []
    for k, c in root.children.items():
        expected(c, k, want)
    before = snap.freeze(root, ids=True)
    kw = {}
    size = (float(rng.uniform(1.5, 14)), float(rng.uniform(1.5, 14)))
    if rng.random() < 0.6:
        kw["fig_size"] = size if rng.random() < 0.7 else np.array(size)
    else:
        size = (8, 8)
    major, minor = 1.0, 1 / 8
    if rng.random() < 0.5:
        kw["major_tick_interval"] = major = float(pick(rng, (0.5, 1, 2, 2.54, 5, 10, 0.1)))
    if rng.random() < 0.5:
        kw["minor_tick_interval"] = minor = float(major / int(rng.integers(2, 9)))
    count = len(plt.get_fignums())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, ax = ui.figure_prims(root, **kw)
        try:
            require(snap.freeze(root, ids=True) == before, "drawing modified the tree",
                    diff=snap.diff(before, snap.freeze(root, ids=True)))
            require(np.allclose(fig.get_size_inches(), size, rtol=1e-12), "size of the figure", got=fig.get_size_inches(), want=size)
            require(fig.axes == [ax], "the figure has other axes")
            require(ax.get_aspect() in (1, 1.0, "equal"), "data units differ between x and y", got=ax.get_aspect())
            drawable = bool(want) and np.max(np.abs([p for _, _, v, _ in want for p in v])) < 1e3
            # all drawn lines and points are in view
            (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
            for k, key, v, _ in want:
                if k != "polygon":
                    for p in v:
                        pad = 1e-9 * max(abs(p[0]), abs(p[1]), x1 - x0)
                        require(x0 - pad <= p[0] <= x1 + pad and y0 - pad <= p[1] <= y1 + pad, f"a {k} is out of view",
                                at=p, view=(x0, x1, y0, y1))
            draw = drawable and len(want) < 25 and rng.random() < 0.3 and (max(x1 - x0, y1 - y0) / minor) < 300
            if draw:
                fig.canvas.draw()
                rec.event("canvas drawn")
                require(snap.freeze(root, ids=True) == before, "drawing modified the tree")
            observe(rec, ax, want, drawn=draw)
            # the grid
            for axis, lim in ((ax.xaxis, ax.set_xlim), (ax.yaxis, ax.set_ylim)):
                a = float(rng.uniform(-3, 3)) * major
                lim(a, a + 4.3 * major)
                for name, got, step in (("major", axis.get_majorticklocs(), major), ("minor", axis.get_minorticklocs(), minor)):
                    got = np.sort(np.asarray(got, dtype=float))
                    if name == "major":
                        inside = got[(got >= a) & (got <= a + 4.3 * major)]
                        require(inside.size in (4, 5), "number of major ticks", got=got, interval=major)
                        require(np.allclose(np.diff(inside), step, rtol=1e-6), "interval of the major ticks", got=got, want=step)
                        r = got / step
                    else:
                        r = got / step
                        allmarks = np.unique(np.round(np.concatenate([got, axis.get_majorticklocs()]) / step).astype(int))
                        k0, k1 = np.ceil(a / step - 1e-6), np.floor((a + 4.3 * major) / step + 1e-6)
                        require(set(np.arange(k0 + 1, k1)) <= set(allmarks.tolist()), "interval of the minor ticks", got=got, want=step)
                    require(np.allclose(r, np.round(r), atol=1e-6), f"{name} ticks are not multiples of the interval", got=got, want=step)
                rec.event("grid interval compared", 2)
            require(all(g.get_visible() for g in ax.get_xgridlines() + ax.get_ygridlines()), "the grid is not shown")
            rec.event("figure compared")
        finally:
            plt.close(fig)
    require(len(plt.get_fignums()) == count, "drawing opened other figures")
    rec.state("figure", tuple(bag((k, d) for k, _, _, d in want)), tuple(kw))
    rec.sample(f"{len(want)} primitives drawn: {[(k, n) for k, n, _, _ in want][:8]}, options {kw}")


def direct(rng, rec, idx):
    """The plot functions on their own, in an axes which already has other artists."""
    xy = sampler(rng)
    fig, ax = plt.subplots()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = idx % 5
            color = pick(rng, ("red", "C2", (0.1, 0.2, 0.3)))
            kw = pick(rng, ({}, {"color": color}, {"alpha": 0.5}, {"alpha": 0.25, "color": color}))
            key = pick(rng, NAMES)
            label = pick(rng, (None, key))
            depth = 99
            if r == 0:
                prim = pr.Point(xy())
                ui.plot_point(ax, prim, label, **kw)
            elif r == 1:
                prim = pr.Line(prims=(pr.Point(xy()), pr.Point(xy())))
                ui.plot_line(ax, prim, label, **kw)
            elif r == 2:
                prim = pick(rng, (lambda: pr.Quadrilateral(None, [pr.Point(xy()) for _ in range(4)]),
                                  lambda: pr.Polygon(prims=[pr.Point(xy()) for _ in range(int(rng.integers(1, 7)))])))()
                ui.plot_polygon(ax, prim, label, **kw)
            else:
                prim = rand_tree(rng, xy, 2)
                kw.pop("alpha", None)
                if rng.random() < 0.5:
                    depth = int(rng.integers(0, 3))
                    kw["max_label_depth"] = depth
                label = key
                before = snap.freeze(prim, ids=True)
                if r == 3:
                    ui.plot_prim(ax, prim, prim_key=key, **kw)
                else:
                    root = group(rng, [prim])
                    key = list(root.keys())[0]
                    depth = 99
                    cmap = colormaps[pick(rng, ("viridis", "plasma"))]
                    ui.plot_prims(ax, root, **pick(rng, ({}, {"cmap": cmap})))
                require(snap.freeze(prim, ids=True) == before, "drawing modified the tree")
            want = expected(prim, key)
            if r < 3:
                want = want[:1] if want and want[0][3] == 0 else []
            observe(rec, ax, want, max_depth=depth if label is not None else -1)
            if "color" in kw and r not in (2, 4):
                from matplotlib.colors import to_rgb
                for ln in ax.lines:
                    require(to_rgb(ln.get_color()) == to_rgb(color), "colour of a drawn primitive", got=ln.get_color(), want=color)
            rec.event("direct plot compared")
            rec.state("direct", r, label is None, tuple(kw), len(want))
    finally:
        plt.close(fig)


GROUPS = {
    "figures": dict(fn=figures, quick=500, thorough=8000),
    "direct": dict(fn=direct, quick=700, thorough=10000),
}
