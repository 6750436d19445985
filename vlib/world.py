"""Random layouts with a known satisfying arrangement.

A World is a table of unique points X (n,2) plus named top-level primitives that refer to point indices (sharing an
index = sharing the vertex).  Constraints are instances of specs.Spec with argument paths into the tree; their
reference error is a function of X only.
"""
import numpy as np

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from . import geo, ref, specs
from .common import Skip, pick, sgn, unique_names


class World:
    def __init__(self):
        self.X = np.zeros((0, 2))
        self.prims = {}          # name -> (kind, structure of indices)
        self.cons = []           # (Spec, arg keys, params)
        self.reuse = False       # one constraint object per relation kind instead of one per declaration

    # -- geometry
    def add_points(self, pts):
        n = len(self.X)
        self.X = np.vstack([self.X, np.asarray(pts, dtype=float).reshape(-1, 2)])
        return list(range(n, len(self.X)))

    def add(self, name, kind, idx):
        self.prims[name] = (kind, idx)

    # -- sub-primitives: (kind, key, indices)
    def refs(self):
        out = []

        def quad(key, idx):
            out.append(("Q", key, list(idx)))
            poly(key, idx)

        def poly(key, idx):
            m = len(idx)
            for i in range(m):
                line(f"{key}/Line{i}", [idx[i], idx[(i + 1) % m]])

        def line(key, idx):
            out.append(("L", key, list(idx)))
            out.append(("P", f"{key}/Point0", [idx[0]]))
            out.append(("P", f"{key}/Point1", [idx[1]]))

        for name, (kind, idx) in self.prims.items():
            if kind == "P":
                out.append(("P", name, list(idx)))
            elif kind == "L":
                line(name, idx)
            elif kind == "Q":
                quad(name, idx)
            elif kind == "G":
                poly(name, idx)
            elif kind == "A":
                out.append(("A", name, {k: list(v) for k, v in idx.items()}))
                for k, v in idx.items():
                    if k.endswith("Label"):
                        out.append(("P", f"{name}/{k}", list(v)))
                    else:
                        quad(f"{name}/{k}", v)
        return out

    def ref_table(self):
        return {key: (kind, idx) for kind, key, idx in self.refs()}

    # -- building the package's objects
    def build_prims(self, X, order=None, rename=None):
        """Primitives sharing vertices according to the index table."""
        pts = [pr.Point(np.array(p)) for p in np.asarray(X, dtype=float)]
        out = {}
        names = list(self.prims) if order is None else order
        for name in names:
            kind, idx = self.prims[name]
            new = rename[name] if rename else name
            out[new] = self._build(kind, idx, pts)
        return out

    @staticmethod
    def _build(kind, idx, pts):
        if kind == "P":
            return pts[idx[0]]
        if kind == "L":
            return pr.Line(prims=(pts[idx[0]], pts[idx[1]]))
        if kind == "Q":
            return pr.Quadrilateral(None, [pts[i] for i in idx])
        if kind == "G":
            return pr.Polygon(None, [pts[i] for i in idx], len(idx))
        parts = [pr.Quadrilateral(None, [pts[i] for i in idx["Frame"]])]
        for k in geo.AXES_PARTS:
            if k in idx:
                parts.append(pts[idx[k][0]] if k.endswith("Label")
                             else pr.Quadrilateral(None, [pts[i] for i in idx[k]]))
        return pr.Axes(None, tuple(parts), **geo.axes_flags(idx))

    def layout(self, X, order=None, cons_order=None, rename=None, keys=None):
        L = lay.Layout()
        for name, prim in self.build_prims(X, order, rename).items():
            L.add_prim(prim, name)
        seq = range(len(self.cons)) if cons_order is None else cons_order
        made = {}
        for q, i in enumerate(seq):
            sp, argkeys, params = self.cons[i]
            ks = tuple(_rename(k, rename) for k in argkeys)
            # one constraint object may serve for several declarations
            c = made.setdefault((sp.name, repr(sp.opts)), sp.make()) if self.reuse else sp.make()
            L.add_constraint(c, ks, params, **({"key": keys[q]} if keys else {}))
        return L

    # -- reading a solved tree back
    def read(self, root, rename=None):
        """X of a solved tree; every alias of a vertex must agree."""
        n = len(self.X)
        X = np.full((n, 2), np.nan)
        worst = 0.0
        for kind, key, idx in self.refs():
            if kind != "P":
                continue
            v = np.asarray(root[_rename(key, rename)].value, dtype=float)
            i = idx[0]
            if np.isnan(X[i, 0]):
                X[i] = v
            else:
                worst = max(worst, float(np.max(np.abs(X[i] - v))))
        for name, (kind, idx) in self.prims.items():
            if kind == "A":
                continue
        return X, worst

    # -- reference errors
    def args(self, X, argkeys, table):
        out = []
        for k in argkeys:
            kind, idx = table[k]
            if kind == "P":
                out.append(X[idx[0]])
            elif kind in "LQ":
                out.append(X[idx])
            else:
                out.append({part: (X[v[0]] if part.endswith("Label") else X[v]) for part, v in idx.items()})
        return out

    def errors(self, X, which=None):
        table = self.ref_table()
        out = []
        for i, (sp, argkeys, params) in enumerate(self.cons):
            if which is not None and i not in which:
                continue
            out.append(np.atleast_1d(np.asarray(sp.err(self.args(X, argkeys, table), params), dtype=float)).ravel())
        return out

    def error_vec(self, X):
        e = self.errors(X)
        return np.concatenate(e) if e else np.zeros(0)

    def touched(self):
        table = self.ref_table()
        s = set()
        for sp, argkeys, _ in self.cons:
            for k in argkeys:
                kind, idx = table[k]
                if isinstance(idx, dict):
                    for v in idx.values():
                        s.update(v)
                else:
                    s.update(idx)
        return s

    def describe(self):
        return {"prims": {k: (v[0], v[1] if not isinstance(v[1], dict) else list(v[1])) for k, v in self.prims.items()},
                "cons": [(sp.label, keys, [np.round(np.asarray(p, dtype=float), 4).tolist()
                                           if p is not None and not isinstance(p, bool) else p for p in params])
                         for sp, keys, params in self.cons]}


def _rename(key, rename):
    if not rename:
        return key
    head, *rest = key.split("/", 1)
    return "/".join([rename[head], *rest])


def jacobian(world, X, sp, argkeys, params, table, step=1e-6):
    """Central-difference Jacobian of one constraint's reference error with respect to X (flattened)."""
    cols = []
    n = X.size
    kindidx = set()
    for k in argkeys:
        idx = table[k][1]
        for v in (idx.values() if isinstance(idx, dict) else [idx]):
            kindidx.update(v)
    f = lambda Y: np.atleast_1d(np.asarray(sp.err(world.args(Y, argkeys, table), params), dtype=float)).ravel()
    m = f(X).size
    J = np.zeros((m, n))
    for i in kindidx:
        for c in range(2):
            Y = X.copy()
            Y[i, c] += step
            Z = X.copy()
            Z[i, c] -= step
            J[:, 2 * i + c] = (f(Y) - f(Z)) / (2 * step)
    return J


# -- random target arrangements -----------------------------------------------------------------

def target(rng, scale=1.0, size=None, kinds="PLQAG", share=True, quads_min=1):
    """A world whose X is an arrangement with many coincidences (aligned boxes, axis-parallel lines ...)."""
    w = World()
    w.reuse = bool(rng.random() < 0.5)
    nx = int(rng.integers(3, 6))
    xs = np.cumsum(rng.uniform(0.5, 2, nx)) + rng.uniform(-3, 3)
    ys = np.cumsum(rng.uniform(0.5, 2, nx)) + rng.uniform(-3, 3)
    if rng.random() < 0.3:
        xs, ys = np.round(xs * 2) / 2, np.round(ys * 2) / 2
        xs, ys = np.unique(xs), np.unique(ys)

    def rbox():
        for _ in range(100):
            i, j = sorted(rng.integers(0, len(xs), 2))
            k, l = sorted(rng.integers(0, len(ys), 2))
            if i < j and k < l:
                return ref.box(xs[i], ys[k], xs[j], ys[l]) * scale
        return ref.box(0, 0, 1, 2) * scale

    n = size or int(rng.integers(2, 6))
    kinds_here = [pick(rng, "Q") for _ in range(quads_min)] + [pick(rng, kinds) for _ in range(n - quads_min)]
    rng.shuffle(kinds_here)
    names = unique_names(rng, len(kinds_here))
    for name, kind in zip(names, kinds_here):
        if kind == "P":
            p = [pick(rng, xs), pick(rng, ys)] if rng.random() < 0.5 else rng.uniform(-4, 4, 2)
            w.add(name, "P", w.add_points([np.array(p) * scale]))
        elif kind == "L":
            if share and len(w.X) >= 2 and rng.random() < 0.35:
                i, j = rng.choice(len(w.X), 2, replace=False)
                if ref.norm(w.X[i] - w.X[j]) > 0.2 * scale:
                    w.add(name, "L", [int(i), int(j)])
                    continue
            r = rng.random()
            a = np.array([pick(rng, xs), pick(rng, ys)]) * scale
            if r < 0.25:
                b = a + [rng.uniform(0.5, 3) * sgn(rng) * scale, 0]
            elif r < 0.5:
                b = a + [0, rng.uniform(0.5, 3) * sgn(rng) * scale]
            else:
                t = pick(rng, (0.3, 0.9, 2.0, 2.7, -0.6, -1.2, -2.5)) + rng.uniform(-0.1, 0.1)
                b = a + rng.uniform(0.6, 3) * scale * np.array([np.cos(t), np.sin(t)])
                if rng.random() < 0.5:
                    # a second line parallel/orthogonal to it
                    o = np.array([pick(rng, xs), pick(rng, ys)]) * scale
                    v = (b - a) * rng.uniform(0.4, 1.5)
                    if rng.random() < 0.5:
                        v = np.array([-v[1], v[0]])
                    w.add(name + "'", "L", w.add_points([o, o + v]))
            w.add(name, "L", w.add_points([a, b]))
        elif kind == "Q":
            if share and rng.random() < 0.25:
                # a box that shares an edge (two vertices) with an existing one
                prev = [v[1] for v in w.prims.values() if v[0] == "Q"]
                if prev:
                    q = pick(rng, prev)
                    wd = rng.uniform(0.5, 2) * scale
                    i = w.add_points([w.X[q[1]] + [wd, 0], w.X[q[2]] + [wd, 0]])
                    w.add(name, "Q", [q[1], i[0], i[1], q[2]])
                    continue
            w.add(name, "Q", w.add_points(rbox()))
        elif kind == "G":
            m = int(rng.integers(3, 7))
            t = np.sort(rng.uniform(0, 2 * np.pi, m))
            t = np.linspace(0, 2 * np.pi, m, endpoint=False) + rng.uniform(-0.2, 0.2, m)
            pts = np.array([np.cos(t), np.sin(t)]).T * rng.uniform(0.5, 2) + rng.uniform(-3, 3, 2)
            w.add(name, "G", w.add_points(pts * scale))
        else:
            f = rbox()
            idx = {"Frame": w.add_points(f)}
            x0, y0, x1, y1 = f[0][0], f[0][1], f[2][0], f[2][1]
            for ax in "XY":
                if rng.random() < 0.65:
                    sides = ("bottom", "top") if ax == "X" else ("left", "right")
                    side = pick(rng, sides)
                    for prefix in (("", "Twin") if rng.random() < 0.35 else ("",)):
                        s = side if prefix == "" else ref.OPPOSITE[side]
                        t = rng.uniform(0.2, 0.6) * scale
                        b = {"bottom": ref.box(x0, y0 - t, x1, y0), "top": ref.box(x0, y1, x1, y1 + t),
                             "left": ref.box(x0 - t, y0, x0, y1), "right": ref.box(x1, y0, x1 + t, y1)}[s]
                        lab = b.mean(axis=0) + rng.uniform(-0.3, 0.3, 2) * scale
                        idx[f"{prefix}{ax}Axis"] = w.add_points(b)
                        idx[f"{prefix}{ax}AxisLabel"] = w.add_points([lab])
            order = ("Frame",) + geo.AXES_PARTS
            w.add(name, "A", {k: idx[k] for k in order if k in idx})
    return w


LINEAR_NAMES = ("Fix", "DirectedDistance", "XDistance", "YDistance", "Coincident", "DirectedLength", "XLength", "YLength",
                "Vertical", "Horizontal", "MidpointXDistance", "MidpointYDistance", "CoincidentLines", "Width", "Height",
                "OuterMargin", "InnerMargin", "OuterMarginArray", "CoincidentOutwardFaces", "PositionAxis")
NONLINEAR_NAMES = ("Length", "RelativeLength", "Orthogonal", "Parallel", "Angle", "Collinear", "PointOnLineDistance",
                   "PointToLineDistance", "RelativePointOnLineDistance", "AspectRatio", "Align", "PositionAxisLabel")


def candidate(rng, w, table, bykind, name):
    """A random instance of constraint `name` satisfied by w.X, or None."""
    try:
        sp = specs.spec(name, rng)
        if name == "OuterMarginArray":
            sp = specs.spec(name, rng, n=int(rng.integers(2, 4)))
    except KeyError:
        return None
    for _ in range(6):
        keys = []
        for k in sp.kinds:
            if not bykind.get(k):
                return None
            keys.append(pick(rng, bykind[k]))
        idxs = [repr(table[k][1]) for k in keys]
        if len(set(idxs)) < len(idxs):
            continue
        if sp.kinds == ("A",) and any(p not in table[keys[0]][1] for p in sp.opts["_need"]):
            continue
        args = w.args(w.X, keys, table)
        if geo.min_edge(args) < 1e-3:
            continue
        if name in ("CoincidentLines",):
            for rev in (False, True):
                if np.max(np.abs(sp.err(args, (rev,)))) < 1e-9:
                    return sp, tuple(keys), (rev,)
            continue
        if sp.relation:
            e = np.max(np.abs(np.asarray(sp.err(args, ()), dtype=float)))
            if e < 1e-9 * max(1, geo.gscale(args)) ** 2:
                return sp, tuple(keys), ()
            continue
        params = sp.params(args, rng)
        if name == "Angle" and abs(params[0]) > np.pi - 0.3:
            continue
        return sp, tuple(keys), params
    return None


def used_quads(table, keys):
    """Quadrilateral keys that must be rectangles for the constraint's meaning."""
    out = []
    for k in keys:
        kind, idx = table[k]
        if kind == "Q":
            out.append(k)
        elif kind == "A":
            out += [f"{k}/{p}" for p in idx if not p.endswith("Label")]
    return out


def constrain_linear(rng, w, count, names=LINEAR_NAMES, absolute=True):
    """Add `count` random linear constraints satisfied by w.X, Box for every rectangle they rely on."""
    table = w.ref_table()
    bykind = {}
    for k, (kind, _) in table.items():
        bykind.setdefault(kind, []).append(k)
    names = [n for n in names if absolute or n != "Fix"]
    boxed = set()
    for _ in range(count):
        c = candidate(rng, w, table, bykind, pick(rng, names))
        if c is None:
            continue
        add_boxes(rng, w, table, c, boxed)
        w.cons.append(c)
        u = rng.random()
        if u < 0.08:
            w.cons.append(c)                     # an exact duplicate: redundancy
        elif u < 0.5 and c[0].pkinds[:1] == ("d",):
            # the same relation on the same primitives with other parameters
            w.cons.append((c[0], c[1], c[0].params(w.args(w.X, c[1], table), rng)))
    rng.shuffle(w.cons)
    return w


def add_boxes(rng, w, table, c, boxed):
    sp, keys, _ = c
    if sp.boxes or sp.name in ("PositionAxis", "PositionAxisLabel", "CoincidentOutwardFaces", "Align"):
        for q in used_quads(table, keys):
            if q not in boxed:
                boxed.add(q)
                w.cons.append((specs.spec("Box", rng), (q,), ()))


def constrain_independent(rng, w, count, names=LINEAR_NAMES + NONLINEAR_NAMES * 2, smin=0.15, absolute=True,
                          tries=None):
    """Add constraints so that the reference Jacobian at w.X keeps full row rank with smallest singular value > smin."""
    table = w.ref_table()
    bykind = {}
    for k, (kind, _) in table.items():
        bykind.setdefault(kind, []).append(k)
    names = [n for n in names if absolute or n != "Fix"]
    names = [n for n in names if n not in ("AxisThicknessNone",)]
    J = np.zeros((0, w.X.size))
    boxed = set()
    s = max(1e-300, float(np.max(np.abs(w.X))))
    for _ in range(tries or 4 * count):
        if len(w.cons) >= count:
            break
        c = candidate(rng, w, table, bykind, pick(rng, names))
        if c is None:
            continue
        new = []
        newboxes = set()
        if c[0].boxes or c[0].name in ("PositionAxis", "PositionAxisLabel", "CoincidentOutwardFaces", "Align"):
            for q in used_quads(table, c[1]):
                if q not in boxed:
                    newboxes.add(q)
                    new.append((specs.spec("Box", rng), (q,), ()))
        # Rectangles shared as edges would duplicate rows: the rank test below drops such candidates
        new.append(c)
        Jn = np.vstack([J] + [jacobian(w, w.X, *x, table) for x in new])
        if Jn.shape[0] > Jn.shape[1]:
            continue
        norms = np.linalg.norm(Jn, axis=1)
        if np.any(norms < 1e-6):
            continue
        sv = np.linalg.svd(Jn / norms[:, None], compute_uv=False)
        if sv[-1] < smin:
            continue
        J = Jn
        boxed |= newboxes
        w.cons += new
    order = list(rng.permutation(len(w.cons)))
    w.cons = [w.cons[i] for i in order]
    return J


def start(rng, w, style):
    n = len(w.X)
    S = max(1e-12, float(np.max(np.abs(w.X))))
    if style == "near":
        return w.X + rng.normal(size=w.X.shape) * 0.01
    if style == "zeros":
        return np.zeros_like(w.X)
    if style == "same":
        return np.tile(rng.normal(size=2) * S, (n, 1))
    if style == "target":
        return w.X.copy()
    if style == "far":
        return rng.normal(size=w.X.shape) * S * 20 + rng.normal(size=2) * 10 * S
    if style == "mirror":
        return -w.X[:, ::-1] * rng.uniform(0.5, 2)
    return rng.normal(size=w.X.shape) * S * 2     # "random"


LINEAR_STARTS = ("random", "random", "far", "zeros", "same", "mirror", "near", "target")


def solve(L, **kw):
    return solver.solve(L, **kw)


def affine_jacobian(w):
    """(J, r0) of the reference error when it is affine: exact by evaluation at unit vectors."""
    n = w.X.size
    r0 = w.error_vec(np.zeros_like(w.X))
    J = np.zeros((r0.size, n))
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        J[:, k] = w.error_vec(e.reshape(-1, 2)) - r0
    return J, r0


def worst(w, X, S, rel):
    """(largest error / tolerance, label) over all constraints; tolerances scale with the constraint's degree."""
    best = (0.0, None)
    for (sp, keys, params), e in zip(w.cons, w.errors(X)):
        ndeg = 1 if (sp.mode == "zero" and sp.deg == 2) else sp.deg    # reference errors of 'zero' ones are lengths
        unit = 1.0 if sp.deg == 0 else S ** ndeg
        v = float(np.max(np.abs(e))) / (rel * unit) if e.size else 0.0
        if not np.isfinite(v):
            v = np.inf
        if v > best[0]:
            best = (v, (sp.label, keys, params, e))
    return best


def determine(rng, w, linear=True):
    """Add linear constraints until every coordinate is determined."""
    table = w.ref_table()
    keyof = {}
    for k, (kind, idx) in table.items():
        if kind == "P":
            keyof.setdefault(idx[0], []).append(k)
    order = list(rng.permutation(len(w.X)))
    done = [order[0]]
    fixk = keyof[order[0]]
    w.cons.append((specs.spec("Fix", rng), (pick(rng, fixk),), (w.X[order[0]].copy(),)))
    for i in order[1:]:
        if rng.random() < 0.25:
            w.cons.append((specs.spec("Fix", rng), (pick(rng, keyof[i]),), (w.X[i].copy(),)))
        else:
            for c, name in ((0, "XDistance"), (1, "YDistance")):
                j = pick(rng, done)
                a, b = (i, j) if rng.random() < 0.5 else (j, i)
                w.cons.append((specs.spec(name, rng), (pick(rng, keyof[a]), pick(rng, keyof[b])),
                               (float(w.X[b, c] - w.X[a, c]),)))
        done.append(i)
    rng.shuffle(w.cons)


def grid_world(rng, scale=1.0, linear_only=False):
    """Figure box, a grid of boxes inside it with margins: fully determined."""
    w = World()
    w.reuse = bool(rng.random() < 0.5)
    shape = pick(rng, ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)))
    quads, params = specs.rand_grid(rng, shape, scale)
    params = tuple(params)
    allq = np.array(quads)
    m = scale * rng.uniform(0.1, 1, 4)                       # left, right, bottom, top
    x0, y0 = allq[..., 0].min() - m[0], allq[..., 1].min() - m[2]
    x1, y1 = allq[..., 0].max() + m[1], allq[..., 1].max() + m[3]
    names = unique_names(rng, len(quads) + 1)
    w.add(names[0], "Q", w.add_points(ref.box(x0, y0, x1, y1)))
    qn = []
    for q, nme in zip(quads, names[1:]):
        if rng.random() < 0.3:
            w.add(nme, "A", {"Frame": w.add_points(q)})
            qn.append(nme + "/Frame")
        else:
            w.add(nme, "Q", w.add_points(q))
            qn.append(nme)
    for k in [names[0]] + qn:
        w.cons.append((specs.spec("Box", rng), (k,), ()))
    w.cons.append((specs.spec("Grid", rng, shape=shape), tuple(qn), params))
    w.cons.append((specs.spec("Fix", rng), (names[0] + "/Line0/Point0",), (w.X[0].copy(),)))
    if rng.random() < 0.5:
        w.cons.append((specs.spec("Width", rng), (names[0],), (float(x1 - x0),)))
        w.cons.append((specs.spec("Height", rng), (names[0],), (float(y1 - y0),)))
    else:
        w.cons.append((specs.spec("Width", rng), (qn[0],), (float(ref.width(quads[0])),)))
        w.cons.append((specs.spec("Height", rng), (qn[0],), (float(ref.height(quads[0])),)))
    r, c = shape
    corner = {"left": qn[0], "top": qn[0], "right": qn[-1], "bottom": qn[-1]}
    for side, v in zip(("left", "right", "bottom", "top"), m):
        # the last row/column really is the outermost one unless a negative gap hides it
        w.cons.append((specs.spec("InnerMargin", rng, side=side), (corner[side], names[0]),
                       (float(ref.inner_margin(quads[0 if side in ("left", "top") else -1],
                                               ref.box(x0, y0, x1, y1), side)),)))
    rng.shuffle(w.cons)
    return w
