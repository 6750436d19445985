"""Builders between plain arrays and the package's primitives, plus random geometry."""
import numpy as np

from mpllayout import primitives as pr

from . import ref
from .common import pick, sgn

AXES_PARTS = ("XAxis", "XAxisLabel", "YAxis", "YAxisLabel", "TwinXAxis", "TwinXAxisLabel", "TwinYAxis",
              "TwinYAxisLabel")


def mk_point(p):
    return pr.Point(np.array(p, dtype=float))


def mk_line(l):
    return pr.Line(prims=(mk_point(l[0]), mk_point(l[1])))


def mk_quad(q):
    return pr.Quadrilateral(None, [mk_point(v) for v in q])


def mk_poly(verts):
    return pr.Polygon(None, [mk_point(v) for v in verts], len(verts))


def axes_flags(parts):
    return dict(xaxis="XAxis" in parts, yaxis="YAxis" in parts, twinx="TwinXAxis" in parts,
                twiny="TwinYAxis" in parts)


def mk_axes(parts):
    """`parts` maps 'Frame' and any of AXES_PARTS to arrays."""
    prims = [mk_quad(parts["Frame"])]
    for key in AXES_PARTS:
        if key in parts:
            prims.append(mk_point(parts[key]) if key.endswith("Label") else mk_quad(parts[key]))
    return pr.Axes(None, tuple(prims), **axes_flags(parts))


MK = {"P": mk_point, "L": mk_line, "Q": mk_quad, "A": mk_axes}


def mk(kind, a):
    return MK[kind](a)


# -- reading back ------------------------------------------------------------------------------

def rd_point(p):
    return np.array(p.value, dtype=float)


def rd_line(l):
    return np.array([rd_point(l["Point0"]), rd_point(l["Point1"])])


def rd_quad(q):
    return np.array([rd_point(q[f"Line{i}/Point0"]) for i in range(4)])


def rd_axes(a):
    return {k: (rd_point(c) if isinstance(c, pr.Point) else rd_quad(c)) for k, c in a.items()}


RD = {"P": rd_point, "L": rd_line, "Q": rd_quad, "A": rd_axes}


# -- random geometry ---------------------------------------------------------------------------

def rand_point(rng, smp):
    return smp((2,))


def rand_line(rng, smp):
    style = rng.integers(5)
    while True:
        a = smp((2,))
        if style == 0:                      # axis aligned
            b = a.copy()
            b[int(rng.integers(2))] += sgn(rng) * smp.base * rng.uniform(0.1, 2)
        elif style == 1:                    # any angle, any quadrant
            t = rng.uniform(-np.pi, np.pi)
            b = a + smp.base * rng.uniform(0.1, 3) * np.array([np.cos(t), np.sin(t)])
        else:
            b = smp((2,))
        if ref.norm(b - a) > 0.02 * smp.base:
            return np.array([a, b])


def rand_box(rng, smp):
    o = smp((2,))
    w, h = smp.base * rng.uniform(0.05, 3, 2)
    return ref.box(o[0], o[1], o[0] + w, o[1] + h)


def rand_quad(rng, smp):
    while True:
        q = smp((4, 2))
        if min(ref.norm(ref.vec(ref.edge(q, i))) for i in range(4)) > 0.02 * smp.base:
            return q


def rand_axes_parts(rng, smp, need=()):
    parts = {"Frame": rand_box(rng, smp)}
    names = set(need)
    if rng.random() < 0.6:
        names |= {"XAxis"}
    if rng.random() < 0.6:
        names |= {"YAxis"}
    for n in list(names):
        base = n.replace("Twin", "").replace("Label", "")
        names.add(base)
    for b in ("XAxis", "YAxis"):
        if b in names and (("Twin" + b) in names or ("Twin" + b + "Label") in names or rng.random() < 0.3):
            names.add("Twin" + b)
    for key in AXES_PARTS:
        base = key.replace("Label", "")
        if base in names:
            parts[key] = smp((2,)) if key.endswith("Label") else rand_box(rng, smp)
    return parts


def rand_geom(rng, kind, smp, boxes=False):
    if kind == "P":
        return rand_point(rng, smp)
    if kind == "L":
        return rand_line(rng, smp)
    if kind == "Q":
        return rand_box(rng, smp) if boxes else rand_quad(rng, smp)
    raise KeyError(kind)


def flat(a):
    """All coordinates of a geometry value as one vector."""
    if isinstance(a, dict):
        return np.concatenate([np.ravel(v) for v in a.values()])
    return np.ravel(a)


def gscale(args):
    return max([1e-300] + [float(np.max(np.abs(flat(a)))) for a in args])


def min_edge(args):
    m = np.inf

    def lines_of(a):
        a = np.asarray(a)
        if a.shape == (2, 2):
            yield a
        elif a.shape == (4, 2):
            for i in range(4):
                yield ref.edge(a, i)

    for a in args:
        for part in (a.values() if isinstance(a, dict) else [a]):
            for l in lines_of(part):
                m = min(m, ref.norm(ref.vec(l)))
    return m
