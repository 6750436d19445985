"""C03: measuring constructions return the documented quantity, sign and number of values."""
import numpy as np

from vlib import consts, geo, ref, snap, specs
from vlib.common import coord_sampler, pick, require, fail, sgn

from mpllayout import constructions as con
from mpllayout.containers import Node


def observe(sp, c, args, params, rec):
    prims = tuple(geo.mk(k, a) for k, a in zip(sp.kinds, args))
    got = np.asarray(c(prims, *params), dtype=float)
    want = sp.value(args, params)
    require(got.ndim == 1 and got.size == want.size, "wrong number of values", construction=sp.label, got=got,
            documented=want)
    require(got.size == consts.total_size(c), "number of values differs from the declared signature",
            construction=sp.label, got=got.size, declared=consts.total_size(c))
    require(len(c.signature.prim_types) == len(sp.kinds) and len(c.signature.param_types) == len(params),
            "signature does not describe the arguments", construction=sp.label)
    tol = sp.tol(args, params)
    require(np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= tol, "measurement differs from the documented one",
            construction=sp.label, got=got, documented=want, args=args, params=params, tol=tol)
    # the local (leaf) function returns the same numbers
    if len(c) == 0:
        loc = np.atleast_1d(np.asarray(c.assem(prims, *params), dtype=float)).ravel()
        require(loc.size == want.size and np.max(np.abs(loc - want)) <= tol, "local evaluation differs",
                construction=sp.label, got=loc, documented=want)
    rec.event("measurement compared")
    return got


def table(rng, rec, idx):
    name = consts.ALL[idx % len(consts.ALL)]
    sp = consts.spec(name, rng)
    c = sp.make()
    smp = coord_sampler(rng)
    for _ in range(4):
        args = sp.random_args(rng, smp)
        for params in ([(False,), (True,)] if sp._params is consts._bool else [sp.params(rng)]):
            got = observe(sp, c, args, params, rec)
            quad = tuple(int(x) for x in np.sign(np.concatenate([geo.flat(a)[-2:] for a in args])))
            rec.state(sp.label, smp.style, smp.base, quad, params if params and isinstance(params[0], bool) else None)
    rec.sample(f"{sp.label}: args={[np.round(geo.flat(a), 4).tolist() for a in args]} params={params} -> {got.tolist()}")


def angles(rng, rec, idx):
    """Every pair of directions, the branch included: range and orientation."""
    n = 24
    i, j = idx % n, (idx // n) % n
    t0, t1 = (2 * np.pi * k / n + rng.uniform(0.01, 0.12) for k in (i, j))
    o0, o1 = rng.normal(size=2), rng.normal(size=2)
    l0 = np.array([o0, o0 + rng.uniform(0.1, 5) * np.array([np.cos(t0), np.sin(t0)])])
    l1 = np.array([o1, o1 + rng.uniform(0.1, 5) * np.array([np.cos(t1), np.sin(t1)])])
    want = (t1 - t0 + np.pi) % (2 * np.pi) - np.pi
    got = float(np.asarray(con.Angle()((geo.mk_line(l0), geo.mk_line(l1))))[0])
    require(-np.pi - 1e-12 <= got <= np.pi + 1e-12, "angle outside (-pi, pi)", got=got, directions=(t0, t1))
    d = abs(got - want)
    d = min(d, abs(2 * np.pi - d)) if abs(abs(want) - np.pi) < 1e-6 else d
    require(d < 1e-9, "angle is not the counter-clockwise angle from the first to the second line", got=got, want=want,
            directions=(t0, t1))
    rec.event("direction pair observed")
    rec.state("angle", i, j)


def lattice_angles(rng, rec, idx):
    """Exactly parallel, opposite and perpendicular lines, and lines along the axes."""
    while True:
        v = rng.integers(-4, 5, 2)
        if v.any():
            break
    q = idx % 4
    w = v
    for _ in range(q):
        w = np.array([-w[1], w[0]])
    f, g = (pick(rng, (1, 1, 2, 3, 0.5, 0.25)) for _ in range(2))
    o0, o1 = rng.integers(-20, 20, 2), rng.integers(-20, 20, 2)
    l0, l1 = np.array([o0, o0 + f * v], dtype=float), np.array([o1, o1 + g * w], dtype=float)
    got = float(np.asarray(con.Angle()((geo.mk_line(l0), geo.mk_line(l1))))[0])
    want = (0, np.pi / 2, np.pi, -np.pi / 2)[q]
    require(abs((abs(got) if q == 2 else got) - want) < 1e-9 and abs(got) <= np.pi + 1e-12,
            "angle between parallel, opposite or perpendicular lines", got=got, want=want, lines=(l0, l1))
    # whole numbers along these lines
    P = geo.mk_point(l0[0] + 2 * v)
    for rev in (False, True):
        require(abs(float(con.PointToLineDistance()((P, geo.mk_line(l0)), rev)[0])) < 1e-9 * 20, "distance of a point on the line", rev=rev)
    rec.event("exact direction pair observed")
    rec.state("lattice", q, tuple(np.sign(v)))


def special(rng, rec, idx):
    """Exact known values and relations between constructions at special positions."""
    smp = coord_sampler(rng)
    l = geo.rand_line(rng, smp)
    t = rng.uniform(-2, 3)
    u = ref.vec(l) / ref.norm(ref.vec(l))
    n = np.array([-u[1], u[0]])
    off = smp.base * rng.uniform(-2, 2)
    p = l[0] + t * ref.vec(l) + off * n
    P, L = geo.mk_point(p), geo.mk_line(l)
    S = max(geo.gscale([l, p]), 1e-300)
    tol = 1e-9 * S * max(1, S / ref.norm(ref.vec(l)))
    for rev in (False, True):
        along = float(con.PointOnLineDistance()((P, L), rev)[0])
        rel = float(con.RelativePointOnLineDistance()((P, L), rev)[0])
        orth = float(con.PointToLineDistance()((P, L), rev)[0])
        want = (1 - t if rev else t) * ref.norm(ref.vec(l))
        require(abs(along - want) <= tol, "distance along line", rev=rev, got=along, want=want, line=l, point=p)
        require(abs(rel - (1 - t if rev else t)) <= tol / ref.norm(ref.vec(l)), "fraction along line", rev=rev, got=rel,
                t=t)
        require(abs(orth - (-off if rev else off)) <= tol, "orthogonal distance", rev=rev, got=orth, want=off, line=l,
                point=p)
    rec.event("known position measured")
    for s in ref.SIDES + ("Line0", "Line1", "Line2", "Line3"):
        o = con.opposite_side(s)
        require(con.opposite_side(o) == s and o != s and (o in ref.SIDES) == (s in ref.SIDES), "opposite side", side=s,
                got=o)
    require(con.opposite_side("left") == "right" and con.opposite_side("bottom") == "top"
            and con.opposite_side("Line0") == "Line2" and con.opposite_side("Line1") == "Line3", "opposite side table")
    rec.state("special", smp.style, smp.base, t < 0, t > 1, off > 0)


def contrast(rng, rec, idx):
    """Short lines measured against far points: every quantity here is well conditioned, whatever the line's length."""
    eps = 10.0 ** rng.uniform(-10, 0)
    t = rng.uniform(-np.pi, np.pi)
    d = np.array([np.cos(t), np.sin(t)])
    a = eps * rng.uniform(-1, 1, 2)
    ln = eps * rng.uniform(0.5, 2)
    l = np.array([a, a + ln * d])
    d = ref.vec(l) / ref.norm(ref.vec(l))
    n = np.array([-d[1], d[0]])
    p = rng.uniform(0.5, 3) * sgn(rng) * d + rng.uniform(0.5, 3) * sgn(rng) * n
    P, L = geo.mk_point(p), geo.mk_line(l)

    def same(got, want, what, scale):
        got = np.asarray(got, dtype=float).ravel()
        require(np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= 1e-9 * scale, f"{what} of a short line", got=got,
                documented=want, line=l, point=p)
        rec.event("short line measured")

    for rev in (False, True):
        o, s = (l[1], -1.0) if rev else (l[0], 1.0)
        same(con.PointOnLineDistance()((P, L), rev), s * np.dot(p - o, d), "distance along", 1.0)
        same(con.PointToLineDistance()((P, L), rev), s * np.dot(p - l[0], n), "distance from", 1.0)
        same(con.RelativePointOnLineDistance()((P, L), rev), s * np.dot(p - o, d) / ref.norm(ref.vec(l)), "fraction along", 3 / ln)
    same(con.UnitLineVector()((L,)), d, "direction", 1.0)
    same(con.Length()((L,)), ref.norm(ref.vec(l)), "length", ln)
    # an angle between a short and a long line
    t2 = t + rng.uniform(-3, 3)
    l2 = np.array([p, p + rng.uniform(0.5, 2) * np.array([np.cos(t2), np.sin(t2)])])
    want = ref.signed_angle(l, l2)
    same(con.Angle()((L, geo.mk_line(l2))), want, "angle", 1.0)
    # a long, flat rectangle
    w, h = rng.uniform(0.5, 3), eps * rng.uniform(0.5, 2)
    if rng.random() < 0.5:
        w, h = h, w
    q = np.array([[0, 0], [w, 0], [w, h], [0, h]])
    Q = geo.mk_quad(q)
    same(con.AspectRatio()((Q,)), w / h, "aspect ratio", w / h)
    same(con.Width()((Q,)), w, "width", w)
    same(con.Height()((Q,)), h, "height", h)
    rec.state("contrast", int(np.floor(np.log10(eps))), w > h)


def rand_size_tree(rng, depth=0):
    own = int(rng.integers(0, 4))
    kids = {}
    if depth < 3:
        for k in range(int(rng.integers(0, 4 if depth else 5))):
            kids[f"c{k}" if rng.random() < 0.7 else f"Line{10 - k}"] = rand_size_tree(rng, depth + 1)
    return Node(own, kids)


def vectors(rng, rec, idx):
    """Vector/Scalar: the value split over any tree of sizes comes back complete and in order."""
    while True:
        tree = rand_size_tree(rng)
        def tot(n):
            return n.value + sum(tot(c) for c in n.values())
        n = tot(tree)
        if n > 0:
            break
    v = rng.normal(size=n)
    c = con.Vector(tree)
    got = np.asarray(c((), v), dtype=float)
    require(got.shape == v.shape and np.array_equal(got, v), "vector not returned completely and in order", got=got,
            value=v, tree=tree)
    require(got.size == consts.total_size(c), "vector signature", got=got.size)
    x = float(rng.normal())
    got = np.asarray(c((), x), dtype=float)
    require(np.all(got == x), "scalar value not broadcast over the vector", got=got, value=x)
    s = np.asarray(con.Scalar()((), x), dtype=float)
    require(s.shape == (1,) and s[0] == x, "scalar", got=s, value=x)
    require(s.size == consts.total_size(con.Scalar()), "scalar: number of values differs from the declared signature")
    rec.event("vector tree observed")
    rec.state("vector", repr(tree))


def sizes(rng, rec, idx):
    """Constraints are constructions too: as many numbers as declared, at every node."""
    name = specs.ALL[idx % len(specs.ALL)]
    sp = specs.spec(name, rng)
    c = sp.make()
    smp = coord_sampler(rng)
    args, params = sp.satisfy(rng, smp)
    got = np.asarray(c(specs.mk_args(sp, args), *params))
    require(got.ndim == 1 and got.size == consts.total_size(c), "number of residuals differs from the declared signature",
            constraint=sp.label, got=got.size, declared=consts.total_size(c))
    require(len(c.signature.prim_types) == len(sp.kinds) and len(c.signature.param_types) == len(params),
            "signature does not describe the arguments", constraint=sp.label)
    n = 0
    root = c.root_prim(tuple(f"arg{k}" for k in range(len(args))), specs.mk_args(sp, args))
    for (key, node), (_, pk), (_, pv) in zip(snap.walk(c), snap.walk(c.root_prim_keys(tuple(f"arg{k}" for k in range(len(args))))),
                                             snap.walk(c.root_params(params))):
        own = np.atleast_1d(np.asarray(node.assem(tuple(root[k] for k in pk.value), *pv.value)))
        require(own.size == node.signature.value_size, "number of values differs from the declared signature", constraint=sp.label,
                node=key, got=own.size, declared=node.signature.value_size)
        n += own.size
    require(n == got.size, "residual is not made of its nodes' values", constraint=sp.label, got=got.size, nodes=n)
    rec.event("declared constraint size observed")
    rec.state("size", sp.label)


GROUPS = {
    "lattice": dict(fn=lattice_angles, quick=160, thorough=4000),
    "sizes": dict(fn=sizes, quick=34 * 6, thorough=34 * 100),
    "table": dict(fn=table, quick=100 * len(consts.ALL), thorough=3000 * len(consts.ALL)),
    "angles": dict(fn=angles, quick=576, thorough=20 * 576),
    "special": dict(fn=special, quick=300, thorough=10000),
    "contrast": dict(fn=contrast, quick=300, thorough=10000),
    "vectors": dict(fn=vectors, quick=300, thorough=10000),
}
