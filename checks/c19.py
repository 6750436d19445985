"""C19: the numeric type of an input does not matter, and primitives do not share arrays with the caller."""
import warnings

import jax.numpy as jnp
import numpy as np

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from vlib import algebra, geo, snap, specs, world
from vlib.common import Skip, coord_sampler, pick, require

from .c17 import Disc

DTYPES = (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.float16, np.float32, np.float64)


def fits(x, dt):
    """Whether dtype dt represents the numbers exactly."""
    x = np.asarray(x, dtype=float)
    if np.issubdtype(dt, np.integer):
        i = np.iinfo(dt)
        return bool(np.all(x == np.round(x)) and np.all(x >= i.min) and np.all(x <= min(i.max, 2 ** 52)))
    with np.errstate(over="ignore"):
        return bool(np.all(x.astype(dt).astype(float) == x))


def dtype_for(rng, x):
    return pick(rng, [dt for dt in DTYPES if fits(x, dt)])


def py(rng, v):
    """A Python or numpy scalar equal to v."""
    v = float(v)
    if v == round(v) and abs(v) < 2 ** 52 and rng.random() < 0.5:
        return int(v)
    return v if rng.random() < 0.5 else dtype_for(rng, v)(v)


def vec(rng, rec, v, what):
    """A vector given in another way."""
    v = np.asarray(v, dtype=float)
    r = int(rng.integers(8))
    dt = dtype_for(rng, v)
    if r == 0:
        out = [py(rng, x) for x in v]
    elif r == 1:
        out = tuple(py(rng, x) for x in v)
    elif r == 2:
        out = jnp.asarray(v.astype(dt))
    elif r == 3:
        big = np.zeros(2 * v.size + 1, dtype=dt)
        big[1::2][:v.size] = v
        out = big[1::2][:v.size]
    elif r == 4:
        out = np.array(v[::-1], dtype=dt)[::-1]
    elif r == 5:
        out = np.array(v, dtype=dt)
        out.setflags(write=False)
    elif r == 6 and dt is not np.float16:
        out = np.array(v, dtype=np.dtype(dt).newbyteorder(">")) if what == "coordinate" else np.array(v, dtype=dt)
    else:
        out = np.array(v, dtype=dt)
    rec.state(what, r, np.dtype(dt).name)
    rec.event(f"{what} vector given as {type(out).__name__}")
    return out


def scal(rng, rec, v):
    """A scalar given in another way."""
    v = float(v)
    dt = dtype_for(rng, v)
    r = int(rng.integers(6))
    if r == 0:
        out = int(v) if v == round(v) else v
    elif r == 1:
        out = dt(v)
    elif r == 2:
        out = np.array(v, dtype=dt)
    elif r == 3:
        out = np.array([v], dtype=dt)
    elif r == 4:
        out = jnp.asarray(np.array(v, dtype=dt))
    else:
        out = jnp.asarray(np.array([v], dtype=dt))
    rec.state("scalar", r, np.dtype(dt).name)
    rec.event(f"scalar parameter given as {type(out).__name__}")
    return out


def other(rng, rec, p):
    if p is None:
        return p
    if isinstance(p, (bool, np.bool_)):
        out = pick(rng, (bool, np.bool_, int, np.int64))(p)
        rec.event("truth value given in another way", type(out) is not bool)
        return out
    return scal(rng, rec, p) if np.ndim(p) == 0 else vec(rng, rec, p, "parameter")


def integer_geometry(rng, args):
    """The same kind of arrangement with small whole (or half) coordinates; rectangles stay rectangles."""
    flat = [v for a in args for v in (a.values() if isinstance(a, dict) else [a])]
    S = max(float(np.max(np.abs(v - np.concatenate([np.atleast_2d(u) for u in flat]).mean(axis=0)))) for v in flat)
    k = pick(rng, (20, 60, 120, 120, 900)) / max(S, 1e-300)
    unit = pick(rng, (1.0, 1.0, 1.0, 0.5))
    base = min(float(np.min(v)) for v in flat)
    low = pick(rng, (0.0, 0.0, base * k))
    f = lambda v: np.round((np.asarray(v) - base) * k + low) * unit
    return [{key: f(v) for key, v in a.items()} if isinstance(a, dict) else f(a) for a in args]


def rand_param(rng, p, kind):
    if p is None or isinstance(p, (bool, np.bool_)):
        return p
    hi = pick(rng, (3, 100, 100, 250, 30000))
    lo = pick(rng, (0, 0, -hi))
    unit = pick(rng, (1.0, 1.0, 1.0, 0.125))
    v = rng.integers(lo, hi + 1, size=np.shape(p)).astype(float) * unit
    if kind == "d":
        v = rng.integers(0 if lo == 0 else -5, 6, size=2).astype(float)
        v[int(rng.integers(2))] += 1.0 if not v.any() else 0.0
    return v if np.ndim(p) else float(v)


def build(kinds, args, conv):
    """Primitives whose vertices are given by conv(coordinates); equal vertices within an argument are one vertex."""
    w = world.World()
    for i, (k, a) in enumerate(zip(kinds, args)):
        w.add(f"p{i}", k, {p: w.add_points(np.atleast_2d(v)) for p, v in a.items()} if k == "A" else w.add_points(np.atleast_2d(a)))
    pts = [pr.Point(conv(p)) for p in w.X]
    return tuple(w._build(kind, idx, pts) for kind, idx in w.prims.values())


def same(got, want, what, **detail):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    require(got.shape == want.shape, f"{what}: shapes differ", got=got.shape, want=want.shape, **detail)
    tol = 1e-11 * max(1.0, np.nanmax(np.abs(want), initial=0))
    ok = (np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want)) | (got == want)
    require(np.all(ok), f"{what} for equal numbers", got=got, want=want, **detail)


def residuals(rng, rec, idx):
    name = specs.ALL[idx % len(specs.ALL)]
    kw = {"shape": pick(rng, ((1, 2), (2, 1), (2, 2), (2, 3)))} if name in ("Grid", "RectilinearGrid") else \
        {"n": pick(rng, (2, 3, 4))} if name == "OuterMarginArray" else {}
    sp = specs.spec(name, rng, **kw)
    smp = coord_sampler(rng)
    args, params = sp.satisfy(rng, smp)
    args = integer_geometry(rng, args)
    if geo.min_edge(args) < 0.5:
        raise Skip("zero-length edge")
    kinds = list(sp.pkinds) + ["a"] * (len(params) - len(sp.pkinds))
    params = tuple(rand_param(rng, p, k) for p, k in zip(params, kinds))
    c = sp.make()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = np.asarray(c(build(sp.kinds, args, lambda p: p.copy()), *params), dtype=float)
        # parameters alone, coordinates alone, both
        for conv, ps, what in (
                (lambda p: vec(rng, rec, p, "coordinate"), params, "coordinates"),
                (lambda p: p.copy(), tuple(other(rng, rec, p) for p in params), "parameters"),
                (lambda p: vec(rng, rec, p, "coordinate"), tuple(other(rng, rec, p) for p in params), "coordinates and parameters")):
            prims = build(sp.kinds, args, conv)
            try:
                got = c(prims, *ps)
            except Exception as e:
                require(False, f"{what} given in another numeric representation raise {type(e).__name__}", error=str(e)[:200],
                        label=sp.label, params=ps)
            same(got, want, f"residuals differ ({what})", label=sp.label, params=ps, want_params=params,
                 points=[np.asarray(q.value) for _, q in snap.walk(prims[0]) if isinstance(q, pr.Point)][:4])
            rec.event("residual compared")
    rec.sample(f"{sp.label} with {params}: {want}")
    rec.state("constraint", sp.label)


def combined(rng, rec, idx):
    smp = coord_sampler(rng)
    r = algebra.gen(rng, 1 + idx % 3)
    try:
        i = algebra.inst(rng, r, smp, [])
    except algebra.Domain:
        raise Skip("outside the real domain")
    prims = build(i.kinds, i.args, lambda p: p.copy())
    pow_ = "pow" in algebra.describe(r)
    # round the parameters so that narrow types can represent them
    params = tuple(p if p is None or isinstance(p, (bool, np.bool_)) else (np.round(np.asarray(p, dtype=float)) if not pow_ else np.asarray(p, dtype=float))
                   for p in i.params)
    params = tuple(float(p) if isinstance(p, np.ndarray) and p.ndim == 0 else p for p in params)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = np.asarray(i.cons(prims, *params), dtype=float)
        if not np.all(np.isfinite(want)):
            raise Skip("outside the real domain")
        ps = tuple(other(rng, rec, p) for p in params)
        got = i.cons(build(i.kinds, i.args, lambda p: vec(rng, rec, p, "coordinate")), *ps)
    same(got, want, "combined residuals differ", label=algebra.describe(r), params=ps)
    rec.event("combined residual compared")
    rec.state("combined", algebra.shape(r))


def solved(rng, rec, idx):
    """Whole layouts declared and solved with other representations of the same numbers."""
    w = world.target(rng, scale=1.0, kinds="PLLQQAG")
    unit = pick(rng, (1.0, 1.0, 0.5, 0.25))
    k = pick(rng, (2.0, 10.0, 40.0)) / unit
    X = np.round(w.X * k) * unit
    if idx % 3:
        X = X - np.floor(X.min())
    w.X = X
    if idx % 4 == 3:
        world.constrain_independent(rng, w, int(rng.integers(2, 7)))
    else:
        world.constrain_linear(rng, w, int(rng.integers(3, 9)))
    if not w.cons:
        raise Skip("no constraint could be generated")
    start = X + rng.integers(0, 3, size=X.shape) * unit if idx % 4 != 3 else X + unit * (rng.random(X.shape) < 0.3)
    # whole-number parameters where the relation allows it: other numbers, still consistent
    method = "newton" if rng.random() < 0.85 else "minimize"

    def declare(conv, par, cls=lay.Layout):
        pts = [pr.Point(conv(p)) for p in start]
        L = cls()
        for name, (kind, ix) in w.prims.items():
            L.add_prim(w._build(kind, ix, pts), name)
        for sp, keys, params in w.cons:
            L.add_constraint(sp.make(), keys, tuple(par(p) for p in params))
        return L

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = rng.bit_generator.state
        A = declare(lambda p: p.copy(), lambda p: p)
        B = declare(lambda p: vec(rng, rec, p, "coordinate"), lambda p: other(rng, rec, p))
        ra, ia = solver.solve(A, method=method)
        rb, ib = solver.solve(B, method=method)
        rc, _ = solver.solve(B, method=method)
    a, wa = w.read(ra)
    if not np.all(np.isfinite(a)) or np.max(np.abs(a)) > 1e4 * max(1.0, np.max(np.abs(X))):
        raise Skip("the solve diverged")
    res = [np.asarray(v, dtype=float) for v in ia.get("abs_errs", [])]
    if idx % 4 == 3 and (not res or res[-1] > 1e-6):
        raise Skip("the nonlinear solve has not converged")
    for other_root, what in ((rb, "other representations"), (rc, "other representations, solved again")):
        b, wb = w.read(other_root)
        tol = (1e-8 if method == "newton" else 1e-4) * max(1.0, np.max(np.abs(X)))
        require(np.all(np.abs(a - b) <= tol), f"solved geometry differs for equal numbers ({what})", worst=np.max(np.abs(a - b)),
                method=method, world=w.describe())
        rec.maximum(f"difference of solved coordinates ({method})", np.max(np.abs(a - b)))
        rec.event("solved geometry compared")
    rec.state("solved", method, tuple(sorted({sp.name for sp, *_ in w.cons})))


def aliasing(rng, rec, idx):
    """One array used for several primitives and changed afterwards."""
    r = idx % 5
    dt = pick(rng, DTYPES)
    base = rng.integers(0, 100, size=2).astype(dt)
    want = base.astype(float)
    store = np.zeros(6, dtype=dt)
    form = pick(rng, ("array", "view", "readonly", "primitive", "jax"))
    if form == "view":
        store[2:4] = base
        given = store[2:4]
    elif form == "readonly":
        given = base.view()
        given.setflags(write=False)
    elif form == "primitive":
        given = pr.Point(base).value
        base = given
    elif form == "jax":
        given = jnp.asarray(base)
    else:
        given = base
    a, b = pr.Point(given), pr.Point(given)
    line = pr.Line(prims=(a, b))
    quad = pr.Quadrilateral(None, [pr.Point(given) for _ in range(4)])
    every = [a, b] + [quad[f"Line{i}/Point0"] for i in range(4)]
    require(len({id(p.value) for p in every}) == 6, "primitives built from one array share their vertex")
    uniq, vals = pr.filter_unique_values_from_prim(pr.PrimitiveNode(np.array([]), {"L": line, "Q": quad}))
    require(len([v for v in vals if np.size(getattr(v, "value", v))]) == 6, "primitives built from one array are linked", got=len(vals))
    if r == 0:
        # change the caller's array
        if form == "view":
            store[:] = 7
        elif form in ("array", "readonly", "primitive"):
            base[:] = 7
        for p in every:
            require(np.array_equal(np.asarray(p.value, dtype=float), want), "changing the caller's array changed a primitive",
                    got=p.value, want=want, form=form)
        rec.event("caller's array changed")
    elif r == 1:
        # change one primitive in place
        if isinstance(a.value, np.ndarray) and a.value.flags.writeable:
            a.value[0] = 111
            require(np.array_equal(np.asarray(given, dtype=float), want), "changing a primitive changed the caller's array", form=form)
            for p in every[1:]:
                require(np.array_equal(np.asarray(p.value, dtype=float), want), "changing a primitive changed another", form=form)
            rec.event("primitive changed in place")
    elif r == 2:
        # solve with one of them moved
        L = lay.Layout()
        L.add_prim(line, "L")
        L.add_prim(quad, "Q")
        to = want + [3.0, -2.0]
        L.add_constraint(cr.Fix(), (pick(rng, ("L/Point0", "Q/Line2/Point0")),), (to,))
        key = list(L.root_prim_keys.values())[0].value[0]
        if form in ("array", "primitive"):
            base[:] = 7
        before = np.asarray(given, dtype=float).copy()
        root, _ = solver.solve(L)
        for k in ["L/Point0", "L/Point1"] + [f"Q/Line{i}/Point0" for i in range(4)]:
            w = to if k == key else want
            require(np.allclose(np.asarray(root[k].value, dtype=float), w, atol=1e-9), "a primitive moved with another one or with the caller's array",
                    key=k, got=root[k].value, want=w, form=form)
        require(np.array_equal(np.asarray(given, dtype=float), before), "solving changed the caller's array")
        rec.event("linked primitives solved")
    elif r == 3:
        # other kinds of primitives
        rad = np.array([4.0, 5.0]).astype(dt)
        d0, d1 = Disc(rad[:1], (a,)), Disc(rad[:1], (b,))
        rad[:] = 9
        require(float(d0.value[0]) == 4 and float(d1.value[0]) == 4 and d0.value is not d1.value,
                "primitives share their values with the caller's array", got=(d0.value, d1.value))
        empty = np.array([], dtype=float)
        l0, l1 = pr.Line(empty, (pr.Point(given), pr.Point(given))), pr.Line(empty, (pr.Point(given), pr.Point(given)))
        require(l0["Point0"].value is not l1["Point0"].value, "lines built from one array share a vertex")
        rec.event("custom primitive values copied")
    else:
        # lists of arrays, reused buffers in loops
        buf = np.zeros(2, dtype=dt)
        pts, wants = [], []
        for j in range(int(rng.integers(2, 9))):
            buf[:] = rng.integers(0, 100, size=2)
            pts.append(pr.Point(buf))
            wants.append(buf.astype(float).copy())
        poly = pr.Polygon(prims=pts)
        for j, w in enumerate(wants):
            require(np.array_equal(np.asarray(poly[f"Line{j}/Point0"].value, dtype=float), w), "a reused buffer linked primitives",
                    got=poly[f"Line{j}/Point0"].value, want=w)
        rec.event("reused buffer")
    rec.state("aliasing", r, form, np.dtype(dt).name)


GROUPS = {
    "residuals": dict(fn=residuals, quick=34 * 9, thorough=34 * 400),
    "combined": dict(fn=combined, quick=120, thorough=6000),
    "solved": dict(fn=solved, quick=80, thorough=2500),
    "aliasing": dict(fn=aliasing, quick=300, thorough=9000),
}
