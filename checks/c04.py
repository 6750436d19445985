"""C04: combined constructions equal the combination of their parts."""
import numpy as np

from vlib import algebra, consts, geo
from vlib.common import Skip, coord_sampler, require, pick

from mpllayout import constructions as con


def _eval(i):
    prims = tuple(geo.mk(k, a) for k, a in zip(i.kinds, i.args))
    return np.asarray(i.cons(prims, *i.params), dtype=float)


def _smp(rng):
    s = coord_sampler(rng)
    while s.base > 50 or s.base < 1e-2:
        s = coord_sampler(rng)
    return s


def expressions(rng, rec, idx):
    depth = 1 + idx % 4
    smp = _smp(rng)
    r = algebra.gen(rng, depth)
    parts = []
    try:
        top = algebra.inst(rng, r, smp, parts)
    except algebra.Domain as e:
        raise Skip(f"outside the domain: {e}")
    mag = max([1.0] + [float(np.max(np.abs(p.value))) if p.value.size else 0.0 for p in parts])
    if mag > 1e8 or any(p.value.size and np.min(np.abs(p.value)) < 1e-8 for p in parts if r[0].startswith("pow")):
        raise Skip("badly scaled")
    for p in parts:                       # parts first, the whole expression last
        got = _eval(p)
        require(got.shape == p.value.shape, "combination has the wrong number of values",
                expression=algebra.describe(r), got=got, expected=p.value)
        tol = 1e-7 * np.maximum(1.0, np.abs(p.value)) * max(1.0, mag ** 0.5)
        require(np.all(np.abs(got - p.value) <= tol), "combination differs from combining the parts",
                expression=algebra.describe(r), got=got, expected=p.value, args=p.args, params=p.params)
        require(consts.total_size(p.cons) == got.size, "combined construction returns another number of values than declared",
                expression=algebra.describe(r), declared=consts.total_size(p.cons), got=got.size)
        require(len(p.cons.signature.prim_types) == len(p.kinds)
                and len(p.cons.signature.param_types) == len(p.params), "combined signature does not match its inputs",
                expression=algebra.describe(r), signature=p.cons.signature, kinds=p.kinds, params=p.params)
        rec.event("combination compared")
    # building the larger expressions left the parts unchanged: evaluate them again
    first = [_eval(p) for p in parts]
    again = [_eval(p) for p in reversed(parts)][::-1]
    for p, x, y in zip(parts, first, again):
        require(np.array_equal(x, y), "evaluating combinations changed a part", expression=algebra.describe(r))
    rec.state(algebra.shape(r))
    rec.event(f"top-level {r[0]}")
    rec.sample(f"{algebra.describe(r)} = {np.round(top.value, 6).tolist()}")


def compound_sums(rng, rec, idx):
    """Sums, multiples and constraints of compound/mapped constructions on independent operands."""
    smp = _smp(rng)
    names = consts.COMPOUND + ("UserTree",)
    name = names[idx % len(names)]
    a = ("leaf", consts.spec(name, rng))
    b = algebra.similar(rng, a)
    r = pick(rng, [("sum", a, b), ("diff", ("mulS", a), ("divc", b, 3.0)), ("constraint", ("sum", a, b)),
                   ("constraint", ("map", a, int(rng.integers(1, 5)))), ("sum", ("map", a, 3), ("map", b, 3)),
                   ("mulS", ("constraint", a)), ("constraint", ("mulS", ("map", a, 2))), ("map", ("sum", a, b), 2),
                   ("sum", ("constraint", a), ("constraint", b)), ("map", ("constraint", a), 3),
                   ("constraint", ("map", ("map", a, 2), 3)) if len(a[1].kinds) == 1 else ("neg", a),
                   ("constraint", ("constraint", a)), ("sum", ("sum", a, b), ("sum", b, a))])
    parts = []
    algebra.inst(rng, r, smp, parts)
    for p in parts:
        got = _eval(p)
        require(got.shape == p.value.shape and np.all(np.abs(got - p.value) <= 1e-8 * max(1, np.max(np.abs(p.value)))),
                "combination of compound constructions differs from combining the parts",
                expression=algebra.describe(r), got=got, expected=p.value, args=p.args, params=p.params)
        rec.event("compound combination compared")
    rec.state("compound", algebra.shape(r))


def argument_order(rng, rec, idx):
    """Sums of many operands keep every operand on its own primitives (more than ten arguments)."""
    smp = _smp(rng)
    n = pick(rng, (2, 3, 6, 11, 13))
    names = ["XDistance", "YDistance", "Length", "XLength", "MidpointXDistance", "PointToLineDistance",
             "PointOnLineDistance", "DirectedLength"]
    if rng.random() < 0.4:
        names = ["Width"] if rng.random() < 0.5 else ["OuterMargin"]
    opts = {"side": "left"} if names == ["OuterMargin"] else {}
    acc, total, args, kinds, params = None, 0.0, [], [], ()
    weights = rng.uniform(-2, 2, n)
    for k in range(n):
        sp = consts.spec(pick(rng, names), rng, **opts)
        a, p = sp.random_args(rng, smp), sp.params(rng)
        term = sp.make() * float(weights[k])
        acc = term if acc is None else acc + term
        total = total + weights[k] * sp.value(a, p)
        args += a
        kinds += sp.kinds
        params += tuple(p)
    got = np.asarray(acc(tuple(geo.mk(k, a) for k, a in zip(kinds, args)), *params), dtype=float)
    require(np.all(np.abs(got - total) <= 1e-8 * geo.gscale(args) * n), "long sum differs from the sum of its terms", n=n,
            got=got, expected=total)
    rec.event("long sum compared")
    rec.state("long", n, tuple(kinds))


GROUPS = {
    "expressions": dict(fn=expressions, quick=1600, thorough=40000),
    "compound_sums": dict(fn=compound_sums, quick=400, thorough=10000),
    "argument_order": dict(fn=argument_order, quick=120, thorough=3000),
}
