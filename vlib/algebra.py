"""Random expressions over constructions: recipe -> (construction under test, expected numbers)."""
import numpy as np

from mpllayout import constructions as con
from mpllayout import primitives as pr

from . import consts, geo
from .common import pick, sgn

TWO = ("Coordinate", "LineVector", "UnitLineVector", "Midpoint", "UserPL")
KIND_CLS = {"P": pr.Point, "L": pr.Line, "Q": pr.Quadrilateral}


def leaf(rng, names=None):
    if names is None:
        names = consts.USER if rng.random() < 0.2 else consts.ALL
    return ("leaf", consts.spec(pick(rng, names), rng))


def size1(rng):
    return leaf(rng, [n for n in consts.LEAF if n not in TWO] + ["UserLLP"])


def size2(rng):
    return leaf(rng, TWO)


def gen(rng, depth):
    """A random recipe."""
    if depth == 0 or rng.random() < 0.12:
        return leaf(rng)
    op = pick(rng, ("neg", "pos", "mulc", "rmulc", "mulS", "rmulS", "divc", "divS", "powc", "powS", "sum", "sum", "sum",
                    "partial", "map", "constraint", "diff"))
    a = gen(rng, depth - 1)
    if op in ("sum", "diff"):
        if rng.random() < 0.15:
            return ("twice", a, pick(rng, ("sum", "diff", "sum of multiples")))
        if a[0] == "leaf" and a[1].name in consts.LEAF + ("UserPL", "UserLLP") and rng.random() < 0.7:
            n = 2 if a[1].name in TWO else 1
            b = size2(rng) if n == 2 else size1(rng)
        else:
            b = similar(rng, a)
        return (op, a, b)
    if op in ("mulc", "rmulc", "divc"):
        c = pick(rng, (2, -3, 0.5, -1.25, 7, float(rng.normal()) + 3))
        return (op, a, c)
    if op == "powc":
        return (op, a, pick(rng, (2, 3, 2.0, 1, -1, 0.5, -2)))
    if op == "map":
        return (op, a, int(rng.integers(1, 5)))
    if op == "partial":
        return (op, a, int(rng.integers(0, 3)))
    return (op, a)


def similar(rng, r):
    """Same tree structure, other leaves of the same class (options kept), other constants."""
    op = r[0]
    if op == "leaf":
        sp = r[1]
        opts = dict(sp.opts)
        if sp.name in ("Margin",):
            opts["outer"] = bool(rng.random() < 0.5)
        return ("leaf", consts.spec(sp.name, rng, **opts))
    if op in ("sum", "diff"):
        return (op, similar(rng, r[1]), similar(rng, r[2]))
    if op in ("mulc", "rmulc", "divc"):
        return (op, similar(rng, r[1]), float(rng.uniform(0.5, 3)))
    if op in ("powc", "map", "partial", "twice"):
        return (op, similar(rng, r[1]), r[2])
    return (op, similar(rng, r[1]))


class Inst:
    """An instantiated recipe: kinds/args/params of the combination and the expected value."""

    def __init__(self, kinds, args, params, value, cons):
        self.kinds, self.args, self.params, self.value, self.cons = kinds, args, params, value, cons


class Domain(Exception):
    pass


def _pow(v, p):
    with np.errstate(all="ignore"):
        out = np.asarray(v, dtype=float) ** float(p)
    if not np.all(np.isfinite(out)):
        raise Domain("power")
    return out


def build(r, frozen_for=None):
    """The construction described by a recipe (does not depend on arguments, except frozen parameters)."""
    raise NotImplementedError


def inst(rng, r, smp, parts, use_ops=True):
    """Instantiate; `parts` collects every (construction, kinds, args, params) evaluated on the way."""
    op = r[0]
    if op == "leaf":
        sp = r[1]
        c = sp.make()
        args, params = sp.random_args(rng, smp), sp.params(rng)
        out = Inst(list(sp.kinds), args, tuple(params), sp.value(args, params), c)
    elif op in ("neg", "pos", "mulc", "rmulc", "mulS", "rmulS", "divc", "divS", "powc", "powS", "constraint"):
        a = inst(rng, r[1], smp, parts)
        v, params = a.value, a.params
        if op == "neg":
            c, v = -a.cons, -v
        elif op == "pos":
            c = +a.cons
        elif op == "mulc":
            c, v = (a.cons * r[2] if rng.random() < 0.7 else con.transform_scalar_mul(a.cons, r[2])), v * r[2]
        elif op == "rmulc":
            c, v = r[2] * a.cons, v * r[2]
        elif op == "mulS":
            s = float(rng.normal())
            c = a.cons * con.Scalar() if rng.random() < 0.5 else con.transform_scalar_mul(a.cons, con.Scalar())
            v, params = v * s, params + (s,)
        elif op == "rmulS":
            s = float(rng.normal())
            c, v, params = con.Scalar() * a.cons, v * s, params + (s,)
        elif op == "divc":
            c, v = (a.cons / r[2] if rng.random() < 0.7 else con.transform_scalar_div(a.cons, r[2])), v / r[2]
        elif op == "divS":
            s = float(rng.uniform(0.3, 3)) * sgn(rng)
            c, v, params = a.cons / con.Scalar(), v / s, params + (s,)
        elif op == "powc":
            c, v = (a.cons ** r[2] if rng.random() < 0.7 else con.transform_scalar_pow(a.cons, r[2])), _pow(v, r[2])
        elif op == "powS":
            s = float(pick(rng, (2.0, 1.0, 0.5, -1.0)))
            c, v, params = a.cons ** con.Scalar(), _pow(v, s), params + (s,)
        else:
            c = con.transform_constraint(a.cons)
            if v.size == 1 and rng.random() < 0.5:
                val = float(rng.normal())
            else:
                val = rng.normal(size=v.size)
            v, params = v - val, params + (val,)
        out = Inst(a.kinds, a.args, params, v, c)
    elif op in ("sum", "diff"):
        a, b = inst(rng, r[1], smp, parts), inst(rng, r[2], smp, parts)
        if op == "sum":
            c = a.cons + b.cons if rng.random() < 0.7 else con.transform_sum(a.cons, b.cons)
            v = a.value + b.value
        else:
            c, v = a.cons + (-b.cons), a.value - b.value
        out = Inst(a.kinds + b.kinds, a.args + b.args, a.params + b.params, v, c)
    elif op == "twice":
        # the same object as both operands, applied to other primitives and parameters
        a = inst(rng, r[1], smp, parts)
        args = [geo.rand_geom(rng, k, smp, True) for k in a.kinds]
        params = tuple(p if isinstance(p, (bool, np.bool_)) else p * float(rng.uniform(0.7, 1.4)) for p in a.params)
        b = reference(a, r[1], args, params)
        if r[2] == "sum":
            c, v = a.cons + a.cons, a.value + b
        elif r[2] == "diff":
            c, v = a.cons + (-a.cons), a.value - b
        else:
            m = a.cons * 2.5
            c, v = m + m, 2.5 * (a.value + b)
        out = Inst(a.kinds + a.kinds, a.args + args, a.params + params, v, c)
    elif op == "partial":
        a = inst(rng, r[1], smp, parts)
        k = min(r[2], len(a.params))
        cut = len(a.params) - k
        c = con.transform_partial(a.cons, *a.params[cut:])
        out = Inst(a.kinds, a.args, a.params[:cut], a.value, c)
    elif op == "map":
        n = r[2]
        a = inst(rng, r[1], smp, parts)
        # further applications of the same construction with other first arguments and other parameters
        firsts, params, values = [a.args[0]], a.params, [a.value]
        for _ in range(n - 1):
            x, p = geo.rand_geom(rng, a.kinds[0], smp, True), a.params
            v = reference(a, r[1], [x] + a.args[1:], p)
            firsts.append(x)
            params = params + p
            values.append(v)
        c = con.transform_map(a.cons, n * [KIND_CLS[a.kinds[0]]] + [KIND_CLS[k] for k in a.kinds[1:]])
        out = Inst(n * [a.kinds[0]] + a.kinds[1:], firsts + a.args[1:], params, np.concatenate(values), c)
    else:
        raise KeyError(op)
    parts.append(out)
    return out


def reference(a, recipe, args, params):
    """Value of the already instantiated expression `a` at other arguments: the part evaluated separately."""
    prims = tuple(geo.mk(k, x) for k, x in zip(a.kinds, args))
    v = np.asarray(a.cons(prims, *params), dtype=float)
    if not np.all(np.isfinite(v)):
        raise Domain("map element")
    return v


def describe(r):
    if r[0] == "leaf":
        return r[1].label
    return r[0] + "(" + ", ".join(describe(x) if isinstance(x, tuple) else repr(x) for x in r[1:]) + ")"


def shape(r):
    if r[0] == "leaf":
        return r[1].name
    return (r[0],) + tuple(shape(x) for x in r[1:] if isinstance(x, tuple))
