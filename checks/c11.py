"""C11: ill-formed uses raise and leave no trace; well-formed uses are accepted."""
import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import containers as cn
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from vlib import algebra, consts, geo, snap, specs
from vlib.common import Skip, coord_sampler, fail, pick, require


class MyPoint(pr.Point):
    pass


class MyLine(pr.Line):
    pass


class MyQuad(pr.Quadrilateral):
    pass


class MyAxes(pr.Axes):
    pass


class Circle(pr.StaticPrimitive):
    """A user-defined primitive: a radius and a centre."""
    signature = (1, (pr.Point,))

    @classmethod
    def init_children(cls, prims):
        return ("Center",), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0])

    @classmethod
    def default_prims(cls):
        return (pr.Point([0, 0]),)


class Ring(pr.StaticPrimitive):
    """A user-defined primitive made of any number of circles, or of two points."""
    signature = (0, {(Circle, ...), (pr.Point, pr.Point)})

    @classmethod
    def init_children(cls, prims):
        return [f"Part{i}" for i in range(len(prims))], prims

    @classmethod
    def default_value(cls):
        return np.array(())

    @classmethod
    def default_prims(cls):
        return (Circle(),)


def special(kind, prim):
    """The same geometry as a primitive of a more special kind."""
    if kind == "P":
        return MyPoint(np.array(prim.value))
    if kind == "L":
        return MyLine(prims=tuple(MyPoint(np.array(p.value)) for p in prim.values()))
    if kind == "Q":
        return MyQuad(None, [MyPoint(np.array(prim[f"Line{i}/Point0"].value)) for i in range(4)])
    parts = tuple(special("Q" if isinstance(c, pr.Quadrilateral) else "P", c) for c in prim.values())
    return MyAxes(None, parts, xaxis="XAxis" in prim, yaxis="YAxis" in prim, twinx="TwinXAxis" in prim,
                  twiny="TwinYAxis" in prim)


KINDS = "PLQA"


def rand_prim(rng, kind, smp):
    if kind == "A":
        return geo.mk_axes(geo.rand_axes_parts(rng, smp))
    return geo.mk(kind, geo.rand_geom(rng, kind, smp))


def strangers(rng, kind, smp):
    """Things that are not primitives of this kind."""
    out = [rand_prim(rng, k, smp) for k in KINDS if k != kind]
    out += [geo.mk_poly(smp((n, 2))) for n in (3, 4, 5)]
    out += [pr.PrimitiveNode(np.array(()), {}), Circle(), cn.Node(np.array([0.0, 1.0]), {}), np.array([0.0, 1.0]), None, "P"]
    return out


def rejected(fn, what, rec, event, **detail):
    try:
        out = fn()
    except Exception:
        rec.event(event)
        return
    fail(f"{what}: accepted", result=out, **detail)


def bad_params(rng, sp_label, params, pkinds, name):
    """Parameter tuples whose number does not fit."""
    out = [("one more", params + (1.0,)), ("two more", params + (0.5, 2.0))]
    if params:
        out += [("one fewer", params[:-1]), ("first missing", params[1:]), ("none", ())]
        out += [("first doubled", params[:1] + params)]
    for j, k in enumerate(pkinds):
        if k == "a":
            v = np.asarray(params[j], dtype=float)
            put = lambda w: params[:j] + (w,) + params[j + 1:]
            out.append((f"list {j} one longer", put(np.append(v, 1.0))))
            out.append((f"list {j} two longer", put(np.append(v, [1.0, 2.0]))))
            if v.size:
                out.append((f"list {j} one shorter", put(v[:-1])))
                out.append((f"list {j} empty", put(v[:0])))
            # the total number stays right
            for i, ki in enumerate(pkinds):
                w = np.asarray(params[i], dtype=float)
                if i != j and ki == "a" and w.size:
                    q = list(params)
                    q[j], q[i] = np.append(v, w[-1]), w[:-1]
                    out.append((f"one value of list {i} moved to list {j}", tuple(q)))
        elif k in "Vv" and name not in ("AxisThicknessNone", "RelativeLength"):
            v = np.atleast_1d(np.asarray(params[j], dtype=float))
            out.append((f"vector {j} one longer", params[:j] + (np.append(v, 1.0),) + params[j + 1:]))
            out.append((f"vector {j} empty", params[:j] + (v[:0],) + params[j + 1:]))
    return out


def bad_args(rng, kinds, args, smp):
    out = [("none", ()), ("one more", args + (args[-1] if args else pr.Point(),)), ("all twice", args + args)]
    if args:
        out.append(("one fewer", args[:-1]))
        if len(args) > 1:
            out.append(("first missing", args[1:]))
        for j, k in enumerate(kinds):
            for x in strangers(rng, k, smp):
                out.append((f"argument {j} a {type(x).__name__}", args[:j] + (x,) + args[j + 1:]))
    return [(w, a) for w, a in out if len(a) != len(args) or args]


def direct(rng, rec, idx):
    """Calling constraints, constructions and combinations."""
    smp = coord_sampler(rng)
    r = rng.random()
    if r < 0.5:
        sp = specs.spec(specs.ALL[idx % len(specs.ALL)], rng)
        c, kinds, (args, params), name, pk = sp.make(), list(sp.kinds), sp.satisfy(rng, smp), sp.name, sp.pkinds
        label = sp.label
    elif r < 0.75:
        sp = consts.spec(consts.ALL[idx % len(consts.ALL)], rng)
        c, kinds, args, params, name, pk = sp.make(), list(sp.kinds), sp.random_args(rng, smp), sp.params(rng), sp.name, ()
        label = sp.label
    else:
        rec_ = algebra.gen(rng, int(rng.integers(1, 4)))
        parts = []
        try:
            i = algebra.inst(rng, rec_, smp, parts)
        except algebra.Domain:
            raise Skip("outside the real domain")
        c, kinds, args, params, name, pk, label = i.cons, i.kinds, i.args, i.params, "combination", (), algebra.describe(rec_)
    prims = tuple(geo.mk(k, a) for k, a in zip(kinds, args))
    params = tuple(params)
    before = [snap.freeze(p, True) for p in prims]
    ref = np.asarray(c(prims, *params), dtype=float)
    rec.event("well-formed use accepted")
    if "_need" not in getattr(sp, "opts", {}) if r < 0.75 else True:
        sub = tuple(special(k, p) for k, p in zip(kinds, prims))
        got = np.asarray(c(sub, *params), dtype=float)
        require(np.array_equal(ref, got, equal_nan=True), "primitives of a more special kind give other numbers", label=label,
                got=got, want=ref)
        rec.event("special kind accepted")
    wrong = bad_args(rng, kinds, prims, smp)
    if len(wrong) > 14:
        wrong = [wrong[j] for j in rng.choice(len(wrong), 14, replace=False)]
    for what, a in wrong:
        if len(a) == len(prims) == 0:
            continue
        rejected(lambda: c(a, *params), f"wrong primitives ({what})", rec, "ill-formed call rejected", label=label)
        rec.state("args", name, what)
    for what, p in bad_params(rng, label, params, pk, name):
        rejected(lambda: c(prims, *p), f"wrong parameters ({what})", rec, "ill-formed call rejected", label=label, params=p)
        rec.state("params", name, what)
    require([snap.freeze(p, True) for p in prims] == before, "a refused call changed its primitives", label=label)
    again = np.asarray(c(prims, *params), dtype=float)
    require(np.array_equal(ref, again, equal_nan=True), "refused calls changed the construction", label=label)
    rec.sample(f"{label}: {len(wrong)} wrong argument tuples rejected")


def adding(rng, rec, idx):
    """Adding constraints to a layout."""
    smp = coord_sampler(rng)
    sp = specs.spec(specs.ALL[idx % len(specs.ALL)], rng)
    c, kinds = sp.make(), list(sp.kinds)
    args, params = sp.satisfy(rng, smp)
    params = tuple(params)
    L = lay.Layout()
    keys = []
    nested = rng.random() < 0.5
    for i, (k, a) in enumerate(zip(kinds, args)):
        prim = geo.mk(k, a)
        if rng.random() < 0.3:
            prim = special(k, prim)
        key = f"K{i}"
        if nested and k in "PQ":
            # the primitive as a part of axes
            parts = (prim, ) if k == "Q" else (geo.mk("Q", geo.rand_box(rng, smp)), geo.mk("Q", geo.rand_box(rng, smp)), prim)
            L.add_prim(pr.Axes(None, parts, xaxis=k == "P"), key)
            key += "/Frame" if k == "Q" else "/XAxisLabel"
        elif nested and k == "L":
            p0, p1 = prim.values()
            L.add_prim(geo.mk_poly([p0.value, p1.value, smp((2,)), smp((2,))]), key)
            key += "/Line0"
        else:
            L.add_prim(prim, key)
        keys.append(key)
    keys = tuple(keys)
    for k in KINDS:
        L.add_prim(rand_prim(rng, k, smp), f"other {k}")
    L.add_prim(geo.mk_poly(smp((4, 2))), "other G")
    if rng.random() < 0.5:
        L.add_constraint(cr.Fix(), ("other P",), ((0.0, 0.0),))
    before = snap.layout(L)
    others = {"P": ["other P", "other L/Point0", "other A/Frame/Line1/Point1"], "L": ["other L", "other Q/Line3", "other G/Line0"],
              "Q": ["other Q", "other A/Frame"], "A": ["other A"], "G": ["other G"]}
    bad = []
    for j, k in enumerate(kinds):
        for kk, names in others.items():
            if kk != k:
                bad += [(f"argument {j} of kind {kk}", keys[:j] + (n,) + keys[j + 1:], params) for n in names]
        for u in ("no such", keys[j] + "/Nope", keys[j] + "/", "", "/" + keys[j], keys[j] + "/Line0/Point0/x", f"{keys[j]} ",
                  "other A/XAxis/Line9"):
            bad.append((f"argument {j} unknown", keys[:j] + (u,) + keys[j + 1:], params))
    if keys:
        bad += [("one key fewer", keys[:-1], params), ("one key more", keys + keys[-1:], params), ("no keys", (), params)]
    bad += [(w, keys, p) for w, p in bad_params(rng, sp.label, params, sp.pkinds, sp.name)]
    if sp.name.startswith("PositionAxis"):
        # axes without the part
        L.add_prim(pr.Axes(), "bare")
        before = snap.layout(L)
        bad.append(("axes without the axis", ("bare",), params))
    if len(bad) > 24:
        bad = [bad[j] for j in rng.choice(len(bad), 24, replace=False)]
    for what, ks, ps in bad:
        key = pick(rng, ("", "", "named"))
        rejected(lambda: L.add_constraint(c, ks, ps, key), f"adding with {what}", rec, "ill-formed addition rejected",
                 label=sp.label, keys=ks, params=ps)
        after = snap.layout(L)
        require(after == before, "a refused addition left a trace", label=sp.label, what=what, difference=snap.diff(before, after))
        rec.event("no trace left")
        rec.state("add", sp.name, what)
    n = len(L.root_constraint)
    L.add_constraint(c, keys, params, pick(rng, ("", "named")))
    require(len(L.root_constraint) == n + 1, "a well-formed addition was not recorded")
    rec.event("well-formed use accepted")
    if idx % 4 == 0 and sp.name != "Angle":
        sol, _ = solver.solve(L, max_iter=1)
        require(snap.skeleton(sol) == snap.skeleton(L.root_prim), "a layout with special kinds is solved into other kinds",
                label=sp.label)
        rec.event("well-formed layout solved")


def primitives(rng, rec, idx):
    """Building primitives."""
    smp = coord_sampler(rng)
    P = lambda: pick(rng, (pr.Point, MyPoint))(smp((2,)))
    Ln = lambda: pick(rng, (pr.Line, MyLine))(prims=(P(), P()))
    Q = lambda: pick(rng, (pr.Quadrilateral, MyQuad))(None, [P() for _ in range(4)])
    G = lambda: pr.Polygon(None, [P() for _ in range(4)], 4)
    A = lambda: pr.Axes()
    seq = pick(rng, (tuple, list))
    ok, bad = [], []
    C = pick(rng, (pr.Point, MyPoint))
    ok.append(("point", lambda: C(smp((2,)))))
    for v in (np.zeros(0), np.zeros(1), np.zeros(3), np.zeros(4), np.zeros((2, 2)), np.zeros((2, 1)), np.zeros((1, 2)), [1.0],
              (1.0, 2.0, 3.0), [], 5.0, np.array(5.0), "ab"):
        bad.append((f"point with value {v!r}", lambda v=v: C(v)))
    for parts in ((P(),), (P(), P()), (Ln(),)):
        bad.append((f"point with {len(parts)} parts", lambda parts=parts: C(smp((2,)), parts)))
    D = pick(rng, (pr.Line, MyLine))
    ok.append(("line", lambda: D(prims=seq((P(), P())))))
    ok.append(("line", lambda: D(np.array([]), seq((P(), P())))))
    for n in (0, 1, 3, 4):
        bad.append((f"line with {n} points", lambda n=n: D(prims=seq([P() for _ in range(n)]))))
    for x in (Ln, Q, G, A, lambda: np.zeros(2), lambda: cn.Node(np.zeros(2), {}), lambda: (0.0, 1.0)):
        bad.append(("line with a non-point first", lambda x=x: D(prims=(x(), P()))))
        bad.append(("line with a non-point last", lambda x=x: D(prims=(P(), x()))))
    for v in (np.zeros(1), np.zeros(2), np.zeros(4)):
        bad.append(("line with a value", lambda v=v: D(v, (P(), P()))))
        bad.append(("polygon with a value", lambda v=v: pr.Polygon(v, [P() for _ in range(3)], 3)))
        bad.append(("quadrilateral with a value", lambda v=v: pr.Quadrilateral(v, [P() for _ in range(4)])))
        bad.append(("axes with a value", lambda v=v: pr.Axes(v, (Q(),))))
    for n in range(3, 9):
        ok.append(("polygon", lambda n=n: pr.Polygon(None, seq([P() for _ in range(n)]), n)))
        for x in (Ln, Q, A):
            j = int(rng.integers(n))
            bad.append(("polygon with a non-point", lambda n=n, x=x, j=j: pr.Polygon(
                None, [x() if i == j else P() for i in range(n)], n)))
    E = pick(rng, (pr.Quadrilateral, MyQuad))
    ok.append(("quadrilateral", lambda: E(None, seq([P() for _ in range(4)]))))
    for n in (0, 1, 2, 3, 5, 6, 8):
        bad.append((f"quadrilateral with {n} points", lambda n=n: E(None, [P() for _ in range(n)])))
    bad.append(("quadrilateral with lines", lambda: E(None, [Ln() for _ in range(4)])))
    bad.append(("quadrilateral with a line", lambda: E(None, [P(), P(), P(), Ln()])))
    # axes: every flag combination against every number of parts
    combos = [(x, y, tx, ty) for x in (0, 1) for y in (0, 1) for tx in (0, 1) for ty in (0, 1)]
    for x, y, tx, ty in combos:
        flags = dict(xaxis=bool(x), yaxis=bool(y), twinx=bool(tx), twiny=bool(ty))
        n = x + y + (x and tx) + (y and ty)
        for m in range(0, 6):
            parts = lambda m=m: (Q(),) + sum(((Q(), P()) for _ in range(m)), ())
            case = lambda flags=flags, parts=parts: pick(rng, (pr.Axes, MyAxes))(None, seq(parts()), **flags)
            (ok if m == n else bad).append((f"axes {flags} with {m} axes", case))
        good = lambda n=n: [Q()] + sum(([Q(), P()] for _ in range(n)), [])

        def put(j, x, good=good, flags=flags):
            g = good()
            g[j] = x()
            return pr.Axes(None, tuple(g), **flags)

        j = int(rng.integers(2 * n + 1))
        point_here = j > 0 and j % 2 == 0
        for xx in ((Ln, G, A, Q) if point_here else (Ln, G, A, P)):
            bad.append(("axes with a part of the wrong kind", lambda j=j, xx=xx, put=put: put(j, xx)))
        bad.append(("axes without the last part", lambda good=good, flags=flags: pr.Axes(None, tuple(good()[:-1]), **flags)))
        bad.append(("axes with one more part", lambda good=good, flags=flags: pr.Axes(None, tuple(good() + [P()]), **flags)))
        ok.append(("default axes", lambda flags=flags: pr.Axes(**flags)))
    # user-defined primitives
    ok += [("circle", lambda: Circle(np.array([2.0]), (P(),))), ("default circle", Circle), ("ring", lambda: Ring()),
           ("ring of circles", lambda: Ring(None, [Circle() for _ in range(4)])), ("ring of points", lambda: Ring(None, (P(), P())))]
    bad += [("circle without value", lambda: Circle(np.zeros(0), (P(),))), ("circle with two values", lambda: Circle(np.zeros(2))),
            ("circle without centre", lambda: Circle(np.ones(1), ())), ("circle with two centres", lambda: Circle(np.ones(1), (P(), P()))),
            ("circle with a line", lambda: Circle(np.ones(1), (Ln(),))), ("ring of lines", lambda: Ring(None, (Ln(), Ln()))),
            ("ring of one point", lambda: Ring(None, (P(),))), ("ring of three points", lambda: Ring(None, (P(), P(), P()))),
            ("mixed ring", lambda: Ring(None, (Circle(), P()))), ("ring with a value", lambda: Ring(np.ones(1), (Circle(),)))]
    # the base class
    ok.append(("node of primitives", lambda: pr.PrimitiveNode(np.array(()), {"a": P(), "b": Ln(), "c": A()})))
    bad += [("node with a value", lambda: pr.PrimitiveNode(np.ones(1), {})),
            ("node with a list as value", lambda: pr.PrimitiveNode([], {})),
            ("node with a plain node", lambda: pr.PrimitiveNode(np.array(()), {"a": cn.Node(None, {})})),
            ("node with an array", lambda: pr.PrimitiveNode(np.array(()), {"a": np.zeros(2)}))]
    sample_ok = [ok[j] for j in rng.choice(len(ok), 25, replace=False)]
    sample_bad = [bad[j] for j in rng.choice(len(bad), 40, replace=False)]
    for what, f in sample_ok:
        p = f()
        require(isinstance(p, pr.PrimitiveNode), f"{what}: not a primitive")
        rec.event("well-formed primitive accepted")
        rec.state("ok", what)
    for what, f in sample_bad:
        rejected(f, what, rec, "ill-formed primitive rejected")
        rec.state("bad", what)
    shared = [P() for _ in range(4)]
    snap0 = [snap.freeze(p, True) for p in shared]
    for n in (3, 5):
        rejected(lambda: pr.Quadrilateral(None, (shared + shared)[:n]), "quadrilateral", rec, "ill-formed primitive rejected")
    require([snap.freeze(p, True) for p in shared] == snap0, "a refused primitive changed its parts")


class _Custom(con.CompoundConstruction):
    """A user-defined compound construction with adjustable specification."""

    def __init__(self, keys, cons, prim_keys, params, sig):
        super().__init__(keys=keys, cons=cons, prim_keys=prim_keys, params=params, sig=sig)

    @classmethod
    def init_children(cls, keys, cons, prim_keys, params, sig):
        return keys, cons, prim_keys, params

    @classmethod
    def init_signature(cls, keys, cons, prim_keys, params, sig):
        return sig


def constructions(rng, rec, idx):
    """Building constructions from children."""
    smp = coord_sampler(rng)
    n = int(rng.integers(1, 6))
    sps = [consts.spec(pick(rng, consts.ALL), rng) for _ in range(n)]
    children, child_keys, kinds, args, slices, params = {}, [], [], [], [], ()
    for i, sp in enumerate(sps):
        c = sp.make()
        a = sp.random_args(rng, smp)
        child_keys.append(tuple(f"arg{len(args) + j}" for j in range(len(a))))
        args += a
        kinds += sp.kinds
        p = tuple(sp.params(rng))
        slices.append((len(params), len(params) + len(p)))
        params += p
        children[f"child {i}"] = c
    types = tuple(algebra.KIND_CLS[k] for k in kinds)
    sig = con.ConstructionSignature(types, len(params) * (float,), 0)
    cp = lambda ps: tuple(ps[a:b] for a, b in slices)
    value = lambda pk=child_keys, p=cp, s=sig: con.ConstructionValue(pk, p, s)

    class Mine(con.ConstructionNode):
        @classmethod
        def assem(cls, prims, *ps):
            return np.array(())

    def build(v, ch=children, via=None):
        via = via or pick(rng, ("node", "class"))
        if via == "node":
            return Mine(v, dict(ch))
        return _Custom(list(ch), list(ch.values()), v.child_prim_keys, v.child_params, v.signature)

    good = build(value(pick(rng, (tuple, list))(child_keys)))
    prims = tuple(geo.mk(k, a) for k, a in zip(kinds, args))
    got = np.asarray(good(prims, *params), dtype=float)
    parts = [np.asarray(c(prims_of, *params[a:b]), dtype=float) for c, prims_of, (a, b) in zip(
        children.values(), _split(prims, child_keys), slices)]
    require(np.array_equal(got, np.concatenate(parts), equal_nan=True), "a construction built from children differs from them")
    rec.event("well-formed construction accepted")
    j = int(rng.integers(n))
    ks = child_keys
    bad = [
        ("one child's primitives missing", lambda: build(value(ks[:-1]))),
        ("primitives for one child too many", lambda: build(value(ks + [("arg0",)]))),
        ("one primitive too many for a child", lambda: build(value(ks[:j] + [ks[j] + ("arg0",)] + ks[j + 1:]))),
        ("one primitive too few for a child", lambda: build(value(ks[:j] + [ks[j][:-1]] + ks[j + 1:]))),
        ("no primitives for a child", lambda: build(value(ks[:j] + [()] + ks[j + 1:]))),
        ("child parameters not callable", lambda: build(value(p=((),) * n))),
        ("child parameters missing", lambda: build(value(p=None))),
        ("signature a plain tuple", lambda: build(value(s=(types, (), 0)))),
        ("signature missing", lambda: build(value(s=None))),
        ("value a plain tuple", lambda: Mine((ks, cp, sig), dict(children))),
        ("value missing", lambda: Mine(None, dict(children))),
        ("primitive keys not a sequence", lambda: build(value(pk=None))),
        ("primitive keys a dictionary", lambda: build(value(pk={k: v for k, v in zip(children, ks)}))),
        ("a child that is no construction", lambda: build(value(), {**children, f"child {j}": pick(
            rng, (pr.Point(), cn.Node(None, {}), type(children[f"child {j}"]), 1.0, None))})),
        ("no children", lambda: build(value(), {})),
        ("one child missing", lambda: build(value(), {k: c for k, c in children.items() if k != f"child {j}"})),
    ]
    for what, f in bad:
        rejected(f, f"construction with {what}", rec, "ill-formed construction rejected", children=[s.label for s in sps])
        rec.state("construction", what, n)
    # sums of different things
    a, b = consts.spec(pick(rng, consts.ALL), rng), consts.spec(pick(rng, consts.ALL), rng)
    ca, cb = a.make(), b.make()
    shape = lambda c: (int(c.signature.value_size), tuple((k, shape(x)) for k, x in c.items()))
    if shape(ca) != shape(cb):
        rejected(lambda: ca + cb, "sum of different sizes", rec, "ill-formed construction rejected", a=a.label, b=b.label)
        rejected(lambda: con.transform_sum(cb, ca), "sum of different sizes", rec, "ill-formed construction rejected")
        # deeper in the tree
        na = build_pair(ca)
        rejected(lambda: na + build_pair(cb), "sum of trees of different sizes", rec, "ill-formed construction rejected",
                 a=a.label, b=b.label)
    else:
        np.asarray((ca + cb).signature.value_size)
        rec.event("well-formed construction accepted")
    for s in ("2", [2.0], (1.0,), None, con.Length(), pr.Point()):
        rejected(lambda: con.transform_scalar_mul(ca, s), "multiple by something else", rec, "ill-formed construction rejected", by=s)
        rejected(lambda: con.transform_scalar_pow(ca, s), "power of something else", rec, "ill-formed construction rejected", by=s)
    over = tuple(float(x) for x in rng.normal(size=len(ca.signature.param_types) + 1))
    geometry = tuple(geo.mk(k, x) for k, x in zip(a.kinds, a.random_args(rng, smp)))
    rejected(lambda: con.transform_partial(ca, *over)(geometry), "partial application to too many parameters", rec,
             "ill-formed construction rejected", a=a.label)
    # the same for constraints and combinations; given whatever parameters the result then declares
    sp = specs.spec(pick(rng, specs.ALL), rng)
    args, params = sp.satisfy(rng, smp)
    base, prims = sp.make(), specs.mk_args(sp, args)
    if len(base) == 0 and rng.random() < 0.5:
        base, params = base * con.Scalar(), tuple(params) + (2.0,)
    many = tuple(pick(rng, params) if params else 1.0 for _ in range(len(params) + int(rng.integers(1, 3))))

    def evaluate():
        c = con.transform_partial(base, *many)
        return c(prims, *params[:len(c.signature.param_types)])
    rejected(evaluate, "partial application of a constraint to too many parameters", rec, "ill-formed construction rejected",
             constraint=sp.label, frozen=len(many), takes=len(params))


def build_pair(c):
    sig = con.ConstructionSignature(tuple(c.signature.prim_types), tuple(c.signature.param_types), 0)
    keys = [tuple(f"arg{i}" for i in range(len(sig.prim_types)))]
    return con.ConstructionNode(con.ConstructionValue(keys, lambda p: (p,), sig), {"only": c})


def _split(prims, child_keys):
    return [tuple(prims[int(k[3:])] for k in ks) for ks in child_keys]


def vectors(rng, rec, idx):
    """Prescribed values must be as many as the construction returns."""
    smp = coord_sampler(rng)
    try:
        i = algebra.inst(rng, algebra.gen(rng, int(rng.integers(0, 3))), smp, [])
    except algebra.Domain:
        raise Skip("outside the real domain")
    c = con.transform_constraint(i.cons)
    prims = tuple(geo.mk(k, a) for k, a in zip(i.kinds, i.args))
    n = i.value.size
    want = rng.normal(size=n)
    for v in (want, list(want), tuple(want)):
        r = np.asarray(c(prims, *i.params, v), dtype=float)
        require(r.shape == (n,) and np.allclose(r, np.asarray(i.cons(prims, *i.params), dtype=float) - want, rtol=1e-9, atol=1e-9,
                                                equal_nan=True),
                "prescribed vector misread", got=r)
        rec.event("well-formed use accepted")
    for m in {0, n - 1, n + 1, n + 2, 2 * n} - {n, -1}:
        v = rng.normal(size=m)
        rejected(lambda: c(prims, *i.params, v), f"{m} values prescribed for {n}", rec, "ill-formed call rejected")
        rejected(lambda: c(prims, *i.params, list(v)), f"{m} values prescribed for {n}", rec, "ill-formed call rejected")
        rec.state("vector", n, m)


def options(rng, rec, idx):
    """Sides and dimensions that do not exist."""
    side = pick(rng, ("middle", "", "Left", "LEFT", "bottom ", "leftright", "Line0x", "lef", "botom", "x", None, 0, True, "outer", "XAxis"))
    outer = bool(rng.random() < 0.5)
    n = int(rng.integers(2, 6))
    dim = pick(rng, ("depth", "", "Width", "widt", "heights", "x", "length", None, 1))
    what, f = pick(rng, (
        ("Margin", lambda: con.Margin(outer=outer, side=side)), ("outer margin", lambda: con.OuterMargin(side=side)),
        ("inner margin", lambda: con.InnerMargin(side=side)), ("OuterMargin", lambda: cr.OuterMargin(side=side)),
        ("InnerMargin", lambda: cr.InnerMargin(side=side)), ("OuterMarginArray", lambda: cr.OuterMarginArray(shape=(n,), side=side)),
        ("CoincidentOutwardFaces", lambda: cr.CoincidentOutwardFaces(side=side)),
        ("PositionAxis", lambda: cr.PositionAxis(axis=pick(rng, "xy"), side=side, twin=False)),
        ("PositionXAxis", lambda: cr.PositionXAxis(side=side)), ("PositionYAxis", lambda: cr.PositionYAxis(side=side)),
        ("RectangleDim", lambda: con.RectangleDim(dim=dim)), ("RectangleDim", lambda: con.RectangleDim(dim=dim)),
    ))
    try:
        r = f()
    except Exception:
        rec.event("unknown side or dimension rejected")
        rec.state("option", what, str(dim if what == "RectangleDim" else side))
        return
    fail(f"{what}: an unknown side or dimension was accepted", side=side, dim=dim, result=[c.value.child_prim_keys for c in [r]])


GROUPS = {
    "options": dict(fn=options, quick=400, thorough=4000),
    "direct": dict(fn=direct, quick=230, thorough=6000),
    "adding": dict(fn=adding, quick=170, thorough=5000),
    "primitives": dict(fn=primitives, quick=70, thorough=2000),
    "constructions": dict(fn=constructions, quick=110, thorough=3000),
    "vectors": dict(fn=vectors, quick=70, thorough=2000),
}
