"""C23: a constraint is a tree of named parts which can be looked up, evaluated and given new parameters on their own."""
import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import layout as lay
from mpllayout import solver as so

from vlib import algebra, consts, geo, ref, snap, specs, world
from vlib.common import Skip, coord_sampler, pick, require, scale_of


def ev(c, prims, params):
    return np.asarray(c(tuple(prims), *params), dtype=float)


def own(c, prims, params):
    return np.atleast_1d(np.asarray(c.assem(tuple(prims), *params), dtype=float))[:c.signature.value_size]


def close(a, b, mag=1.0):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-11 * max(1.0, mag), equal_nan=True)


def whole_and_parts(c, prims, params, rec, label):
    """The value of `c` is its own value followed by those of its parts, each evaluated through the looked-up names and parameters."""
    keys = tuple(f"arg{k}" for k in range(len(prims)))
    root = c.root_prim(keys, tuple(prims))
    pk, pv = c.root_prim_keys(keys), c.root_params(tuple(params))
    total = ev(c, prims, params)
    mag = float(np.max(np.abs(total))) if total.size else 1.0

    def visit(node, k, v, value, path):
        names = list(node.keys())
        require(list(k.keys()) == names and list(v.keys()) == names, "names of the parts differ between constraint, primitive keys and parameters",
                constraint=label, path=path, got=(names, list(k.keys()), list(v.keys())))
        mine = tuple(root[x] for x in k.value)
        first = own(node, mine, v.value)
        require(close(value[:first.size], first, mag), "a constraint's value does not start with its own value", constraint=label, path=path,
                got=value, own=first)
        at = first.size
        for name in names:
            sub = f"{path}/{name}" if path else name
            part, ks, vs = node[name], k[name], v[name]
            require(c[sub] is part and pk[sub] is ks and pv[sub] is vs, "a part is found by its path as by its name", constraint=label, path=sub)
            alone = ev(part, (root[x] for x in ks.value), vs.value)
            n = consts.total_size(part)
            require(alone.size == n, "a part has another number of values than declared", constraint=label, path=sub, got=alone.size, declared=n)
            require(close(value[at:at + n], alone, mag), "a part on its own differs from its share of the whole", constraint=label, path=sub,
                    got=alone, share=value[at:at + n])
            rec.event("part compared with its share")
            visit(part, ks, vs, value[at:at + n], sub)
            at += n
        require(at == value.size, "own value and parts are not the whole value", constraint=label, path=path, got=value.size, parts=at)

    visit(c, pk, pv, total, "")


WITH_PARTS = ("Box", "Width", "Height", "AxisThicknessNone", "OuterMargin", "InnerMargin") + specs.GRIDS + specs.AXES


def parts(rng, rec, idx):
    """All constraints, constructions and combinations: whole = own value + parts."""
    smp = coord_sampler(rng)
    r = idx % 4
    if r < 2:
        names = specs.ALL if r == 0 else WITH_PARTS
        sp = specs.spec(names[(idx // 4) % len(names)], rng)
        args, params = sp.satisfy(rng, smp)
        if rng.random() < 0.7:
            args = sp.random_args(rng, smp)
        whole_and_parts(sp.make(), specs.mk_args(sp, args), params, rec, sp.label)
        rec.state(sp.label if sp.name not in ("Grid", "OuterMarginArray", "RectilinearGrid") else sp.name)
        return
    # combinations of constructions with parts
    recipe = None
    for _ in range(40):
        recipe = algebra.gen(rng, 1 + idx % 3)
        try:
            top = algebra.inst(rng, recipe, smp, [])
        except algebra.Domain:
            continue
        if len(top.cons) or rng.random() < 0.1:
            break
    else:
        raise Skip("no combination with parts")
    if not np.all(np.isfinite(top.value)) or (top.value.size and np.max(np.abs(top.value)) > 1e8):
        raise Skip("badly scaled")
    whole_and_parts(top.cons, consts_args(top), top.params, rec, algebra.describe(recipe))
    rec.state(algebra.shape(recipe))


def consts_args(top):
    return tuple(geo.mk(k, a) for k, a in zip(top.kinds, top.args))


# -- names --------------------------------------------------------------------------------------------

def at(c, name, prims, params=()):
    """The value of the part `name` of `c`, through its primitive keys and parameters."""
    keys = tuple(f"arg{k}" for k in range(len(prims)))
    root = c.root_prim(keys, tuple(prims))
    k, v = c.root_prim_keys(keys)[name], c.root_params(tuple(params))[name]
    return ev(c[name], (root[x] for x in k.value), v.value)


def small(x, S):
    return x.size == 0 or float(np.max(np.abs(x))) <= 1e-9 * S


def large(x):
    return x.size > 0 and float(np.max(np.abs(x))) >= 1e-7


def only(c, names, prims, params, broken, S, what):
    for n in names:
        x = at(c, n, prims, params)
        if n in broken:
            require(large(x), f"{what}: the part named after the broken relation does not see it", part=n, value=x)
        else:
            require(small(x, S), f"{what}: a part named after a relation which holds is not zero", part=n, value=x, broken=broken)


def named(rng, rec, idx):
    """Exactly the parts named after a broken relation are nonzero."""
    mk = geo.mk_quad
    box = lambda: ref.box(*(lambda x, y, w, h: (x, y, x + w, y + h))(*rng.uniform(-3, 3, 2), *rng.uniform(0.5, 3, 2)))
    d = float(pick(rng, (-1, 1)) * rng.uniform(0.05, 0.4))
    S = 10.0
    what = ("box", "align", "rectilinear", "grid", "margins", "axis", "size", "twin label")[idx % 8]
    if what == "box":
        q = box()
        v, comp = int(rng.integers(4)), int(rng.integers(2))
        q[v, comp] += d
        # moving a vertex vertically tilts the bottom or top side, horizontally the left or right one
        side = (("HorizontalBottom" if v in (0, 1) else "HorizontalTop") if comp else ("VerticalLeft" if v in (0, 3) else "VerticalRight"))
        names = ("HorizontalBottom", "HorizontalTop", "VerticalLeft", "VerticalRight")
        only(cr.Box(), names, (mk(q),), (), {side}, S, "box")
        rec.state("box", v, comp)
    elif what == "align":
        row = bool(rng.random() < 0.5)
        a, b = box(), box()
        b[:, 1 if row else 0] = a[:, 1 if row else 0]
        low = bool(rng.random() < 0.5)
        if row:
            b[[0, 1] if low else [2, 3], 1] += d
            name, names = ("AlignBottom" if low else "AlignTop"), ("AlignBottom", "AlignTop")
        else:
            b[[0, 3] if low else [1, 2], 0] += d
            name, names = ("AlignLeft" if low else "AlignRight"), ("AlignLeft", "AlignRight")
        c = cr.Align(row=row) if rng.random() < 0.5 else (cr.AlignRow() if row else cr.AlignColumn())
        only(c, names, (mk(a), mk(b)), (), {name}, S, "align")
        rec.state("align", name)
    elif what in ("rectilinear", "grid"):
        shape = pick(rng, ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 5), (11, 2), (2, 12)))
        quads, params = specs.rand_grid(rng, shape)
        params = [np.array(p) for p in params]
        r, k = shape
        S = 10 * max(1.0, scale_of(*quads))
        if what == "rectilinear":
            i, j = int(rng.integers(r)), int(rng.integers(k))
            vertical = bool(rng.random() < 0.5)
            quads[i * k + j][:, 1 if vertical else 0] += d
            names = [f"AlignRow{n}" for n in range(r)] + [f"AlignColumn{n}" for n in range(k)]
            broken = {f"AlignRow{i}" if vertical else f"AlignColumn{j}"}
            prims = [mk(q) for q in quads]
            only(cr.RectilinearGrid(shape=shape), names, prims, (), broken, S, "rectilinear grid")
            only(cr.Grid(shape=shape), ["RectilinearGrid/" + n for n in names], prims, params, {"RectilinearGrid/" + b for b in broken}, S, "grid")
            rec.state("rectilinear", shape, vertical)
        else:
            names = ("RectilinearGrid", "ColWidths", "RowHeights", "ColMargins", "RowMargins")
            which = [n for n in range(4) if params[n].size]
            w = pick(rng, which)
            m = int(rng.integers(params[w].size))
            params[w][m] += d
            prims = [mk(q) for q in quads]
            c = cr.Grid(shape=shape)
            only(c, names, prims, params, {names[1 + w]}, S, "grid")
            if w >= 2:
                margins = [f"{names[1 + w]}/OuterMargin{n}" for n in range(params[w].size)]
                only(c, margins, prims, params, {margins[m]}, S, "grid margins")
            rec.state("grid", shape, names[1 + w])
    elif what == "margins":
        side = pick(rng, ref.SIDES)
        n = int(rng.integers(2, 7))
        quads = [box() for _ in range(n)]
        want = [ref.outer_margin(quads[i], quads[i + 1], side) for i in range(n - 1)]
        m = int(rng.integers(n - 1))
        names = [f"OuterMargin{i}" for i in range(n - 1)]
        given = list(want)
        given[m] += d
        c = cr.OuterMarginArray(shape=n, side=side)
        only(c, names, [mk(q) for q in quads], given, {names[m]}, S, "margins")
        require(np.allclose(at(c, names[m], [mk(q) for q in quads], given), [-d], atol=1e-9), "value of a named margin", side=side)
        for kind, f in ((con.OuterMargin, ref.outer_margin), (con.InnerMargin, ref.inner_margin)):
            v = at(kind(side=side), f"{side.capitalize()}Margin", [mk(q) for q in quads[:2]])
            require(np.allclose(v, [f(quads[0], quads[1], side)], atol=1e-9), "named margin", kind=kind, side=side, got=v)
        rec.state("margins", side, n)
    elif what == "axis":
        axis, twin = pick(rng, "xy"), True
        side = pick(rng, ("bottom", "top") if axis == "x" else ("left", "right"))
        sp = specs.spec("PositionAxis", rng, axis=axis, side=side, twin=True)
        (p,), _ = sp.satisfy(rng, coord_sampler(rng))
        S = 10 * scale_of(*(np.asarray(v) for v in p.values()))
        tw = bool(rng.random() < 0.5)
        key = ("Twin" if tw else "") + f"{axis.upper()}Axis"
        p[key] = p[key] + np.array([0.0, S * 0.01]) if axis == "x" else p[key] + np.array([S * 0.01, 0.0])
        broken = {"TwinAlignOutside" if tw else "AlignOutside"}
        x = [at(sp.make(), n, (geo.mk_axes(p),)) for n in ("AlignOutside", "TwinAlignOutside")]
        for n, v in zip(("AlignOutside", "TwinAlignOutside"), x):
            require((np.max(np.abs(v)) >= 1e-4 * S) if n in broken else small(v, S), "twin axis parts", part=n, value=v, broken=broken)
        rec.state("axis", axis, side, tw)
    elif what == "size":
        q = box()
        for c, name, want in ((con.Width(), "Width", ref.width(q)), (con.Height(), "Height", ref.height(q))):
            require(np.allclose(at(c, name, (mk(q),)), [want], atol=1e-9), "named size", part=name)
        for c, name, want in ((cr.Width(), "Width", ref.width(q)), (cr.Height(), "Height", ref.height(q))):
            require(np.allclose(at(c, name, (mk(q),), (want + d,)), [-d], atol=1e-9), "named size constraint", part=name)
            v = c.root_params((want + d,))[name].value
            require(np.allclose(np.asarray(v[-1], dtype=float).ravel(), [want + d]), "parameter of a named size constraint", got=v)
        rec.state("size")
    else:
        axis, twin = pick(rng, "xy"), bool(rng.random() < 0.5)
        sp = specs.spec("PositionAxisLabel", rng, axis=axis, twin=twin)
        args = sp.random_args(rng, coord_sampler(rng))
        p, = sp.params(args, rng)
        x = at(sp.make(), "RelativePointOnLineDistance", specs.mk_args(sp, args), (p + d,))
        require(np.allclose(x, [-d], atol=1e-7), "named label distance", got=x, want=-d)
        rec.state("label", axis, twin)
    rec.event("named parts judged")
    rec.event(f"named parts: {what}")


# -- new parameters ------------------------------------------------------------------------------------

def _params(tree):
    return [(k, n.value) for k, n in snap.walk(tree)]


def replace(rng, rec, idx):
    """New parameters for some constraints or parts: those and what is below them change, nothing else, and the layout solves to them."""
    w = world.target(rng, scale=pick(rng, (1.0, 1.0, 4.0)), kinds="PLQQA")
    world.constrain_independent(rng, w, int(rng.integers(4, 12)), names=world.LINEAR_NAMES, smin=0.15)
    if not w.cons:
        raise Skip("no constraint could be generated")
    L = w.layout(world.start(rng, w, pick(rng, ("random", "near", "far"))))
    names = list(L.root_constraint.keys())
    require(len(names) == len(w.cons), "every constraint of the layout is found by name")
    movable = [i for i, (sp, _, _) in enumerate(w.cons) if sp.pkinds and sp.pkinds[-1] in "vV" and all(k in "vVd" for k in sp.pkinds)]
    if not movable:
        raise Skip("no constraint with a number")
    chosen = list(rng.permutation(movable)[:int(rng.integers(1, len(movable) + 1))])
    new, table, through = {}, list(w.cons), {}
    for i in chosen:
        i = int(i)
        sp, keys, params = w.cons[i]
        values = [np.asarray(p, dtype=float) + rng.uniform(-0.3, 0.3, np.shape(p)) if k in "vV" else p for p, k in zip(params, sp.pkinds)]
        values = tuple(float(v) if np.ndim(v) == 0 and k == "v" else v for v, k in zip(values, sp.pkinds))
        table[i] = (sp, keys, values)
        part = None
        if sp.name in ("Width", "Height", "OuterMargin", "InnerMargin") and rng.random() < 0.6:
            # one number for the only part which has one
            part = list(L.root_constraint[names[i]].keys())[0]
            new[f"{names[i]}/{part}"] = values
        elif sp.name == "OuterMarginArray" and rng.random() < 0.6:
            m = int(rng.integers(len(values)))
            values = tuple(values[j] if j == m else params[j] for j in range(len(values)))
            table[i] = (sp, keys, values)
            part = f"OuterMargin{m}"
            new[f"{names[i]}/{part}"] = (values[m],)
        else:
            new[names[i]] = values
        rec.state("new parameters for", sp.name, part is not None)
    before, state = _params(L.root_param), snap.layout(L)
    tree = lay.update_root_param(L.root_constraint, L.root_param, dict(new))
    require(snap.layout(L) == state and all(a is b for (_, a), (_, b) in zip(_params(L.root_param), before)), "giving new parameters changed the layout")
    after = _params(tree)
    require([k for k, _ in after] == [k for k, _ in before], "names in the new parameter tree", got=[k for k, _ in after], want=[k for k, _ in before])
    for (k, v), (_, old) in zip(after, before):
        hit = [n for n in new if k.strip("/") == n or k.strip("/").startswith(n + "/")]
        if not hit:
            require(v is old or (len(v) == len(old) and all(np.array_equal(x, y) for x, y in zip(v, old))),
                    "parameters of another constraint changed", key=k, got=v, want=old, new=list(new))
            rec.event("other parameters unchanged")
        elif k.strip("/") == hit[0]:
            require(len(v) == len(new[hit[0]]) and all(np.array_equal(x, y) for x, y in zip(v, new[hit[0]])), "new parameters are not in the tree", key=k, got=v, want=new[hit[0]])
            rec.event("new parameters found")
    L2 = lay.Layout(L.root_prim, L.root_constraint, L.root_prim_keys, tree)
    root, info = so.solve(L2)
    X, alias = w.read(root)
    S = max(scale_of(w.X, X), 1.0)
    old_cons, w.cons = w.cons, table
    try:
        v, who = world.worst(w, X, S, 1e-9)
    finally:
        w.cons = old_cons
    require(v <= 1, "solved geometry does not have the new parameters", constraint=who, ratio=v, new=new, world=w.describe())
    # and the old layout is what it was
    root, _ = so.solve(L)
    X, _ = w.read(root)
    v, who = world.worst(w, X, max(scale_of(w.X, X), 1.0), 1e-9)
    require(v <= 1, "the layout itself got other parameters", constraint=who, ratio=v, new=new, world=w.describe())
    rec.event("layout with new parameters solved")
    rec.sample(f"{w.describe()} with new {new}")


def grid_numbers(rng, rec, idx):
    """New numbers for parts of a grid, two and three levels down."""
    w = world.grid_world(rng, 1.0)
    i, = [n for n, (sp, _, _) in enumerate(w.cons) if sp.name == "Grid"]
    sp, keys, params = w.cons[i]
    params = [np.array(p, dtype=float) for p in params]
    full = [n for n in range(4) if params[n].size]
    if not full:
        raise Skip("grid of one box has no numbers")
    L = w.layout(w.X + rng.uniform(-0.01, 0.01, w.X.shape))
    name = list(L.root_constraint.keys())[i]
    groups, new = ("ColWidths", "RowHeights", "ColMargins", "RowMargins"), {}
    for n in (int(x) for x in rng.permutation(full)[:int(rng.integers(1, 3))]):
        if n >= 2 and rng.random() < 0.5:
            m = int(rng.integers(params[n].size))
            params[n][m] += rng.uniform(-0.05, 0.05)
            new[f"{name}/{groups[n]}/OuterMargin{m}"] = (float(params[n][m]),)
        else:
            params[n] = params[n] + rng.uniform(-0.05, 0.05, params[n].size)
            new[f"{name}/{groups[n]}"] = tuple(float(x) for x in params[n])
        rec.state("grid numbers", sp.opts["shape"], groups[n])
    state = snap.layout(L)
    tree = lay.update_root_param(L.root_constraint, L.root_param, dict(new))
    require(snap.layout(L) == state, "giving new parameters changed the layout")
    root, _ = so.solve(lay.Layout(L.root_prim, L.root_constraint, L.root_prim_keys, tree))
    X, _ = w.read(root)
    w.cons[i] = (sp, keys, tuple(params))
    v, who = world.worst(w, X, max(scale_of(X), 1.0), 1e-9)
    require(v <= 1, "solved grid does not have the new numbers", constraint=who, ratio=v, new=new, world=w.describe())
    rec.event("grid with new numbers solved")


def update_layout(rng, rec, idx):
    """In a layout, each constraint's share of the residual is found by its name."""
    w = world.target(rng, scale=1.0, kinds="PLQQAG")
    world.constrain_independent(rng, w, int(rng.integers(2, 10)), smin=0.02)
    if not w.cons:
        raise Skip("no constraint could be generated")
    X0 = w.X + rng.uniform(-0.2, 0.2, w.X.shape)
    L = w.layout(X0)
    table = w.ref_table()
    cs, ks, vs = L.flat_constraints()
    flat = so.assem_constraint_residual(L.root_prim, cs, ks, vs)
    flat = np.concatenate([np.zeros(0)] + [np.asarray(x, dtype=float) for x in flat])
    at_, n = 0, 0
    for (name, c), (sp, keys, params) in zip(L.root_constraint.items(), w.cons):
        pk, pv = L.root_prim_keys[name], L.root_param[name]
        got = ev(L.root_constraint[name], (L.root_prim[k] for k in pk.value), pv.value)
        require(close(flat[at_:at_ + got.size], got, 10), "share of a constraint in the layout's residual", name=name, constraint=sp.label)
        at_ += got.size
        err = np.atleast_1d(np.asarray(sp.err(w.args(X0, keys, table), params), dtype=float))
        if sp.mode == "exact" and not sp.boxes:
            require(got.shape == err.shape and np.allclose(got, err, atol=1e-8), "constraint of a layout looked up by name", name=name,
                    constraint=sp.label, got=got, want=err)
        for path, part in snap.walk(c):
            p = f"{name}/{path.strip('/')}".rstrip("/")
            require(L.root_constraint[p] is part, "part of a layout's constraint by path", path=p)
            prims = tuple(L.root_prim[k] for k in L.root_prim_keys[p].value)
            ev(part, prims, L.root_param[p].value)
            n += 1
    require(at_ == flat.size, "the layout's residual is made of its constraints' values", got=at_, want=flat.size)
    rec.event("constraint of a layout looked up", len(w.cons))
    rec.event("part of a layout's constraint evaluated", n)
    rec.state(tuple(sorted({sp.name for sp, _, _ in w.cons})))


GROUPS = {
    "parts": dict(fn=parts, quick=480, thorough=10000),
    "named": dict(fn=named, quick=480, thorough=12000),
    "replace": dict(fn=replace, quick=160, thorough=4000),
    "grid": dict(fn=grid_numbers, quick=64, thorough=2000),
    "layout": dict(fn=update_layout, quick=80, thorough=2000),
}
