"""C16: evaluation under compilation and automatic derivatives agree with the documented residual."""
import numpy as np
import jax
import jax.numpy as jnp

from mpllayout import solver

from vlib import algebra, consts, geo, snap, specs, world
from vlib.common import Skip, coord_sampler, pick, require


def as_world(kinds, args):
    w = world.World()
    keys = []
    for i, (k, a) in enumerate(zip(kinds, args)):
        if k == "A":
            idx = {p: w.add_points(np.atleast_2d(v)) for p, v in a.items()}
        else:
            idx = w.add_points(np.atleast_2d(a))
        w.add(f"p{i}", k, idx)
        keys.append(f"p{i}")
    return w, tuple(keys)


def pieces(w):
    """(primitives at X, function x -> primitives) sharing vertices like the world does."""
    from mpllayout import primitives as pr
    pts = [pr.Point(np.array(p)) for p in np.asarray(w.X, dtype=float)]
    prims = tuple(w._build(kind, idx, pts) for kind, idx in w.prims.values())
    return prims, tree_fn(prims, {id(p.value): i for i, p in enumerate(pts)})


def tree_fn(tree, where):
    leaves, treedef = jax.tree_util.tree_flatten(tree)
    places = [where.get(id(leaf)) for leaf in leaves]
    for leaf, p in zip(leaves, places):
        assert p is not None or np.size(leaf) == 0, "unknown vertex"

    def at(x):
        return jax.tree_util.tree_unflatten(treedef, [leaf if p is None else x[2 * p:2 * p + 2] for leaf, p in zip(leaves, places)])
    return at


def agree(a, b, tol, what, **detail):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, f"{what}: different shapes", got=a.shape, want=b.shape, **detail)
    ok = np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)) | (a == b))
    require(ok, what, got=a, want=b, worst=np.nanmax(np.abs(a - b)) if a.size else 0, **detail)


def fd(f, x, h):
    cols = []
    for k in range(x.size):
        y, z = x.copy(), x.copy()
        y[k] += h
        z[k] -= h
        cols.append((np.asarray(f(y), dtype=float) - np.asarray(f(z), dtype=float)) / (2 * h))
    return np.stack(cols, axis=-1) if cols else np.zeros((0, 0))


def box_moves(w):
    """Directions which keep rectangles rectangles: coordinates which coincide within a primitive move together."""
    x = w.X.ravel()
    moves = []
    for kind, idx in w.prims.values():
        parts = idx.values() if isinstance(idx, dict) else [idx]
        for part in parts:
            part = np.asarray(part).ravel()
            for a in (0, 1):
                left = list(2 * part + a)
                while left:
                    same = [j for j in left if abs(x[j] - x[left[0]]) <= 1e-12 * max(1, abs(x[left[0]]))]
                    d = np.zeros(x.size)
                    d[same] = 1.0
                    moves.append(d)
                    left = [j for j in left if j not in same]
    return np.stack(moves, axis=-1)


def derivatives(rng, rec, f, x, label, S, wants, modes=("fwd", "rev", "jitfwd")):
    """Automatic derivatives of f at x against `wants`: list of (function of x giving the numbers, name, directions or None)."""
    h = 1e-6 * S
    refs = []
    for g, name, moves in wants:
        D = np.eye(x.size) if moves is None else moves
        along = (lambda t, g=g, D=D: g(x + D @ t))
        J1, J2 = fd(along, np.zeros(D.shape[1]), h), fd(along, np.zeros(D.shape[1]), 4 * h)
        refs.append((J1, np.abs(J1 - J2), name, D))
    for m in modes:
        J = {"fwd": lambda: jax.jacfwd(f)(jnp.asarray(x)), "rev": lambda: jax.jacrev(f)(jnp.asarray(x)),
             "jitfwd": lambda: jax.jit(jax.jacfwd(f))(jnp.asarray(x)), "jitrev": lambda: jax.jit(jax.jacrev(f))(jnp.asarray(x))}[m]()
        J = np.asarray(J, dtype=float)
        for J1, unsure, name, D in refs:
            scale = max(1e-12, np.max(np.abs(J1), initial=0.0))
            if np.max(unsure, initial=0) > 1e-3 * scale:
                rec.event("finite difference not reliable")
                continue
            tol = 2e-5 * scale + 20 * unsure
            require(J.shape == (J1.shape[0], x.size), f"derivative ({m}) has another shape", label=label, got=J.shape, want=J1.shape)
            require(np.all(np.isfinite(J)), f"derivative ({m}) is not finite", label=label, got=J, x=x)
            bad = np.abs(J @ D - J1) > tol
            require(not bad.any(), f"derivative ({m}) is not the derivative of the {name}", label=label, got=J @ D, want=J1, x=x)
            rec.event("derivative compared")
            rec.event(f"derivative compared with {name}")


def matched(e0, r0):
    """Permutation and signs with which reference errors give the residual (None when ambiguous)."""
    e0, r0 = np.asarray(e0, float).ravel(), np.asarray(r0, float).ravel()
    if e0.size != r0.size:
        return None
    S = max(np.max(np.abs(r0), initial=0), 1e-300)
    perm, sign, used = [], [], set()
    for v in r0:
        c = [j for j in range(e0.size) if abs(abs(e0[j]) - abs(v)) < 1e-7 * S]
        if len(c) != 1 or c[0] in used or abs(v) < 1e-4 * S:
            return None
        used.add(c[0])
        perm.append(c[0])
        sign.append(np.sign(v) * np.sign(e0[c[0]]))
    return np.array(perm, dtype=int), np.array(sign)


def evaluations(rec, c, prims, params, at, x, label, traced=True):
    eager = np.asarray(c(prims, *params), dtype=float)
    tol = 1e-12 * max(1.0, np.max(np.abs(x), initial=0) ** 2, np.nanmax(np.abs(eager), initial=0))
    require(np.all(np.isfinite(eager)), "residual is not finite", label=label, got=eager)
    agree(c(at(x), *params), eager, tol, "residual on rebuilt primitives differs", label=label)
    agree(jax.jit(lambda p: c(p, *params))(prims), eager, tol, "residual under jax.jit differs", label=label, params=params)
    agree(jax.jit(lambda y: c(at(y), *params))(x), eager, tol, "residual under jax.jit differs", label=label, params=params)
    rec.event("compiled residual compared", 2)
    num = [j for j, p in enumerate(params) if p is not None and not isinstance(p, (bool, np.bool_))]
    if traced and num:
        def g(p, vals):
            q = list(params)
            for j, v in zip(num, vals):
                q[j] = v
            return c(p, *q)
        agree(jax.jit(g)(prims, [jnp.asarray(params[j], dtype=float) for j in num]), eager, tol,
              "residual under jax.jit with compiled parameters differs", label=label, params=params)
        rec.event("compiled residual compared")
    return eager


def constraints(rng, rec, idx):
    smp = coord_sampler(rng)
    sp = specs.spec(specs.ALL[idx % len(specs.ALL)], rng, **({"shape": pick(rng, ((1, 2), (2, 1), (2, 2), (2, 3), (1, 1)))} if
                    specs.ALL[idx % len(specs.ALL)] in ("Grid", "RectilinearGrid") else
                    {"n": pick(rng, (2, 3, 4))} if specs.ALL[idx % len(specs.ALL)] == "OuterMarginArray" else {}))
    at_solution = rng.random() < 0.5
    args, params = sp.satisfy(rng, smp)
    if not at_solution:
        if sp.kinds[0] == "A" or sp.boxes:
            # keep boxes: other boxes
            args2, _ = sp.satisfy(rng, smp)
            args = [args2[j] if rng.random() < 0.5 else args[j] for j in range(len(args))]
            rng.shuffle(args) if len(set(sp.kinds)) == 1 else None
        else:
            args = sp.random_args(rng, smp)
    if sp.name == "Angle":
        from vlib import ref
        if abs(ref.signed_angle(*args)) > np.pi - 0.05:
            raise Skip("at the branch cut of the angle")
    w, keys = as_world(sp.kinds, args)
    prims, at = pieces(w)
    x = w.X.ravel().astype(float)
    c = sp.make()
    eager = evaluations(rec, c, prims, params, at, x, sp.label)
    f = lambda y: c(at(y), *params)
    table = w.ref_table()
    wants = []
    g = lambda y: sp.err(w.args(np.asarray(y).reshape(-1, 2), keys, table), params)
    e0 = np.atleast_1d(np.asarray(g(x), dtype=float)).ravel()
    boxes = sp.boxes or sp.kinds[0] == "A"
    moves = box_moves(w) if boxes else None
    if sp.mode == "exact":
        wants.append((lambda y: np.atleast_1d(np.asarray(g(y), dtype=float)).ravel(), "documented residual", moves))
    else:
        m = matched(e0, eager)
        if m is not None:
            wants.append((lambda y: np.atleast_1d(np.asarray(g(y), dtype=float)).ravel()[m[0]] * m[1], "documented residual", moves))
    fj = jax.jit(f)
    wants.append((lambda y: fj(y), "evaluated residual", None))
    S = max(smp.base, 1e-6) if sp.kinds[0] != "A" else smp.base
    e = geo.min_edge(args)
    step = min(S, e) if np.isfinite(e) and e > 0 else S
    derivatives(rng, rec, f, x, sp.label, step, wants, modes=("fwd", "rev", pick(rng, ("jitfwd", "jitrev"))))
    # derivatives taken directly on primitives
    if idx % 3 == 0:
        ders = jax.jacfwd(lambda p: c(p, *params))(prims)
        back = jax.jacrev(lambda p: c(p, *params))(prims)
        for a, b, leaf in zip(jax.tree_util.tree_leaves(ders), jax.tree_util.tree_leaves(back), jax.tree_util.tree_leaves(prims)):
            if np.size(leaf):
                agree(a, b, 1e-9 * max(1.0, np.max(np.abs(a), initial=0)), "forward and reverse derivatives on primitives differ",
                      label=sp.label)
        require(snap.skeleton(ders[0])[2] and True or sp.kinds[0] == "P", "derivative tree has no structure")
        rec.event("derivative on primitives compared")
    rec.state("constraint", sp.label, at_solution, len(wants))
    rec.sample(f"{sp.label} at {np.round(x, 4).tolist()}: {eager}")


def combined(rng, rec, idx):
    smp = coord_sampler(rng)
    r = algebra.gen(rng, 1 + idx % 3)
    parts = []
    try:
        i = algebra.inst(rng, r, smp, parts)
    except algebra.Domain:
        raise Skip("outside the real domain")
    label = algebra.describe(r)
    w, keys = as_world(i.kinds, i.args)
    prims, at = pieces(w)
    x = w.X.ravel().astype(float)
    value = np.asarray(i.cons(prims, *i.params), dtype=float)
    if not np.all(np.isfinite(value)) or np.max(np.abs(value), initial=0) > 1e8 or "pow" in label and np.min(np.abs(value), initial=1) < 1e-3:
        raise Skip("badly scaled expression")
    eager = np.asarray(i.cons(prims, *i.params), dtype=float)
    tol = 1e-9 * max(1.0, np.max(np.abs(eager), initial=0))
    agree(jax.jit(lambda p: i.cons(p, *i.params))(prims), eager, tol, "combined residual under jax.jit differs", label=label)
    f = lambda y: i.cons(at(y), *i.params)
    fj = jax.jit(f)
    agree(fj(x), eager, tol, "combined residual under jax.jit differs", label=label)
    rec.event("compiled combination compared", 2)
    e = geo.min_edge(i.args)
    step = min(smp.base, e) if np.isfinite(e) and e > 0 else smp.base
    derivatives(rng, rec, f, x, label, step, [(fj, "evaluated residual", None)], modes=(pick(rng, ("fwd", "jitfwd")), pick(rng, ("rev", "jitrev"))))
    rec.event("combination derivative compared")
    rec.state("combined", algebra.shape(r))


def layouts(rng, rec, idx):
    """The residual of whole layouts with shared vertices."""
    w = world.target(rng, scale=1.0, kinds="PLLQQAG")
    if idx % 2:
        world.constrain_independent(rng, w, int(rng.integers(3, 9)))
    else:
        world.constrain_linear(rng, w, int(rng.integers(3, 10)))
    if not w.cons:
        raise Skip("no constraint could be generated")
    X = w.X + rng.normal(size=w.X.shape) * pick(rng, (0.0, 0.02))
    w.X = X
    L = w.layout(X)
    flat, pks, prms = L.flat_constraints()
    where, order = {}, {}
    for kind, key, idx_ in w.refs():
        if kind == "P":
            where[id(L.root_prim[key].value)] = idx_[0]
    at = tree_fn(L.root_prim, where)
    x = X.ravel().astype(float)

    def f(y):
        res = solver.assem_constraint_residual(at(y), flat, pks, prms)
        return jnp.concatenate([jnp.zeros(0)] + [jnp.ravel(q) for q in res])

    eager = np.asarray(f(x), dtype=float)
    direct = np.concatenate([np.zeros(0)] + [np.asarray(L.root_constraint[k](tuple(L.root_prim[q] for q in L.root_prim_keys[k].value),
                                                                             *L.root_param[k].value), dtype=float).ravel()
                                             for k in L.root_constraint.keys()])
    agree(eager, direct, 1e-10 * max(1, np.max(np.abs(direct), initial=0)), "layout residual differs from its constraints' residuals")
    fj = jax.jit(f)
    agree(fj(x), eager, 1e-11 * max(1, np.max(np.abs(direct), initial=0)), "layout residual under jax.jit differs", world=w.describe())
    rec.event("layout residual compared")
    # reference rows for constraints with documented numbers
    table = w.ref_table()
    rows, gs, o = [], [], 0
    for (sp, keys, params), k in zip(w.cons, L.root_constraint.keys()):
        n = np.asarray(L.root_constraint[k](tuple(L.root_prim[q] for q in keys), *params)).size
        if sp.mode == "exact" and sp.name != "Angle" and not sp.boxes and sp.kinds[0] != "A":
            rows += list(range(o, o + n))
            gs.append((sp, keys, params))
        o += n
    e = [float(np.linalg.norm(v)) for kind, key, ix in w.refs() if kind == "L" for v in [X[ix[1]] - X[ix[0]]]]
    step = min([1.0] + [v for v in e if v > 1e-3])
    J = {"fwd": np.asarray(jax.jacfwd(f)(x)), "rev": np.asarray(jax.jacrev(f)(x))}
    J1, J2 = fd(fj, x, 1e-6 * step), fd(fj, x, 4e-6 * step)
    unsure = np.abs(J1 - J2)
    ok = np.isfinite(J1) & (unsure < 1e-3 * max(1.0, np.max(np.abs(J1), initial=0)))
    tol = 2e-5 * max(1.0, np.max(np.abs(J1[ok]), initial=0)) + 20 * unsure
    for m in J:
        require(not (np.abs(J[m] - J1)[ok] > tol[ok]).any(), f"layout derivative ({m}) is not the derivative of its residual",
                world=w.describe())
        rec.event("layout derivative compared")
    if rows:
        ref_f = lambda y: np.concatenate([np.atleast_1d(np.asarray(sp.err(w.args(np.asarray(y).reshape(-1, 2), keys, table), params),
                                                                   dtype=float)).ravel() for sp, keys, params in gs])
        R, R4 = fd(ref_f, x, 1e-6 * step), fd(ref_f, x, 4e-6 * step)
        u = np.abs(R - R4)
        for m in J:
            bad = np.abs(J[m][rows] - R) > 2e-5 * max(1.0, np.max(np.abs(R))) + 20 * u
            require(not bad.any(), f"layout derivative ({m}) is not the derivative of the documented residual", world=w.describe(),
                    got=J[m][rows][bad], want=R[bad])
            rec.event("layout derivative compared with documented residual")
    rec.state("layout", tuple(sorted({sp.name for sp, *_ in w.cons})), len(w.X))


GROUPS = {
    "constraints": dict(fn=constraints, quick=34 * 6, thorough=34 * 150),
    "combined": dict(fn=combined, quick=110, thorough=4000),
    "layouts": dict(fn=layouts, quick=60, thorough=1500),
}
