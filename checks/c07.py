"""C07: solving preserves structure and sharing, and nothing changes the caller's layout."""
import numpy as np
from matplotlib import pyplot as plt

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import matplotlibutils as mu
from mpllayout import primitives as pr
from mpllayout import solver, ui

from vlib import geo, ref, snap, specs, world
from vlib.common import Skip, pick, require, unique_names


def unchanged(before, L, what, **detail):
    after = snap.layout(L)
    require(before == after, f"{what} changed the caller's layout", difference=snap.diff(before, after), **detail)


def same_structure(root, L, what):
    a, b = snap.skeleton(L.root_prim), snap.skeleton(root)
    require(a == b, f"{what}: solved geometry has another structure", difference=snap.diff(a, b))
    require(list(root.keys()) == list(L.root_prim.keys()), f"{what}: keys differ")
    for key, node in snap.walk(root):
        require(isinstance(node.value, np.ndarray), f"{what}: value of a solved primitive is not an array", key=key,
                type=type(node.value).__name__)
    # no array of the solution is an array of the layout
    old = {id(n.value) for _, n in snap.walk(L.root_prim)}
    for key, node in snap.walk(root):
        if node.value.size:
            require(id(node.value) not in old and not any(
                np.shares_memory(node.value, n.value) for _, n in snap.walk(L.root_prim) if n.value.size),
                f"{what}: solved geometry shares memory with the layout's geometry", key=key)


def structure(rng, rec, idx):
    w = world.target(rng, scale=pick(rng, (1.0, 1.0, 10.0)), kinds="PLLQQAG")
    if idx % 8 != 5:                    # otherwise a layout without constraints
        world.constrain_linear(rng, w, int(rng.integers(1, 10)))
        if not w.cons:
            raise Skip("no constraint could be generated")
    X0 = world.start(rng, w, "random")
    L = w.layout(X0)
    # groups of primitives nested in plain primitive nodes
    if rng.random() < 0.5:
        g = pr.PrimitiveNode.from_tree(np.array([]), {})
        inner = pr.PrimitiveNode.from_tree(np.array([]), {})
        for n in ("P", "Q"):
            inner.add_child(n, pr.Point(rng.normal(size=2)) if n == "P" else pr.Quadrilateral())
        g.add_child("inner", inner)
        g.add_child("line", pr.Line())
        L.add_prim(g, "Group_of_things")
        if w.cons:
            L.add_constraint(cr.YDistance(), ("Group_of_things/inner/P", "Group_of_things/inner/Q/Line2/Point0"), (0.3,))
    before = snap.layout(L)
    method = "minimize" if idx % 4 == 3 else "newton"
    root, info = solver.solve(L, method=method, max_iter=int(pick(rng, (0, 1, 3, 10))))
    unchanged(before, L, f"solve ({method})")
    same_structure(root, L, method)
    rec.event("layout without constraints", not w.cons)
    # solved once more: nothing is shared with the first solution, which stays as it is
    first = snap.freeze(root, ids=True)
    again, _ = solver.solve(L, method=method, max_iter=3)
    mine = {id(n.value): k for k, n in snap.walk(root) if n.value.size}
    for k, n in snap.walk(again):
        require(not n.value.size or id(n.value) not in mine and not any(np.shares_memory(n.value, m.value) for _, m in snap.walk(root)),
                "two solutions of one layout share memory", key=k)
    again_pts = [n for _, n in snap.walk(again) if n.value.size and n.value.flags.writeable]
    for n in again_pts:
        n.value[...] = -77.0
    require(snap.freeze(root, ids=True) == first, "a solution changed when the layout was solved again")
    rec.event("two solutions compared")
    X, alias = w.read(root)
    require(alias == 0, "a shared vertex came back with different values", world=w.describe())
    rec.event("structure compared")
    rec.state("structure", tuple(sorted(k for k, _ in w.prims.values())), method, "Group_of_things" in L.root_prim)
    # the solution can be modified in place like the layout; that reaches the vertices which share it only, and not the layout
    nodes = [(k, n) for k, n in snap.walk(root) if n.value.size]
    for k, n in nodes:
        require(isinstance(n.value, np.ndarray) and n.value.flags.writeable, "a solved vertex cannot be moved in place", key=k, type=type(n.value))
    k, n = pick(rng, nodes)
    others = {j: m.value.copy() for j, m in nodes if m.value is not n.value}
    n.value[...] = 55.0
    for j, m in nodes:
        require(np.array_equal(m.value, others.get(j, n.value)), "moving a solved vertex in place moves another one", moved=k, observed=j)
    rec.event("solved vertex moved in place")
    for _, n in nodes:
        n.value[...] = 99.0
    unchanged(before, L, "writing into the solution")
    rec.sample(f"{method}: {w.describe()}")


def resolve_fix(root, key, target):
    L = lay.Layout(root_prim=root)
    L.add_constraint(cr.Fix(), (key,), (np.asarray(target, dtype=float),))
    return solver.solve(L)[0]


def sharing(rng, rec, idx):
    """In the layout and again in its solution: one alias moves all aliases, and nothing else."""
    w = world.target(rng, scale=1.0, kinds="PLLQQAG", size=int(rng.integers(2, 5)))
    # extra lines joining existing vertices, and separate points with equal values
    n0 = len(w.X)
    for j in range(int(rng.integers(0, 3))):
        a, b = rng.choice(n0, 2, replace=False)
        if np.any(w.X[a] != w.X[b]):
            w.add(f"chord{j}", "L", [int(a), int(b)])
    for j in range(int(rng.integers(1, 4))):
        w.add(f"twin{j}", "P", w.add_points([w.X[int(rng.integers(n0))]]))
    table = w.ref_table()
    keyof = {}
    for k, (kind, i) in table.items():
        if kind == "P":
            keyof.setdefault(i[0], []).append(k)
    L = w.layout(w.X)
    stages = int(rng.integers(1, 4))
    root = L.root_prim
    X = w.X.copy()
    cand = [i for i in keyof if len(keyof[i]) > 1] or list(keyof)
    for s in range(stages):
        i = pick(rng, cand) if rng.random() < 0.7 else pick(rng, list(keyof))
        key = pick(rng, keyof[i])
        target = X[i] + rng.uniform(0.5, 2, 2)
        before = snap.freeze(root, ids=True)
        new = resolve_fix(root, key, target)
        require(snap.freeze(root, ids=True) == before, "re-solving changed the geometry it started from")
        X[i] = target
        for j, keys in keyof.items():
            for k in keys:
                v = new[k].value
                require(np.max(np.abs(v - X[j])) < 1e-9,
                        "shared vertex did not follow" if j == i else "separate primitive moved along", moved=key,
                        observed=k, got=v, want=X[j], stage=s)
        rec.event("alias followed", len(keyof[i]))
        rec.event("independent vertex stayed", len(keyof) - 1)
        root = new
        rec.state("sharing", stages, s, len(keyof[i]), table[key][0], tuple(sorted(v[0] for v in w.prims.values())))


def object_sharing(rng, rec, idx):
    """Whole primitives used in several places, before and after solving."""
    q = geo.mk_quad(ref.box(*rng.uniform(-1, 0, 2), *rng.uniform(1, 2, 2)))
    l = pr.Line(prims=(pr.Point(rng.normal(size=2)), q["Line0/Point1"]))
    lab = pr.Point(rng.normal(size=2))
    ax = pr.Axes(None, (q, pr.Quadrilateral(), lab), xaxis=True)
    poly = pr.Polygon(None, [q["Line0/Point0"], q["Line2/Point0"], lab], 3)
    sep = geo.mk_quad(geo.rd_quad(q))
    groups = [
        ["Q/Line0/Point0", "Axes/Frame/Line0/Point0", "Q/Line3/Point1", "Poly/Line0/Point0", "Poly/Line2/Point1",
         "Bottom/Point0", "Q2/Line0/Point0"],
        ["Q/Line0/Point1", "Axes/Frame/Line1/Point0", "L/Point1", "Bottom/Point1", "Q2/Line0/Point1"],
        ["Axes/XAxisLabel", "Label", "Poly/Line1/Point1", "Poly/Line2/Point0"],
        ["Sep/Line0/Point0", "Sep/Line3/Point1"],
        ["Axes/XAxis/Line0/Point0"],
    ]
    items = [("Q", q), ("L", l), ("Axes", ax), ("Poly", poly), ("Sep", sep), ("Bottom", q["Line0"]), ("Label", lab),
             ("Q2", q)]
    order = rng.permutation(len(items))
    L = lay.Layout()
    for i in order:
        L.add_prim(items[i][1], items[i][0])
    root = L.root_prim
    for s in range(2):
        g = pick(rng, groups)
        key = pick(rng, g)
        target = rng.uniform(3, 5, 2)
        old = {k: root[k].value.copy() for gg in groups for k in gg}
        new = resolve_fix(root, key, target)
        for gg in groups:
            for k in gg:
                want = target if gg is g else old[k]
                require(np.max(np.abs(new[k].value - want)) < 1e-9, "sharing between whole primitives is not preserved",
                        moved=key, observed=k, got=new[k].value, want=want, stage=s)
        rec.event("alias followed", len(g))
        root = new
    rec.state("objects", tuple(order.tolist())[:3], key)


def snapshots(rng, rec, idx):
    """Every read-only operation leaves the layout as it was."""
    w = world.target(rng, scale=1.0, kinds="PLQAA")
    world.constrain_linear(rng, w, int(rng.integers(2, 8)))
    L = lay.Layout()
    prims = w.build_prims(w.X)
    fig = ref.box(*rng.uniform(-1, 0, 2), *rng.uniform(4, 6, 2))
    L.add_prim(geo.mk_quad(fig), "Figure")
    axparts = {"Frame": ref.box(0.5, 0.5, 3, 2), "XAxis": ref.box(0.5, 0.2, 3, 0.5), "XAxisLabel": rng.uniform(0, 2, 2),
               "YAxis": ref.box(3, 0.5, 3.3, 2), "YAxisLabel": rng.uniform(0, 2, 2)}
    L.add_prim(geo.mk_axes(axparts), "AxesM")
    for n, p in prims.items():
        L.add_prim(p, n)
    arr_params = []
    for sp, keys, params in w.cons:
        params = tuple(np.array(p) if isinstance(p, np.ndarray) else p for p in params)
        arr_params += [p for p in params if isinstance(p, np.ndarray)]
        L.add_constraint(sp.make(), keys, params)
    L.add_constraint(cr.Box(), ("AxesM/Frame",), ())
    grid = [k for k, (kd, _) in w.prims.items() if kd == "Q"][:2]
    if len(grid) == 2:
        g = (np.array([1.5]), [], [0.1], np.zeros(0))
        arr_params += [p for p in g if isinstance(p, np.ndarray)]
        L.add_constraint(cr.Grid(shape=(1, 2)), tuple(grid), g)
    L.add_constraint(cr.XAxisThickness(), ("AxesM/XAxis",), (None,))
    arrs = [a.copy() for a in arr_params]
    before = snap.layout(L)
    axs = None
    ops = list(rng.permutation(["newton", "minimize", "evaluate", "figure_prims", "plot_prims", "subplots", "update",
                                "thickness", "flat", "iterate"]))
    for op in ops:
        if op in ("newton", "minimize"):
            solver.solve(L, method=op, max_iter=2)
        elif op == "evaluate":
            cons, keys, params = L.flat_constraints()
            solver.assem_constraint_residual(L.root_prim, cons, keys, params)
            for key, c in L.root_constraint.items():
                c.assem_from_tree(L.root_prim, L.root_prim_keys[key], L.root_param[key])
                c(tuple(L.root_prim[k] for k in L.root_prim_keys[key].value), *L.root_param[key].value)
        elif op == "figure_prims":
            ui.figure_prims(L.root_prim, fig_size=(2, 2))
        elif op == "plot_prims":
            ui.plot_prims(plt.figure(figsize=(2, 2)).add_subplot(), L.root_prim)
        elif op == "subplots":
            _, axs = mu.subplots(L.root_prim, axs_keys=["AxesM"])
        elif op == "update":
            f = plt.figure(figsize=(3, 3))
            mu.update_subplots(L.root_prim, "Figure", f, {"AxesM": f.add_axes((0, 0, 1, 1))})
        elif op == "thickness":
            if axs is None:
                _, axs = mu.subplots(L.root_prim, axs_keys=["AxesM"])
                unchanged(before, L, "subplots")
            L2 = lay.update_layout_constraints(L, axs)
            unchanged(before, L, "update_layout_constraints")
            solver.solve(L2, max_iter=1)
        elif op == "flat":
            cons, keys, params = L.flat_constraints()
            cons.clear(), keys.clear(), params.clear()
        else:
            repr(L.root_prim), len(L.root_constraint), L.root_prim.keys().clear(), L.root_prim.values().clear()
        unchanged(before, L, op)
        for a, b in zip(arr_params, arrs):
            require(np.array_equal(a, b), f"{op} changed a parameter array")
        rec.event("operation left the layout unchanged")
        rec.state("op", op, len(w.cons))
        plt.close("all")


GROUPS = {
    "structure": dict(fn=structure, quick=64, thorough=2000),
    "sharing": dict(fn=sharing, quick=80, thorough=2500),
    "object_sharing": dict(fn=object_sharing, quick=32, thorough=800),
    "snapshots": dict(fn=snapshots, quick=24, thorough=600),
}
