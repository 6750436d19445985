"""C13: traversal, copying, mapping, accumulation and (un)flattening of trees."""
import jax
import jax.numpy as jnp
import numpy as np

from mpllayout import containers as cn
from mpllayout import constructions as con
from mpllayout import primitives as pr
from mpllayout.containers import Node

from vlib import geo, ref, snap
from vlib.common import coord_sampler, pick, require, unique_names


def rand_tree(rng, value, depth=4, width=None, cls=Node, pool=None):
    """A random tree; `value()` makes values; sometimes more than ten children, in unsorted order; sometimes one node at several places."""
    if pool is None:
        pool = [] if rng.random() < 0.3 else False
    wide = rng.random() < 0.12
    n = int(rng.integers(10, 15)) if wide else int(rng.integers(0, (width or 4) + 1))
    kids = {}
    if depth > 0:
        names = unique_names(rng, n)
        if rng.random() < 0.4:
            names = [f"Line{j}" for j in rng.permutation(n)]
        for k in names:
            if pool and rng.random() < 0.3:
                kids[k] = pick(rng, pool)
                continue
            kids[k] = rand_tree(rng, value, (depth - 1) if not wide else 0, 3, cls, pool)
    node = cls.from_tree(value(), kids)
    if pool is not False and len(preorder(node, "")) <= 8:
        pool.append(node)
    return node


def shared(t):
    """Whether one node object is at several places of the tree."""
    ids = [id(n) for _, n in preorder(t, "")]
    return len(set(ids)) < len(ids)


def rand_prim(rng):
    smp = coord_sampler(rng)
    kind = pick(rng, ("P", "L", "Q", "A", "G", "G", "root"))
    if kind == "G":
        n = pick(rng, (3, 5, 10, 11, 13))
        return geo.mk_poly(smp((n, 2)))
    if kind == "A":
        return geo.mk_axes(geo.rand_axes_parts(rng, smp))
    if kind == "root":
        root = pr.PrimitiveNode.from_tree(np.array([]), {})
        for name in unique_names(rng, int(rng.integers(0, 13))):
            root.add_child(name, rand_prim(rng) if rng.random() < 0.5 else geo.mk_point(smp((2,))))
        return root
    return geo.mk(kind, geo.rand_geom(rng, kind, smp))


def eq(a, b):
    if isinstance(a, (np.ndarray, jnp.ndarray)) or isinstance(b, (np.ndarray, jnp.ndarray)):
        return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b))
    return type(a) is type(b) and a == b


def same_tree(got, want, what, kinds=True, path=""):
    require(isinstance(got, Node), f"{what}: not a tree", path=path, got=type(got).__name__)
    if kinds:
        require(type(got) is type(want), f"{what}: kind of node differs", path=path, got=type(got).__name__,
                want=type(want).__name__)
    require(eq(got.value, want.value), f"{what}: value differs", path=path, got=got.value, want=want.value)
    require(list(got.keys()) == list(want.keys()), f"{what}: keys or order differ", path=path, got=list(got.keys()),
            want=list(want.keys()))
    for k in want.keys():
        same_tree(got.children[k], want.children[k], what, kinds, f"{path}/{k}")


def preorder(node, key):
    """Own traversal: (path, node), parents first, children in order."""
    out = [(key, node)]
    for k in node.keys():
        out += preorder(node.children[k], f"{key}/{k}")
    return out


def values_for(rng):
    style = pick(rng, ("int", "str", "mixed", "array"))
    n = [0]

    def value():
        n[0] += 1
        if style == "int":
            return n[0]
        if style == "str":
            return f"v{n[0]}"
        if style == "array":
            return rng.normal(size=int(rng.integers(0, 4)))
        return pick(rng, (None, 1, "x", (1, 2), 2.5, True, [3], ("a",)))
    return value, style


def flattening(rng, rec, idx):
    if idx % 3 == 2:
        t, style = rand_prim(rng), "prim"
    else:
        value, style = values_for(rng)
        t = rand_tree(rng, value, cls=pick(rng, (Node, Node, con.PrimKeysNode, con.ParamsNode)))
    before = snap.freeze(t, ids=True)
    key = pick(rng, ("", "root", "a/b", "ä"))
    want = preorder(t, key)
    got = list(cn.iter_flat(key, t))
    require([k for k, _ in got] == [k for k, _ in want], "traversal order or paths differ", got=[k for k, _ in got][:20],
            want=[k for k, _ in want][:20])
    require(all(a is b for (_, a), (_, b) in zip(got, want)), "traversal visits another node")
    rec.event("node visited once, with its path", len(want))
    if shared(t):
        rec.event("tree with a node at several places observed")
    flat = cn.flatten(key, t)
    require(isinstance(flat, list) and len(flat) == len(want), "flattening has another number of nodes")
    require([f[0] for f in flat] == [k for k, _ in want], "flattened keys differ")
    extra = cn.flatten("other", Node(-1, {"z": Node(-2, {})})) if rng.random() < 0.5 else []
    back, rest = cn.unflatten(list(flat) + list(extra))
    same_tree(back, t, "unflatten(flatten)")
    require(len(rest) == len(extra) and [r[0] for r in rest] == [r[0] for r in extra], "left-over nodes differ")
    # unflattening twice gives independent trees, equal to the original
    back2, _ = cn.unflatten(flat)
    back.add_child("new child", Node(0, {}))
    same_tree(back2, t, "second unflatten")
    require(snap.freeze(t, ids=True) == before, "flattening changed the tree")
    rec.event("round trip observed")
    rec.state("flat", style, len(want), t.node_height(), type(t).__name__, len(t) > 10)
    rec.sample(f"flatten {style}: {[k for k, _ in want][:12]}")


def num_tree(rng):
    def value():
        return pick(rng, (float(rng.normal()), rng.normal(size=int(rng.integers(1, 4))), np.zeros(0), rng.normal(size=(2, 2))))
    return rand_tree(rng, value, depth=3)


def pytree(rng, rec, idx):
    t = rand_prim(rng) if idx % 2 else num_tree(rng)
    before = snap.freeze(t, ids=True)
    leaves, treedef = jax.tree_util.tree_flatten(t)
    want = [n.value for _, n in preorder(t, "")]
    require(len(leaves) == len(want), "pytree has another number of leaves", got=len(leaves), want=len(want))
    require(all(eq(np.asarray(a), np.asarray(b)) for a, b in zip(leaves, want)), "pytree leaves are not the values in order")
    same_tree(jax.tree_util.tree_unflatten(treedef, leaves), t, "pytree round trip")
    # rebuild with marked leaves: each value returns to its own place
    marks = [np.array([float(i)]) for i in range(len(leaves))]
    back = jax.tree_util.tree_unflatten(treedef, marks)
    require([int(n.value[0]) for _, n in preorder(back, "")] == list(range(len(marks))), "pytree puts values in other places")
    require([k for k, _ in preorder(back, "")] == [k for k, _ in preorder(t, "")], "pytree changes keys or order")
    rec.event("pytree round trip observed")
    how = ("map", "jit", "grad", "copy")[idx % 4]
    f = lambda v: 2.0 * jnp.asarray(v) + 1.0
    if how == "map":
        got = jax.tree_util.tree_map(f, t)
    elif how == "jit":
        got = jax.jit(lambda x: jax.tree_util.tree_map(f, x))(t)
    elif how == "grad":
        # gradient of sum(v^2 + v): 2 v + 1
        got = jax.grad(lambda x: sum(jnp.sum(jnp.asarray(v) ** 2 + v) for v in jax.tree_util.tree_leaves(x)))(
            jax.tree_util.tree_map(lambda v: jnp.asarray(v, dtype=float), t))
    else:
        got = jax.tree_util.tree_map(lambda x: x, t)
    for (k, a), (kw, b) in zip(preorder(got, ""), preorder(t, "")):
        want = np.asarray(b.value, dtype=float)
        want = want if how == "copy" else 2 * want + 1
        require(k == kw and type(a) is type(b) and list(a.keys()) == list(b.keys()),
                f"tree out of jax {how} has another structure", path=kw, got=(k, type(a).__name__, list(a.keys())),
                want=(type(b).__name__, list(b.keys())))
        require(np.shape(a.value) == want.shape and np.allclose(np.asarray(a.value), want, rtol=1e-12, atol=0),
                f"tree out of jax {how} has another value", path=kw, got=a.value, want=want)
    require(len(preorder(got, "")) == len(preorder(t, "")), f"tree out of jax {how} has another size")
    require(snap.freeze(t, ids=True) == before, "jax changed the tree")
    rec.event("jax transformation observed")
    rec.state("pytree", how, type(t).__name__, len(t), t.node_height())


def vmapped(rng, rec, idx):
    """Batched and stacked trees keep structure."""
    n = int(rng.integers(1, 4))
    a = rand_prim(rng)
    trees = [jax.tree_util.tree_map(lambda v: v + float(j), a) for j in range(n)]
    stacked = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *trees)
    out = jax.vmap(lambda x: jax.tree_util.tree_map(lambda v: v * 3.0, x))(stacked)
    for j in range(n):
        tj = jax.tree_util.tree_map(lambda v: v[j], out)
        for (k, u), (kw, v) in zip(preorder(tj, ""), preorder(trees[j], "")):
            require(k == kw and type(u) is type(v), "batched tree has another structure", path=kw)
            require(np.allclose(np.asarray(u.value), 3.0 * np.asarray(v.value), rtol=1e-12), "batched tree has another value",
                    path=kw)
    rec.event("jax transformation observed")
    rec.state("vmap", type(a).__name__, len(a), n)


def functional(rng, rec, idx):
    """copy, map and accumulate."""
    value, style = values_for(rng)
    t = rand_tree(rng, value) if idx % 4 else rand_prim(rng)
    before = snap.freeze(t, ids=True)
    c = t.copy()
    same_tree(c, t, "copy", kinds=False)
    # structural changes of the copy, at every level, do not reach the original
    for _, n in preorder(c, ""):
        if rng.random() < 0.5 and "added to the copy" not in n.keys():
            Node.add_child(n, "added to the copy", Node(0, {}))
    ks = [k[1:] for k, _ in preorder(c, "")][1:]
    if ks:
        c[pick(rng, ks)] = Node("replaced", {})
    require(snap.freeze(t, ids=True) == before, "modifying a copy changed the original")
    rec.event("copy observed")
    # and the other way round
    src = rand_tree(rng, value, depth=2)
    c = src.copy()
    frozen = snap.freeze(c)
    for _, n in preorder(src, ""):
        if "added to the original" not in n.keys():
            n.add_child("added to the original", Node(0, {}))
    require(snap.freeze(c) == frozen, "modifying the original changed its copy")

    calls = []

    def f(v):
        calls.append(v)
        return ("mapped", len(calls), v)
    m = cn.map(f, t)
    nodes = preorder(t, "")
    require(len(calls) == len(nodes), "mapping did not apply the function once per value", calls=len(calls), nodes=len(nodes))
    for (k, a), (kw, b) in zip(preorder(m, ""), nodes):
        require(k == kw, "mapping changed keys or order", got=k, want=kw)
        require(isinstance(a.value, tuple) and a.value[0] == "mapped" and a.value[2] is b.value,
                "mapped value is not the function of its own value", path=k, got=a.value)
    require(sorted(n.value[1] for _, n in preorder(m, "")) == list(range(1, len(nodes) + 1)), "mapping reused a result")
    require(snap.freeze(t, ids=True) == before, "mapping changed the tree")
    rec.event("map observed")

    op = pick(rng, ("sum", "max", "concat", "array"))
    if op == "sum":
        u, fn, init = rand_tree(rng, lambda: int(rng.integers(-50, 50))), (lambda a, b: a + b), 0
        comb = sum
    elif op == "max":
        u, fn, init = rand_tree(rng, lambda: float(rng.normal())), max, -np.inf
        comb = max
    elif op == "concat":
        u, fn, init = rand_tree(rng, lambda: (int(rng.integers(1000)),)), (lambda a, b: a + b), ()
        comb = lambda vs: sum(vs, ())
    else:
        u, fn, init = rand_tree(rng, lambda: rng.normal(size=2)), np.add, np.zeros(2)
        comb = lambda vs: np.sum(vs, axis=0)
    frozen = snap.freeze(u, ids=True)
    acc = cn.accumulate(fn, u, init)
    got = dict(preorder(acc, ""))
    for k, n in preorder(u, ""):
        want = comb([x.value for _, x in preorder(n, "")])
        require(k in got, "accumulation lost a node", path=k)
        g = got[k].value
        require(np.allclose(g, want) if op in ("array", "max") else g == want,
                "accumulated value is not the combination of the subtree's values", path=k, op=op, got=g, want=want)
    require([k for k, _ in preorder(acc, "")] == [k for k, _ in preorder(u, "")], "accumulation changed keys or order")
    require(snap.freeze(u, ids=True) == frozen, "accumulation changed the tree")
    rec.event("accumulation observed")
    rec.state("functional", style, op, len(nodes), t.node_height())


GROUPS = {
    "flattening": dict(fn=flattening, quick=600, thorough=20000),
    "pytree": dict(fn=pytree, quick=320, thorough=10000),
    "vmapped": dict(fn=vmapped, quick=48, thorough=1500),
    "functional": dict(fn=functional, quick=600, thorough=20000),
}
