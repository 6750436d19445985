"""C12: operation histories on labelled trees checked against an ordered nested dictionary."""
import numpy as np

from mpllayout import constructions as con
from mpllayout import primitives as pr
from mpllayout.containers import ItemCounter, Node

from vlib import snap
from vlib.common import fail, pick, rand_name, require


class M:
    """The model: a value and an ordered dict of models."""

    def __init__(self, value, kids=None):
        self.value, self.kids = value, dict(kids or {})

    def find(self, path):
        m = self
        for p in path:
            if p not in m.kids:
                return None
            m = m.kids[p]
        return m

    def height(self):
        return 0 if not self.kids else 1 + max(c.height() for c in self.kids.values())

    def copy(self):
        return M(self.value, {k: c.copy() for k, c in self.kids.items()})


NAMES = ("A", "B", "c", "Line1", "Line10", "Line2", "x y", "0", "1", "ä", "A.B", "None", "-", "a", "AB", "Axes")


def mk_value(rng, kind):
    if kind == "prim":
        return rng.normal(size=int(rng.integers(0, 3)))
    return pick(rng, (int(rng.integers(100)), None, "text", 3.5, (1, 2), ("k",), [], False))


CLASSES = {"plain": Node, "keys": con.PrimKeysNode, "params": con.ParamsNode, "prim": pr.PrimitiveNode}


def build(kind, m):
    """Real tree of a model."""
    return CLASSES[kind].from_tree(m.value, {k: build(kind, c) for k, c in m.kids.items()})


def rand_model(rng, kind, depth, width=4):
    m = M(mk_value(rng, kind))
    if depth > 0:
        for _ in range(int(rng.integers(0, width + 1))):
            m.kids.setdefault(pick(rng, NAMES), rand_model(rng, kind, depth - 1, width))
    return m


def same(node, m, what, path=""):
    require(node.value is m.value or (isinstance(m.value, np.ndarray) and np.array_equal(node.value, m.value)),
            f"{what}: value differs", path=path, got=node.value, want=m.value)
    require(list(node.keys()) == list(m.kids), f"{what}: keys or their order differ", path=path, got=list(node.keys()),
            want=list(m.kids))
    for k, c in m.kids.items():
        same(node.children[k], c, what, f"{path}/{k}")


def paths(m, prefix=()):
    for k, c in m.kids.items():
        yield prefix + (k,)
        yield from paths(c, prefix + (k,))


def rand_path(rng, m):
    """Existing, or missing at the leaf, in the middle, or at the top."""
    ex = list(paths(m))
    r = rng.random()
    if ex and r < 0.5:
        return pick(rng, ex)
    if ex and r < 0.75:
        return pick(rng, ex) + (pick(rng, NAMES),)
    if ex and r < 0.85:
        p = list(pick(rng, ex))
        p[int(rng.integers(len(p)))] = pick(rng, NAMES)
        return tuple(p)
    return tuple(pick(rng, NAMES) for _ in range(int(rng.integers(1, 4))))


def observe(node, m, rng, what):
    """All reading operations."""
    same(node, m, what)
    for p in [rand_path(rng, m) for _ in range(6)]:
        key = "/".join(p)
        want = m.find(p)
        require((key in node) is (want is not None), f"{what}: membership differs", key=key, got=key in node)
        try:
            got = node[key]
        except KeyError:
            got = None
            require(want is None, f"{what}: reading an existing key failed", key=key)
        else:
            require(want is not None, f"{what}: reading a missing key succeeded", key=key, got=got)
            same(got, want, f"{what}: node[{key!r}]")
            require(node.get_child(key) is got, f"{what}: get_child differs from indexing", key=key)
            # stepwise access
            n = node
            for q in p:
                n = n[q]
            require(n is got, f"{what}: stepwise access differs", key=key)
    for p in [()] + list(paths(m))[:6]:
        n, mm = node["/".join(p)] if p else node, m.find(p)
        require(len(n) == len(mm.kids), f"{what}: length differs", path=p, got=len(n), want=len(mm.kids))
        require(list(n) == list(mm.kids), f"{what}: iteration differs", path=p, got=list(n), want=list(mm.kids))
        require(n.node_height() == mm.height(), f"{what}: height differs", path=p, got=n.node_height(), want=mm.height())
        require([k for k, _ in n.items()] == list(mm.kids), f"{what}: items differ", path=p)
        vals = list(n.values())
        require(len(vals) == len(mm.kids) and all(a is b for a, (_, b) in zip(vals, n.items())), f"{what}: values differ",
                path=p)
        size = len(mm.kids)
        for i in [int(v) for v in rng.integers(-size - 1, size + 1, 3)]:
            try:
                got = n[i]
            except IndexError:
                require(not -size <= i < size, f"{what}: positional access failed", path=p, index=i, size=size)
            else:
                require(-size <= i < size and got is vals[i], f"{what}: positional access differs", path=p, index=i)
        a, b, c = (int(v) for v in rng.integers(-size - 1, size + 2, 3))
        sl = pick(rng, (slice(None), slice(a, b), slice(None, b), slice(a, None), slice(a, b, c or 1)))
        require(list(n[sl]) == vals[sl] if not vals else all(x is y for x, y in zip(n[sl], vals[sl])) and
                len(n[sl]) == len(vals[sl]), f"{what}: slice differs", path=p, slice=sl)


def history(rng, rec, idx):
    kind = pick(rng, ("plain", "plain", "plain", "keys", "params", "prim"))
    m = rand_model(rng, kind, int(rng.integers(0, 4)))
    node = build(kind, m)
    observe(node, m, rng, "new tree")
    log = []
    for step in range(int(rng.integers(3, 14))):
        op = pick(rng, ("add", "add", "add", "set", "set", "bad", "wide", "sub"))
        p = rand_path(rng, m)
        key = "/".join(p)
        new = rand_model(rng, kind, int(rng.integers(0, 3)), 3)
        parent, leaf = m.find(p[:-1]), p[-1]
        before = snap.freeze(node, ids=True)
        log.append((op, key))
        if op in ("add", "wide"):
            child = build(kind, new)
            ok = parent is not None and leaf not in parent.kids
            try:
                node.add_child(key, child)
            except KeyError:
                require(not ok, "adding a new key was refused", history=log)
                require(snap.freeze(node, ids=True) == before, "a refused addition changed the tree", history=log)
                rec.event("refused operation observed")
            else:
                require(ok, "adding an existing key or below a missing parent succeeded", history=log)
                parent.kids[leaf] = new
                require(node[key] is child, "the added child is not the one found", history=log)
                rec.event("addition observed")
            if op == "wide":
                for j in range(int(rng.integers(8, 14))):
                    kk = f"n{(j * 7) % 23}"
                    if kk not in m.kids:
                        m.kids[kk] = M(mk_value(rng, kind))
                        node.add_child(kk, build(kind, m.kids[kk]))
        elif op == "set":
            child = build(kind, new)
            ok = parent is not None and leaf in parent.kids
            try:
                node[key] = child
            except KeyError:
                require(not ok, "replacing an existing key was refused", history=log)
                require(snap.freeze(node, ids=True) == before, "a refused replacement changed the tree", history=log)
                rec.event("refused operation observed")
            else:
                require(ok, "replacing a missing key succeeded", history=log)
                parent.kids[leaf] = new
                require(node[key] is child, "the new child is not the one found", history=log)
                rec.event("replacement observed")
        elif op == "bad":
            # unsupported index types never change anything
            for bad in (None, 1.5, ("A",)):
                try:
                    node[bad]
                except Exception:
                    pass
                else:
                    fail("indexing with an unsupported type succeeded", index=bad)
            require(snap.freeze(node, ids=True) == before, "a refused read changed the tree", history=log)
            rec.event("refused operation observed")
        else:
            # operate through a subtree: the parent sees it
            ex = list(paths(m))
            if ex:
                q = pick(rng, ex)
                sub, msub = node["/".join(q)], m.find(q)
                nm = pick(rng, NAMES)
                if nm not in msub.kids:
                    msub.kids[nm] = M(mk_value(rng, kind))
                    sub.add_child(nm, build(kind, msub.kids[nm]))
                    rec.event("addition observed")
        observe(node, m, rng, f"after {log}")
        rec.event("state compared with the model")
        rec.state(kind, op, len(p), parent is not None, parent is not None and leaf in parent.kids, m.height(), len(m.kids))
    rec.sample(f"{kind}: {log}")


def large(rng, rec, idx):
    """Hundreds of children, and tens of levels, the deepest branch anywhere among its siblings."""
    kind = pick(rng, ("plain", "keys", "params", "prim"))
    width, depth = int(rng.integers(40, 400)), int(rng.integers(2, 40))
    order = [f"{pick(rng, NAMES)}{j}" for j in rng.permutation(width)]
    where = pick(rng, (0, width - 1, int(rng.integers(width))))
    m = M(mk_value(rng, kind))
    for j, k in enumerate(order):
        m.kids[k] = M(mk_value(rng, kind), {"a": M(mk_value(rng, kind))} if rng.random() < 0.2 else {})
    at, chain = m.kids[order[where]], [order[where]]
    for d in range(depth):
        chain.append(pick(rng, NAMES))
        at.kids[chain[-1]] = M(mk_value(rng, kind))
        at = at.kids[chain[-1]]
    node = build(kind, m)
    observe(node, m, rng, "large tree")
    for n in (1, 2, len(chain) // 2 + 1, len(chain)):
        key, sub = "/".join(chain[:n]), m.find(chain[:n])
        require(key in node, "membership of a deep key", key=key)
        require(node[key].node_height() == sub.height(), "height of a branch", key=key, got=node[key].node_height(), want=sub.height())
        require(key + "/zz" not in node, "membership of a missing deep key", key=key)
    leaf = M(mk_value(rng, kind), {"end": M(mk_value(rng, kind))})
    key = "/".join(chain)
    if rng.random() < 0.5:
        node[key] = build(kind, leaf)
        m.find(chain[:-1]).kids[chain[-1]] = leaf
    else:
        node.add_child(key + "/zz", build(kind, leaf))
        m.find(chain).kids["zz"] = leaf
    observe(node, m, rng, "large tree after a change at the deepest place")
    rec.event("large tree compared with the model", 2)
    rec.state("large", kind, width // 50, depth // 8, where in (0, width - 1))


def empty_names(rng, rec, idx):
    """Components may be any string, the empty one included."""
    m = M(0, {"a": M(1, {"": M(2), "b": M(3)}), "": M(4, {"x": M(5)}), "x": M(6)})
    node = build("plain", m)
    for key in ("a", "a/", "a/b", "", "/x", "x", "x/", "/", "/y", "a//", "//x"):
        want = m.find(tuple(key.split("/")))
        require((key in node) is (want is not None), "membership of a key with an empty component differs", key=key)
        try:
            got = node[key]
        except KeyError:
            require(want is None, "reading a key with an empty component failed", key=key)
        else:
            require(want is not None and got.value == want.value, "reading a key with an empty component differs", key=key)
        if want is not None:
            n2 = build("plain", m)
            n2[key] = Node(99, {})
            require(n2[key].value == 99, "replacing a key with an empty component went elsewhere", key=key)
            m2 = m.copy()
            p = key.split("/")
            m2.find(p[:-1]).kids[p[-1]] = M(99)
            same(n2, m2, f"replacing {key!r}")
    rec.event("empty component observed", 11)
    rec.state("empty")


class _Item:
    pass


def counters(rng, rec, idx):
    """Generated keys are new in every tree they are generated for."""
    counter = ItemCounter()
    classes = [type(n, (_Item,), {}) for n in ("Box", "Box1", "Width", "A", "Box0")]
    nodes = [Node(None, {}) for _ in range(int(rng.integers(1, 4)))]
    used = set()
    for _ in range(int(rng.integers(5, 25))):
        item = pick(rng, classes)()
        if rng.random() < 0.4:
            k = type(item).__name__ + str(int(rng.integers(0, 6)))
            n = pick(rng, nodes)
            if k not in n:
                n.add_child(k, Node(0, {}))
            continue
        before = [snap.freeze(n) for n in nodes]
        key = counter.add_item_to_nodes(item, *nodes)
        require([snap.freeze(n) for n in nodes] == before, "generating a key changed a tree")
        require(all(key not in list(n.keys()) for n in nodes), "generated key already exists", key=key)
        require(key.startswith(type(item).__name__), "generated key does not name its category", key=key)
        require(key not in used, "generated key was generated before", key=key)
        require(type(item).__name__ in counter and ("Nope" in counter) is False, "counter membership differs")
        used.add(key)
        if rng.random() < 0.8:
            for n in nodes:
                n.add_child(key, Node(0, {}))
        rec.event("generated key observed")
    rec.state("counter", len(nodes), len(used))


GROUPS = {
    "history": dict(fn=history, quick=1200, thorough=60000),
    "empty_names": dict(fn=empty_names, quick=8, thorough=8),
    "large": dict(fn=large, quick=96, thorough=3000),
    "counters": dict(fn=counters, quick=200, thorough=5000),
}
