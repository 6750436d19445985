"""C22: primitives and constraints which users define are solved and copied like the built-in ones."""
import jax.numpy as jnp
import matplotlib.pyplot as plt
import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import containers as cn
from mpllayout import layout as lay
from mpllayout import matplotlibutils as mu
from mpllayout import primitives as pr
from mpllayout import solver as so

from vlib import snap
from vlib.common import Skip, pick, require

NOTHING = np.zeros(0)


# -- user-defined primitives: parameter vectors of any size, any kind and number of parts ------------

class Spot(pr.Point):
    """A point under another name."""


class Numbers(pr.StaticPrimitive):
    """Five numbers and no parts."""
    signature = (5, ())

    @classmethod
    def init_children(cls, prims):
        return (), prims

    @classmethod
    def default_value(cls):
        return np.arange(5.0)

    @classmethod
    def default_prims(cls):
        return ()


class Radius(pr.StaticPrimitive):
    """One number."""
    signature = (1, ())

    @classmethod
    def init_children(cls, prims):
        return (), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0])

    @classmethod
    def default_prims(cls):
        return ()


class Disc(pr.StaticPrimitive):
    """A radius of its own and a centre."""
    signature = (1, (pr.Point,))

    @classmethod
    def init_children(cls, prims):
        return ("Center",), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0])

    @classmethod
    def default_prims(cls):
        return (pr.Point([0.5, 0.5]),)


class Wheel(pr.StaticPrimitive):
    """A centre and a radius which others may share."""
    signature = (0, (Radius, pr.Point))

    @classmethod
    def init_children(cls, prims):
        return ("Radius", "Center"), prims

    @classmethod
    def default_value(cls):
        return np.array(())

    @classmethod
    def default_prims(cls):
        return (Radius(), pr.Point())


class Curve(pr.StaticPrimitive):
    """Two ends and three numbers."""
    signature = (3, (pr.Point, pr.Point))

    @classmethod
    def init_children(cls, prims):
        return ("Start", "End"), prims

    @classmethod
    def default_value(cls):
        return np.array([0.0, 1.0, 2.0])

    @classmethod
    def default_prims(cls):
        return (pr.Point(), pr.Point([1, 0]))


class Path(pr.Primitive):
    """A path with two numbers: the number of lines depends on a keyword."""
    signature = (2, (pr.Line, ...))

    def __init__(self, value=None, prims=None, closed=False):
        super().__init__(value=value, prims=prims, closed=closed)

    @classmethod
    def init_children(cls, prims, closed=False):
        prims = list(prims)
        ends = prims[1:] + (prims[:1] if closed else [])
        lines = [pr.Line(np.array([]), (a, b)) for a, b in zip(prims, ends)]
        return [f"Step{i}" for i in range(len(lines))], lines

    @classmethod
    def default_value(cls, closed=False):
        return np.zeros(2)

    @classmethod
    def default_prims(cls, closed=False):
        return [pr.Point([i, i * i]) for i in range(4)]


class Panel(pr.Quadrilateral):
    """A quadrilateral with a padding of its own."""
    signature = (1, 4 * (pr.Line,))

    @classmethod
    def default_value(cls, size=4):
        return np.array([0.5])


class Bunch(pr.PrimitiveNode):
    """Two numbers and any number of discs under names of the user's choice."""
    signature = (2, (Disc, ...))


class Pair(pr.PrimitiveNode):
    """One number with two discs or two curves."""
    signature = (1, {(Disc, Disc), (Curve, Curve)})


class MyAxes(pr.Axes):
    """Axes under another name."""


class MyThickness(cr.XAxisThickness):
    """A thickness constraint under another name."""


# -- description of a tree: which parameter vector each node has --------------------------------------

class T:
    def __init__(self, cls, slot, parts, make):
        self.cls, self.slot, self.parts, self.make, self.prim = cls, slot, parts, make, None

    def build(self, X):
        if self.prim is None:
            self.prim = self.make(None if self.slot is None else X[self.slot].copy(), X)
        return self.prim


def forget(t):
    t.prim = None
    for c in t.parts.values():
        forget(c)


def paths(t, key):
    yield key, t
    for k, c in t.parts.items():
        yield from paths(c, f"{key}/{k}")


class World:
    def __init__(self, rng):
        self.rng, self.X, self.top, self.pool = rng, [], {}, {}

    def slot(self, n):
        self.X.append(self.rng.uniform(-2, 2, n))
        return len(self.X) - 1

    def shared(self, kind, make):
        """A new part, or one which another primitive has already."""
        old = self.pool.setdefault(kind, [])
        if old and self.rng.random() < 0.35:
            return pick(self.rng, old)
        old.append(make())
        return old[-1]

    def point(self):
        cls = pick(self.rng, (pr.Point, pr.Point, Spot))
        return self.shared("point", lambda: T(cls, self.slot(2), {}, lambda v, X: cls(v)))

    def numbers(self):
        return self.shared("numbers", lambda: T(Numbers, self.slot(5), {}, lambda v, X: Numbers(v)))

    def radius(self):
        return self.shared("radius", lambda: T(Radius, self.slot(1), {}, lambda v, X: Radius(v)))

    def disc(self):
        def make():
            c = self.point()
            return T(Disc, self.slot(1), {"Center": c}, lambda v, X: Disc(v, (c.build(X),)))
        return self.shared("disc", make)

    def wheel(self):
        r, c = self.radius(), self.point()
        return T(Wheel, None, {"Radius": r, "Center": c}, lambda v, X: Wheel(None, (r.build(X), c.build(X))))

    def curve(self):
        def make():
            a, b = self.point(), self.point()
            return T(Curve, self.slot(3), {"Start": a, "End": b}, lambda v, X: Curve(v, (a.build(X), b.build(X))))
        return self.shared("curve", make)

    def _lines(self, pts, closed, name):
        ends = pts[1:] + (pts[:1] if closed else [])
        return {f"{name}{i}": T(pr.Line, None, {"Point0": a, "Point1": b}, None) for i, (a, b) in enumerate(zip(pts, ends))}

    def path(self):
        closed, pts = bool(self.rng.random() < 0.5), [self.point() for _ in range(int(self.rng.integers(1, 6)))]
        return T(Path, self.slot(2), self._lines(pts, closed, "Step"),
                 lambda v, X: Path(v, [p.build(X) for p in pts], closed=closed))

    def panel(self):
        pts = [self.point() for _ in range(4)]
        return T(Panel, self.slot(1), self._lines(pts, True, "Line"), lambda v, X: Panel(v, [p.build(X) for p in pts]))

    def quad(self):
        pts = [self.point() for _ in range(4)]
        return T(pr.Quadrilateral, None, self._lines(pts, True, "Line"),
                 lambda v, X: pr.Quadrilateral(None, [p.build(X) for p in pts]))

    def names(self, n):
        return list(self.rng.permutation(["A", "über", "Ring 2", "c.1", "x-y", "Line0", "Point0", "7"])[:n])

    def bunch(self):
        parts = {str(k): self.disc() for k in self.names(int(self.rng.integers(0, 4)))}
        return T(Bunch, self.slot(2), parts, lambda v, X: Bunch(v, {k: p.build(X) for k, p in parts.items()}))

    def pair(self):
        f = pick(self.rng, (self.disc, self.curve))
        parts = {str(k): f() for k in self.names(2)}
        return T(Pair, self.slot(1), parts, lambda v, X: Pair(v, {k: p.build(X) for k, p in parts.items()}))

    KINDS = ("point", "numbers", "radius", "disc", "wheel", "curve", "path", "panel", "quad", "bunch", "pair")

    def group(self, depth=0):
        parts = {}
        for k in self.names(int(self.rng.integers(1, 4))):
            parts[str(k)] = (self.group(depth + 1) if depth < 2 and self.rng.random() < 0.25
                             else getattr(self, pick(self.rng, self.KINDS))())
        return T(pr.PrimitiveNode, None, parts, lambda v, X: pr.PrimitiveNode(np.array(()), {k: p.build(X) for k, p in parts.items()}))

    def grow(self, n):
        for i in range(n):
            kind = pick(self.rng, self.KINDS + ("group", "group"))
            t = getattr(self, kind)()
            if any(t is o for o in self.top.values()) and self.rng.random() < 0.7:
                continue
            self.top[f"{kind} {i}"] = t

    def nodes(self):
        for k, t in self.top.items():
            yield from paths(t, k)

    def tree(self, X):
        for t in self.top.values():
            forget(t)
        return {k: t.build(X) for k, t in self.top.items()}

    def describe(self):
        return {k: t.cls.__name__ for k, t in self.top.items()}


# -- user-defined constraints ------------------------------------------------------------------------

def _read(prims, access):
    """The numbers named by `access`: (argument, path) pairs."""
    out = [prims[n].value if sub == "" else prims[n][sub].value for n, sub in access]
    return jnp.concatenate([jnp.reshape(v, -1) for v in out])


def linear_leaf(types, access, m, scalar=False):
    """`M @ numbers` of the primitives, for a matrix parameter `M`."""

    class Linear(con.LeafConstruction, con.make_signature_class(types)):
        @classmethod
        def init_signature(cls):
            return cls.make_signature(m, (np.ndarray,))

        @classmethod
        def assem(cls, prims, M):
            v = jnp.asarray(M) @ _read(prims, access)
            return v[0] if scalar else v

    return Linear()


def affine_leaf(types, access, m):
    """The same relative to a wanted value; both parameters come in one dictionary."""

    class Affine(con.LeafConstruction, con.make_signature_class(types)):
        @classmethod
        def init_signature(cls):
            return cls.make_signature(m, (dict,))

        @classmethod
        def assem(cls, prims, spec):
            return jnp.asarray(spec["matrix"]) @ _read(prims, access) - spec["wanted"]

    return Affine()


class Terms(con.CompoundConstruction):
    """Leaf constraints under names of the user's choice; parameters are given as one list of pairs, in reversed order."""

    def __init__(self, keys, leaves, prim_keys, types, own):
        super().__init__(keys=keys, leaves=leaves, prim_keys=prim_keys, types=types, own=own)

    @classmethod
    def init_children(cls, keys, leaves, prim_keys, types, own):
        def child_params(params):
            return tuple(params[0][::-1])
        return keys, leaves, prim_keys, child_params

    @classmethod
    def init_signature(cls, keys, leaves, prim_keys, types, own):
        return con.ConstructionSignature(types, (list,), own)


class TermsWithOwn(Terms):
    """... and two numbers of its own: the first parameter vector's first two entries relative to 1 and 2 (see `own_rows`)."""

    @classmethod
    def assem(cls, prims, pairs):
        v = jnp.reshape(prims[0].value, -1)
        return jnp.stack([v[0] - pairs[0][1][0], -3 * v[-1] + 3 * pairs[0][1][0]])


class Row(con.ArrayCompoundConstruction):
    """The same constraint on each of several primitives of one class, with one list of parameters each."""

    def __init__(self, leaf, types, shape):
        super(con.ArrayCompoundConstruction, self).__init__(leaf=leaf, types=types, shape=shape)

    @classmethod
    def init_children(cls, leaf, types, shape):
        n = int(np.prod(shape))
        keys = ["part" + "_".join(map(str, np.unravel_index(i, shape))) for i in range(n)]

        def child_params(params):
            Ms, bs = params
            return tuple(zip(Ms, bs))
        return keys, n * [leaf], [(f"arg{i}",) for i in range(n)], child_params

    @classmethod
    def init_signature(cls, leaf, types, shape):
        return con.ConstructionSignature(int(np.prod(shape)) * (types[0],), (np.ndarray, np.ndarray), 0)


class Rel:
    """A constraint in a layout with its reference: residual `M @ X[slots] - b` stacked in order."""

    def __init__(self, name, make, keys, blocks, params):
        self.name, self.make, self.keys, self.blocks, self.params = name, make, keys, blocks, params

    def rows(self, sizes):
        off = np.cumsum([0] + list(sizes))
        A, b = [], []
        for slots, M, w in self.blocks:
            R = np.zeros((len(w), off[-1]))
            j = 0
            for s in slots:
                R[:, off[s]:off[s + 1]] += M[:, j:j + sizes[s]]
                j += sizes[s]
            A.append(R)
            b.append(np.asarray(w, dtype=float))
        return np.concatenate(A), np.concatenate(b)


def _args(rng, w, count):
    """`count` random nodes; which vectors below each one are read."""
    nodes = list(w.nodes())
    keys, types, access, slots = [], [], [], []
    for n in range(count):
        key, t = pick(rng, nodes)
        below = [(k[len(key) + 1:], c) for k, c in paths(t, key) if c.slot is not None]
        if not below:
            raise Skip("chosen primitive has no parameters")
        keys.append(key)
        types.append(pick(rng, (t.cls, t.cls, t.cls.__mro__[1])))
        for i in rng.permutation(len(below))[:int(rng.integers(1, 3))]:
            access.append((n, below[i][0]))
            slots.append(below[i][1].slot)
    return keys, tuple(types), tuple(access), slots


def relation(rng, w):
    size = lambda slots: sum(w.X[s].size for s in slots)
    cat = lambda slots: np.concatenate([w.X[s] for s in slots])
    mat = lambda m, n: rng.choice([1.0, -1.0, 0.5, 2.0], (m, n)) * (rng.random((m, n)) < 0.8)
    form = pick(rng, ("affine", "constraint", "scalar", "sum", "partial", "terms", "own", "row", "map"))
    if form in ("affine", "constraint", "scalar", "partial"):
        keys, types, access, slots = _args(rng, w, int(rng.integers(1, 4)))
        m = 1 if form == "scalar" else int(rng.integers(1, 4))
        M = mat(m, size(slots))
        b = M @ cat(slots)
        if form == "affine":
            return Rel(form, lambda: affine_leaf(types, access, m), keys, [(slots, M, b)], ({"matrix": M, "wanted": b},))
        leaf = lambda: linear_leaf(types, access, m, form == "scalar")
        if form == "partial":
            return Rel(form, lambda: con.transform_partial(con.transform_constraint(leaf()), b), keys, [(slots, M, b)], (M,))
        return Rel(form, lambda: con.transform_constraint(leaf()), keys, [(slots, M, b)], (M, float(b[0]) if form == "scalar" else b))
    if form == "sum":
        k0, t0, a0, s0 = _args(rng, w, int(rng.integers(1, 3)))
        k1, t1, a1, s1 = _args(rng, w, int(rng.integers(1, 3)))
        m, c = int(rng.integers(1, 3)), float(pick(rng, (2.0, -1.0, 0.5)))
        M0, M1 = mat(m, size(s0)), mat(m, size(s1))
        b = M0 @ cat(s0) + c * (M1 @ cat(s1))
        make = lambda: con.transform_constraint(linear_leaf(t0, a0, m) + linear_leaf(t1, a1, m) * c)
        return Rel(form, make, k0 + k1, [(s0 + s1, np.hstack([M0, c * M1]), b)], (M0, M1, b))
    if form in ("terms", "own"):
        keys, types, _, _ = _args(rng, w, int(rng.integers(1, 4)))
        table = dict(w.nodes())
        n = int(rng.integers(1, 4))
        names, leaves, pkeys, pairs, blocks = w.names(n), [], [], [], []
        if form == "own" and (table[keys[0]].slot is None or w.X[table[keys[0]].slot].size != 1):
            raise Skip("first primitive has no single number")
        for i in range(n):
            a = [int(rng.integers(len(keys))) for _ in range(int(rng.integers(1, 3)))]
            subs = [pick(rng, [(k[len(keys[j]) + 1:], c) for k, c in paths(table[keys[j]], keys[j]) if c.slot is not None]) for j in a]
            slots = [c.slot for _, c in subs]
            m = int(rng.integers(1, 3))
            M = mat(m, size(slots))
            b = M @ cat(slots)
            leaves.append((tuple(c.cls for _, c in subs), m))
            pkeys.append(tuple(f"arg{j}" + ("/" + s if s else "") for j, (s, _) in zip(a, subs)))
            pairs.append((M, b))
            blocks.append((slots, M, b))
        if form == "own":
            s = table[keys[0]].slot
            r = w.X[s][0]
            # the first pair belongs to the last child, whose wanted value is made equal to the number
            M = np.zeros((1, w.X[blocks[-1][0][0]].size))
            M[0, 0] = r / w.X[blocks[-1][0][0]][0]
            b = np.array([r])
            leaves[-1] = ((leaves[-1][0][0],), 1)
            pkeys[-1] = (pkeys[-1][0],)
            pairs[-1] = (M, b)
            blocks[-1] = (blocks[-1][0][:1], M, b)
            blocks.insert(0, ([s], np.array([[1.0], [-3.0]]), np.array([r, -3 * r])))
        cls = TermsWithOwn if form == "own" else Terms

        def make():
            ls = [con.transform_constraint(linear_leaf(t, tuple((j, "") for j in range(len(t))), m)) for t, m in leaves]
            return cls([str(x) for x in names], ls, pkeys, types, 2 if form == "own" else 0)
        return Rel(form, make, keys, blocks, (pairs[::-1],))
    # the same constraint on several primitives of one class
    byclass = {}
    for k, t in w.nodes():
        if t.slot is not None:
            byclass.setdefault(t.cls, []).append((k, t))
    cls = pick(rng, sorted(byclass, key=lambda c: c.__name__))
    nodes = byclass[cls]
    n = w.X[nodes[0][1].slot].size
    m = int(rng.integers(1, n + 1))
    if form == "row":
        shape = pick(rng, ((1,), (2,), (3,), (2, 2), (1, 3)))
        chosen = [pick(rng, nodes) for _ in range(int(np.prod(shape)))]
        Ms = [mat(m, n) for _ in chosen]
        bs = [M @ w.X[t.slot] for M, (_, t) in zip(Ms, chosen)]
        make = lambda: Row(con.transform_constraint(linear_leaf((cls,), ((0, ""),), m)), (cls,), shape)
        return Rel(form, make, [k for k, _ in chosen], [([t.slot], M, b) for M, b, (_, t) in zip(Ms, bs, chosen)], (np.array(Ms), np.array(bs)))
    count = int(rng.integers(1, 4))
    chosen = [pick(rng, nodes) for _ in range(count)]
    last = pick(rng, list(w.nodes())) if rng.random() < 0.5 else None
    if last is not None and last[1].slot is None:
        last = None
    Ms, bs, blocks, params = [], [], [], ()
    for k, t in chosen:
        slots = [t.slot] + ([last[1].slot] if last else [])
        M = mat(m, size(slots))
        b = M @ cat(slots)
        blocks.append((slots, M, b))
        params += (M, b)
    types = (cls,) + ((last[1].cls,) if last else ())
    access = tuple((j, "") for j in range(len(types)))
    make = lambda: con.transform_map(con.transform_constraint(linear_leaf(types, access, m)), count * [cls] + ([last[1].cls] if last else []))
    return Rel(form, make, [k for k, _ in chosen] + ([last[0]] if last else []), blocks, params)


# -- groups ------------------------------------------------------------------------------------------

def build(w, X, cons):
    L = lay.Layout()
    L.add_prims(w.tree(X))
    for i, c in enumerate(cons):
        L.add_constraint(c.make(), tuple(c.keys), c.params, f"user {i}" if i % 2 else "")
    return L


def read(w, root, what):
    """Vectors by slot from a tree, checking classes, names, kinds and sharing on the way."""
    X, owner = [None] * len(w.X), {}
    require(list(root.keys()) == list(w.top), f"{what}: primitives of the tree", got=list(root.keys()), want=list(w.top))
    for k, t in w.nodes():
        p = root[k]
        require(type(p) is t.cls, f"{what}: class of a primitive", key=k, got=type(p), want=t.cls)
        require(list(p.keys()) == list(t.parts), f"{what}: parts of a primitive", key=k, got=list(p.keys()), want=list(t.parts))
        n = 0 if t.slot is None else w.X[t.slot].size
        require(isinstance(p.value, np.ndarray) and p.value.shape == (n,) and p.value.dtype == float,
                f"{what}: parameter vector of a primitive", key=k, got=repr(p.value), size=n)
        if t.slot is None:
            continue
        if t.slot in owner:
            require(owner[t.slot] is p.value, f"{what}: shared primitive is no longer shared", key=k)
        require(all(v is not p.value for s, v in owner.items() if s != t.slot), f"{what}: separate primitives are now shared", key=k)
        owner[t.slot] = p.value
        X[t.slot] = np.array(p.value)
    return [x if x is not None else w.X[i] for i, x in enumerate(X)], set(owner)


def make_world(rng, lo=2, hi=6):
    w = World(rng)
    w.grow(int(rng.integers(lo, hi)))
    return w


def relations(rng, w, n):
    out = []
    for _ in range(4 * n):
        if len(out) == n:
            break
        try:
            out.append(relation(rng, w))
        except Skip:
            pass
    if not out:
        raise Skip("no constraint could be generated")
    return out


def system(w, cons):
    sizes = [x.size for x in w.X]
    rows = [c.rows(sizes) for c in cons]
    return np.concatenate([a for a, _ in rows]), np.concatenate([b for _, b in rows])


def well_posed(A):
    s = np.linalg.svd(A, compute_uv=False)
    s = s / max(s[0], 1e-300)
    return not np.any((s > 1e-11) & (s < 1e-3))


def solve(rng, rec, idx):
    """User-defined primitives under user-defined linear constraints: the solution closest to the start, of the same make-up."""
    w = make_world(rng)
    cons = relations(rng, w, int(rng.integers(1, 7)))
    A, b = system(w, cons)
    if not well_posed(A):
        raise Skip("nearly dependent constraints")
    X0 = [rng.uniform(-3, 3, x.size) for x in w.X]
    L = build(w, X0, cons)
    before = snap.layout(L)
    x0 = np.concatenate(X0)
    # evaluation
    off = 0
    for c in cons:
        r, _ = c.rows([x.size for x in w.X])
        want = A[off:off + len(r)] @ x0 - b[off:off + len(r)]
        got = np.asarray(c.make()(tuple(L.root_prim[k] for k in c.keys), *c.params))
        require(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=1e-9 * max(1, np.max(np.abs(want), initial=0))),
                "user-defined constraint evaluated", form=c.name, keys=c.keys, got=got, want=want)
        off += len(r)
        rec.event("user-defined constraint evaluated")
        rec.state(c.name, tuple(sorted({dict(w.nodes())[k].cls.__name__ for k in c.keys})))
    updated = idx % 3 == 0
    if updated:
        L0, L = L, lay.update_layout_constraints(L, {})
        read(w, L.root_prim, "updated layout")
    method = "newton" if idx % 5 else "minimize"
    root, info = so.solve(L, method=method, **({} if method == "newton" else {"max_iter": 2000, "abs_tol": 1e-9, "rel_tol": 1e-12}))
    X, seen = read(w, root, "solved tree")
    X = [x if i in seen else X0[i] for i, x in enumerate(X)]
    require(snap.layout(L0 if updated else L) == before, "solving changed the layout")
    xs = np.concatenate(X)          # numbers of parts which are in no primitive of the layout stay out of it
    S = max(1.0, np.max(np.abs(x0)), np.max(np.abs(np.concatenate(w.X))))
    scale = S * max(1.0, np.max(np.abs(A)))
    rel = 1e-9 if method == "newton" else 1e-3
    err = A @ xs - b
    require(np.max(np.abs(err)) <= rel * scale, "solved primitives do not satisfy a user-defined constraint", error=err,
            world=w.describe(), constraints=[(c.name, c.keys) for c in cons], method=method)
    if method == "newton":
        want = x0 - np.linalg.pinv(A, rcond=1e-7) @ (A @ x0 - b)
        require(np.max(np.abs(xs - want)) <= 1e-7 * scale, "solved primitives are not those closest to the start", got=xs, want=want,
                world=w.describe(), constraints=[(c.name, c.keys) for c in cons])
        rec.event("closest solution compared")
    # what was built by hand, copied or flattened is the same thing
    if idx % 2:
        again = cn.unflatten(cn.flatten("", root))[0]
        require(type(again) is type(root), "class of the flattened and rebuilt tree")
        Y, _ = read(w, again, "flattened and rebuilt tree")
        require(all(np.array_equal(Y[i], X[i]) for i in seen), "flattened and rebuilt tree", got=Y, want=xs)
    rec.event("solved tree of user-defined primitives compared")
    rec.event("shared user-defined part", sum(1 for k, t in w.nodes() if t.slot is not None) - len(seen))
    rec.state(tuple(sorted(t.cls.__name__ for _, t in w.nodes())))
    rec.sample(f"{w.describe()} under {[(c.name, c.keys) for c in cons]} ({method})")


# nonlinear relations between discs, points, curves and boxes: (classes, reference of the error, construction)

def _nl(name, types, m, f):
    """`f(np_or_jnp, values, *params)` with `values` a function (argument, path) -> vector."""
    cls = type(name, (con.LeafConstruction, con.make_signature_class(types)), {
        "init_signature": classmethod(lambda cls: cls.make_signature(m)),
        "assem": classmethod(lambda cls, prims: jnp.atleast_1d(f(jnp, lambda n, s="": prims[n][s].value if s else prims[n].value))),
    })
    return cls, types, m, f


NONLINEAR = {
    "Tangent": _nl("Tangent", (Disc, Disc), 1, lambda np_, v: np_.sqrt(np_.sum((v(1, "Center") - v(0, "Center")) ** 2)) - v(0)[0] - v(1)[0]),
    "Gap": _nl("Gap", (Wheel, Disc), 1, lambda np_, v: np_.sum((v(1, "Center") - v(0, "Center")) ** 2) - (v(0, "Radius")[0] + 2 * v(1)[0]) ** 2),
    "OnDisc": _nl("OnDisc", (pr.Point, Disc), 1, lambda np_, v: np_.sqrt(np_.sum((v(0) - v(1, "Center")) ** 2)) - v(1)[0]),
    "OnWheel": _nl("OnWheel", (Wheel, pr.Point), 1, lambda np_, v: np_.sqrt(np_.sum((v(1) - v(0, "Center")) ** 2)) - v(0, "Radius")[0]),
    "Arc": _nl("Arc", (Curve,), 2, lambda np_, v: np_.stack([
        v(0, "End")[0] - v(0, "Start")[0] - v(0)[0] * np_.cos(v(0)[1]), v(0, "End")[1] - v(0, "Start")[1] - v(0)[0] * np_.sin(v(0)[2])])),
    "Padding": _nl("Padding", (Panel, Disc), 1, lambda np_, v: v(0)[0] * v(1)[0] - (v(0, "Line0/Point1")[0] - v(1, "Center")[0])),
    "Product": _nl("Product", (Radius, Numbers), 2, lambda np_, v: np_.stack([v(1)[0] * v(0)[0] - v(1)[1], v(1)[2] - np_.exp(v(1)[3] / 4) + v(1)[4] ** 2])),
}


def _residual(f, tabs, X):
    slots = lambda n, s="": X[tabs[n][s].slot]
    return np.atleast_1d(f(np, slots))


def nonlinear(rng, rec, idx):
    """The same for nonlinear user-defined constraints, from a start near a solution."""
    w = World(rng)
    for i, k in enumerate(("disc", "disc", "wheel", "curve", "panel", "point", "radius", "numbers", "disc")[:int(rng.integers(4, 10))]):
        t = getattr(w, k)()
        if not any(t is o for o in w.top.values()):
            w.top[f"{k} {i}"] = t
    sizes = [x.size for x in w.X]
    off = np.cumsum([0] + sizes)
    split = lambda x: [x[a:b] for a, b in zip(off[:-1], off[1:])]
    table = dict(w.nodes())
    x1, chosen = np.concatenate(w.X), []
    J = np.zeros((0, x1.size))

    def errs(x, ch):
        return np.concatenate([np.zeros(0)] + [_residual(NONLINEAR[n][3], [dict((kk[len(k) + 1:], c) for kk, c in paths(table[k], k)) for k in keys], split(x)) for n, keys in ch])

    def jac(x, ch):
        h = 1e-6
        return np.stack([(errs(x + h * e, ch) - errs(x - h * e, ch)) / (2 * h) for e in np.eye(x.size)], axis=1)

    for _ in range(14):
        name = pick(rng, sorted(NONLINEAR))
        fit = [[k for k, t in table.items() if issubclass(t.cls, c)] for c in NONLINEAR[name][1]]
        if not all(fit):
            continue
        keys = tuple(pick(rng, f) for f in fit)
        # distances are differentiable between different places only
        place = [table[k + "/Center"].slot if table[k].cls in (Disc, Wheel) else table[k].slot for k in keys]
        if len(set(place)) < len(place):
            continue
        trial = chosen + [(name, keys)]
        # a target which satisfies all: a few Gauss-Newton steps of our own
        x = x1.copy()
        for _ in range(25):
            e = errs(x, trial)
            if not np.all(np.isfinite(e)):
                break
            x = x - np.linalg.pinv(jac(x, trial), rcond=1e-6) @ e
        e = errs(x, trial)
        if not np.all(np.isfinite(e)) or np.max(np.abs(e)) > 1e-9 or np.max(np.abs(x)) > 20:
            continue
        if np.linalg.svd(jac(x, trial), compute_uv=False)[-1] < 0.3:
            continue
        if any(abs(x[off[t.slot]]) < 0.2 for t in table.values() if t.cls in (Disc, Radius)):
            continue
        far = [np.linalg.norm(split(x)[table[k + "/Center"].slot] - split(x)[o.slot]) for k, t in table.items() if t.cls in (Disc, Wheel)
               for o in table.values() if issubclass(o.cls, pr.Point) and o.slot != table[k + "/Center"].slot]
        if far and min(far) < 0.2:
            continue
        chosen, x1 = trial, x
    if not chosen:
        raise Skip("no constraint could be generated")
    x0 = x1 + rng.uniform(-0.02, 0.02, x1.size)
    L = lay.Layout()
    L.add_prims(w.tree(split(x0)))
    mixed = False
    for n, keys in chosen:
        c = NONLINEAR[n][0]()
        L.add_constraint(c, keys, ())
        want = _residual(NONLINEAR[n][3], [dict((kk[len(k) + 1:], cc) for kk, cc in paths(table[k], k)) for k in keys], split(x0))
        got = np.asarray(c(tuple(L.root_prim[k] for k in keys)))
        require(np.allclose(got, want, rtol=0, atol=1e-9), "user-defined nonlinear constraint evaluated", name=n, got=got, want=want)
        rec.state("nonlinear", n)
    panels = [k for k, t in table.items() if t.cls is Panel]
    if panels and idx % 2:
        # a built-in constraint on a user-defined kind of quadrilateral
        k = panels[0]
        p = split(x1)[table[k + "/Line0/Point0"].slot]
        L.add_constraint(cr.Fix(), (k + "/Line0/Point0",), (p,))
        mixed = True
    root, info = so.solve(L, max_iter=30)
    X, _ = read(w, root, "solved tree")
    e = errs(np.concatenate(X), chosen)
    if mixed:
        # the additional constraint may be dependent; it is satisfied by the target, and so are all others
        e = np.concatenate([e, X[table[panels[0] + "/Line0/Point0"].slot] - p])
        s = np.linalg.svd(np.vstack([jac(x1, chosen), np.eye(x1.size)[off[table[panels[0] + "/Line0/Point0"].slot]:][:2]]), compute_uv=False)
        if s[-1] < 0.3:
            raise Skip("nearly dependent constraints")
    require(np.all(np.isfinite(e)) and np.max(np.abs(e)) <= 1e-8 * max(1, np.max(np.abs(x1)) ** 2),
            "solved primitives do not satisfy a nonlinear user-defined constraint", error=e, constraints=chosen, world=w.describe(),
            abs_errs=info["abs_errs"])
    rec.event("nonlinear user-defined constraints satisfied", len(chosen))
    rec.sample(f"nonlinear: {w.describe()} under {chosen}")


def figure(rng, rec, idx):
    """User-defined kinds of figure, axes and boxes with built-in and user-defined constraints become the measured figure."""
    L = lay.Layout()
    P = lambda: pr.Point(rng.uniform(0, 5, 2))
    box = lambda: Panel(rng.uniform(0.1, 1, 1), [P() for _ in range(4)])
    fig_quad = box() if rng.random() < 0.6 else pr.Quadrilateral(None, [P() for _ in range(4)])
    L.add_prim(fig_quad, "Figure")
    n = int(rng.integers(1, 4))
    size, wh, mar, thick = rng.uniform(3, 8, 2), [], [], []
    L.add_constraint(cr.Box(), ("Figure",), ())
    L.add_constraint(cr.Width(), ("Figure",), (size[0],))
    L.add_constraint(cr.Height(), ("Figure",), (size[1],))
    at = rng.uniform(-1, 1, 2)
    L.add_constraint(cr.Fix(), ("Figure/Line0/Point0",), (at,))
    # user-defined: a box stands `(dx, dy)` from another one's lower left corner, and its padding equals a tenth of its width
    class Stand(con.LeafConstruction, con.make_signature_class((pr.Quadrilateral, pr.Quadrilateral))):
        @classmethod
        def init_signature(cls):
            return cls.make_signature(2, (float, float))

        @classmethod
        def assem(cls, prims, dx, dy):
            a, b = prims
            return b["Line0/Point0"].value - a["Line0/Point0"].value - jnp.array([dx, dy])

    class Pad(con.LeafConstruction, con.make_signature_class((Panel,))):
        @classmethod
        def init_signature(cls):
            return cls.make_signature(1)

        @classmethod
        def assem(cls, prims):
            q, = prims
            return q.value[0] - 0.1 * (q["Line0/Point1"].value[0] - q["Line0/Point0"].value[0])

    names = [f"Axes{i}" for i in rng.permutation(9)[:n]]
    for name in names:
        frame = box()
        cls, axis = pick(rng, (MyAxes, MyAxes, pr.Axes)), bool(rng.random() < 0.4)
        ax = cls(None, [frame, box(), Spot(rng.uniform(0, 5, 2))], xaxis=True) if axis else cls(None, [frame])
        L.add_prim(ax, name)
        if axis:
            L.add_constraint(cr.Box(), (f"{name}/XAxis",), ())
            L.add_constraint(cr.PositionXAxis(side="bottom"), (name,), ())
            L.add_constraint(cr.PositionXAxisLabel(), (name,), (0.5,))
            L.add_constraint(MyThickness(), (f"{name}/XAxis",), (None,), f"thick {name}")
            thick.append(name)
        d, s = rng.uniform(0.1, 1, 2), rng.uniform(0.5, 3, 2)
        L.add_constraint(cr.Box(), (f"{name}/Frame",), ())
        L.add_constraint(cr.Width(), (f"{name}/Frame",), (s[0],))
        L.add_constraint(cr.Height(), (f"{name}/Frame",), (s[1],))
        L.add_constraint(Stand(), ("Figure", f"{name}/Frame"), tuple(d))
        L.add_constraint(Pad(), (f"{name}/Frame",), ())
        mar.append(d)
        wh.append(s)
    root, _ = so.solve(L)
    for name, s in zip(names, wh):
        got = root[f"{name}/Frame"].value
        require(type(root[f"{name}/Frame"]) is Panel and np.allclose(got, [0.1 * s[0]], rtol=0, atol=1e-8),
                "parameter of a user-defined box", got=got, want=0.1 * s[0])
    fig, axs = mu.subplots(root)
    try:
        require(list(axs) == names, "axes of the figure", got=list(axs), want=names)
        require(np.allclose(fig.get_size_inches(), size, rtol=0, atol=1e-8), "size of the figure", got=fig.get_size_inches(), want=size)
        for name, d, s in zip(names, mar, wh):
            got = np.array(axs[name].get_position().bounds) * np.tile(size, 2)
            require(np.allclose(got, np.concatenate([d, s]), rtol=0, atol=1e-7), "axes of a user-defined kind", key=name, got=got, want=(d, s))
            rec.event("axes of user-defined kinds measured")
        if thick:
            fig.canvas.draw()
            L2 = lay.update_layout_constraints(L, axs)
            again, _ = so.solve(L2)
            for name in thick:
                got = L2.root_param[f"thick {name}"].value
                require(len(got) == 1 and got[0] is axs[name].xaxis, "parameter of a user-defined thickness constraint after the update", got=got)
                q = again[f"{name}/XAxis"]
                h = q["Line1/Point1"].value[1] - q["Line1/Point0"].value[1]
                want = axs[name].xaxis.get_tightbbox().height / fig.dpi
                require(type(q) is Panel and type(again[name]) is type(root[name]) and type(again[f"{name}/XAxisLabel"]) is Spot, "kinds after the update")
                frame = again[f"{name}/Frame"]["Line0/Point0"].value[1]
                # the box reaches from the frame past the tick marks and their padding to the end of the tick labels
                require(want - 1e-6 <= h <= want + 0.3, "thickness of a user-defined axis box", got=h, at_least=want)
                require(abs(q["Line2/Point0"].value[1] - frame) < 1e-8, "user-defined axis box left its frame")
                rec.event("user-defined thickness constraint updated")
    finally:
        plt.close(fig)
    rec.state("figure", n, type(fig_quad).__name__, tuple(type(root[k]).__name__ for k in names))


GROUPS = {
    "solve": dict(fn=solve, quick=260, thorough=6000),
    "nonlinear": dict(fn=nonlinear, quick=160, thorough=3000),
    "figure": dict(fn=figure, quick=30, thorough=600),
}
