"""C10: histories of layout operations checked against a model of what was added."""
import numpy as np

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from vlib import geo, ref, snap, specs
from mpllayout.containers import ItemCounter, flatten

from vlib.common import coord_sampler, fail, pick, rand_name, require, unique_names


class Model:
    def __init__(self):
        self.prims = []          # (key, object)
        self.cons = []           # (key or None while unknown, object, prim keys, params)

    def copy(self):
        m = Model()
        m.prims, m.cons = list(self.prims), list(self.cons)
        return m


def refs_of(L):
    """All primitive keys of the layout by kind."""
    out = {"P": [], "L": [], "Q": [], "A": [], "G": []}
    for key, n in snap.walk(L.root_prim):
        if not key:
            continue
        k = {pr.Point: "P", pr.Line: "L", pr.Quadrilateral: "Q", pr.Axes: "A", pr.Polygon: "G"}.get(type(n))
        if k:
            out[k].append(key)
    return out


NAMES = tuple(n for n in specs.ALL if n not in ("AxisThicknessNone",))


def rand_constraint(rng, refs):
    """(constraint, keys, params, Spec) applicable to the layout, values unrelated to its geometry."""
    for _ in range(20):
        name = pick(rng, NAMES)
        fixed = {}
        if name in ("Grid", "RectilinearGrid"):
            fixed = dict(shape=pick(rng, ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3))))
        if name == "OuterMarginArray":
            fixed = dict(n=int(rng.integers(2, 5)))
        sp = specs.spec(name, rng, **fixed)
        if any(not refs[k] for k in sp.kinds):
            continue
        keys = tuple(pick(rng, refs[k]) for k in sp.kinds)
        if sp.name.startswith("PositionAxis"):
            need = sp.opts["_need"]
            cand = [k for k in refs["A"] if all(f"{k}/{n}" in refs["P"] + refs["Q"] for n in need)]
            if not cand:
                continue
            keys = (pick(rng, cand),)
        smp = coord_sampler(np.random.default_rng(int(rng.integers(1 << 30))))
        _, params = sp.satisfy(rng, smp)
        return sp, keys, params
    return None


def residual_of(c, prims, params):
    return np.asarray(c(prims, *params), dtype=float).ravel()


def eq_params(a, b):
    return len(a) == len(b) and all(x is y or (np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x), np.asarray(y)))
                                    for x, y in zip(a, b))


def values(prim):
    return [np.asarray(n.value, dtype=float).tolist() for _, n in snap.walk(prim)]


def compare(L, m, what, log, residual=False):
    require(list(L.root_prim.keys()) == [k for k, _ in m.prims], f"{what}: recorded primitives differ",
            got=list(L.root_prim.keys()), want=[k for k, _ in m.prims], history=log)
    for k, p in m.prims:
        require(L.root_prim[k] is p, f"{what}: recorded primitive is not the one added", key=k, history=log)
    keys = list(L.root_constraint.keys())
    require(keys == [k for k, *_ in m.cons], f"{what}: recorded constraints differ", got=keys, want=[k for k, *_ in m.cons],
            history=log)
    require(len(set(keys)) == len(keys), f"{what}: constraint keys are not unique", keys=keys)
    require(list(L.root_prim_keys.keys()) == keys and list(L.root_param.keys()) == keys,
            f"{what}: trees of constraints, arguments and parameters do not match", history=log,
            got=(keys, list(L.root_prim_keys.keys()), list(L.root_param.keys())))
    for k, c, pk, params in m.cons:
        require(L.root_constraint[k] is c, f"{what}: recorded constraint is not the one added", key=k, history=log)
        require(tuple(L.root_prim_keys[k].value) == pk, f"{what}: constraint is paired with other primitives", key=k,
                got=L.root_prim_keys[k].value, want=pk, history=log)
        require(eq_params(tuple(L.root_param[k].value), params), f"{what}: constraint is paired with other parameters", key=k,
                got=L.root_param[k].value, want=params, history=log)
    if residual:
        cons, pks, prms = L.flat_constraints()
        require(len(cons) == len(pks) == len(prms), f"{what}: flat constraints of different lengths", history=log)
        got = solver.assem_constraint_residual(L.root_prim, cons, pks, prms)
        got = np.concatenate([np.zeros(0)] + [np.asarray(g, dtype=float).ravel() for g in got])
        parts = [residual_of(c, tuple(L.root_prim[q] for q in pk), params) for _, c, pk, params in m.cons]
        want = np.concatenate([np.zeros(0)] + parts)
        ok = got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9 * max(1, np.max(np.abs(want), initial=0)),
                                                      equal_nan=True)
        require(ok, f"{what}: the residual is not the concatenation of the constraints' residuals", got=got, want=want,
                history=log)


def new_prim(rng):
    smp = coord_sampler(rng)
    kind = pick(rng, "PPLQQAG")
    if kind == "A":
        return geo.mk_axes(geo.rand_axes_parts(rng, smp))
    if kind == "G":
        return geo.mk_poly(smp((int(rng.integers(3, 6)), 2)))
    return geo.mk(kind, geo.rand_geom(rng, kind, smp))


def history(rng, rec, idx):
    L, m, log = lay.Layout(), Model(), []
    others = []                  # (layout, model) left behind by updates
    for i in range(int(rng.integers(1, 4))):
        p = pr.Quadrilateral() if rng.random() < 0.3 else new_prim(rng)
        k = f"{rand_name(rng)}{i}"
        L.add_prim(p, k)
        m.prims.append((k, p))
    for step in range(int(rng.integers(6, 16))):
        refs = refs_of(L)
        op = pick(rng, ("prim", "prims", "dup prim", "con", "con", "con", "con", "con key", "con autolike", "dup key", "bad prims",
                        "unknown prim", "bad params", "rebuild", "update", "alias"))
        before = snap.layout(L)
        log.append(op)
        bad = False
        if op == "prim":
            p, k = new_prim(rng), rand_name(rng) + f"-{step}"
            L.add_prim(p, k)
            m.prims.append((k, p))
        elif op == "prims":
            new = {f"{rand_name(rng)}.{step}.{j}": new_prim(rng) for j in range(int(rng.integers(0, 4)))}
            L.add_prims(new)
            m.prims += list(new.items())
        elif op == "alias":
            # the same object under a second name
            k0, p = pick(rng, m.prims)
            k = f"{k0} again {step}"
            L.add_prim(p, k)
            m.prims.append((k, p))
        elif op == "dup prim":
            k, _ = pick(rng, m.prims)
            try:
                L.add_prim(new_prim(rng), k)
            except KeyError:
                bad = True
            else:
                fail("a second primitive was accepted under an existing key", key=k, history=log)
        elif op in ("rebuild", "update"):
            others.append((L, m.copy()))
            if op == "update":
                L = lay.update_layout_constraints(L, {})
                # equal primitives, not necessarily the same objects
                require(list(L.root_prim.keys()) == [k for k, _ in m.prims], "update: recorded primitives differ", history=log)
                for k, p in m.prims:
                    require(snap.skeleton(L.root_prim[k]) == snap.skeleton(p) and values(L.root_prim[k]) == values(p),
                            "update: recorded primitive differs", key=k, history=log)
                m.prims[:] = [(k, L.root_prim[k]) for k, _ in m.prims]
            else:
                L = lay.Layout(*(type(n).from_tree(n.value, dict(n.children)) for n in
                                 (L.root_prim, L.root_constraint, L.root_prim_keys, L.root_param)))
        else:
            got = rand_constraint(rng, refs)
            if got is None:
                log.pop()
                continue
            sp, keys, params = got
            c = sp.make()
            # an object added once may be added again elsewhere
            if m.cons and op in ("con", "con key", "con autolike", "dup key") and rng.random() < 0.1:
                _, c0, pk0, prm0 = pick(rng, m.cons)
                c, keys, params = c0, pk0, prm0
            existing = [k for k, *_ in m.cons]
            log[-1] = (op, sp.label, keys)
            if op == "con":
                L.add_constraint(c, keys, params)
                fresh = [k for k in L.root_constraint.keys() if k not in existing]
                require(len(fresh) == 1, "an addition without key did not add exactly one constraint", fresh=fresh, history=log)
                m.cons.append((fresh[0], c, keys, params))
                rec.event("generated key observed")
            elif op in ("con key", "con autolike"):
                cls = type(c).__name__
                k = (f"{cls}{int(rng.integers(0, 4))}" if op == "con autolike" else f"{rand_name(rng)}#{step}")
                if k in existing:
                    try:
                        L.add_constraint(c, keys, params, key=k)
                    except KeyError:
                        bad = True
                    else:
                        fail("a constraint was accepted under an existing key", key=k, history=log)
                else:
                    L.add_constraint(c, keys, params, k)
                    m.cons.append((k, c, keys, params))
            elif op == "dup key":
                if not existing:
                    continue
                k = pick(rng, existing)
                try:
                    L.add_constraint(c, keys, params, key=k)
                except KeyError:
                    bad = True
                else:
                    fail("a constraint was accepted under an existing key", key=k, history=log)
            else:
                key = pick(rng, ("", "some key"))
                if op == "bad prims":
                    # wrong number or kinds
                    other = [k for kk in refs if kk not in sp.kinds for k in refs[kk]]
                    j = int(rng.integers(len(keys)))
                    wrong = pick(rng, ("more", "fewer", "kind"))
                    if wrong == "kind" and other:
                        keys = keys[:j] + (pick(rng, other),) + keys[j + 1:]
                    elif wrong == "more":
                        keys = keys + (keys[-1],)
                    else:
                        keys = keys[:-1]
                elif op == "unknown prim":
                    j = int(rng.integers(len(keys)))
                    keys = keys[:j] + (pick(rng, ("no such", keys[j] + "/Nope", "Nope/Line0")),) + keys[j + 1:]
                else:
                    if sp.name == "Grid" and rng.random() < 0.5:
                        j = int(rng.integers(4))
                        params = params[:j] + (np.append(np.asarray(params[j]), 1.0),) + params[j + 1:]
                    elif rng.random() < 0.5 or not params:
                        params = params + (1.0,)
                    else:
                        params = params[:-1]
                try:
                    L.add_constraint(sp.make(), keys, params, key=key)
                except Exception:
                    bad = True
                else:
                    fail(f"an ill-formed addition ({op}) was accepted", constraint=sp.label, keys=keys, params=params)
                log[-1] = (op, sp.label, keys)
        if bad:
            require(snap.layout(L) == before, "a failing addition changed the layout", history=log,
                    difference=snap.diff(before, snap.layout(L)))
            rec.event("failing addition left no trace")
        else:
            rec.event("successful addition observed")
        compare(L, m, f"after {op}", log)
        rec.event("state compared with the model")
        rec.state(op, bad, len(m.prims), len(m.cons))
    compare(L, m, "finally", log, residual=True)
    rec.event("residual concatenation observed")
    for L0, m0 in others:
        compare(L0, m0, "earlier layout", log)
        rec.event("earlier layout unchanged")
    rec.sample(f"{log} -> {[k for k, *_ in m.cons]}")


def interleaved(rng, rec, idx):
    """Two layouts built at the same time, from shared primitives, do not influence one another."""
    A, B, ma, mb = lay.Layout(), lay.Layout(), Model(), Model()
    shared = {f"s{j}": new_prim(rng) for j in range(3)}
    shared["q"] = pr.Quadrilateral()
    for L, m in ((A, ma), (B, mb)):
        for k in (list(shared) if L is A else list(shared)[::-1]):
            L.add_prim(shared[k], k)
            m.prims.append((k, shared[k]))
    for _ in range(int(rng.integers(4, 12))):
        L, m = (A, ma) if rng.random() < 0.5 else (B, mb)
        got = rand_constraint(rng, refs_of(L))
        if got is None:
            continue
        sp, keys, params = got
        c = sp.make()
        if rng.random() < 0.3:
            # the same constraint object in both layouts
            for LL, mm in ((A, ma), (B, mb)):
                k = f"both{len(mm.cons)}-{int(rng.integers(1 << 20))}"
                LL.add_constraint(c, keys, params, k)
                mm.cons.append((k, c, keys, params))
        else:
            old = set(L.root_constraint.keys())
            L.add_constraint(c, keys, params)
            (k,) = [k for k in L.root_constraint.keys() if k not in old]
            m.cons.append((k, c, keys, params))
        compare(A, ma, "first layout", ["interleaved"])
        compare(B, mb, "second layout", ["interleaved"])
        rec.event("state compared with the model", 2)
    compare(A, ma, "first layout", ["interleaved"], residual=True)
    compare(B, mb, "second layout", ["interleaved"], residual=True)
    rec.event("residual concatenation observed", 2)
    rec.state("interleaved", len(ma.cons), len(mb.cons))


def given(rng, rec, idx):
    """Layouts made from given trees: with an item counter of one's own, and with primitives sorted into groups."""
    style = pick(rng, ("plain", "own", "used", "none"))
    if style == "own":
        f = pick(rng, (lambda c: "C", lambda c: "con" + str(len(type(c).__name__) % 3), lambda c: f"my-{type(c).__name__}_"))
        counter = ItemCounter(f)
    elif style == "none":
        f, counter = (lambda c: type(c).__name__), None
    else:
        f = lambda c: type(c).__name__
        counter = ItemCounter()
    root = pr.PrimitiveNode.from_tree(np.array([]), {})
    groups = {g: pr.PrimitiveNode.from_tree(np.array([]), {}) for g in unique_names(rng, int(rng.integers(0, 3)))}
    for g, node in groups.items():
        root.add_child(g, node)
    kw = {} if counter is None else {"constraint_counter": counter}
    L, m = lay.Layout(root, **kw), Model()
    want = {"": list(root.keys()), **{g: [] for g in groups}}
    for j in range(int(rng.integers(3, 9))):
        g = pick(rng, list(want))
        p, k = pr.Quadrilateral() if j == 0 else new_prim(rng), f"{rand_name(rng)}.{j}"
        path = f"{g}/{k}" if g else k
        if rng.random() < 0.5:
            L.add_prim(p, path)
        else:
            L.add_prims({path: p})
        want[g].append(k)
        require(L.root_prim[path] is p, "recorded primitive is not the one added", key=path)
        try:
            L.add_prim(new_prim(rng), path)
        except KeyError:
            rec.event("failing addition left no trace")
        else:
            fail("a second primitive was accepted under an existing key", key=path)
        for h, ks in want.items():
            got = list((root[h] if h else L.root_prim).keys())
            require(got == ks, "recorded primitives differ", group=h, got=got, want=ks)
    used = {}
    if style == "used":
        for _ in range(int(rng.integers(1, 6))):
            counter.add_item(pick(rng, (cr.Fix, cr.Box, cr.Coincident, cr.Horizontal))())
        used = dict(counter.category_counts)
    for _ in range(int(rng.integers(3, 12))):
        got = rand_constraint(rng, refs_of(L))
        if got is None:
            continue
        sp, keys, params = got
        c = sp.make()
        cat = f(c)
        if rng.random() < 0.2:
            k = f"{cat}{int(rng.integers(0, 6))}"
            if k in L.root_constraint.keys():
                continue
            L.add_constraint(c, keys, params, k)
        else:
            old = list(L.root_constraint.keys())
            L.add_constraint(c, keys, params)
            new = [k for k in L.root_constraint.keys() if k not in old]
            require(len(new) == 1 and list(L.root_constraint.keys()) == old + new, "an addition without key did not add exactly one constraint",
                    got=list(L.root_constraint.keys()), before=old)
            k = new[0]
            require(k.startswith(cat), "a generated key does not come from the given item counter", key=k, category=cat)
            if cat in used:
                require(k[len(cat):].isdigit() and int(k[len(cat):]) >= used[cat], "a generated key does not continue the given item counter",
                        key=k, counts=used)
                rec.event("continued counter observed")
            rec.event("generated key observed")
        m.cons.append((k, c, keys, params))
        m.prims = [(q, L.root_prim[q]) for q in L.root_prim.keys()]
        compare(L, m, "after an addition", [style])
        rec.event("state compared with the model")
    m.prims = [(q, L.root_prim[q]) for q in L.root_prim.keys()]
    compare(L, m, "finally", [style], residual=True)
    rec.event("residual concatenation observed")
    rec.event("layout from given trees observed")
    rec.state("given", style, len(groups), len(m.cons))


def other_params(rng, params):
    """Other values for the same parameters."""
    f = rng.uniform(0.3, 2)
    return tuple(p if isinstance(p, (bool, np.bool_)) or p is None else f * np.asarray(p, dtype=float) + 0.1 if np.ndim(p) else float(f * p + 0.1)
                 for p in params)


def ran(L, n):
    """What the solver returns, or None where the residual is not finite (the linear algebra then refuses)."""
    try:
        return solver.solve(L, max_iter=n)
    except np.linalg.LinAlgError:
        return None


def edited(rng, rec, idx):
    """A layout that was solved and then changed is solved like one declared that way from the start."""
    smp_prims = []
    for j in range(int(rng.integers(2, 5))):
        smp_prims.append((f"{rand_name(rng)}{j}", pr.Quadrilateral(None, [pr.Point(rng.uniform(0, 4, 2)) for _ in range(4)]) if j == 0 else new_prim(rng)))
    L, cons = lay.Layout(), []
    L.add_prims(dict(smp_prims))

    def more():
        got = rand_constraint(rng, refs_of(L))
        if got is not None:
            sp, keys, params = got
            c, k = sp.make(), f"{sp.name} {len(cons)}"
            L.add_constraint(c, keys, params, k)
            cons.append([k, c, keys, params])
    for _ in range(int(rng.integers(1, 4))):
        more()
    log = []
    for step in range(int(rng.integers(1, 4))):
        if rng.random() < 0.8:
            ran(L, 1) if rng.random() < 0.5 else solver.assem_constraint_residual(L.root_prim, *L.flat_constraints())
        op = pick(rng, ("param", "param", "param", "prim", "add"))
        log.append(op)
        if op == "param" and cons:
            e = pick(rng, cons)
            e[3] = other_params(rng, e[3])
            L.root_param[e[0]] = e[1].root_params(e[3])
        elif op == "prim":
            j = int(rng.integers(len(smp_prims)))
            k, old = smp_prims[j]
            new = pr.build_prim_from_unique_values(flatten("", old), *(lambda g, v: (g, [np.array(x) + rng.uniform(-0.3, 0.3, np.shape(x)) for x in v]))(
                *pr.filter_unique_values_from_prim(old)))
            L.root_prim[k] = new
            smp_prims[j] = (k, new)
        else:
            more()
    fresh = lay.Layout()
    fresh.add_prims(dict(smp_prims))
    for k, c, keys, params in cons:
        fresh.add_constraint(c, keys, params, k)
    a, b = (np.concatenate([np.zeros(0)] + [np.asarray(x, dtype=float).ravel() for x in solver.assem_constraint_residual(M.root_prim, *M.flat_constraints())])
            for M in (L, fresh))
    require(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True), "the solver sees another residual than that of the constraints "
            "and parameters the layout holds", got=a, want=b, history=log, constraints=[k for k, *_ in cons])
    outs = [ran(M, 2) for M in (L, fresh)]
    require((outs[0] is None) == (outs[1] is None), "one of two equal layouts is refused by the solver", history=log)
    if outs[0] is None:
        rec.event("changed layout compared with a new one")
        return
    (ra, ia), (rb, ib) = outs
    require(np.allclose(ia["abs_errs"][:1], ib["abs_errs"][:1], rtol=1e-9, atol=1e-12, equal_nan=True), "a changed layout starts from another residual",
            got=ia["abs_errs"], want=ib["abs_errs"], history=log)
    va, vb = (np.concatenate([np.ravel(n.value) for _, n in snap.walk(r)]) for r in (ra, rb))
    if np.all(np.isfinite(vb)) and np.max(np.abs(vb), initial=0) < 1e6:
        require(va.shape == vb.shape and np.allclose(va, vb, rtol=1e-6, atol=1e-6), "a changed layout is solved differently from one declared that way",
                worst=np.max(np.abs(va - vb)), history=log, constraints=[k for k, *_ in cons])
    rec.event("changed layout compared with a new one")
    rec.state("edited", tuple(log), len(cons))


GROUPS = {
    "edited": dict(fn=edited, quick=70, thorough=1500),
    "given": dict(fn=given, quick=160, thorough=4000),
    "history": dict(fn=history, quick=280, thorough=8000),
    "interleaved": dict(fn=interleaved, quick=80, thorough=2000),
}
