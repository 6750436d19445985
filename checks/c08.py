"""C08: only what the constraints require moves, and the result depends on nothing else."""
import numpy as np

from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from vlib import geo, ref, snap, specs, world
from vlib.common import Skip, pick, require, scale_of, unique_names

SCALES = (1.0, 1.0, 1.0, 20.0, 0.05)


def make(rng, linear, absolute=True, kinds="PLLQQAG", n=(2, 9), size=None):
    """(world, start): linear sets from anywhere or independent ones from nearby."""
    s = pick(rng, SCALES) if linear else pick(rng, (1.0, 1.0, 5.0))
    for _ in range(10):
        w = world.target(rng, scale=s, kinds=kinds, size=size)
        if linear:
            world.constrain_linear(rng, w, int(rng.integers(*n)), absolute=absolute)
            X0 = world.start(rng, w, pick(rng, ("random", "random", "far", "mirror", "near", "same")))
        else:
            world.constrain_independent(rng, w, int(rng.integers(*n)), smin=0.2, absolute=absolute)
            X0 = w.X + rng.uniform(-0.03, 0.03, w.X.shape) * s
        if w.cons:
            return w, X0, s
    raise Skip("no constraint could be generated")


def run(w, X0, L=None, rename=None, **kw):
    L = L if L is not None else w.layout(X0, rename=rename)
    root, info = solver.solve(L, **kw)
    return w.read(root, rename)[0]


def dev(a, b):
    return float(np.max(np.abs(a - b))) if a.size else 0.0


def untouched(rng, rec, idx):
    """Vertices not mentioned by any constraint stay."""
    method = "minimize" if idx % 3 == 2 else "newton"
    linear = idx % 2 == 0
    w, X0, s = make(rng, linear, n=(1, 4), size=5)
    t = w.touched()
    free = [i for i in range(len(w.X)) if i not in t]
    if not free:
        raise Skip("everything is constrained")
    X = run(w, X0, method=method, max_iter=int(pick(rng, (1, 10, 25))))
    S = max(scale_of(X0), 1e-300)
    require(dev(X[free], X0[free]) <= 1e-13 * S, "a primitive that no constraint mentions moved", moved=dev(X[free], X0[free]),
            method=method, world=w.describe())
    rec.event("untouched vertex stayed", len(free))
    rec.state("untouched", method, linear, len(free), len(t))


def satisfied(rng, rec, idx):
    linear = idx % 2 == 0
    method = "minimize" if idx % 3 == 2 else "newton"
    w, _, s = make(rng, linear)
    X0 = w.X.copy()
    X = run(w, X0, method=method)
    S = scale_of(X0)
    require(dev(X, X0) <= (1e-9 if method == "newton" else 1e-6) * S, "an already satisfied layout was changed",
            by=dev(X, X0), method=method, world=w.describe())
    rec.event("satisfied layout unchanged")
    rec.state("satisfied", linear, method, tuple(sorted(sp.name for sp, _, _ in w.cons)))
    # the solution of any solve is a satisfied layout
    if method == "newton":
        w, X0, s = make(rng, linear)
        L = w.layout(X0)
        root, _ = solver.solve(L)
        X1, _ = w.read(root)
        L2 = lay.Layout(root_prim=root)
        for sp, keys, params in w.cons:
            L2.add_constraint(sp.make(), keys, params)
        X2 = run(w, X1, L2)
        S = max(scale_of(X0), scale_of(w.X))
        require(dev(X1, X2) <= 1e-8 * S, "solving a solution changed it", by=dev(X1, X2), world=w.describe(), X0=X0)
        rec.event("solution of a solution unchanged")


def closest(rng, rec, idx):
    w, X0, s = make(rng, True, kinds="PLQA", n=(2, 10))
    J, r0 = world.affine_jacobian(w)
    sv = np.linalg.svd(J, compute_uv=False)
    top = sv[0] if sv.size else 0.0
    keep = sv > 1e-9 * top
    if not keep.any() or sv[keep][-1] < 2e-3 * top:
        raise Skip("ill-conditioned linear system")
    r = J @ X0.ravel() + r0
    dx, *_ = np.linalg.lstsq(J, -r, rcond=1e-9)
    want = (X0.ravel() + dx).reshape(-1, 2)
    if np.max(np.abs(J @ want.ravel() + r0)) > 1e-7 * max(scale_of(want), scale_of(X0)):
        raise Skip("inconsistent linear system")
    X = run(w, X0)
    S = max(scale_of(X0), scale_of(w.X))
    require(dev(X, want) <= 1e-8 * S, "the solution is not the one closest to the starting geometry", by=dev(X, want),
            got=X, want=want, X0=X0, world=w.describe())
    moved = np.linalg.norm(X - X0)
    rec.maximum("deviation from the closest solution / scale", dev(X, want) / S)
    rec.event("closest solution observed")
    rec.state("closest", int(keep.sum()), J.shape, tuple(sorted(k for k, _ in w.prims.values())))
    rec.sample(f"closest: rank {int(keep.sum())} of {J.shape}, moved {moved:.3g} (closest {np.linalg.norm(dx):.3g}), {w.describe()}")


def equivariance(rng, rec, idx):
    """Order of additions, names, repeated and interleaved solving."""
    linear = idx % 2 == 0
    w, X0, s = make(rng, linear)
    S = max(scale_of(X0), scale_of(w.X))
    L = w.layout(X0)
    X = run(w, X0, L)
    if not np.all(np.isfinite(X)) or scale_of(X) > 100 * S:
        raise Skip("start too far for this nonlinear layout")
    tol = 1e-8 * S
    kinds = ["order of primitives", "order of constraints", "names", "constraint keys", "again", "after another layout",
             "shuffled twice", "by instalments"]
    for kind in rng.permutation(kinds)[:3]:
        names = list(w.prims)
        if kind == "order of primitives":
            Y = run(w, X0, w.layout(X0, order=[names[i] for i in rng.permutation(len(names))]))
        elif kind == "order of constraints":
            Y = run(w, X0, w.layout(X0, cons_order=list(rng.permutation(len(w.cons)))))
        elif kind == "names":
            new = unique_names(rng, len(names))
            ren = dict(zip(names, new))
            Y = run(w, X0, w.layout(X0, rename=ren), rename=ren)
        elif kind == "constraint keys":
            keys = unique_names(rng, len(w.cons))
            Y = run(w, X0, w.layout(X0, keys=keys))
        elif kind == "again":
            Y = run(w, X0, L)
            require(dev(X, Y) <= 1e-12 * S, "solving the same layout again gave another result", by=dev(X, Y),
                    world=w.describe())
        elif kind == "after another layout":
            w2, X02, _ = make(rng, True, n=(1, 4))
            run(w2, X02)
            Y = run(w, X0, L)
            require(dev(X, Y) <= 1e-12 * S, "solving another layout in between changed the result", by=dev(X, Y))
        elif kind == "by instalments":
            # constraints added after a first solve of the same layout
            k = int(rng.integers(0, len(w.cons) + 1))
            L2 = lay.Layout()
            for n, p in w.build_prims(X0).items():
                L2.add_prim(p, n)
            for i, (sp, keys, params) in enumerate(w.cons):
                if i == k:
                    solver.solve(L2)
                L2.add_constraint(sp.make(), keys, params)
            Y = run(w, X0, L2)
        else:
            Y = run(w, X0, w.layout(X0, order=names[::-1], cons_order=list(range(len(w.cons)))[::-1]))
        require(dev(X, Y) <= tol, f"the solution depends on {kind}", by=dev(X, Y), tol=tol, world=w.describe(), X0=X0)
        rec.event("equivariance observed")
        rec.state("equivariance", kind, linear, len(w.cons))
    rec.maximum("deviation between equivalent layouts / scale", dev(X, Y) / S)


def translation(rng, rec, idx):
    linear = idx % 2 == 0
    w, X0, s = make(rng, linear, absolute=False)
    t = rng.normal(size=2) * s * pick(rng, (1.0, 10.0, 50.0))
    X = run(w, X0)
    Y = run(w, X0 + t)
    S = max(scale_of(X0), scale_of(w.X), scale_of(t))
    if not np.all(np.isfinite(X)) or scale_of(X) > 100 * S:
        raise Skip("start too far for this nonlinear layout")
    require(dev(X + t, Y) <= 1e-8 * S, "shifting the starting geometry does not shift the solution", by=dev(X + t, Y),
            shift=t, world=w.describe(), X0=X0)
    rec.event("translation observed")
    rec.state("translation", linear, len(w.cons), tuple(sorted(k for k, _ in w.prims.values())))


def unconstrained(rng, rec, idx):
    w = world.target(rng, scale=pick(rng, SCALES), kinds="PLQAG")
    X0 = world.start(rng, w, pick(rng, ("random", "zeros", "same", "target")))
    for method in ("newton", "minimize"):
        X = run(w, X0, method=method)
        require(dev(X, X0) <= 1e-13 * scale_of(X0), "a layout without constraints was changed", by=dev(X, X0), method=method)
        rec.event("unconstrained layout unchanged")
    rec.state("unconstrained", tuple(sorted(k for k, _ in w.prims.values())))


GROUPS = {
    "untouched": dict(fn=untouched, quick=48, thorough=1500),
    "satisfied": dict(fn=satisfied, quick=48, thorough=1500),
    "closest": dict(fn=closest, quick=80, thorough=3000),
    "equivariance": dict(fn=equivariance, quick=40, thorough=1500),
    "translation": dict(fn=translation, quick=40, thorough=1500),
    "unconstrained": dict(fn=unconstrained, quick=16, thorough=300),
}
