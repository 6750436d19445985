"""C01: solved layouts satisfy every declared constraint, judged by the numpy reference on the returned geometry."""
import contextlib

import jax
import numpy as np

from vlib import ref, world
from vlib.common import Skip, pick, require, scale_of

SCALES = (1.0, 1.0, 1.0, 5.0, 0.05, 100.0)


def solved(w, rec, X0, rel, what, expect=None, xtol=None, **kw):
    L = w.layout(X0)
    if rng_pass(w):
        raise Skip("no constraint could be generated")
    root, info = world.solve(L, **kw)
    X, alias = w.read(root)
    require(np.all(np.isfinite(X)), f"{what}: solved geometry is not finite", world=w.describe(), X0=X0)
    require(alias == 0, f"{what}: shared vertex came back with different values", world=w.describe())
    S = max(scale_of(w.X, X0), 1e-300)
    v, who = world.worst(w, X, S, rel)
    require(v <= 1, f"{what}: solved geometry does not satisfy a declared constraint", constraint=who,
            ratio=v, world=w.describe(), X0=X0, abs_errs=info["abs_errs"])
    rec.maximum(f"{what}: error / tolerance", v)
    rec.event("solved layout judged")
    rec.event("constraint satisfied in solution", len(w.cons))
    for sp, _, _ in w.cons:
        rec.state(what, sp.label if sp.name not in ("Grid", "OuterMarginArray") else sp.name)
    if expect is not None:
        d = float(np.max(np.abs(X - expect)))
        require(d <= xtol * S, f"{what}: determined geometry not reached", difference=d, scale=S, got=X, want=expect,
                world=w.describe(), X0=X0)
        rec.event("determined geometry reached")
    rec.state(what, tuple(sorted(k for k, _ in w.prims.values())), len(w.cons))
    rec.sample(f"{what}: {w.describe()} -> abs_errs {[float('%.3g' % e) for e in info['abs_errs']]}")
    return L, root, info, X


def rng_pass(w):
    return not w.cons


def linear(rng, rec, idx):
    w = world.target(rng, scale=pick(rng, SCALES), kinds="PLLQQAG")
    world.constrain_linear(rng, w, int(rng.integers(3, 20)))
    style = pick(rng, world.LINEAR_STARTS)
    if not w.cons:
        raise Skip("no constraint could be generated")
    solved(w, rec, world.start(rng, w, style), 1e-10, "linear")
    rec.state("start", style)


def determined(rng, rec, idx):
    """Every coordinate pinned by (redundant) linear constraints: the same geometry from any start."""
    w = world.target(rng, scale=pick(rng, SCALES), kinds="PLQA", size=int(rng.integers(1, 4)))
    world.constrain_linear(rng, w, int(rng.integers(0, 8)))
    world.determine(rng, w)
    style = pick(rng, world.LINEAR_STARTS)
    solved(w, rec, world.start(rng, w, style), 1e-10, "determined", expect=w.X, xtol=1e-8)


def near(rng, w, s):
    """A start up to 3 % away: anywhere, on a coarse lattice (many exactly aligned vertices), or stretched and shifted."""
    style = pick(rng, ("random", "random", "lattice", "stretched"))
    if style == "random":
        X0 = w.X + rng.uniform(-0.03, 0.03, w.X.shape) * s
    elif style == "lattice":
        X0 = np.round(w.X / (0.05 * s)) * (0.05 * s)
    else:
        c = w.X.mean(axis=0)
        r = max(1.0, np.max(np.abs(w.X - c)) / s)
        X0 = w.X + (w.X - c) * rng.uniform(-0.02, 0.02, 2) / r + rng.uniform(-0.01, 0.01, 2) * s
    return style, X0


def nonlinear(rng, rec, idx):
    s = pick(rng, (1.0, 1.0, 1.0, 3.0, 0.1, 30.0))
    w = world.target(rng, scale=s, kinds="PLLLQQAG")
    world.constrain_independent(rng, w, int(rng.integers(2, 13)), smin=0.2)
    if not w.cons:
        raise Skip("no constraint could be generated")
    style, X0 = near(rng, w, s)
    solved(w, rec, X0, 1e-9, "nonlinear")
    rec.state("near start", style)


def grid(rng, rec, idx):
    s = pick(rng, (1.0, 1.0, 4.0, 0.2))
    w = world.grid_world(rng, s)
    X0 = w.X + rng.uniform(-0.02, 0.02, w.X.shape) * s
    solved(w, rec, X0, 1e-9, "grid", expect=w.X, xtol=1e-8)


def single(rng, rec, idx):
    """One constraint type at a time, so that each is enforced on its own."""
    names = world.LINEAR_NAMES + world.NONLINEAR_NAMES
    name = names[idx % len(names)]
    for _ in range(30):
        w = world.target(rng, scale=1.0, kinds="PPLLLQQA" if "Axis" not in name else "AAQ", size=5)
        world.constrain_independent(rng, w, 1, names=(name,), smin=0.05, tries=8)
        if w.cons:
            break
    else:
        raise Skip("no constraint could be generated")
    lin = name in world.LINEAR_NAMES
    X0 = world.start(rng, w, pick(rng, world.LINEAR_STARTS)) if lin else w.X + rng.uniform(-0.03, 0.03, w.X.shape)
    solved(w, rec, X0, 1e-10 if lin else 1e-9, "single")


def minimize(rng, rec, idx):
    w = world.target(rng, scale=1.0, kinds="PLQA", size=int(rng.integers(2, 4)))
    if idx % 3:
        world.constrain_independent(rng, w, int(rng.integers(2, 7)), smin=0.3)
    else:
        world.constrain_independent(rng, w, int(rng.integers(2, 9)), names=world.LINEAR_NAMES, smin=0.25)
    if not w.cons:
        raise Skip("no constraint could be generated")
    X0 = w.X + rng.uniform(-0.05, 0.05, w.X.shape)
    solved(w, rec, X0, 1e-3, "minimize", method="minimize", max_iter=3000)
    rec.event("minimize converged")


def float32(rng, rec, idx):
    """jax's default precision, which users have unless they configure otherwise."""
    w = world.target(rng, scale=1.0, kinds="PLQA")
    if idx % 2:
        world.constrain_linear(rng, w, int(rng.integers(3, 12)))
        if not w.cons:
            raise Skip("no constraint could be generated")
        X0 = world.start(rng, w, pick(rng, ("random", "zeros", "near", "target", "same")))
    else:
        world.constrain_independent(rng, w, int(rng.integers(2, 10)), smin=0.25)
        if not w.cons:
            raise Skip("no constraint could be generated")
        X0 = w.X + rng.uniform(-0.03, 0.03, w.X.shape)
    with jax.enable_x64(False):
        solved(w, rec, X0, 1e-4, "float32")
    rec.event("single precision solve")


GROUPS = {
    "linear": dict(fn=linear, quick=72, thorough=4000),
    "determined": dict(fn=determined, quick=40, thorough=2000),
    "nonlinear": dict(fn=nonlinear, quick=72, thorough=4000),
    "single": dict(fn=single, quick=96, thorough=1600),
    "grid": dict(fn=grid, quick=16, thorough=600),
    "minimize": dict(fn=minimize, quick=24, thorough=800),
    "float32": dict(fn=float32, quick=24, thorough=800),
}
