"""C05: grid, margin-array and alignment constraints describe exactly the requested grid."""
import numpy as np

from vlib import geo, judge, ref, specs
from vlib.common import coord_sampler, pick, require, fail

from mpllayout import constraints as cr


def grids(rng, rec, idx):
    name = specs.GRIDS[idx % 4]
    shape = None
    if name in ("RectilinearGrid", "Grid"):
        k = (idx // 4)
        shape = specs.SHAPES[k % len(specs.SHAPES)]
        if rng.random() < 0.35:
            shape = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
        judge.run_spec_case(name, rng, rec, coord_sampler(rng), nrand=0, limit=16, shape=shape)
    else:
        judge.run_spec_case(name, rng, rec, coord_sampler(rng), nrand=2, limit=16)
    rec.event(f"constraint {name}")


def _mag(res):
    return float(np.max(np.abs(res))) if res.size else 0.0


def every_box(rng, rec, idx):
    """Perturb every box of a grid on every side, and every single requested number."""
    shape = specs.SHAPES[idx % len(specs.SHAPES)]
    if rng.random() < 0.4:
        shape = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
    r, c = shape
    quads, params = specs.rand_grid(rng, shape)
    full = cr.Grid(shape=shape)
    rect = cr.RectilinearGrid(shape=shape)

    def ev(con, qs, p=()):
        return np.asarray(con(tuple(geo.mk_quad(q) for q in qs), *p), dtype=float)

    require(_mag(ev(full, quads, params)) < 1e-8, "grid constraint not satisfied by its own grid", shape=shape,
            quads=quads, params=params)
    require(_mag(ev(rect, quads)) < 1e-8, "rectilinear grid constraint not satisfied by a grid", shape=shape,
            quads=quads)
    rec.event("grid satisfied")
    cells = [(i, j) for i in range(r) for j in range(c)]
    if len(cells) > 6:
        sel = rng.choice(len(cells), 6, replace=False)
        cells = [cells[int(s)] for s in sel]
    for i, j in cells:
        for side in range(4):
            if r * c == 1:
                continue
            qs = [q.copy() for q in quads]
            q = qs[i * c + j]
            d = rng.uniform(0.05, 0.2)
            if side == 0:
                q[[0, 1], 1] -= d
            elif side == 1:
                q[[1, 2], 0] += d
            elif side == 2:
                q[[2, 3], 1] += d
            else:
                q[[3, 0], 0] -= d
            # which relations this breaks: a single row has no vertical relations between rows except height/gap ones
            if _ref_mag(qs, shape, params) > 1e-3:
                require(_mag(ev(full, qs, params)) > 1e-6, "grid constraint satisfied although one box was resized",
                        shape=shape, box=(i, j), side=side, delta=d, quads=qs, params=params)
                rec.event("single box change detected")
                rec.state(shape, i, j, side)
            rr = np.max(np.abs(ref.rectilinear_grid_err(qs, shape) or [0]))
            if rr > 1e-3:
                require(_mag(ev(rect, qs)) > 1e-6, "rectilinear grid satisfied although one box was resized",
                        shape=shape, box=(i, j), side=side, delta=d, quads=qs)
            else:
                require(_mag(ev(rect, qs)) < 1e-8, "rectilinear grid broken by a change that keeps the grid",
                        shape=shape, box=(i, j), side=side, quads=qs)
    for k in range(4):
        for m in range(len(params[k])):
            if len(params[k]) > 5 and rng.random() < 0.5:
                continue
            p = [np.array(x) for x in params]
            p[k][m] += rng.uniform(0.05, 0.5)
            require(_mag(ev(full, quads, tuple(p))) > 1e-6, "changing one requested size or gap went unnoticed",
                    shape=shape, which=("col_widths", "row_heights", "col_margins", "row_margins")[k], index=m,
                    params=p)
            rec.event("single requested number change detected")
            rec.state(shape, "param", k, m)
    # permuted boxes are another grid: swapping two boxes must be noticed when it changes geometry
    if r * c >= 2:
        a, b = rng.choice(r * c, 2, replace=False)
        qs = [q.copy() for q in quads]
        qs[a], qs[b] = qs[b], qs[a]
        require(_mag(ev(full, qs, params)) > 1e-6, "swapping two boxes of the grid went unnoticed", shape=shape,
                swapped=(int(a), int(b)))
        rec.event("swap detected")
    rec.sample(f"shape={shape} params={[np.round(p, 3).tolist() for p in params]}")


def _ref_mag(qs, shape, params):
    e = ref.grid_err(qs, shape, *params)
    return float(np.max(np.abs(e))) if len(e) else 0.0


def margins(rng, rec, idx):
    """OuterMarginArray: margin k is the one between box k and k+1, in the requested direction."""
    n = pick(rng, (1, 2, 3, 4, 7, 11, 13))
    side = ref.SIDES[idx % 4]
    smp = coord_sampler(rng)
    quads = [geo.rand_box(rng, smp) for _ in range(n)]
    m = [ref.outer_margin(quads[k], quads[k + 1], side) for k in range(n - 1)]
    con = cr.OuterMarginArray(shape=(n,), side=side)
    prims = tuple(geo.mk_quad(q) for q in quads)
    S = geo.gscale(quads)
    res = np.asarray(con(prims, *m), dtype=float)
    require(res.size == n - 1 and _mag(res) <= 1e-9 * S, "margin array not satisfied by its own margins", side=side,
            n=n, margins=m, residual=res)
    for k in range(n - 1):
        p = list(m)
        p[k] += smp.base * rng.uniform(0.1, 1)
        res = np.asarray(con(prims, *p), dtype=float)
        nz = np.flatnonzero(np.abs(res) > 1e-6 * smp.base)
        require(len(nz) == 1 and abs(abs(res[nz[0]]) - abs(p[k] - m[k])) <= 1e-9 * S,
                "changing one margin must change exactly that margin's error", side=side, n=n, index=k, residual=res)
        rec.event("margin array entry observed")
        rec.state("margins", n, side, k)


GROUPS = {
    "table": dict(fn=grids, quick=640, thorough=20000),
    "every_box": dict(fn=every_box, quick=160, thorough=5000),
    "margins": dict(fn=margins, quick=160, thorough=4000),
}
