"""C06: axes constraints put axis boxes and labels on the requested side."""
import itertools

import numpy as np

from vlib import geo, judge, ref, specs
from vlib.common import coord_sampler, pick, require

from mpllayout import constraints as cr

COMBOS = [("PositionAxis", dict(axis=a, side=s, twin=t)) for a, ss in (("x", ("bottom", "top")), ("y", ("left", "right")))
          for s in ss for t in (False, True)]
COMBOS += [("PositionAxisLabel", dict(axis=a, twin=t)) for a in "xy" for t in (False, True)]
COMBOS += [("CoincidentOutwardFaces", dict(side=s)) for s in ref.SIDES]


def table(rng, rec, idx):
    name, opts = COMBOS[idx % len(COMBOS)]
    smp = coord_sampler(rng)
    sp = judge.run_spec_case(name, rng, rec, smp, nrand=3, limit=24, **opts)
    rec.event(f"constraint {sp.label}")


def only_named_parts(rng, rec, idx):
    """Moving parts the constraint does not name never changes its residual."""
    name, opts = COMBOS[idx % 12]
    smp = coord_sampler(rng)
    sp = specs.spec(name, rng, **opts)
    if name == "PositionAxis":
        keep = {"Frame", *sp.opts["_need"]}
    else:
        keep = {"Frame", *sp.opts["_need"]}
    # every axis part present
    for _ in range(50):
        args, params = sp.satisfy(rng, smp)
        parts = args[0]
        others = [k for k in parts if k not in keep]
        if others:
            break
    else:
        return
    c = sp.make()
    base = judge.evaluate(sp, c, args, params)
    for k in others:
        p2 = dict(parts)
        p2[k] = parts[k] + smp.base * rng.uniform(-1, 1, np.shape(parts[k]))
        res = judge.evaluate(sp, c, [p2], params)
        require(res.shape == base.shape and np.max(np.abs(res - base)) <= 1e-9 * geo.gscale([p2]),
                "a part not named by the constraint changed its residual", constraint=sp.label, part=k, before=base,
                after=res)
        rec.event("unrelated part moved: residual unchanged")
        rec.state(sp.label, "other", k)


GROUPS = {
    "table": dict(fn=table, quick=960, thorough=24000),
    "only_named_parts": dict(fn=only_named_parts, quick=240, thorough=6000),
}
