"""C02: residual zero iff the documented relation holds (point, line and quadrilateral constraints)."""
from vlib import judge, specs
from vlib.common import coord_sampler

NAMES = specs.POINT_LINE + specs.QUAD


def table(rng, rec, idx):
    name = NAMES[idx % len(NAMES)]
    judge.run_spec_case(name, rng, rec, coord_sampler(rng), nrand=4, limit=18)
    rec.event(f"constraint {name}")


GROUPS = {"table": dict(fn=table, quick=120 * len(NAMES), thorough=3000 * len(NAMES))}
