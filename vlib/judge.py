"""Oracle for one constraint evaluation against the documented relation."""
import numpy as np

from . import geo, specs
from .common import fail, require


def evaluate(sp, constraint, args, params):
    return np.asarray(constraint(specs.mk_args(sp, args), *params), dtype=float)


def _norm(e):
    return float(np.max(np.abs(e))) if np.size(e) else 0.0


def judge(sp, smp, args, params, res, rec, what):
    """Compare an observed residual with the reference error; returns 'sat', 'viol' or 'ambiguous'."""
    err = np.atleast_1d(np.asarray(sp.err(args, params), dtype=float))
    err = err.ravel()
    tol = sp.tol(args, params)
    S = max(geo.gscale(args), 1e-300)
    unit = 1.0 if sp.deg == 0 else smp.base
    if res.ndim != 1:
        fail("residual is not one-dimensional", constraint=sp.label, shape=res.shape)
    if not np.all(np.isfinite(res)):
        fail("residual is not finite", constraint=sp.label, args=args, params=params, residual=res)
    rec.maximum("satisfied residual / tolerance", 0.0)

    if sp.mode in ("exact", "abs", "multiset"):
        require(res.size == err.size, f"{what}: residual has the wrong number of components", constraint=sp.label,
                expected=err, residual=res)
        if sp.mode == "exact":
            d = _norm(res - err)
        elif sp.mode == "abs":
            d = min(_norm(res - err), _norm(res + err))
        else:
            d = _norm(np.sort(np.abs(res)) - np.sort(np.abs(err)))
        require(d <= tol, f"{what}: residual differs from the documented error", constraint=sp.label,
                residual=res, documented=err, difference=d, tol=tol, args=args, params=params)
        rec.event("residual compared with documented value")

    # zero iff the relation holds
    elen = _norm(err)
    sat_bound = 1e-9 * S if sp.deg != 0 else tol
    if elen <= sat_bound * (1 if sp.deg != 2 or sp.mode == "zero" else S):
        require(_norm(res) <= max(tol, 1e-9 * (1.0 if sp.deg == 0 else S ** sp.deg)),
                f"{what}: relation holds but the residual is not zero",
                constraint=sp.label, residual=res, reference_error=err, args=args, params=params)
        rec.event("relation holds: residual zero")
        return "sat"
    big = 1e-3 * unit * (unit if sp.deg == 2 and sp.mode != "zero" else 1.0)
    if elen >= big:
        floor = 1e-7 * (1.0 if sp.deg == 0 else unit ** sp.deg)
        require(_norm(res) > floor, f"{what}: relation is broken but the residual is zero", constraint=sp.label,
                residual=res, reference_error=err, args=args, params=params)
        rec.event("relation broken: residual nonzero")
        return "viol"
    rec.event("near-degenerate (not judged)")
    return "ambiguous"


def run_spec_case(name, rng, rec, smp, nrand=2, limit=12, **fixed):
    """One constraint object observed on satisfied, singly perturbed and unrelated configurations."""
    sp = specs.spec(name, rng, **fixed)
    c = sp.make()
    args, params = sp.satisfy(rng, smp)
    res = evaluate(sp, c, args, params)
    k = judge(sp, smp, args, params, res, rec, "satisfied configuration")
    require(k == "sat", "harness: satisfied configuration not satisfied", constraint=sp.label, args=args,
            params=params, err=sp.err(args, params))
    rec.state(sp.label, "sat", smp.style, smp.base)
    for desc, a, p in specs.perturbations(sp, args, params, rng, smp, limit):
        if geo.min_edge(a) < 1e-3 * smp.base and not sp.relation:
            continue
        k = judge(sp, smp, a, p, evaluate(sp, c, a, p), rec, f"single change [{desc}]")
        rec.state(sp.label, desc, k)
    for _ in range(nrand):
        a = [args_i for args_i in sp.random_args(rng, smp)] if sp.name not in ("Grid", "RectilinearGrid") else None
        if a is None:
            break
        a2, p2 = sp.satisfy(rng, smp)
        # parameters of one configuration applied to another one
        k = judge(sp, smp, a, p2, evaluate(sp, c, a, p2), rec, "unrelated configuration")
        rec.state(sp.label, "rand", k, smp.style, smp.base)
    # the same object again on the first configuration: no memory of earlier evaluations
    again = evaluate(sp, c, args, params)
    require(again.shape == res.shape and np.array_equal(again, res), "the same evaluation gave another result",
            constraint=sp.label, first=res, second=again)
    rec.sample(f"{sp.label} kinds={''.join(sp.kinds)} args={[np.round(geo.flat(a), 4).tolist() for a in args][:3]} "
               f"params={params} residual={np.round(res, 12).tolist()}")
    return sp
