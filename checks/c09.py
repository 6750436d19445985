"""C09: solver reports and stopping, checked as a trace against the residuals at the iterates."""
import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from vlib import geo, snap, specs, world
from vlib.common import Skip, expect_raises, pick, require, scale_of

EXACT = tuple(n for n in world.LINEAR_NAMES + world.NONLINEAR_NAMES)


def residual_norm(root, w, rename=None):
    """2-norm of all residuals, each evaluated by calling the constraint on the primitives of `root`."""
    parts = []
    for sp, keys, params in w.cons:
        r = np.asarray(sp.make()(tuple(root[k] for k in keys), *params), dtype=float)
        parts.append(r.ravel())
    return float(np.linalg.norm(np.concatenate(parts))) if parts else 0.0


def reference_norm(w, X):
    """The same from the numpy reference, when every documented residual is an error value (None otherwise)."""
    # sizes and margins are only documented for rectangles, which intermediate iterates need not be
    if any(sp.mode == "zero" or sp.boxes for sp, _, _ in w.cons):
        return None
    return float(np.linalg.norm(w.error_vec(X)))


def make(rng, far=False):
    linear = rng.random() < 0.45 and not far
    s = pick(rng, (1.0, 1.0, 3.0, 30.0, 0.1))
    for _ in range(10):
        w = world.target(rng, scale=s, kinds="PLLQA", size=int(rng.integers(2, 4)))
        if linear:
            world.constrain_linear(rng, w, int(rng.integers(2, 7)))
        else:
            world.constrain_independent(rng, w, int(rng.integers(2, 7)), smin=0.2)
        if w.cons:
            break
    else:
        raise Skip("no constraint could be generated")
    style = pick(rng, ("near", "mid", "random")) if linear else pick(rng, ("near", "mid"))
    amp = {"near": 0.02, "mid": 0.15, "random": 2.0}[style] if not far else float(rng.uniform(0.5, 1.5))
    X0 = w.X + rng.uniform(-amp, amp, w.X.shape) * s
    return w, overshoot(rng, w, X0, s) if far else X0, s, linear


def overshoot(rng, w, X0, s):
    """A start from which the first Newton step increases the error (by the numpy reference), if one is found soon."""
    x = X0
    for _ in range(30):
        e0 = w.error_vec(x)
        h = 1e-6 * s
        J = np.array([(w.error_vec(x + h * d.reshape(x.shape)) - e0) / h for d in np.eye(x.size)]).T
        if np.all(np.isfinite(J)):
            x1 = x + np.linalg.lstsq(J, -e0, rcond=None)[0].reshape(x.shape)
            if 1.5 * np.linalg.norm(e0) < np.linalg.norm(w.error_vec(x1)) < 1e3 * np.linalg.norm(e0):
                return x
        # collapsed or scattered
        c = w.X.mean(axis=0) + s * rng.normal(size=2)
        x = c + (w.X - c) * 10.0 ** rng.uniform(-1.5, 0) + s * rng.uniform(-1, 1, w.X.shape) * 10.0 ** rng.uniform(-2.5, 0)
    return X0


def check_report(info, max_iter, what, minimize=False):
    require(set(info) >= {"abs_errs", "rel_errs"}, f"{what}: report has other keys", keys=list(info))
    a, r = np.asarray(info["abs_errs"], dtype=float), np.asarray(info["rel_errs"], dtype=float)
    require(a.ndim == 1 and a.shape == r.shape, f"{what}: report lists of different lengths", abs_errs=a, rel_errs=r)
    require(len(a) <= max_iter, f"{what}: more iterations than the limit", limit=max_iter, abs_errs=a)
    if len(a) and a[0] > 0:
        require(np.allclose(r, a / a[0], rtol=1e-9, atol=0), f"{what}: relative errors are not the absolute errors over the first",
                abs_errs=a, rel_errs=r)
    return a, r


def call(rng, L, abs_tol, rel_tol, max_iter, method):
    how = pick(rng, ("kw", "pos", "direct"))
    if how == "kw":
        return solver.solve(L, rel_tol=rel_tol, max_iter=max_iter, abs_tol=abs_tol, method=method)
    if how == "pos":
        return solver.solve(L, abs_tol, rel_tol, max_iter, method)
    f = solver.solve_newton if method == "newton" else solver.solve_minimize
    return f(L, abs_tol, rel_tol, max_iter)


class Held:
    """A report which is kept while the layout is solved again."""

    def __init__(self, info):
        self.info, self.copy = info, {k: np.array(v, dtype=float) for k, v in info.items() if k in ("abs_errs", "rel_errs")}

    def check(self, rec):
        for k, v in self.copy.items():
            now = np.asarray(self.info[k], dtype=float)
            require(now.shape == v.shape and np.array_equal(now, v, equal_nan=True), "a report changed when the layout was solved again", which=k, was=v, now=now)
        rec.event("held report unchanged")


def inconsistent(rng, w, s):
    """Add a contradicting copy of a value constraint; returns a lower bound of the residual norm."""
    cand = [i for i, (sp, _, p) in enumerate(w.cons) if sp.pkinds[-1:] == ("v",) and sp.name not in ("OuterMarginArray", "RelativeLength")]
    if not cand:
        return None
    sp, keys, params = w.cons[pick(rng, cand)]
    d = s * rng.uniform(0.1, 0.5) if sp.deg else rng.uniform(0.05, 0.2)
    w.cons.append((sp, keys, params[:-1] + (params[-1] + d,)))
    return d / np.sqrt(2)


def far(rng, rec, idx):
    """Poor starts of nonlinear layouts, whose errors need not decrease from one iterate to the next."""
    newton(rng, rec, idx, True)


def newton(rng, rec, idx, far=False):
    w, X0, s, linear = make(rng, far)
    bound = inconsistent(rng, w, s) if idx % 4 == 3 else None
    L = w.layout(X0)
    K = int(rng.integers(3, 7))
    # the full trace, without tolerances
    _, info = solver.solve(L, abs_tol=0.0, rel_tol=0.0, max_iter=K)
    full, _ = check_report(info, K, "newton trace")
    held = Held(info)
    iterates = []
    for k in range(len(full) + 1):
        root, inf = call(rng, L, 0.0, 0.0, k, "newton")
        a, _ = check_report(inf, k, "newton")
        require(len(a) == k and np.allclose(a, full[:k], rtol=1e-7, atol=1e-12 * s),
                "the first iterations depend on the iteration limit", limit=k, abs_errs=a, full=full)
        iterates.append(root)
    X, _ = w.read(iterates[0])
    require(np.array_equal(X, X0), "geometry changed without an iteration", by=np.max(np.abs(X - X0)))
    S = max(scale_of(w.X), *(scale_of(w.read(i)[0]) for i in iterates))
    floor = 1e-9 * max(S, S * S, 1.0)
    require(len(full) == K or full[-1] <= floor, "stopped without reaching a tolerance or the iteration limit", limit=K, abs_errs=full,
            world=w.describe())
    if np.any(full > full[0] * 1.001):
        rec.event("errors above the starting error observed")
    for k, a in enumerate(full):
        n = residual_norm(iterates[k], w)
        if not (np.isfinite(n) and S < 1e6):
            raise Skip("diverged")
        require(abs(a - n) <= 1e-6 * n + floor, "reported absolute error is not the residual 2-norm at its iterate", entry=k,
                reported=a, residual=n, abs_errs=full, world=w.describe())
        ref = reference_norm(w, w.read(iterates[k])[0])
        if ref is not None:
            require(abs(a - ref) <= 1e-6 * ref + floor, "reported absolute error is not the norm of the documented errors",
                    entry=k, reported=a, reference=ref, world=w.describe())
            rec.event("entry equals the reference norm")
        rec.event("reported entry compared")
    if bound is not None:
        require(np.all(full >= bound * (1 - 1e-6)), "an inconsistent layout was reported with a smaller error than possible",
                abs_errs=full, bound=bound)
        rec.event("inconsistent layout reported")
    # stopping
    for _ in range(3):
        abs_tol = float(pick(rng, (0.0, 1e-10, full[0] * rng.uniform(0.5, 2), full[-1] * rng.uniform(0.5, 2),
                                   10.0 ** rng.uniform(-12, 1))))
        rel_tol = float(pick(rng, (0.0, 1e-7, rng.uniform(0, 1.5), 10.0 ** rng.uniform(-12, 0))))
        lim = int(rng.integers(1, len(full) + 1))
        want = lim
        margin = False
        for k in range(lim):
            rel = full[k] / full[0] if full[0] > 0 else np.nan
            for v, t in ((full[k], abs_tol), (rel, rel_tol)):
                if t > 0 and abs(v - t) <= 1e-3 * t + floor:
                    margin = True
            if full[k] <= abs_tol or rel <= rel_tol:
                want = k + 1
                break
        if margin or full[min(want, len(full)) - 1] < floor and (0 < abs_tol < floor or 0 < rel_tol * full[0] < floor):
            rec.event("tolerance within rounding (not judged)")
            continue
        root, inf = call(rng, L, abs_tol, rel_tol, lim, "newton")
        a, _ = check_report(inf, lim, "newton")
        require(len(a) == want, "stopped after another number of iterations than the tolerances demand", got=len(a), want=want,
                abs_errs=a, full=full, abs_tol=abs_tol, rel_tol=rel_tol, max_iter=lim)
        Xr, _ = w.read(root)
        Xk, _ = w.read(iterates[want])
        require(np.max(np.abs(Xr - Xk)) <= 1e-9 * S, "returned geometry is not the one after the reported iterations",
                reported=len(a), by=np.max(np.abs(Xr - Xk)))
        rec.event("stopping decision observed")
        rec.state("stop", want, lim, abs_tol >= full[0], rel_tol >= 1, abs_tol == 0, rel_tol == 0, linear)
    held.check(rec)
    rec.state("newton", linear, bound is None, len(full), tuple(sorted(sp.name for sp, _, _ in w.cons)))
    rec.sample(f"newton: abs_errs={full.tolist()} for {w.describe()}")


def minimize(rng, rec, idx):
    w, X0, s, linear = make(rng)
    bound = inconsistent(rng, w, s) if idx % 4 == 3 else None
    L = w.layout(X0)
    S = max(scale_of(X0), scale_of(w.X))
    floor = 1e-9 * max(S, S * S, 1.0)
    lims = sorted(set(int(v) for v in rng.integers(1, 9, 2)))
    full, held = None, []
    for lim in lims:
        root, info = call(rng, L, 0.0, 0.0, lim, "minimize")
        a, _ = check_report(info, lim, "minimize")
        held.append(Held(info))
        n = residual_norm(root, w)
        require(len(a) or np.array_equal(w.read(root)[0], X0), "minimize moved the geometry without reporting an error", limit=lim)
        if len(a):
            require(abs(a[-1] - n) <= 1e-6 * n + floor, "last reported error is not the residual 2-norm of the returned geometry",
                    reported=a, residual=n, world=w.describe())
            ref = reference_norm(w, w.read(root)[0])
            if ref is not None:
                require(abs(a[-1] - ref) <= 1e-6 * ref + floor, "last reported error is not the norm of the documented errors",
                        reported=a, reference=ref, world=w.describe())
            rec.event("minimize entry compared")
        if full is not None:
            m = min(len(full), len(a))
            require(np.allclose(full[:m], a[:m], rtol=1e-6, atol=floor), "earlier entries depend on the iteration limit",
                    short=full, long=a)
        full = a
    if bound is not None:
        require(np.all(full >= bound * (1 - 1e-6)), "an inconsistent layout was reported with a smaller error than possible",
                abs_errs=full, bound=bound)
        rec.event("inconsistent layout reported")
    if len(full) >= 2:
        k = int(rng.integers(0, len(full)))
        by_abs = rng.random() < 0.5
        tol = (full[k] if by_abs else full[k] / full[0]) * 1.01
        vals = full if by_abs else full / full[0]
        want = int(np.argmax(vals < tol)) + 1
        if np.all(np.abs(vals - tol) > 1e-3 * tol) and full[k] > floor * 10:
            root, info = call(rng, L, tol if by_abs else 0.0, 0.0 if by_abs else tol, lims[-1], "minimize")
            a, _ = check_report(info, lims[-1], "minimize")
            require(len(a) == want, "minimize stopped elsewhere than its tolerances demand", got=a, full=full, tol=tol,
                    by_abs=by_abs, want=want)
            n = residual_norm(root, w)
            require(abs(a[-1] - n) <= 1e-6 * n + floor, "geometry returned after early stopping is not the reported one",
                    reported=a, residual=n)
            rec.event("stopping decision observed")
    for h in held:
        h.check(rec)
    rec.state("minimize", linear, bound is None, len(full), tuple(sorted(sp.name for sp, _, _ in w.cons)))


def edges(rng, rec, idx):
    """Layouts without constraints, already solved ones, and unknown methods."""
    w, X0, s, linear = make(rng)
    e = lay.Layout()
    for n, p in w.build_prims(X0).items():
        e.add_prim(p, n)
    for method in ("newton", "minimize"):
        root, info = solver.solve(e, method=method)
        a, _ = check_report(info, 10, method)
        require(np.all(a == 0), "a layout without constraints has nonzero errors", abs_errs=a)
    bad = pick(rng, ("Newton", "", "lbfgs", "L-BFGS-B", None, "newton ", "minimise", 0, "MINIMIZE"))
    expect_raises((ValueError,), lambda: solver.solve(e, method=bad), "unknown method name", method=bad)
    L = w.layout(w.X)
    root, info = solver.solve(L)
    a, _ = check_report(info, 10, "newton")
    S = scale_of(w.X)
    require(len(a) >= 1 and a[0] <= 1e-9 * max(S, S * S, 1), "a satisfied layout is reported with an error", abs_errs=a)
    expect_raises((ValueError,), lambda: solver.solve(L, method=bad), "unknown method name", method=bad)
    rec.event("edge case observed", 4)
    rec.state("edge", bad, linear)


def long(rng, rec, idx):
    """Many iterations: slowly converging or contradictory layouts of few unknowns, anywhere; stopping exactly when demanded."""
    off = pick(rng, (0.0, 0.0, 1.0)) * 10.0 ** rng.uniform(0, 5) * np.array([pick(rng, (-1, 1)), pick(rng, (-1, 1))])
    s = 10.0 ** rng.uniform(-2, 1)
    L = lay.Layout()
    kind = idx % 3
    a = off + s * rng.uniform(-1, 1, 2)
    d = s * rng.uniform(0.3, 1, 2) * pick(rng, (-1, 1))
    extra = int(rng.integers(0, 3))
    for j in range(extra):
        L.add_prim(pr.Point(rng.normal(size=2) * 10.0 ** rng.uniform(-2, 6)), f"other{j}")
    if kind == 0:
        # the roots are multiple: the error shrinks by a constant factor
        power = int(rng.integers(2, 5))
        dim = int(rng.integers(2))
        c = (con.XDistance, con.YDistance)[dim]() ** power
        L.add_prim(pr.Point(a), "P")
        L.add_prim(pr.Point(a + d), "Q")
        L.add_constraint(c, ("P", "Q"), ())
        res = lambda root: np.atleast_1d((root["Q"].value - root["P"].value)[dim] ** power)
    elif kind == 1:
        # contradictory lengths
        t = float(np.hypot(*d)) * np.array([1.0, rng.uniform(1.1, 2)])
        L.add_prim(pr.Line(prims=(pr.Point(a), pr.Point(a + d))), "L")
        L.add_constraint(cr.Length(), ("L",), (t[0],))
        L.add_constraint(cr.Length(), ("L",), (t[1],))
        res = lambda root: np.hypot(*(root["L/Point1"].value - root["L/Point0"].value)) - t
    else:
        # a single consistent length
        t = float(np.hypot(*d)) * rng.uniform(0.5, 2)
        L.add_prim(pr.Line(prims=(pr.Point(a), pr.Point(a + d))), "L")
        L.add_constraint(cr.Length(), ("L",), (t,))
        if extra:
            L.add_constraint(cr.Fix(), ("other0",), (L.root_prim["other0"].value + rng.uniform(-1, 1, 2),))
            p0 = np.array(L.root_param[list(L.root_param.keys())[-1]].value[0], dtype=float)
        res = lambda root: np.concatenate([[np.hypot(*(root["L/Point1"].value - root["L/Point0"].value)) - t]]
                                          + ([root["other0"].value - p0] if extra else []))
    K = int(rng.integers(8, 60))
    eps = 1e-14 * max(1.0, np.max(np.abs([n.value for k, n in snap.walk(L.root_prim) if n.value.size])))
    _, info = solver.solve(L, abs_tol=0.0, rel_tol=0.0, max_iter=K)
    full, _ = check_report(info, K, "newton")
    noise = 100 * eps if kind else 0.0
    require(len(full) == K or full[-1] <= noise, "stopped without reaching a tolerance or the iteration limit", limit=K, abs_errs=full)
    require(abs(full[0] - np.linalg.norm(res(L.root_prim))) <= 1e-6 * full[0] + 10 * eps, "first entry is not the starting error",
            got=full[0], want=np.linalg.norm(res(L.root_prim)))
    for k in sorted(set(int(v) for v in rng.integers(1, len(full) + 1, 3))):
        # tolerances between two consecutive errors
        lo = full[k - 1]
        hi = min(full[:k - 1], default=np.inf)
        if not (np.isfinite(hi) and lo < hi * 0.999 and lo > 100 * noise):
            continue
        tol = float(np.sqrt(lo * hi)) if lo > 0 else hi / 2
        by_abs = rng.random() < 0.5
        root, info = call(rng, L, tol if by_abs else 0.0, 0.0 if by_abs else tol / full[0], K, "newton")
        a_, _ = check_report(info, K, "newton")
        require(len(a_) == k, "stopped after another number of iterations than the tolerances demand", got=len(a_), want=k,
                tol=tol, by_abs=by_abs, full=full)
        if k < len(full):
            n = np.linalg.norm(res(root))
            require(abs(n - full[k]) <= 1e-4 * full[k] + 10 * eps, "returned geometry is not the one after the reported iterations",
                    residual=n, want=full[k], reported=len(a_))
        rec.event("long stopping decision observed")
    if kind == 1:
        bound = float(np.ptp(t)) / np.sqrt(2)
        require(np.all(full >= bound * (1 - 1e-6)), "an inconsistent layout was reported with a smaller error than possible",
                abs_errs=full, bound=bound)
    rec.event("long trace observed")
    rec.state("long", kind, len(full) // 8, bool(off.any()), extra)


def omitted(rng, rec, idx):
    """Settings that are not given are 1e-10 (absolute), 1e-7 (relative), 10 iterations and Newton's method."""
    power = pick(rng, (1.1, 1.2, 1.3, 1.5, 2, 3))
    d = float(10.0 ** pick(rng, (rng.uniform(-1, 2), rng.uniform(-8, -4)))) ** (1 / power)
    dim = int(rng.integers(2))
    L = lay.Layout()
    v = rng.uniform(-1, 1, 2) * d
    v[dim] = d
    L.add_prim(pr.Point([0.0, 0.0]), "P")
    L.add_prim(pr.Point(v), "Q")
    L.add_constraint((con.XDistance, con.YDistance)[dim]() ** power, ("P", "Q"), ())
    given = {"abs_tol": 1e-10, "rel_tol": 1e-7, "max_iter": 10}
    for method in ("newton", "minimize"):
        f = solver.solve_newton if method == "newton" else solver.solve_minimize
        _, inf = f(L, abs_tol=0.0, rel_tol=0.0, max_iter=14)
        full, _ = check_report(inf, 14, method)
        if not len(full):
            continue
        for drop in ((), ("abs_tol",), ("rel_tol",), ("max_iter",), ("abs_tol", "rel_tol"), ("abs_tol", "rel_tol", "max_iter")):
            # the settings that are given differ from the defaults
            kw = {k: x for k, x in {"abs_tol": full[0] * 10.0 ** rng.uniform(-9, 0), "rel_tol": 10.0 ** rng.uniform(-7, 0),
                                    "max_iter": int(rng.integers(1, 14))}.items() if k not in drop}
            st = {**given, **kw}
            want, close = min(st["max_iter"], len(full)), False
            for k, e in enumerate(full[:want]):
                close |= any(abs(x - t) <= 1e-3 * t + 1e-14 for x, t in ((e, st["abs_tol"]), (e / full[0], st["rel_tol"])) if x > 0)
                if e <= st["abs_tol"] or e <= st["rel_tol"] * full[0]:
                    want = k + 1
                    break
            if close:
                continue
            calls = [lambda: f(L, **kw), lambda: solver.solve(L, method=method, **kw)] + ([lambda: solver.solve(L, **kw)] if method == "newton" else [])
            for c in calls:
                a, _ = check_report(c()[1], st["max_iter"], method)
                require(len(a) == want and np.allclose(a, full[:want], rtol=1e-6, atol=1e-300), "omitted settings are not the documented ones",
                        method=method, given=kw, got=a, want=full[:want])
            rec.event("omitted setting observed")
            rec.state("omitted", method, drop, want)


GROUPS = {
    "omitted": dict(fn=omitted, quick=8, thorough=400),
    "long": dict(fn=long, quick=36, thorough=3000),
    "newton": dict(fn=newton, quick=40, thorough=1500),
    "far": dict(fn=far, quick=24, thorough=600),
    "minimize": dict(fn=minimize, quick=40, thorough=1500),
    "edges": dict(fn=edges, quick=24, thorough=300),
}
