"""C21: no hidden state: results depend on the arguments only, whatever was evaluated before, elsewhere or at the same time."""
import random
import sys
import threading
import time
import warnings

import jax
import matplotlib as mpl
import numpy as np
from matplotlib import pyplot as plt

from mpllayout import layout as lay
from mpllayout import matplotlibutils as mu
from mpllayout import solver

from checks import c08, c14
from vlib import consts, geo, judge, snap, specs, world
from vlib.common import Recorder, Skip, Violation, coord_sampler, pick, require, scale_of, unique_names

RD = {"P": geo.rd_point, "L": geo.rd_line, "Q": geo.rd_quad, "A": geo.rd_axes}


def settings(filters=True):
    """Settings of the process which calls must leave alone."""
    return {"numpy errors": np.geterr(), "print options": {k: v for k, v in np.get_printoptions().items()},
            "rcParams": {k: repr(v) for k, v in mpl.rcParams.items() if k not in ("backend", "backend_fallback")},
            "numpy random state": repr(np.random.get_state()), "random state": hash(random.getstate()),
            "64 bit": bool(jax.config.jax_enable_x64), "recursion limit": sys.getrecursionlimit(),
            "warning filters": [repr(f) for f in warnings.filters] if filters else None}


WARM = set()


def same_settings(before, rec, filters=True, what=""):
    if what not in WARM:                # modules which are imported at the first use may have settings of their own
        WARM.add(what)
        return
    after = settings(filters)
    for k in before:
        require(before[k] == after[k], "a call changed a setting of the process", setting=k, before=repr(before[k])[:200],
                after=repr(after[k])[:200])
    rec.event("process settings observed")


class Subject:
    """One construction or constraint, used again and again with several sets of arguments."""

    def __init__(self, rng, sp, cons, smp):
        self.sp, self.cons, self.smp = sp, cons, smp
        self.obj = sp.make()
        self.sets = [self.draw(rng) for _ in range(2)]

    def draw(self, rng):
        if self.cons:
            args, params = self.sp.random_args(rng, self.smp), self.sp.params(rng)
        else:
            args, params = self.sp.satisfy(rng, self.smp)
            if rng.random() < 0.5:
                params = self.sp.satisfy(rng, self.smp)[1]
        return [list(args), list(params), list(specs.mk_args(self.sp, args))]

    def change(self, rng, s):
        """Other geometry and parameters, within the same objects where possible."""
        new = self.draw(rng)
        what = pick(rng, ("prims", "params", "both", "nothing"))
        if what in ("prims", "both"):
            for j, (old, p) in enumerate(zip(s[2], new[2])):
                if snap.skeleton(old) == snap.skeleton(p) and rng.random() < 0.7:
                    for (_, a), (_, b) in zip(snap.walk(old), snap.walk(p)):
                        a.value[...] = b.value
                else:
                    s[2][j] = p
                s[0][j] = new[0][j]
        if what in ("params", "both"):
            for j, p in enumerate(new[1]):
                q = s[1][j]
                if isinstance(q, np.ndarray) and np.shape(q) == np.shape(p) and q.dtype == np.asarray(p).dtype and q.flags.writeable and rng.random() < 0.5:
                    q[...] = p
                else:
                    s[1][j] = p
        return what

    def evaluate(self, rng, s):
        c, prims, params = self.obj, tuple(s[2]), tuple(s[1])
        how = pick(rng, ("call", "call", "call", "jit", "layout", "fresh"))
        if how == "jit":
            return how, jax.jit(lambda p: c(p, *params))(prims)
        if how == "layout":
            L = lay.Layout()
            for j, p in enumerate(prims):
                L.add_prim(p, f"p{j}")
            L.add_constraint(c, tuple(f"p{j}" for j in range(len(prims))), params)
            return how, np.concatenate([np.zeros(0)] + [np.ravel(r) for r in solver.assem_constraint_residual(L.root_prim, *L.flat_constraints())])
        if how == "fresh":
            return how, self.sp.make()(prims, *params)
        return how, c(prims, *params)

    def judge(self, got, s, rec, log):
        res = np.asarray(got, dtype=float)
        args, params = s[0], tuple(s[1])
        if self.cons:
            want, tol = self.sp.value(args, params), self.sp.tol(args, params)
            require(res.shape == want.shape and np.all(np.abs(res - want) <= tol), "a construction depends on what was evaluated before",
                    what=self.sp.label, got=res, want=want, args=args, params=params, history=log[-8:])
        else:
            judge.judge(self.sp, self.smp, args, params, res, Recorder(), f"after {log[-4:]}")
        rec.event("evaluation in a history compared")


def subjects(rng, smp):
    out = []
    for _ in range(int(rng.integers(2, 4))):
        name = pick(rng, specs.ALL)
        for _ in range(int(rng.integers(1, 4))):
            fixed = {"shape": pick(rng, ((1, 2), (2, 1), (2, 2), (3, 1)))} if name in ("Grid", "RectilinearGrid") else \
                {"n": pick(rng, (2, 3, 4))} if name == "OuterMarginArray" else {}
            out.append(Subject(rng, specs.spec(name, rng, **fixed), False, smp))
    for _ in range(int(rng.integers(1, 3))):
        name = pick(rng, consts.ALL)
        for _ in range(int(rng.integers(1, 4))):
            out.append(Subject(rng, consts.spec(name, rng), True, smp))
    return out


def play(rng, subs, rec, steps):
    log = []
    for _ in range(steps):
        u = pick(rng, subs)
        s = pick(rng, u.sets)
        what = u.change(rng, s)
        how, got = u.evaluate(rng, s)
        log.append((u.sp.label, what, how))
        u.judge(got, s, rec, log)
        rec.state("step", u.sp.name, what, how)
    return log


def history(rng, rec, idx):
    """Evaluations of many objects in a random order; geometry and parameters are also changed in place."""
    smp = coord_sampler(rng)
    before = settings()
    log = play(rng, subjects(rng, smp), rec, 30)
    same_settings(before, rec, what="history")
    rec.sample(str(log[:6]))


class SlowFilters:
    """Delays after the package changes the (process wide) warning filters, which widens the window for other threads."""

    def __enter__(self):
        self.added, self.old = [], (warnings.simplefilter, warnings.filterwarnings)

        def slow(f):
            def g(*a, **k):
                mine = "mpllayout" in sys._getframe(1).f_code.co_filename
                before = list(map(repr, warnings.filters))
                f(*a, **k)
                if mine:
                    self.added += [r for r in map(repr, list(warnings.filters)) if r not in before]
                    time.sleep(0.002 * random.Random(len(self.added)).random())
            return g
        warnings.simplefilter, warnings.filterwarnings = map(slow, self.old)
        return self

    def __exit__(self, *e):
        warnings.simplefilter, warnings.filterwarnings = self.old


def in_threads(jobs):
    """Run the jobs at the same time with frequent switches; returns their recorders, raises what they raise."""
    before, filters = settings(False), list(warnings.filters)
    with SlowFilters() as slow:
        recs = together(jobs)
    left = [r for r in map(repr, warnings.filters) if r not in map(repr, filters) and r in slow.added]
    warnings.filters[:] = filters
    require(not left, "concurrent calls left warning filters behind", left=left)
    same_settings(before, recs[0], False, "threads")
    return recs


def together(jobs):
    recs, errors, gate = [Recorder() for _ in jobs], [], threading.Barrier(len(jobs))

    def run(job, r):
        try:
            gate.wait()
            job(r)
        except BaseException as e:          # noqa: B902 (handed on to the main thread)
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    try:
        ts = [threading.Thread(target=run, args=(j, r)) for j, r in zip(jobs, recs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    for e in errors:
        if isinstance(e, Violation):
            raise e
    for e in errors:
        raise e
    return recs


def threads(rng, rec, idx):
    """The same from several threads, which use the same objects with their own primitives."""
    smp = coord_sampler(rng)
    objs = subjects(rng, smp)
    jobs = []
    for t in range(4):
        r = np.random.default_rng(rng.integers(1 << 62))
        own = []
        for u in objs:
            v = Subject(r, u.sp, u.cons, smp)
            v.obj = u.obj
            own.append(v)
        jobs.append(lambda k, r=r, own=own: play(r, own, k, 8))
    for k in in_threads(jobs):
        rec.merge(k.dump())
    rec.event("concurrent histories compared", len(jobs))


def closest(w, X0):
    J, r0 = world.affine_jacobian(w)
    sv = np.linalg.svd(J, compute_uv=False)
    top = sv[0] if sv.size else 0.0
    keep = sv > 1e-9 * top
    if not keep.any() or sv[keep][-1] < 2e-3 * top:
        raise Skip("ill-conditioned linear system")
    dx, *_ = np.linalg.lstsq(J, -(J @ X0.ravel() + r0), rcond=1e-9)
    want = (X0.ravel() + dx).reshape(-1, 2)
    if np.max(np.abs(J @ want.ravel() + r0)) > 1e-7 * max(scale_of(want), scale_of(X0)):
        raise Skip("inconsistent linear system")
    return want


def relative(rng, sp):
    """A linear constraint on the same kinds of primitives and parameters as `sp`."""
    if rng.random() < 0.3 or sp.name in ("Box", "PositionAxis"):
        return sp
    fits = []
    for name in world.LINEAR_NAMES:
        o = specs.spec(name, rng)
        if (o.kinds, o.pkinds, o.relation) == (sp.kinds, sp.pkinds, sp.relation) and name != "PositionAxis" and \
                (sp.boxes or not o.boxes) and (name != sp.name or o.label != sp.label):
            fits.append(o)
    return pick(rng, fits) if fits else sp


def solves(rng, rec, idx):
    """Layouts with the same primitives and other numbers or constraints, solved in turn, again, and at the same time."""
    w, X0, s = c08.make(rng, True, kinds="PLQ", n=(2, 6))
    ws = [(w, X0)]
    for kind in ("start", "numbers", "options", "options", "constraints"):
        v = world.World()
        v.X, v.prims, v.cons = w.X, w.prims, list(w.cons)
        if kind == "numbers":
            v.X = w.X * rng.uniform(0.5, 2) + s * rng.uniform(-1, 1, 2)
            table = v.ref_table()
            try:
                v.cons = [(sp, keys, sp.params(v.args(v.X, keys, table), rng) if sp.pkinds and 'b' not in sp.pkinds else old) for sp, keys, old in w.cons]
            except Exception:       # the primitives do not fit the constraint any more
                continue
        elif kind == "options":
            # the same primitives and numbers, other constraints of the same form
            v.cons = [(relative(rng, sp), keys, old) for sp, keys, old in w.cons]
            if all(a[0] is b[0] for a, b in zip(v.cons, w.cons)):
                continue
            rec.event("layout with other constraints of the same form")
        elif kind == "constraints":
            v.cons = []
            world.constrain_linear(rng, v, int(rng.integers(2, 6)))
            if not v.cons:
                continue
        ws.append((v, X0 + s * rng.uniform(-0.5, 0.5, X0.shape)))
    # other values of the same parameters need not be compatible: such layouts are left out
    cases = []
    for v, X in ws:
        try:
            cases.append((v, v.layout(X), closest(v, X), max(scale_of(X), scale_of(v.X))))
        except Skip:
            pass
    if len(cases) < 2:
        raise Skip("no other layout")
    before = settings()
    held = []

    def one(k, r, what):
        v, L, want, S = cases[k]
        root, info = solver.solve(L)
        held.append((root, info, snap.freeze(root), snap.freeze(info)))
        got = v.read(root)[0]
        require(c08.dev(got, want) <= 1e-8 * S, f"a layout is solved differently {what}", by=c08.dev(got, want), got=got, want=want,
                world=v.describe())
        r.event("solve in a history compared")
    for k in np.r_[rng.permutation(len(cases)), rng.integers(len(cases), size=1)]:
        one(int(k), rec, "after other layouts")
    same_settings(before, rec, what="solves")
    jobs = [lambda r, k=int(k): one(k, r, "while other layouts are solved") for k in np.r_[rng.integers(len(cases), size=2), [0, 0]]]
    for k in in_threads(jobs):
        rec.merge(k.dump())
    rec.event("concurrent solve compared", len(jobs))
    for root, info, r0, i0 in held:
        require(snap.freeze(root) == r0 and snap.freeze(info) == i0, "an earlier result changed when layouts were solved later",
                was=i0, now=info)
    rec.event("earlier result unchanged", len(held))
    rec.state("solves", len(cases), len(w.cons))


def figures(rng, rec, idx):
    """Several figures, created and updated in turn, each keep showing their own geometry."""
    plt.close("all")
    before = settings()
    n = int(rng.integers(2, 4))
    shown = []
    for j in range(n):
        names = [f"Axes{u}" for u in unique_names(rng, int(rng.integers(1, 3)))] if rng.random() < 0.5 or not shown else shown[0][0].names
        flags = {k: {"X": True, "Y": bool(rng.random() < 0.7), "TX": False, "TY": False} for k in names}
        sc = c14.Scene(rng, names, flags, "Figure")
        root = sc.root(rng)
        fig, axs = mu.subplots(root)
        shown.append([sc, fig, axs, root])
    for step in range(4):
        j = int(rng.integers(n))
        if step:
            sc, fig, axs, root = shown[j]
            new = c14.Scene(rng, sc.names, sc.flags, sc.fig_key)
            if rng.random() < 0.3:
                plt.figure(shown[int(rng.integers(n))][1].number)
            other = new.root(rng)
            if rng.random() < 0.6:
                # the same primitives, moved in place
                for k in [k for k in root.keys() if k in other]:
                    for (_, a), (_, b) in zip(snap.walk(root[k]), snap.walk(other[k])):
                        a.value[...] = b.value
                rec.event("figure updated from primitives changed in place")
            else:
                root = other
            mu.update_subplots(root, "Figure", fig, axs)
            shown[j][0], shown[j][3] = new, root
        for sc, fig, axs, _ in shown:
            sc.check(fig, axs, sc.names, "with several figures", Recorder())
            rec.event("one of several figures observed")
    require(len(plt.get_fignums()) == n, "figures appeared or disappeared", got=plt.get_fignums())
    same_settings(before, rec, what="figures")
    plt.close("all")
    rec.state("figures", n, tuple(len(sc.names) for sc, *_ in shown))


GROUPS = {
    "history": dict(fn=history, quick=150, thorough=3000),
    "threads": dict(fn=threads, quick=48, thorough=800),
    "solves": dict(fn=solves, quick=40, thorough=1500),
    "figures": dict(fn=figures, quick=60, thorough=600),
}
