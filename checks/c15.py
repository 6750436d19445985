"""C15: axis thickness constraints follow the drawn tick labels."""
import numpy as np
import matplotlib as mpl
from matplotlib import pyplot as plt, ticker

from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import layout as lay
from mpllayout import matplotlibutils as mu
from mpllayout import primitives as pr
from mpllayout import solver

from vlib import figure, geo, ref, snap, world
from vlib.common import Skip, close, pick, require, unique_names

TOL = 1e-6


def decorate(rng, ax, keep_side=True):
    """Random plotted content and tick appearance; returns a description."""
    done = []
    for a, axis in (("x", ax.xaxis), ("y", ax.yaxis)):
        r = pick(rng, ("auto", "big", "tiny", "log", "fixed", "strings", "none", "nolabels", "minor", "offset", "reversed", "long"))
        done.append(a + r)
        lim = getattr(ax, f"set_{a}lim")
        if r == "big":
            lim(0, 10.0 ** int(rng.integers(3, 9)))
        elif r == "tiny":
            lim(-1e-5, 3e-5)
        elif r == "log":
            getattr(ax, f"set_{a}scale")("log")
            lim(1e-3, 1e4)
        elif r == "fixed":
            v = np.sort(rng.uniform(0, 1, int(rng.integers(1, 5))))
            axis.set_ticks(v)
        elif r == "strings":
            axis.set_ticks([0.2, 0.5, 0.9], labels=["a", "two\nlines", "some text"])
        elif r == "long":
            axis.set_ticks([0.5], labels=["a very long label indeed"])
        elif r == "none":
            axis.set_ticks([])
        elif r == "nolabels":
            axis.set_major_formatter(ticker.NullFormatter())
        elif r == "minor":
            axis.set_minor_locator(ticker.FixedLocator([0.33]))
            axis.set_minor_formatter(ticker.FixedFormatter(["minor\nlabel\ntext"]))
        elif r == "offset":
            lim(1e7, 1e7 + 3)
        elif r == "reversed":
            lim(5, -200)
        if rng.random() < 0.5:
            ax.tick_params(axis=a, labelsize=float(rng.uniform(4, 18)), pad=float(rng.uniform(0, 12)),
                           length=float(rng.uniform(0, 12)), direction=pick(rng, ("in", "out", "inout")))
        if rng.random() < 0.4:
            ax.tick_params(axis=a, rotation=float(pick(rng, (30, 45, 60, 90, -30))))
    if rng.random() < 0.6:
        ax.set_xlabel(pick(rng, ("x", "a two\nline label", "")), fontsize=float(rng.uniform(5, 30)))
        ax.set_ylabel("y label")
    if rng.random() < 0.3:
        (ax.xaxis if rng.random() < 0.5 else ax.yaxis).label.set_visible(False)
        done.append("hidden label")
    if rng.random() < 0.3:
        ax.set_title("a title")
    if rng.random() < 0.5:
        ax.plot([0.1, 0.9], rng.uniform(0.1, 0.9, 2))
    return done


def state_of(fig):
    """Everything about the plot that a measurement could disturb."""
    out = [tuple(fig.get_size_inches()), fig.dpi, len(fig.axes)]
    for ax in fig.axes:
        out.append((tuple(ax.get_position().bounds), ax.get_xlim(), ax.get_ylim(), ax.get_title(), ax.get_visible(), len(ax.lines)))
        for axis in (ax.xaxis, ax.yaxis):
            out.append((axis.label.get_visible(), axis.label.get_text(), axis.label.get_fontsize(), axis.get_visible(),
                        axis.get_ticks_position(), axis.get_label_position(),
                        type(axis.get_major_locator()).__name__, type(axis.get_major_formatter()).__name__,
                        tuple(t.label1.get_visible() for t in axis.get_major_ticks()),
                        tuple(t.label2.get_visible() for t in axis.get_major_ticks()),
                        axis.offsetText.get_visible(), axis.get_in_layout()))
    return out


def picture(fig):
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba()).copy()


RC = ({}, {"figure.dpi": 50}, {"figure.dpi": 200}, {"font.size": 6}, {"xtick.direction": "in"})


def plots(rng, rec, idx):
    """Thickness residuals on free-standing plots."""
    with mpl.rc_context(pick(rng, RC)):
        fig = plt.figure(figsize=rng.uniform(2, 9, 2))
        axs = []
        for _ in range(int(rng.integers(1, 4))):
            x, y = rng.uniform(0.05, 0.6, 2)
            ax = fig.add_axes((x, y, rng.uniform(0.2, 0.5), rng.uniform(0.2, 0.5)))
            if rng.random() < 0.5:
                ax.xaxis.set_ticks_position(pick(rng, ("bottom", "top")))
                ax.yaxis.set_ticks_position(pick(rng, ("left", "right")))
            desc = decorate(rng, ax)
            if rng.random() < 0.15 and not any("log" in x for x in desc):
                ax.set_aspect(pick(rng, ("equal", 0.5, 3.0)), adjustable="box")
                desc.append("aspect")
            axs.append((ax, desc))
        if rng.random() < 0.2:
            tw = axs[0][0].twinx()
            axs.append((tw, ["twinx"]))
        drawn = rng.random() < 0.6 or any("aspect" in d for _, d in axs)
        want = {}
        if drawn:
            for i, (ax, _) in enumerate(axs):
                want[i] = (figure.tick_extent(fig, ax.xaxis), figure.tick_extent(fig, ax.yaxis))
            pic, st = picture(fig), state_of(fig)
        order = rng.permutation(len(axs))
        got = {}
        for i in order:
            ax = axs[int(i)][0]
            b = geo.rand_box(rng, lambda shape=(): rng.uniform(0, 3, shape)) if False else ref.box(*np.sort(rng.uniform(0, 3, (2, 2)), axis=0).ravel())
            q = geo.mk_quad(b)
            vis = (ax.xaxis.label.get_visible(), ax.yaxis.label.get_visible())
            res = []
            for which, axis, f in (("x", ax.xaxis, ref.height), ("y", ax.yaxis, ref.width)):
                c = pick(rng, (lambda w=which: cr.AxisThickness(axis=w), cr.XAxisThickness if which == "x" else cr.YAxisThickness))()
                v = np.asarray(c((q,), axis), dtype=float)
                require(v.shape == (1,), "thickness residual is not one number", got=v)
                res.append(f(b) - float(v[0]))
                z = np.asarray(c((q,), None), dtype=float)
                require(close(z, [f(b)], 1e-9, 1e-9), "without a matplotlib axis the prescribed thickness is not zero", got=z, want=f(b))
                rec.event("zero thickness observed")
            got[int(i)] = res
            require((ax.xaxis.label.get_visible(), ax.yaxis.label.get_visible()) == vis, "measuring changed the visibility of an axis label")
        if drawn:
            require(state_of(fig) == st, "measuring changed the plot", got=state_of(fig), want=st)
            require(np.array_equal(picture(fig), pic), "measuring changed the picture")
            rec.event("picture unchanged")
        for i, (ax, desc) in enumerate(axs):
            if not drawn:
                want[i] = (figure.tick_extent(fig, ax.xaxis), figure.tick_extent(fig, ax.yaxis))
            for which, g, w, axis in zip("xy", got[i], want[i], (ax.xaxis, ax.yaxis)):
                require(abs(g - w) <= TOL + 1e-9 * abs(w), "prescribed thickness is not the extent of the tick labels", axis=which, got=g,
                        want=w, side=axis.get_ticks_position(), what=desc, drawn=drawn, size=fig.get_size_inches())
                rec.event("thickness compared")
                rec.state("plot", which, axis.get_ticks_position(), tuple(d for d in desc if d[0] == which), drawn, round(w, 1))
        # a measurement that cannot be made must leave the plot alone too
        if rng.random() < 0.3:
            ax = axs[0][0]
            ax.tick_params(axis="x", bottom=True, top=True, labelbottom=True, labeltop=True)
            vis = ax.xaxis.label.get_visible()
            try:
                cr.XAxisThickness()((q,), ax.xaxis)
            except Exception:
                rec.event("unmeasurable axis observed")
            require(ax.xaxis.label.get_visible() == vis, "a failing measurement hid the axis label")
        rec.sample(f"{[d for _, d in axs]} thickness {got}")


def strip(n):
    """Keys, order and values (kinds of nodes aside)."""
    return [(k, snap.freeze(x.value)) for k, x in snap.walk(n)]


def boxes_of(root, tp, i, a):
    q = geo.rd_quad(root[f"{tp.names[i]}/{a}Axis"])
    return ref.height(q) if a == "X" else ref.width(q)


def placement(fig, axs, tp, k, e, what, tol=2e-6):
    """The figure against the expected placement (inches)."""
    W, H = fig.get_size_inches()
    require(np.allclose((W, H), e["size"], atol=tol), f"{what}: figure size", got=(W, H), want=e["size"], template=tp.describe())
    for i, name in enumerate(tp.names):
        ax, d = axs[name], e["axes"][i]
        b = ax.get_position()
        got = np.array([b.x0 * W, b.y0 * H, b.x1 * W, b.y1 * H])
        require(np.allclose(got, d["frame"], atol=tol), f"{what}: axes do not occupy the declared rectangle", axes=name, got=got,
                want=d["frame"], template=tp.describe())
        for a, axis in (("X", ax.xaxis), ("Y", ax.yaxis)):
            if a + "box" in d:
                require(axis.get_ticks_position() == d[a + "ticks"], f"{what}: ticks on the wrong side", axes=name,
                        got=axis.get_ticks_position(), want=d[a + "ticks"])
                p = np.asarray(axis.label.get_transform().transform(axis.label.get_position())) / fig.dpi
                require(np.allclose(p, d[a + "label"], atol=tol), f"{what}: label anchor", axes=name, axis=a, got=p, want=d[a + "label"],
                        style=tp.labstyle[i, a], template=tp.describe())


def feedback(rng, rec, idx):
    tp = figure.Template(rng, shape=pick(rng, ((1, 1), (1, 1), (1, 1), (1, 2), (1, 2), (2, 1), (2, 1), (2, 2))), thickness=pick(rng, ("feedback", "mixed")),
                         nonlinear=rng.random() < 0.3)
    if not any(tp.fed.values()):
        raise Skip("no thickness constraint drawn")
    k = tp.complete(tp.numbers(rng))
    L = tp.build(rng, k, tp.start(rng))
    root, info = solver.solve(L)
    with mpl.rc_context(pick(rng, RC)):
        fig, axs = mu.subplots(root, tp.fig_key, tp.names)
        placement(fig, axs, tp, k, tp.expected(k), "before feedback")
        for i, a in tp.fed:
            if tp.fed[i, a]:
                require(abs(boxes_of(root, tp, i, a)) < 1e-8, "thickness without matplotlib axes is not zero", got=boxes_of(root, tp, i, a))
                rec.event("zero thickness observed")
        cur = L
        for rnd in range(int(rng.integers(1, 4))):
            for ax in axs.values():
                if rnd:
                    ax.xaxis.set_major_formatter(ticker.ScalarFormatter())
                    ax.yaxis.set_major_formatter(ticker.ScalarFormatter())
                    ax.set_xscale("linear"), ax.set_yscale("linear")
                    ax.set_xlim(0, 1), ax.set_ylim(0, 1)
                    ax.xaxis.set_major_locator(ticker.AutoLocator()), ax.yaxis.set_major_locator(ticker.AutoLocator())
                decorate(rng, ax)
            measure = lambda: {(i, a): figure.tick_extent(fig, getattr(axs[tp.names[i]], a.lower() + "axis")) for i, a in tp.fed
                               if tp.fed[i, a]}
            first = rng.random() < 0.5
            if first:
                fed = measure()
                pic, st = picture(fig), state_of(fig)
            src = pick(rng, (L, cur))
            before, bparams = snap.layout(src), {key: strip(n) for key, n in snap.walk(src.root_param)}
            given = dict(axs)
            if rng.random() < 0.3:
                given["AxesUnrelated"] = fig.axes[0]
            L2 = lay.update_layout_constraints(src, given)
            require(snap.layout(src) == before, "updating changed the original layout", difference=snap.diff(before, snap.layout(src)))
            if first:
                require(state_of(fig) == st and np.array_equal(picture(fig), pic), "updating the layout changed the plot")
                rec.event("picture unchanged")
            else:
                fed = measure()
            require(L2 is not src, "updating returned the original layout")
            require(strip(L2.root_prim) == strip(src.root_prim) and strip(L2.root_prim_keys) == strip(src.root_prim_keys) and
                    list(L2.root_constraint.keys()) == list(src.root_constraint.keys()) and
                    all(L2.root_constraint[q] is src.root_constraint[q] for q in src.root_constraint.keys()),
                    "updating changed more than parameters")
            for key in src.root_constraint.keys():
                if not isinstance(src.root_constraint[key], cr.AxisThickness):
                    require(strip(L2.root_param[key]) == bparams[key], "updating changed the parameters of another constraint", key=key)
                else:
                    rec.event("parameter replaced")
            rec.event("original layout unchanged")
            e = tp.expected(k, fed)
            if min(e["widths"].min(), e["heights"].min()) < 0.15:
                rec.event("labels too large for the figure")
                return
            root2, info2 = solver.solve(L2)
            for i, a in tp.fed:
                if tp.fed[i, a]:
                    g = boxes_of(root2, tp, i, a)
                    require(abs(g - fed[i, a]) < TOL * 2, "axis box is not as thick as the drawn tick labels", got=g, want=fed[i, a],
                            axes=tp.names[i], axis=a, side=tp.side[i][a], size=fig.get_size_inches(), errors=info2["abs_errs"][-3:])
                    rec.event("thickness compared")
                    rec.state("feedback", a, tp.side[i][a], tp.shape, round(g, 1), rnd)
            mu.update_subplots(root2, tp.fig_key, fig, axs)
            placement(fig, axs, tp, k, e, "after feedback")
            rec.event("placement after feedback observed")
            # the layouts stay independent
            b1, b2 = snap.layout(src), snap.layout(L2)
            one, two = (src, L2) if rng.random() < 0.5 else (L2, src)
            if one is not L and one is not cur:
                one.add_prim(pr.Point(), f"later {rnd}")
                one.add_constraint(cr.Fix(), (f"later {rnd}",), ((0.0, 0.0),))
                require(snap.layout(two) == (b1 if two is src else b2), "an addition to one layout appeared in the other")
                rec.event("independence observed")
            cur = L2
        rec.sample(f"{tp.describe()}: measured {fed}")


def compound(members, prim_type):
    """A constraint whose children are the given (key, constraint, primitive keys, number of parameters) members."""

    class Compound(con.CompoundConstruction):
        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            n = [m[3] for m in members]

            def child_params(params):
                out, k = [], 0
                for j in n:
                    out.append(tuple(params[k:k + j]))
                    k += j
                return tuple(out)
            return tuple(m[0] for m in members), tuple(m[1] for m in members), tuple(m[2] for m in members), child_params

        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((prim_type,), sum(m[3] for m in members) * (object,), 0)

    return Compound()


def nested(rng, rec, idx):
    """Thickness constraints that are parts of other constraints, in any nesting and with several per axis box."""
    names = [f"Axes{u}" for u in unique_names(rng, int(rng.integers(1, 4)))]
    sides = {n: (pick(rng, ("bottom", "top")), pick(rng, ("left", "right"))) for n in names}
    size = rng.uniform(3, 8, 2)
    L = lay.Layout()
    frames = {}
    for n in names:
        x, y = rng.uniform(0.1, 0.6, 2)
        w, h = rng.uniform(0.2, 0.35, 2)
        frames[n] = (x, y, w, h)
        f = ref.box(x * size[0], y * size[1], (x + w) * size[0], (y + h) * size[1])
        parts = {"Frame": f, "XAxis": f + 0.1, "XAxisLabel": f[0], "YAxis": f - 0.1, "YAxisLabel": f[1]}
        L.add_prim(geo.mk_axes(parts), n)
    where = {}
    for n in names:
        members, depth = [], int(rng.integers(0, 3))
        for a in "XY":
            for j in range(int(rng.integers(1, 3))):
                T = cr.XAxisThickness() if a == "X" else cr.YAxisThickness()
                members.append((f"{a}{j}", T, (f"arg0/{a}Axis",), 1))
            members.append((f"Box{a}", cr.Box(), (f"arg0/{a}Axis",), 0))
        c = compound(members, pr.Axes)
        path = ""
        for d in range(depth):
            k = sum(m[3] for m in members)
            c = compound([(f"in{d}", c, ("arg0",), k)] + ([("Frame", cr.Box(), ("arg0/Frame",), 0)] if rng.random() < 0.5 else []), pr.Axes)
            path = f"in{d}/" + path
        nt = sum(m[3] for m in members)
        L.add_constraint(c, (n,), nt * (None,), key=f"All {n}")
        for m in members:
            if m[3]:
                where[f"All {n}/{path}{m[0]}"] = (n, m[0][0])
        for a, side in zip("XY", sides[n]):
            pos = cr.PositionXAxis(side=side) if a == "X" else cr.PositionYAxis(side=side)
            L.add_constraint(pos, (n,), ())
        for kk in range(4):
            L.add_constraint(cr.Fix(), (f"{n}/Frame/Line{kk}/Point0",), (geo.rd_quad(L.root_prim[f"{n}/Frame"])[kk],))
    with mpl.rc_context(pick(rng, RC)):
        fig = plt.figure(figsize=size)
        axs = {}
        for n in names:
            axs[n] = fig.add_axes(frames[n])
            axs[n].xaxis.set_ticks_position(sides[n][0])
            axs[n].yaxis.set_ticks_position(sides[n][1])
        cur = L
        for rnd in range(2):
            for ax in axs.values():
                if rnd:
                    ax.xaxis.set_major_formatter(ticker.ScalarFormatter())
                    ax.yaxis.set_major_formatter(ticker.ScalarFormatter())
                    ax.set_xscale("linear"), ax.set_yscale("linear")
                    ax.xaxis.set_major_locator(ticker.AutoLocator()), ax.yaxis.set_major_locator(ticker.AutoLocator())
                decorate(rng, ax)
            want = {(n, a): figure.tick_extent(fig, axs[n].xaxis if a == "X" else axs[n].yaxis) for n in names for a in "XY"}
            before = snap.layout(cur)
            L2 = lay.update_layout_constraints(cur, axs)
            require(snap.layout(cur) == before, "updating changed the original layout", difference=snap.diff(before, snap.layout(cur)))
            for key, (n, a) in where.items():
                axis = axs[n].xaxis if a == "X" else axs[n].yaxis
                v = L2.root_param[key].value
                require(len(v) == 1 and v[0] is axis, "a nested thickness constraint did not get the axis of its own axes", key=key, got=v)
                require(L.root_param[key].value == (None,), "updating changed the original layout's parameters", key=key)
                rec.event("nested thickness updated")
            root, info = solver.solve(L2)
            for (n, a), w in want.items():
                q = geo.rd_quad(root[f"{n}/{a}Axis"])
                g = ref.height(q) if a == "X" else ref.width(q)
                require(abs(g - w) < 2 * TOL, "axis box of a nested thickness constraint is not as thick as its tick labels", axes=n, axis=a,
                        got=g, want=w, errors=info["abs_errs"])
                rec.event("thickness compared")
            cur = pick(rng, (L, L2))
            if cur is L2:
                where_now = {k: L2.root_param[k].value for k in where}
                require(all(v[0] is not None for v in where_now.values()), "updated parameters were lost")
        rec.state("nested", len(names), tuple(sorted(k.count("/") for k in where)), tuple(sides.values()))
    rec.sample(f"nested: {list(where)} -> {want}")


def independent(rng, rec, idx):
    """Whatever is done to one of the two layouts afterwards does not show in the other; vertices stay shared within each."""
    w = world.target(rng, scale=1.0, kinds="PLLQQAG", size=int(rng.integers(2, 5)))
    world.constrain_linear(rng, w, int(rng.integers(0, 5)))
    L = w.layout(w.X)
    g = pr.PrimitiveNode.from_tree(np.array([]), {})
    a = geo.mk_axes({"Frame": ref.box(0, 0, 2, 1), "XAxis": ref.box(0, -0.2, 2, 0), "XAxisLabel": np.array([1.0, -0.3])})
    g.add_child("AxesInside", a)
    g.add_child("corner", a["Frame/Line0/Point0"])
    L.add_prim(g, "Things")
    L.add_constraint(cr.XAxisThickness(), ("Things/AxesInside/XAxis",), (None,), key="T")
    L.add_constraint(cr.Fix(), ("Things/corner",), (np.array([0.5, 0.25]),), key="F")
    fig = plt.figure()
    ax = fig.add_axes((0.2, 0.2, 0.5, 0.5))
    shared = lambda root: snap.alias_pattern(root)
    before = snap.layout(L)
    pat, kinds = shared(L.root_prim), snap.skeleton(L.root_prim)
    M = lay.update_layout_constraints(L, {"Things/AxesInside": ax})
    require(snap.layout(L) == before, "updating changed the original layout", difference=snap.diff(before, snap.layout(L)))
    require(snap.skeleton(M.root_prim) == kinds and shared(M.root_prim) == pat, "updated layout has other primitives or other sharing",
            world=w.describe())
    require(M.root_param["T"].value[0] is ax.xaxis, "thickness constraint did not get its axis")
    # a chain of edits, each on one side
    for step in range(int(rng.integers(2, 7))):
        one, two = (L, M) if rng.random() < 0.5 else (M, L)
        b = snap.layout(two)
        r = int(rng.integers(7))
        key = f"Added {step}"
        prims = [k for k, n in snap.walk(one.root_prim) if k and n.value.size == 2]
        if r == 0:
            one.add_prim(pr.Point(rng.normal(size=2)), f"Things/{key}")
        elif r == 1:
            one.add_prim(geo.mk_quad(ref.box(0, 0, 1, 1)), key)
        elif r == 2:
            k = pick(rng, prims)
            one.root_prim[k.strip("/")] = pr.Point(rng.normal(size=2))
        elif r == 3:
            one.root_prim[pick(rng, prims).strip("/")].value[:] = rng.normal(size=2)
        elif r == 4:
            one.add_constraint(cr.Fix(), ("Things/corner",), ((0.0, 0.0),), key=key)
        elif r == 5:
            one.add_constraint(cr.XAxisThickness(), ("Things/AxesInside/XAxis",), (ax.yaxis,))
        else:
            solver.solve(one, max_iter=1)
        require(snap.layout(two) == b, "a change to one layout appeared in the other", edit=r, side="original" if one is L else "updated",
                difference=snap.diff(b, snap.layout(two)))
        rec.event("independence observed")
        rec.state("independent", r, one is L, step)
    plt.close(fig)


GROUPS = {
    "independent": dict(fn=independent, quick=60, thorough=3000),
    "nested": dict(fn=nested, quick=24, thorough=1200),
    "plots": dict(fn=plots, quick=160, thorough=4000),
    "feedback": dict(fn=feedback, quick=40, thorough=1500),
}
