"""C14: created and updated matplotlib figures reproduce the geometry."""
import copy
import warnings

import numpy as np
import matplotlib as mpl
from matplotlib import pyplot as plt

from mpllayout import matplotlibutils as mu
from mpllayout import primitives as pr

from vlib import geo, ref, snap
from vlib.common import pick, require, unique_names

TOL = 1e-9


def measure(fig, ax, dpi=None):
    """Where an axes really is, in inches from the figure's lower left corner."""
    W, H = fig.get_size_inches()
    b = ax.get_position()
    out = {"frame": np.array([b.x0 * W, b.y0 * H, b.x1 * W, b.y1 * H])}
    for n, axis in (("X", ax.xaxis), ("Y", ax.yaxis)):
        lab = axis.label
        out[n + "label"] = np.asarray(lab.get_transform().transform(lab.get_position())) / fig.dpi
        out[n + "ticks"] = axis.get_ticks_position()
        out[n + "side"] = axis.get_label_position()
    return out


def axis_box(rng, frame, side, t):
    x0, y0, x1, y1 = frame
    return {"bottom": ref.box(x0, y0 - t, x1, y0), "top": ref.box(x0, y1, x1, y1 + t),
            "left": ref.box(x0 - t, y0, x0, y1), "right": ref.box(x1, y0, x1 + t, y1)}[side]


class Scene:
    """Random figure geometry with known answers."""

    def __init__(self, rng, names, flags, fig_key, nest=None):
        self.names, self.flags, self.fig_key, self.nest = names, flags, fig_key, nest
        self.o = rng.uniform(-30, 30, 2) if rng.random() < 0.7 else np.zeros(2)
        self.integers = rng.random() < 0.15
        self.size = rng.uniform(1.5, 14, 2)
        if self.integers:
            self.o, self.size = np.round(self.o), np.round(self.size) + 1
        self.parts, self.want = {}, {}
        for n in names:
            self.draw(rng, n)

    def draw(self, rng, n):
        o, (W, H) = self.o, self.size
        while True:
            x = np.sort(rng.uniform(-0.2, 1.2, 2)) * W
            y = np.sort(rng.uniform(-0.2, 1.2, 2)) * H
            if self.integers:
                x, y = np.round(x), np.round(y)
            if x[1] - x[0] > 0.2 and y[1] - y[0] > 0.2:
                break
        frame = (o[0] + x[0], o[1] + y[0], o[0] + x[1], o[1] + y[1])
        parts = {"Frame": ref.box(*frame)}
        want = {"frame": np.array([x[0], y[0], x[1], y[1]])}
        for a, sides in (("X", ("bottom", "top")), ("Y", ("left", "right"))):
            if self.flags[n][a]:
                side = pick(rng, sides)
                t = pick(rng, (0.0, 0.1, float(rng.uniform(0.01, 2)), frame[3] - frame[1] if a == "X" else frame[2] - frame[0]))
                parts[f"{a}Axis"] = axis_box(rng, frame, side, t)
                p = rng.uniform(-0.2, 1.2, 2) * (W, H)
                parts[f"{a}AxisLabel"] = o + p
                want[a + "label"], want[a + "ticks"] = p, side
                if self.flags[n]["T" + a]:
                    other = ref.OPPOSITE[side]
                    parts[f"Twin{a}Axis"] = axis_box(rng, frame, other, 0.3)
                    parts[f"Twin{a}AxisLabel"] = o + rng.uniform(-0.2, 1.2, 2) * (W, H)
        self.parts[n], self.want[n] = parts, want

    def nudged(self, rng):
        """Nearly the same geometry: some axes are moved and the figure is resized by very little."""
        new = copy.deepcopy(self)
        new.integers = False
        eps = 10.0 ** rng.uniform(-6.5, -2)
        if rng.random() < 0.5:
            new.size = self.size + eps * rng.uniform(-1, 1, 2)
        for n in self.names:
            if rng.random() < 0.3:
                continue
            d = eps * rng.uniform(-1, 1, 2)
            new.parts[n] = {k: [np.asarray(q) + d for q in v] if np.ndim(v) == 2 else np.asarray(v) + d for k, v in self.parts[n].items()}
            for k, v in new.want[n].items():
                if not isinstance(v, str):
                    new.want[n][k] = v + (np.tile(d, 2) if k == "frame" else d)
        return new

    def root(self, rng, extra=True):
        o, s = self.o, self.size
        items = [(self.fig_key, geo.mk_quad(ref.box(o[0], o[1], o[0] + s[0], o[1] + s[1])))]
        for n in self.names:
            parts = self.parts[n]
            if self.integers and rng.random() < 0.5:
                a = pr.Axes(None, (pr.Quadrilateral(None, [pr.Point([int(c) for c in v]) for v in parts["Frame"]]),)
                            + tuple(geo.mk_point(parts[k]) if k.endswith("Label") else geo.mk_quad(parts[k])
                                    for k in geo.AXES_PARTS if k in parts), **geo.axes_flags(parts))
            else:
                a = geo.mk_axes(parts)
            items.append((n, a))
        if extra:
            # things that are no axes and no figure
            items += [("a point", pr.Point(rng.normal(size=2))), ("box", pr.Quadrilateral()), ("line", pr.Line())]
            if self.fig_key != "Figure":
                items.append(("Figure", geo.mk_quad(ref.box(*rng.uniform(-3, 0, 2), *rng.uniform(1, 5, 2)))))
        root = pr.PrimitiveNode.from_tree(np.array([]), {})
        groups = {}
        for j in rng.permutation(len(items)):
            key, p = items[int(j)]
            if "/" in key:
                g, key = key.split("/")
                if g not in groups:
                    groups[g] = pr.PrimitiveNode.from_tree(np.array([]), {})
                    root.add_child(g, groups[g])
                groups[g].add_child(key, p)
            else:
                root.add_child(key, p)
        return root

    def check(self, fig, axs, names, what, rec):
        W, H = fig.get_size_inches()
        require(np.allclose((W, H), self.size, rtol=0, atol=TOL * 50), f"{what}: figure size", got=(W, H), want=self.size)
        rec.event("figure size observed")
        for n in names:
            ax, want = axs[n], self.want[n]
            require(ax.figure is fig and ax in fig.axes, f"{what}: axes of another figure", axes=n)
            got = measure(fig, ax)
            S = max(1.0, np.max(np.abs(self.o)), *self.size)
            require(np.allclose(got["frame"], want["frame"], rtol=0, atol=TOL * S), f"{what}: axes do not occupy their frame", axes=n,
                    got=got["frame"], want=want["frame"], origin=self.o, size=self.size)
            rec.event("frame observed")
            for a in "XY":
                if a + "label" in want:
                    require(np.allclose(got[a + "label"], want[a + "label"], rtol=0, atol=TOL * S),
                            f"{what}: {a} axis label is not at its anchor", axes=n, got=got[a + "label"], want=want[a + "label"],
                            origin=self.o)
                    require(got[a + "ticks"] == want[a + "ticks"], f"{what}: {a} ticks are on the wrong side", axes=n,
                            got=got[a + "ticks"], want=want[a + "ticks"])
                    rec.event("label anchor observed")
                    rec.event("tick side observed")
            rec.state(what.split(":")[0], tuple(sorted(k for k in self.parts[n])), want.get("Xticks"), want.get("Yticks"),
                      bool(self.o.any()), n.count("/"))


def rand_flags(rng):
    x, y = rng.random() < 0.75, rng.random() < 0.75
    return {"X": x, "Y": y, "TX": x and rng.random() < 0.3, "TY": y and rng.random() < 0.3}


def plot_something(rng, fig, axs):
    """What users do between creating and updating."""
    for ax in axs.values():
        r = rng.random()
        if r < 0.4:
            x = np.linspace(0, 1, 5)
            ax.plot(x, rng.normal(size=5) * 10.0 ** int(rng.integers(-6, 7)))
        if rng.random() < 0.5:
            ax.set_xlabel("an x label", fontsize=int(rng.integers(4, 20)))
            ax.set_ylabel("a y label")
        if rng.random() < 0.2:
            ax.set_xlim(3, -3)
        if rng.random() < 0.2:
            ax.set_title("title")
        if rng.random() < 0.2:
            pick(rng, (ax.xaxis, ax.yaxis)).label.set_visible(bool(rng.random() < 0.3))
        if rng.random() < 0.1:
            ax.set_axis_off()
        if rng.random() < 0.1:
            ax.set_yscale("symlog")
        if rng.random() < 0.1:
            ax.tick_params(labelbottom=False, labelleft=False, length=11)
        if rng.random() < 0.1:
            pick(rng, (ax.xaxis, ax.yaxis)).set_visible(False)
        if rng.random() < 0.15:
            ax.xaxis.set_ticks_position("top")
            ax.yaxis.set_ticks_position("right")


RC = ({}, {"figure.dpi": 37}, {"figure.dpi": 300}, {"xtick.top": True, "ytick.right": True}, {"xtick.labeltop": True},
      {"xaxis.labellocation": "left"}, {"axes.labelpad": 30}, {"figure.figsize": (3, 9)}, {"figure.subplot.left": 0.4})


def figures(rng, rec, idx):
    n = int(rng.integers(1, 5))
    names = [f"{pick(rng, ('Axes', 'MyAxes', 'Axes ', 'twinAxes'))}{u}" for u in unique_names(rng, n)]
    others = []                                     # axes that are not called so
    for u in unique_names(rng, int(rng.integers(0, 3))):
        if "Axes" not in u and u not in ("a point", "box", "line"):
            others.append(u + "~")
    if rng.random() < 0.3:
        others.append("Group/Axes inside")
    fig_key = pick(rng, ("Figure", "Figure", "Page", "F", "Pages/Fig", "Figure 2"))
    allnames = names + others
    sc = Scene(rng, allnames, {k: rand_flags(rng) for k in allnames}, fig_key)
    root = sc.root(rng)
    before = snap.freeze(root, True)
    with mpl.rc_context(pick(rng, RC)), warnings.catch_warnings():
        warnings.simplefilter("error", UserWarning)
        open_before = plt.get_fignums()
        other = plt.figure(figsize=(2, 2))
        other.add_axes((0.1, 0.1, 0.5, 0.5))
        keys = None
        if fig_key == "Figure" and rng.random() < 0.4:
            fig, axs = mu.subplots(root)
        elif rng.random() < 0.5:
            fig, axs = mu.subplots(root, fig_key)
        else:
            keys = [allnames[int(j)] for j in rng.permutation(len(allnames))[:int(rng.integers(0, len(allnames) + 1))]]
            fig, axs = mu.subplots(root, fig_key, keys)
        want_keys = [k for k in root.keys() if "Axes" in k] if keys is None else keys
        require(set(axs) == set(want_keys) and len(axs) == len(want_keys), "other axes than the requested ones were created",
                got=list(axs), want=want_keys)
        require(list(axs) == list(want_keys) and [id(a) for a in fig.axes] == [id(a) for a in axs.values()],
                "the axes are not in the requested order", got=list(axs), want=want_keys)
        require(len(fig.axes) == len(want_keys) and set(map(id, fig.axes)) == set(map(id, axs.values())),
                "the figure holds other axes than the returned ones", got=len(fig.axes), want=want_keys)
        require(fig is not other and len(other.axes) == 1 and np.allclose(other.get_size_inches(), (2, 2)),
                "another figure was changed")
        rec.event("requested axes observed")
        sc.check(fig, axs, want_keys, "created", rec)
        require(snap.freeze(root, True) == before, "creating the figure changed the geometry")
        if idx % 3 == 0:
            fig.canvas.draw()
            sc.check(fig, axs, want_keys, "created: drawn", rec)
        # update again and again with other geometry
        for rnd in range(int(rng.integers(1, 4))):
            plot_something(rng, fig, axs)
            guest = fig.add_axes((0.3, 0.3, 0.1, 0.1)) if rnd == 0 and rng.random() < 0.5 else None
            sc2 = Scene(rng, allnames, sc.flags, fig_key)
            root2 = sc2.root(rng)
            r2 = snap.freeze(root2, True)
            some = dict(axs)
            if len(axs) > 1 and rng.random() < 0.3:
                some.pop(pick(rng, list(axs)))
            rest = {k: measure(fig, a) for k, a in axs.items() if k not in some}
            size0 = fig.get_size_inches().copy()
            fig2, axs2 = mu.update_subplots(root2, fig_key, fig, dict(some))
            require(fig2 is fig and set(axs2) == set(some) and all(axs2[k] is some[k] for k in some),
                    "updating returned other objects than the given ones", got=list(axs2))
            sc2.check(fig, axs, list(some), "updated", rec)
            require(snap.freeze(root2, True) == r2, "updating the figure changed the geometry")
            if rng.random() < 0.5:
                sc2 = sc2.nudged(rng)
                root2 = sc2.root(rng)
                r2 = snap.freeze(root2, True)
                mu.update_subplots(root2, fig_key, fig, dict(some))
                sc2.check(fig, axs, list(some), "updated a little", rec)
                require(snap.freeze(root2, True) == r2, "updating the figure changed the geometry")
                rec.event("small update followed")
            for k, m in rest.items():
                got = measure(fig, axs[k])
                require(np.allclose(got["frame"] / np.tile(fig.get_size_inches(), 2), m["frame"] / np.tile(size0, 2), atol=1e-12) and
                        got["Xticks"] == m["Xticks"] and got["Yticks"] == m["Yticks"], "updating moved axes it was not given", axes=k)
                rec.event("other axes untouched")
            if guest is not None:
                require(np.allclose(guest.get_position().bounds, (0.3, 0.3, 0.1, 0.1)), "updating moved axes it was not given")
                rec.event("other axes untouched")
                guest.remove()
            # the same placement as creating anew
            fresh_fig, fresh = mu.subplots(root2, fig_key, list(some))
            for k in some:
                a, b = measure(fig, some[k]), measure(fresh_fig, fresh[k])
                for q in a:
                    if q == "frame" or q[1:] in ("label", "ticks") and sc2.flags[k][q[0]]:
                        same = a[q] == b[q] if isinstance(a[q], str) else np.allclose(a[q], b[q], rtol=0, atol=1e-8)
                        require(same, "updating and creating anew give different placements", axes=k, what=q, got=a[q], want=b[q])
                rec.event("same as creating anew")
            if idx % 3 == 0 and rnd == 0:
                fig.canvas.draw()
                sc2.check(fig, axs, list(some), "updated: drawn", rec)
                for k in some:
                    drawn_sides(rec, sc2, fig, k, some[k])
            plt.close(fresh_fig)
    rec.sample(f"{fig_key}, axes {sc.flags}, origin {sc.o}, size {sc.size}, requested {keys}")


def drawn_sides(rec, sc, fig, k, ax):
    """The drawn tick labels are outside the frame on the wanted side only."""
    r = fig.canvas.get_renderer()
    f = ax.get_window_extent(r)
    for a, axis in (("X", ax.xaxis), ("Y", ax.yaxis)):
        if a + "ticks" not in sc.want[k]:
            continue
        side = sc.want[k][a + "ticks"]
        for t in axis.get_major_ticks():
            for lab in (t.label1, t.label2):
                if lab.get_visible() and lab.get_text():
                    b = lab.get_window_extent(r)
                    ok = {"bottom": b.y1 <= f.y0 + 1, "top": b.y0 >= f.y1 - 1, "left": b.x1 <= f.x0 + 1,
                          "right": b.x0 >= f.x1 - 1}[side]
                    require(ok, "a drawn tick label is not on the side of the axis box", axes=k, side=side, label=lab.get_text())
                    rec.event("drawn tick label observed")


def detached(rng, rec, idx):
    """An axis box which touches no side of its frame is reported by a warning, and only such a one; the frame is placed all the same."""
    sc = Scene(rng, ["Axes"], {"Axes": {"X": True, "Y": True, "TX": False, "TY": False}}, "Figure")
    parts, want = sc.parts["Axes"], sc.want["Axes"]
    moved = []
    for a, sides in (("X", ("bottom", "top")), ("Y", ("left", "right"))):
        if rng.random() < 0.5:
            side = want[a + "ticks"]
            k = 0 if a == "Y" else 1
            d = np.zeros(2)
            one_end = rng.random() < 0.4
            d[k] = (1 if side in ("top", "right") else -1) * 10.0 ** rng.uniform(-3, 0) * pick(rng, (1, 1, -1))
            if rng.random() < 0.3 or one_end:      # shifted along the side, or too short or long at one end
                d = np.roll(d, 1)
            # so little that the other sides stay farther away
            d = np.sign(d) * np.minimum(np.abs(d), 0.2 * min(want["frame"][2:] - want["frame"][:2]))
            box = np.array([np.asarray(v, dtype=float) for v in parts[f"{a}Axis"]])
            if one_end:
                far = box[:, 1 - k] > box[:, 1 - k].mean()
                moves = far if rng.random() < 0.5 else ~far
                rec.event("axis box with one matching corner")
            else:
                moves = np.ones(4, dtype=bool)
            parts[f"{a}Axis"] = list(box + d * moves[:, None])
            moved.append(a)
            del want[a + "ticks"]
    root = sc.root(rng, extra=False)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        fig, axs = mu.subplots(root, "Figure", ["Axes"])
        n = sum(issubclass(w.category, UserWarning) and not issubclass(w.category, DeprecationWarning) for w in seen)
    require(n == len(moved), "warnings do not match the axis boxes which touch no side of the frame", warnings=n, moved=moved,
            seen=[str(w.message) for w in seen])
    W, H = fig.get_size_inches()
    got = measure(fig, axs["Axes"])
    S = max(1.0, np.max(np.abs(sc.o)), *sc.size)
    require(np.allclose((W, H), sc.size, rtol=0, atol=TOL * 50) and np.allclose(got["frame"], want["frame"], rtol=0, atol=TOL * S),
            "axes do not occupy their frame", got=got["frame"], want=want["frame"])
    for a in "XY":
        if a + "ticks" in want:
            require(got[a + "ticks"] == want[a + "ticks"], f"{a} ticks are on the wrong side", got=got, want=want)
    plt.close(fig)
    rec.event("detached axis box noticed", len(moved))
    rec.event("attached axis box", 2 - len(moved))
    rec.state("detached", tuple(moved))


GROUPS = {
    "detached": dict(fn=detached, quick=60, thorough=2000),
    "figures": dict(fn=figures, quick=220, thorough=6000),
}
