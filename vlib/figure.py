"""Figure templates: declared numbers -> layout under test, and the expected placement in closed form."""
import numpy as np

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr

from . import geo, ref
from .common import pick, unique_names

SIDE_X, SIDE_Y = ("bottom", "top"), ("left", "right")


class Template:
    """The structure of a figure: an r x c arrangement of axes with optional axis boxes and labels.

    Numbers (inches): `w`, `h` first frame sizes or total `W`, `H`; relative sizes; gaps between chosen boxes; outer margins;
    axis thicknesses; label fractions and offsets.
    """

    def __init__(self, rng, shape=None, thickness="number", labels=True, nonlinear=True, nest=0.15):
        self.shape = shape or pick(rng, ((1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3)))
        r, c = self.shape
        n = r * c
        names = [f"Axes{u}" for u in unique_names(rng, n)]
        self.group = None
        if rng.random() < nest:
            self.group = "Panels"
            names = [f"Panels/{k}" for k in names]
        self.names = names
        self.fig_key = pick(rng, ("Figure", "Figure", "Page"))
        self.flags, self.side = [], []
        for _ in range(n):
            x, y = rng.random() < 0.75, rng.random() < 0.75
            self.flags.append({"X": x, "Y": y, "TX": x and rng.random() < 0.25, "TY": y and rng.random() < 0.25})
            self.side.append({"X": pick(rng, SIDE_X), "Y": pick(rng, SIDE_Y)})
        self.thickness = thickness              # 'number', 'feedback' or 'mixed'
        self.fed = {}                           # (axes index, 'X'/'Y') -> thickness by feedback
        for i in range(n):
            for a in "XY":
                if self.flags[i][a]:
                    self.fed[i, a] = thickness == "feedback" or (thickness == "mixed" and rng.random() < 0.5)
        self.labels = labels
        self.gridded = n > 1 and rng.random() < 0.5
        self.given_x = pick(rng, ("total", "first"))
        self.given_y = pick(rng, ("total", "first"))
        self.aspect = nonlinear and rng.random() < 0.25
        if self.aspect:
            self.given_y = "aspect"
        # which box a margin refers to: the frame or the axis box lying on that side
        self.mref = {}
        for what in ("L", "R", "B", "T") + tuple(("x", j) for j in range(c - 1)) + tuple(("y", i) for i in range(r - 1)):
            self.mref[what] = (int(rng.integers(n)), bool(rng.random() < 0.6), bool(rng.random() < 0.6))
        self.named_keys = rng.random() < 0.3
        self.labstyle = {}
        for i in range(n):
            for a in "XY":
                if self.flags[i][a]:
                    self.labstyle[i, a] = pick(rng, ("box", "frame", "figure", "line") if nonlinear else ("box", "frame", "figure"))
        self.boxstyle = [pick(rng, ("Width", "AspectFree", "Lines")) for _ in range(n)]
        self.order = int(rng.integers(1 << 30))

    # ---- numbers

    def numbers(self, rng):
        r, c = self.shape
        k = {}
        k["origin"] = rng.uniform(-5, 5, 2) if rng.random() < 0.5 else np.zeros(2)
        k["w"], k["h"] = rng.uniform(0.8, 3, 2)
        k["rw"] = np.concatenate([[1.0], np.round(rng.uniform(0.4, 2.5, c - 1), 3)])
        k["rh"] = np.concatenate([[1.0], np.round(rng.uniform(0.4, 2.5, r - 1), 3)])
        if rng.random() < 0.3:
            k["rw"][:], k["rh"][:] = 1.0, 1.0
        k["gx"], k["gy"] = rng.uniform(0.05, 0.8, c - 1), rng.uniform(0.05, 0.8, r - 1)
        for m in "LRBT":
            k[m] = float(pick(rng, (0.0, 0.1, rng.uniform(0.05, 1), rng.uniform(0.05, 1), -0.1)))
        k["t"] = {key: float(rng.uniform(0.1, 0.6)) for key in self.fed}
        k["tt"] = {key: float(rng.uniform(0.1, 0.6)) for key in self.fed}
        k["frac"] = {key: float(pick(rng, (0.5, 0.0, 1.0, rng.uniform(-0.1, 1.1)))) for key in self.fed}
        k["off"] = {key: float(rng.uniform(-0.1, 0.5)) for key in self.fed}
        k["tlab"] = {key: rng.uniform(0, 1, 2) for key in self.fed}
        return k

    def _axes_in(self, what):
        """Index of the representative axes on an outer side, or pair of axes at a gap."""
        r, c = self.shape
        q = self.mref[what][0]
        if what == "L":
            return (q % r) * c
        if what == "R":
            return (q % r) * c + c - 1
        if what == "B":
            return (r - 1) * c + q % c
        if what == "T":
            return q % c
        kind, g = what
        if kind == "x":
            i = q % r
            return i * c + g, i * c + g + 1
        j = q % c
        return g * c + j, (g + 1) * c + j

    def _protrusion(self, i, side, use_box, t, tt):
        """(part name, how far it sticks out of the frame) of the reference box of axes i on a side."""
        a = "X" if side in SIDE_X else "Y"
        if use_box and self.flags[i][a]:
            if self.side[i][a] == side:
                return f"{a}Axis", t[i, a]
            if self.flags[i]["T" + a]:
                return f"Twin{a}Axis", tt[i, a]
        return "Frame", 0.0

    # ---- expected placement (relative to the figure's lower left corner)

    def expected(self, k, fed=None):
        """Everything in inches; `fed` overrides the thicknesses given by feedback."""
        r, c = self.shape
        t = {key: ((fed or {}).get(key, 0.0) if self.fed[key] else k["t"][key]) for key in self.fed}
        tt = k["tt"]
        stick = lambda what, side, second=False: self._protrusion(
            self._axes_in(what) if isinstance(what, str) else self._axes_in(what)[second], side,
            self.mref[what][2 if second else 1], t, tt)
        pre = k["L"] + stick("L", "left")[1]
        post = k["R"] + stick("R", "right")[1]
        gaps = [k["gx"][j] if self.gridded else
                k["gx"][j] + stick(("x", j), "right")[1] + stick(("x", j), "left", True)[1] for j in range(c - 1)]
        # the width declared as a total is the one of the declared numbers without feedback
        widths = k["w"] * k["rw"]
        W = pre + post + sum(gaps) + widths.sum()
        if self.given_x == "total":
            W = k["Wtotal"]
            widths = (W - pre - post - sum(gaps)) / k["rw"].sum() * k["rw"]
        top = k["T"] + stick("T", "top")[1]
        bot = k["B"] + stick("B", "bottom")[1]
        vgaps = [k["gy"][i] if self.gridded else
                 k["gy"][i] + stick(("y", i), "bottom")[1] + stick(("y", i), "top", True)[1] for i in range(r - 1)]
        heights = k["h"] * k["rh"]
        if self.given_y == "aspect":
            heights = widths[0] / k["aspect"] * k["rh"]
        H = top + bot + sum(vgaps) + heights.sum()
        if self.given_y == "total":
            H = k["Htotal"]
            heights = (H - top - bot - sum(vgaps)) / k["rh"].sum() * k["rh"]
        x = [pre + sum(widths[:j]) + sum(gaps[:j]) for j in range(c)]
        y = [H - top - sum(heights[:i + 1]) - sum(vgaps[:i]) for i in range(r)]
        out = {"size": np.array([W, H]), "axes": [], "t": t, "widths": widths, "heights": heights, "gaps": gaps, "vgaps": vgaps}
        for i in range(r):
            for j in range(c):
                n = i * c + j
                f = (x[j], y[i], x[j] + widths[j], y[i] + heights[i])
                d = {"frame": np.array(f)}
                for a in "XY":
                    if self.flags[n][a]:
                        s = self.side[n][a]
                        d[a + "box"] = _box(f, s, t[n, a])
                        d[a + "ticks"] = s
                        if self.flags[n]["T" + a]:
                            d["T" + a + "box"] = _box(f, ref.OPPOSITE[s], tt[n, a])
                        d[a + "label"] = self._label(n, a, f, d[a + "box"], k, (W, H))
                out["axes"].append(d)
        return out

    def _label(self, n, a, f, box, k, size):
        fr, off = k["frac"][n, a], k["off"][n, a]
        s = self.side[n][a]
        style = self.labstyle[n, a]
        if a == "X":
            x = f[0] + fr * (f[2] - f[0])
            if style == "box":              # offset from the outer side of the axis box
                y = box[1] - off if s == "bottom" else box[3] + off
            elif style == "frame":
                y = f[1] + off
            elif style == "line":           # signed distance to the frame's bottom edge (left of it is up)
                y = f[1] + off
            else:
                y = off
            return np.array([x, y])
        y = f[1] + fr * (f[3] - f[1])
        if style == "box":
            x = box[0] - off if s == "left" else box[2] + off
        elif style == "frame":
            x = f[0] + off
        elif style == "line":
            x = f[2] - off                  # the right edge runs upwards, its left is inwards
        else:
            x = off
        return np.array([x, y])

    def complete(self, k):
        """Fill in totals / aspect ratio belonging to the drawn first sizes."""
        keep = self.given_x, self.given_y
        self.given_x, self.given_y = "first", "first"
        e = self.expected(k, fed={key: k["t"][key] for key in self.fed})
        k["Wtotal"], k["Htotal"] = (float(v) for v in e["size"])
        k["aspect"] = float(e["widths"][0] / e["heights"][0])
        self.given_x, self.given_y = keep
        return k

    # ---- the layout under test

    def build(self, rng, k, start="default"):
        r, c = self.shape
        n = r * c
        L = lay.Layout()
        e = self.expected(k)
        o = np.asarray(k["origin"])
        if self.aspect and start == "default":
            start = "near"

        def quad(b):
            if start == "default":
                return pr.Quadrilateral()
            b = np.array(b, dtype=float) + np.tile(o, 2)
            q = ref.box(*b)
            S = max(e["size"])
            if start == "near":
                q = q + rng.uniform(-0.01, 0.01, 2) * S
            else:
                q = q + rng.uniform(-0.4, 0.4, (4, 2)) * S
            return geo.mk_quad(q)

        def point(p):
            return pr.Point() if start == "default" else geo.mk_point(np.asarray(p) + o + rng.normal(size=2) * (
                0.01 if start == "near" else 1.0))

        def axes(i):
            d = e["axes"][i]
            parts = [quad(d["frame"])]
            for t in ("", "T"):
                for a in "XY":
                    if self.flags[i][t + a]:
                        parts += [quad(d[t + a + "box"]), point(d[a + "label"])]
            return pr.Axes(None, tuple(parts), xaxis=self.flags[i]["X"], yaxis=self.flags[i]["Y"], twinx=self.flags[i]["TX"],
                           twiny=self.flags[i]["TY"])

        items = [(self.fig_key, quad((0, 0, *e["size"])))] + [(self.names[i], axes(i)) for i in range(n)]
        order = np.random.default_rng(self.order)
        items = [items[int(j)] for j in order.permutation(len(items))]
        if self.group:
            g = pr.PrimitiveNode.from_tree(np.array([]), {})
            for key, p in items:
                if "/" in key:
                    g.add_child(key.split("/")[1], p)
            items = [(key, p) for key, p in items if "/" not in key] + [(self.group, g)]
        for key, p in items:
            L.add_prim(p, key)

        F = self.fig_key
        cons = []
        add = lambda cons_, keys, params=(): cons.append((cons_, tuple(keys), tuple(params)))
        fr = [f"{a}/Frame" for a in self.names]
        add(cr.Box(), (F,))
        add(cr.Fix(), (f"{F}/Line0/Point0",), (o,))
        for i in range(n):
            add(cr.Box(), (fr[i],))
            for a in "XY":
                if not self.flags[i][a]:
                    continue
                C = cr.PositionXAxis if a == "X" else cr.PositionYAxis
                twin = self.flags[i]["T" + a]
                add(C(side=self.side[i][a], twin=twin), (self.names[i],))
                T = cr.Height if a == "X" else cr.Width
                box = f"{self.names[i]}/{a}Axis"
                add(cr.Box(), (box,))
                if self.fed[i, a]:
                    add(cr.XAxisThickness() if a == "X" else cr.YAxisThickness(), (box,), (None,))
                else:
                    add(T(), (box,), (k["t"][i, a],))
                if twin:
                    tb = f"{self.names[i]}/Twin{a}Axis"
                    add(cr.Box(), (tb,))
                    add(T(), (tb,), (k["tt"][i, a],))
                    add(cr.Fix(), (f"{self.names[i]}/Twin{a}AxisLabel",), (k["tlab"][i, a],))
                self._constrain_label(add, i, a, k)
        stick = lambda what, side, second=False: self._protrusion(
            self._axes_in(what) if isinstance(what, str) else self._axes_in(what)[second], side,
            self.mref[what][2 if second else 1], self._zero(), self._zero())[0]
        for m, side in (("L", "left"), ("R", "right"), ("B", "bottom"), ("T", "top")):
            add(cr.InnerMargin(side=side), (f"{self.names[self._axes_in(m)]}/{stick(m, side)}", F), (k[m],))
        if self.gridded:
            add(cr.Grid(shape=self.shape), fr, (k["rw"][1:], k["rh"][1:], k["gx"], k["gy"]))
        else:
            for i in range(r):
                for j in range(c):
                    if j:
                        add(cr.AlignRow(), (fr[i * c], fr[i * c + j]))
                    if i:
                        add(cr.AlignColumn(), (fr[j], fr[i * c + j]))
            for j in range(1, c):
                if self.given_x == "first":
                    add(cr.Width(), (fr[j],), (float(k["w"] * k["rw"][j]),))
                else:
                    add(cr.RelativeLength(), (f"{fr[j]}/Line0", f"{fr[0]}/Line0"), (float(k["rw"][j]),))
            for i in range(1, r):
                if self.given_y == "first":
                    add(cr.Height(), (fr[i * c],), (float(k["h"] * k["rh"][i]),))
                else:
                    add(cr.RelativeLength(), (f"{fr[i * c]}/Line1", f"{fr[0]}/Line3"), (float(k["rh"][i]),))
            for j in range(c - 1):
                p, q = self._axes_in(("x", j))
                add(cr.OuterMargin(side="right"), (f"{self.names[p]}/{stick(('x', j), 'right')}",
                                                   f"{self.names[q]}/{stick(('x', j), 'left', True)}"), (float(k["gx"][j]),))
            for i in range(r - 1):
                p, q = self._axes_in(("y", i))
                add(cr.OuterMargin(side="bottom"), (f"{self.names[p]}/{stick(('y', i), 'bottom')}",
                                                    f"{self.names[q]}/{stick(('y', i), 'top', True)}"), (float(k["gy"][i]),))
        if self.given_x == "total":
            add(cr.Width(), (F,), (k["Wtotal"],))
        else:
            add(cr.Width(), (fr[0],), (float(k["w"]),))
        if self.given_y == "total":
            add(cr.Height(), (F,), (k["Htotal"],))
        elif self.given_y == "first":
            add(cr.Height(), (fr[0],), (float(k["h"]),))
        else:
            add(cr.AspectRatio(), (fr[0],), (k["aspect"],))
        for j in order.permutation(len(cons)):
            cc, keys, params = cons[int(j)]
            L.add_constraint(cc, keys, params, f"constraint {j}" if self.named_keys else "")
        return L

    def _zero(self):
        return {key: 0.0 for key in self.fed}

    def _constrain_label(self, add, i, a, k):
        name, s, style = self.names[i], self.side[i][a], self.labstyle[i, a]
        lab = f"{name}/{a}AxisLabel"
        off = k["off"][i, a]
        if a == "X":
            add(cr.PositionXAxisLabel(), (name,), (k["frac"][i, a],))
            if style == "box":
                if s == "bottom":
                    add(cr.YDistance(), (lab, f"{name}/XAxis/Line0/Point0"), (off,))
                else:
                    add(cr.YDistance(), (f"{name}/XAxis/Line2/Point1", lab), (off,))
            elif style == "frame":
                add(cr.YDistance(), (f"{name}/Frame/Line0/Point1", lab), (off,))
            elif style == "line":
                add(cr.PointToLineDistance(), (lab, f"{name}/Frame/Line0"), (False, off))
            else:
                add(cr.YDistance(), (f"{self.fig_key}/Line0/Point0", lab), (off,))
        else:
            add(cr.PositionYAxisLabel(), (name,), (k["frac"][i, a],))
            if style == "box":
                if s == "left":
                    add(cr.XDistance(), (lab, f"{name}/YAxis/Line3/Point0"), (off,))
                else:
                    add(cr.XDistance(), (f"{name}/YAxis/Line1/Point1", lab), (off,))
            elif style == "frame":
                add(cr.XDistance(), (f"{name}/Frame/Line3/Point1", lab), (off,))
            elif style == "line":
                add(cr.PointToLineDistance(), (lab, f"{name}/Frame/Line1"), (False, off))
            else:
                add(cr.XDistance(), (f"{self.fig_key}/Line0/Point0", lab), (off,))

    def start(self, rng):
        return "near" if self.aspect else pick(rng, ("default", "default", "near"))

    def describe(self):
        return f"shape {self.shape}, gridded {self.gridded}, given {self.given_x}/{self.given_y}, flags {self.flags}, sides {self.side}"


def _box(f, side, t):
    return {"bottom": np.array([f[0], f[1] - t, f[2], f[1]]), "top": np.array([f[0], f[3], f[2], f[3] + t]),
            "left": np.array([f[0] - t, f[1], f[0], f[3]]), "right": np.array([f[2], f[1], f[2] + t, f[3]])}[side]


def tick_extent(fig, axis):
    """How far the drawn tick labels (with offset text) extend from the frame, in inches, measured by the renderer."""
    fig.canvas.draw()
    r = fig.canvas.get_renderer()
    f = axis.axes.get_window_extent(r)
    side = axis.get_ticks_position()
    ext = {"bottom": lambda b: f.y0 - b.y0, "top": lambda b: b.y1 - f.y1, "left": lambda b: f.x0 - b.x0,
           "right": lambda b: b.x1 - f.x1}[side]
    lo, hi = sorted(axis.get_view_interval())
    eps = 1e-9 * (hi - lo)
    texts = [axis.offsetText]
    for t in axis.get_major_ticks() + axis.get_minor_ticks():
        if lo - eps <= t.get_loc() <= hi + eps:
            texts += [t.label1, t.label2]
    v = [ext(x.get_window_extent(r)) for x in texts if x.get_visible() and x.get_text()]
    return max(v) / fig.dpi if v else 0.0
