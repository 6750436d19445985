"""C20: declare, solve, create: the declared inches are the ones of the matplotlib figure, also after value changes."""
import io
import json
import os
import re
import tempfile
import warnings

import matplotlib as mpl
import numpy as np
from matplotlib import pyplot as plt

from mpllayout import layout as lay
from mpllayout import matplotlibutils as mu
from mpllayout import solver

from vlib import figure, ref, snap
from vlib.common import Skip, pick, require

from .c15 import RC, placement

REPO = os.environ.get("VERIF_REPO", "/repo")


def solve(L, tp, e, what):
    kw = {}
    root, info = solver.solve(L, **kw)
    if tp.aspect or info["abs_errs"][-1] > 1e-9 * max(1.0, np.max(e["size"])):
        # relative lengths and aspect ratios are nonlinear
        root, info = solver.solve(L, max_iter=60, abs_tol=1e-11, rel_tol=1e-13)
    require(info["abs_errs"][-1] < 1e-7, f"{what}: the declared figure was not solved", errors=info["abs_errs"], template=tp.describe())
    return root


def declared(fig, axs, tp, k, e, what):
    """The numbers the user declared, measured one by one on the figure (inches)."""
    W, H = fig.get_size_inches()
    F = {}
    for i, name in enumerate(tp.names):
        b = axs[name].get_window_extent()
        F[i] = np.array([b.x0, b.y0, b.x1, b.y1]) / fig.dpi
    r, c = tp.shape
    tol = 5e-6
    wid, hei = (lambda i: F[i][2] - F[i][0]), (lambda i: F[i][3] - F[i][1])
    t = {key: k["t"][key] for key in tp.fed}

    def eq(name, got, want):
        require(abs(got - want) <= tol * max(1, abs(want)), f"{what}: {name} is not the declared one", got=got, want=want, template=tp.describe())

    stick = lambda w, side, second=False: tp._protrusion(
        tp._axes_in(w) if isinstance(w, str) else tp._axes_in(w)[second], side, tp.mref[w][2 if second else 1], t, k["tt"])[1]
    for i in range(r * c):
        row, col = divmod(i, c)
        eq("relative width", wid(i) / wid(0), k["rw"][col])
        eq("relative height", hei(i) / hei(0), k["rh"][row])
        eq("left alignment in a column", F[i][0], F[col][0])
        eq("right alignment in a column", F[i][2], F[col][2])
        eq("bottom alignment in a row", F[i][1], F[row * c][1])
        eq("top alignment in a row", F[i][3], F[row * c][3])
    a = tp._axes_in
    eq("left margin", F[a("L")][0] - stick("L", "left"), k["L"])
    eq("right margin", W - F[a("R")][2] - stick("R", "right"), k["R"])
    eq("bottom margin", F[a("B")][1] - stick("B", "bottom"), k["B"])
    eq("top margin", H - F[a("T")][3] - stick("T", "top"), k["T"])
    for j in range(c - 1):
        p, q = a(("x", j))
        gap = F[q][0] - F[p][2]
        eq("column gap", gap if tp.gridded else gap - stick(("x", j), "right") - stick(("x", j), "left", True), k["gx"][j])
    for i in range(r - 1):
        p, q = a(("y", i))
        gap = F[p][1] - F[q][3]
        eq("row gap", gap if tp.gridded else gap - stick(("y", i), "bottom") - stick(("y", i), "top", True), k["gy"][i])
    eq("figure width" if tp.given_x == "total" else "axes width", W if tp.given_x == "total" else wid(0),
       k["Wtotal"] if tp.given_x == "total" else k["w"])
    if tp.given_y == "aspect":
        eq("aspect ratio", wid(0) / hei(0), k["aspect"])
    else:
        eq("figure height" if tp.given_y == "total" else "axes height", H if tp.given_y == "total" else hei(0),
           k["Htotal"] if tp.given_y == "total" else k["h"])


def pixels(rec, fig, axs, tp, e, what):
    """The same on the picture as saved: each axes is painted in its own colour."""
    W, H = e["size"]
    dpi = 60
    if W * H > 400 or any(np.any(np.array(d["frame"]) < 0) or d["frame"][2] > W or d["frame"][3] > H for d in e["axes"]):
        return
    saved = [(ax.get_facecolor(), [s.get_visible() for s in ax.spines.values()]) for ax in axs.values()]
    shades = {}
    for i, name in enumerate(tp.names):
        ax = axs[name]
        shades[name] = (50 + 15 * i, 200 - 15 * i, 7)
        ax.set_facecolor(tuple(v / 255 for v in shades[name]))
        ax.set_axisbelow(True)
        for art in list(ax.spines.values()) + [ax.xaxis, ax.yaxis] + ax.lines + ax.texts:
            art.set_visible(False)
    buf = io.BytesIO()
    fig.savefig(buf, format="png", dpi=dpi)
    buf.seek(0)
    im = (plt.imread(buf)[..., :3] * 255).round().astype(int)
    require(abs(im.shape[1] - W * dpi) <= 1.01 and abs(im.shape[0] - H * dpi) <= 1.01, f"{what}: size of the saved picture", got=im.shape,
            want=(H * dpi, W * dpi))
    for i, name in enumerate(tp.names):
        ys, xs = np.nonzero(np.all(im == shades[name], axis=-1))
        f = e["axes"][i]["frame"] * dpi
        require(xs.size > 0, f"{what}: axes are not painted", axes=name)
        got = np.array([xs.min(), im.shape[0] - 1 - ys.max(), xs.max() + 1, im.shape[0] - ys.min()])
        require(np.all(np.abs(got - f) <= 2.1), f"{what}: painted axes are not the declared rectangle", axes=name, got=got, want=f)
        require(xs.size >= 0.97 * (f[2] - f[0] - 3) * (f[3] - f[1] - 3), f"{what}: axes are covered by others", axes=name)
        rec.event("painted axes compared")
    for i, name in enumerate(tp.names):
        ax = axs[name]
        ax.set_facecolor("white")
        for art in list(ax.spines.values()) + [ax.xaxis, ax.yaxis] + ax.lines + ax.texts:
            art.set_visible(True)


def templates(rng, rec, idx):
    tp = figure.Template(rng, thickness="number", nonlinear=rng.random() < 0.5)
    with mpl.rc_context(pick(rng, RC)), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig = axs = None
        kept = None
        for step in range(int(rng.integers(2, 4))):
            k = tp.complete(tp.numbers(rng))
            if step and rng.random() < 0.5:
                # change a single number
                one = pick(rng, "LRBT")
                k = {q: (v.copy() if isinstance(v, (dict, np.ndarray)) else v) for q, v in kept.items()}
                d = float(rng.uniform(0.05, 0.4) if rng.random() < 0.5 else 10.0 ** rng.uniform(-3.7, -2))
                k[one] = float(k[one] + d)
                if tp.given_x == "total" and one in "LR":
                    k["Wtotal"] += d
                if tp.given_y == "total" and one in "BT":
                    k["Htotal"] += d
            kept = k
            e = tp.expected(k)
            if min(e["widths"].min(), e["heights"].min()) < 0.15 or max(e["size"]) > 40:
                raise Skip("sizes are not positive")
            L = tp.build(rng, k, tp.start(rng))
            before = snap.layout(L)
            what = f"figure {step + 1}"
            root = solve(L, tp, e, what)
            require(snap.layout(L) == before, "solving changed the layout")
            if step == 0 or rng.random() < 0.15:
                if fig is not None:
                    plt.close(fig)
                top = [q for q in root.keys() if "Axes" in q]
                fig, axs = mu.subplots(root, tp.fig_key, tp.names) if tp.group or tp.fig_key != "Figure" or rng.random() < 0.5 else mu.subplots(root)
                if not tp.group:
                    require(set(axs) == set(top), f"{what}: keys of the created axes", got=list(axs), want=top)
                require(len(fig.axes) == len(axs), f"{what}: number of axes in the figure")
                for n, ax in axs.items():
                    ax.plot([0, 1], rng.uniform(size=2))
                    if rng.random() < 0.5:
                        ax.xaxis.set_label_text("x label"), ax.yaxis.set_label_text("y\nlabel")
                    if rng.random() < 0.3:
                        ax.set_xlim(0, 10.0 ** rng.uniform(-3, 6))
                rec.event("figure created")
            else:
                ids, content = {n: id(a) for n, a in axs.items()}, [len(a.lines) for a in axs.values()]
                lims = [(a.get_xlim(), a.get_ylim(), a.get_xlabel()) for a in axs.values()]
                fig2, axs2 = mu.update_subplots(root, tp.fig_key, fig, axs)
                require(fig2 is fig and {n: id(a) for n, a in axs2.items()} == ids and len(fig.axes) == len(axs),
                        f"{what}: updating replaced the figure or axes")
                require([len(a.lines) for a in axs.values()] == content and
                        [(a.get_xlim(), a.get_ylim(), a.get_xlabel()) for a in axs.values()] == lims, f"{what}: updating changed the plots")
                rec.event("figure updated in place")
            placement(fig, axs, tp, k, e, what)
            declared(fig, axs, tp, k, e, what)
            rec.event("figure compared")
            rec.event("axes compared", len(axs))
            for i in range(len(tp.names)):
                for a in "XY":
                    if tp.flags[i][a]:
                        rec.event("tick side and label compared")
            if rng.random() < 0.5:
                pixels(rec, fig, axs, tp, e, what)
                placement(fig, axs, tp, k, e, what + " after drawing")
            rec.state("template", tp.shape, tp.gridded, tp.given_x, tp.given_y, tp.group is None, step > 0,
                      tuple(sorted(set(s[a] for s, f in zip(tp.side, tp.flags) for a in "XY" if f[a]))))
    rec.sample(f"{tp.describe()}: size {np.round(e['size'], 4).tolist()}")


# ---- the example notebooks

def source(name):
    with open(os.path.join(REPO, "examples", name)) as f:
        nb = json.load(f)
    cells = ["".join(c["source"]) for c in nb["cells"] if c["cell_type"] == "code"]
    return "\n".join(ln for c in cells for ln in c.split("\n") if not ln.lstrip().startswith("%"))


def readme_source():
    with open(os.path.join(REPO, "README.md")) as f:
        text = f.read()
    blocks = re.findall(r"```python\n(.*?)```", text, re.S)
    out = "\n".join(blocks[:-1]) + "\nsolved_prims, *_ = solver.solve(layout)\n" + blocks[-1]
    return out


def override(src, name, text):
    """Replace the (first) assignment to a variable of the notebook."""
    new, n = re.subn(rf"(?m)^{re.escape(name)} = .*$", f"{name} = {text}", src)
    return (new, n > 0)


class Fig:
    def __init__(self, ax):
        self.fig = ax.figure
        self.W, self.H = self.fig.get_size_inches()

    def box(self, ax):
        b = ax.get_position(original=True)
        return np.array([b.x0 * self.W, b.y0 * self.H, b.x1 * self.W, b.y1 * self.H])


def nb_readme(rng, rec, src=None):
    src = src or source("README_example.ipynb")
    ns = run(src)
    ax = ns["axs"]["MyAxes"]
    F = Fig(ax)
    b = F.box(ax)
    return [("size", [F.W, F.H], [5, 4]), ("left", b[0], 2.0), ("right", F.W - b[2], 0.5), ("bottom", b[1], 0.5), ("top", F.H - b[3], 0.5)]


def nb_readme_text(rng, rec):
    return nb_readme(rng, rec, readme_source())


def nb_one(rng, rec):
    src = source("one_axes.ipynb")
    v = {m: round(float(rng.uniform(0.2, 1.2)), 3) for m in ("margin_left", "margin_right", "margin_top", "margin_bottom")}
    ns, v = vary(rec, src, {**v, "fig_width, fig_height": (round(float(rng.uniform(4, 9)), 2), round(float(rng.uniform(3, 7)), 2))})
    ax = ns["axs"]["Axes"]
    F = Fig(ax)
    b = F.box(ax)
    return [("size", [F.W, F.H], [ns["fig_width"], ns["fig_height"]]), ("left", b[0], ns["margin_left"]), ("right", F.W - b[2], ns["margin_right"]),
            ("bottom", b[1], ns["margin_bottom"]), ("top", F.H - b[3], ns["margin_top"]),
            ("by hand", F.box(ax), Fig(ns["ax"]).box(ns["ax"]))]


def nb_two(rng, rec):
    src = source("two_axes.ipynb")
    v = {m: round(float(rng.uniform(0.2, 1.0)), 3) for m in ("margin_left", "margin_right", "margin_top", "margin_bottom", "margin_inter")}
    ns, v = vary(rec, src, {**v, "width": round(float(rng.uniform(1, 3)), 2), "fig_width, fig_height": (round(float(rng.uniform(6, 9)), 2), 3)})
    A, B = ns["axs"]["AxesLeft"], ns["axs"]["AxesRight"]
    F = Fig(A)
    a, b = F.box(A), F.box(B)
    return [("size", [F.W, F.H], [ns["fig_width"], ns["fig_height"]]), ("left", a[0], ns["margin_left"]), ("right", F.W - b[2], ns["margin_right"]),
            ("between", b[0] - a[2], ns["margin_inter"]), ("bottom", [a[1], b[1]], [ns["margin_bottom"]] * 2),
            ("top", [F.H - a[3], F.H - b[3]], [ns["margin_top"]] * 2), ("width", a[2] - a[0], ns["width"])]


def nb_grid(rng, rec):
    src = source("grid_axes.ipynb")
    shape = pick(rng, ((3, 4), (2, 2), (1, 3), (3, 1)))
    v = {m: round(float(rng.uniform(0.1, 0.5)), 3) for m in ("margin_left", "margin_right", "margin_top", "margin_bottom", "margin_inner")}
    ns, v = vary(rec, src, {**v, "num_row, num_col": shape, "fig_width": round(float(rng.uniform(4, 8)), 2)})
    R, C = ns["num_row"], ns["num_col"]
    axs = ns["axs"]
    F = Fig(axs["Axes[0, 0]"])
    m = ns["margin_inner"]
    side = (ns["fig_width"] - ns["margin_left"] - ns["margin_right"] - (C - 1) * m) / C
    H = ns["margin_top"] + ns["margin_bottom"] + R * side + (R - 1) * m
    out = [("size", [F.W, F.H], [ns["fig_width"], H]), ("number of axes", len(axs), R * C)]
    for i in range(R):
        for j in range(C):
            x, y = ns["margin_left"] + j * (side + m), H - ns["margin_top"] - i * (side + m) - side
            out.append((f"axes {i} {j}", F.box(axs[f"Axes[{i}, {j}]"]), [x, y, x + side, y + side]))
    return out


def nb_contour(rng, rec):
    ns = run(source("contour_colorbar.ipynb"))
    A, B = ns["axs"]["AxesContour"], ns["axs"]["AxesColorbar"]
    F = Fig(A)
    a, b = F.box(A), F.box(B)
    w = 5 - 6 / 8 - 1 / 8
    return [("width", F.W, 5), ("height", F.H, 6 / 8 + w / 2 + 1 / 16 + 1 / 8 + 1 / 2), ("contour", a, [6 / 8, 6 / 8, 5 - 1 / 8, 6 / 8 + w / 2]),
            ("colorbar", b, [6 / 8, 6 / 8 + w / 2 + 1 / 16, 5 - 1 / 8, 6 / 8 + w / 2 + 3 / 16])]


def nb_tutorial(rng, rec):
    src = source("tutorial.ipynb")
    v = {m: round(float(rng.uniform(0.1, 0.4)), 3) for m in ("margin_left", "margin_right", "margin_top", "margin_bottom", "pad")}
    ns, v = vary(rec, src, {**v, "fig_width, fig_height": (round(float(rng.uniform(5, 8)), 2), round(float(rng.uniform(3, 5)), 2))})
    ax = ns["axs"]["Axes"]
    F = Fig(ax)
    b = F.box(ax)
    tx, ty = figure.tick_extent(F.fig, ax.xaxis), figure.tick_extent(F.fig, ax.yaxis)
    at = lambda axis: np.asarray(axis.label.get_transform().transform(axis.label.get_position())) / F.fig.dpi
    return [("size", [F.W, F.H], [ns["fig_width"], ns["fig_height"]]), ("left", b[0], ns["margin_left"]), ("bottom", b[1], ns["margin_bottom"]),
            ("right of the y axis", F.W - b[2] - ty, ns["margin_right"], 0.03), ("above the x axis", F.H - b[3] - tx, ns["margin_top"], 0.03),
            ("x label", at(ax.xaxis), [(b[0] + b[2]) / 2, b[3] + tx + ns["pad"]], 0.03),
            ("y label", at(ax.yaxis), [b[2] + ty + ns["pad"], (b[1] + b[3]) / 2], 0.03),
            ("tick sides", [ax.xaxis.get_ticks_position() == "top", ax.yaxis.get_ticks_position() == "right"], [1, 1])]


def nb_ten(rng, rec):
    src = source("ten_simple_rules_demo.ipynb")
    v = {"margin_top, margin_bottom": (round(float(rng.uniform(0.2, 0.8)), 3), round(float(rng.uniform(0.2, 0.8)), 3)),
         "margin_left, margin_right": (round(float(rng.uniform(0.2, 0.8)), 3), round(float(rng.uniform(0.2, 0.8)), 3)),
         "fig_width, fig_height": (round(float(rng.uniform(10, 13)), 2), 7)}
    ns, v = vary(rec, src, v)
    A, M, B = (ns["axs"][k] for k in ("AxesLeft", "AxesMid", "AxesRight"))
    F = Fig(A)
    a, m, b = F.box(A), F.box(M), F.box(B)
    t = figure.tick_extent(F.fig, B.xaxis)
    w = (ns["fig_width"] - ns["margin_left"] - ns["margin_right"]) / 2.5
    top = F.H - ns["margin_top"] - t
    x = ns["margin_left"]
    return [("size", [F.W, F.H], [ns["fig_width"], ns["fig_height"]]),
            ("left axes", a[[0, 1, 2]], [x, ns["margin_bottom"], x + w]), ("middle axes", m[[0, 1, 2]], [x + w, ns["margin_bottom"], x + 1.5 * w]),
            ("right axes", b[[0, 1, 2]], [x + 1.5 * w, ns["margin_bottom"], x + 2.5 * w]),
            ("tops", [a[3], m[3], b[3]], [top] * 3, 0.03), ("aligned tops", [a[3], m[3]], [b[3], b[3]]),
            ("tick sides", [A.xaxis.get_ticks_position() == "top", A.yaxis.get_ticks_position() == "right",
                            B.xaxis.get_ticks_position() == "top", B.yaxis.get_ticks_position() == "left"], [1] * 4)]


def vary(rec, src, values):
    for name, v in values.items():
        src, found = override(src, name, repr(v))
        rec.event("notebook number varied" if found else "notebook number not found")
    return run(src), values


def run(src):
    """Execute a notebook's code in a scratch directory."""
    ns = {"__name__": "notebook"}
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with mpl.rc_context({"svg.hashsalt": "x"}), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                import contextlib
                with contextlib.redirect_stdout(io.StringIO()):
                    exec(compile(src, "notebook", "exec"), ns)
        finally:
            os.chdir(cwd)
    return ns


NOTEBOOKS = {"ten_simple_rules_demo": nb_ten, "grid_axes": nb_grid, "contour_colorbar": nb_contour, "tutorial": nb_tutorial, "two_axes": nb_two,
             "one_axes": nb_one, "README_example": nb_readme, "README": nb_readme_text}


def notebooks(rng, rec, idx):
    name = list(NOTEBOOKS)[idx % len(NOTEBOOKS)]
    try:
        out = NOTEBOOKS[name](rng, rec)
    finally:
        plt.close("all")
    for q in out:
        what, got, want = q[:3]
        tol = q[3] if len(q) > 3 else 1e-5
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        require(got.shape == want.shape and np.all(np.abs(got - want) <= tol), f"{name}: {what} is not the declared one", got=got, want=want)
        rec.event("notebook measurement compared")
    rec.event("notebook run")
    rec.state("notebook", name)
    rec.sample(f"{name}: {[(q[0], np.round(np.asarray(q[1], dtype=float), 3).tolist()) for q in out][:6]}")


GROUPS = {
    "notebooks": dict(fn=notebooks, quick=8, thorough=160),
    "templates": dict(fn=templates, quick=36, thorough=2500),
}
