"""Independent geometric reference, numpy only, written from the documentation.

Geometry is plain arrays: point (2,), line (2,2) [start, end], quadrilateral (4,2) [vertices; edge i runs from
vertex i to vertex i+1: bottom, right, top, left], axes dict {part name: array}.
Nothing in this module imports the package under test.
"""
import math

import numpy as np

SIDES = ("bottom", "top", "left", "right")
OPPOSITE = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def vec(line):
    return line[1] - line[0]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def norm(a):
    return math.hypot(a[0], a[1])


def edge(quad, i):
    return np.array([quad[i % 4], quad[(i + 1) % 4]])


def edge_by_name(quad, side):
    return edge(quad, {"bottom": 0, "right": 1, "top": 2, "left": 3}[side])


# boxes (axis aligned quadrilaterals)
def left(q):
    return (q[0][0] + q[3][0]) / 2


def right(q):
    return (q[1][0] + q[2][0]) / 2


def bottom(q):
    return (q[0][1] + q[1][1]) / 2


def top(q):
    return (q[2][1] + q[3][1]) / 2


def width(q):
    return right(q) - left(q)


def height(q):
    return top(q) - bottom(q)


def box(x0, y0, x1, y1):
    return np.array([[x0, y0], [x1, y0], [x1, y1], [x0, y1]], dtype=float)


def outer_margin(a, b, side):
    return {"left": lambda: left(a) - right(b), "right": lambda: left(b) - right(a),
            "bottom": lambda: bottom(a) - top(b), "top": lambda: bottom(b) - top(a)}[side]()


def inner_margin(a, b, side):
    return {"left": lambda: left(a) - left(b), "right": lambda: right(b) - right(a),
            "bottom": lambda: bottom(a) - bottom(b), "top": lambda: top(b) - top(a)}[side]()


def signed_angle(l0, l1):
    a, b = vec(l0), vec(l1)
    return math.atan2(cross(a, b), dot(a, b))


def point_on_line(p, l, reverse):
    u = vec(l) / norm(vec(l))
    if reverse:
        return dot(p - l[1], -u)
    return dot(p - l[0], u)


def point_to_line(p, l, reverse):
    u = vec(l) / norm(vec(l))
    n = np.array([-u[1], u[0]])          # counter-clockwise
    if reverse:
        n = -n
    return dot(p - l[0], n)


def relative_point_on_line(p, l, reverse):
    return point_on_line(p, l, reverse) / norm(vec(l))


def collinear_err(l0, l1):
    """Distances of the second line's end points from the infinite first line."""
    u = vec(l0) / norm(vec(l0))
    return [cross(u, l1[0] - l0[0]), cross(u, l1[1] - l0[0])]


def coincident_lines_err(l0, l1, reverse):
    a, b = (l1[1], l1[0]) if reverse else (l1[0], l1[1])
    return list(l0[0] - a) + list(l0[1] - b)


def outward_faces_err(a, b, side):
    """Named face of `a` back to back with the opposite face of `b` (same corners)."""
    pairs = {"bottom": ((0, 3), (1, 2)), "top": ((3, 0), (2, 1)),
             "left": ((0, 1), (3, 2)), "right": ((1, 0), (2, 3))}[side]
    out = []
    for i, j in pairs:
        out += list(a[i] - b[j])
    return out


def rectilinear_grid_err(quads, shape):
    r, c = shape
    g = [[quads[i * c + j] for j in range(c)] for i in range(r)]
    out = []
    for i in range(r):
        for j in range(1, c):
            out += [bottom(g[i][j]) - bottom(g[i][0]), top(g[i][j]) - top(g[i][0])]
    for j in range(c):
        for i in range(1, r):
            out += [left(g[i][j]) - left(g[0][j]), right(g[i][j]) - right(g[0][j])]
    return out


def grid_err(quads, shape, cw, rh, cm, rm):
    r, c = shape
    g = [[quads[i * c + j] for j in range(c)] for i in range(r)]
    out = rectilinear_grid_err(quads, shape)
    for j in range(1, c):
        out.append(width(g[0][j]) - cw[j - 1] * width(g[0][0]))
    for i in range(1, r):
        out.append(height(g[i][0]) - rh[i - 1] * height(g[0][0]))
    for j in range(c - 1):
        out.append(left(g[0][j + 1]) - right(g[0][j]) - cm[j])
    for i in range(r - 1):
        out.append(bottom(g[i][0]) - top(g[i + 1][0]) - rm[i])
    return out


def make_grid(x0, ytop, widths, heights, colgaps, rowgaps):
    """Boxes of a grid, row major, rows from the top."""
    out = []
    y = ytop
    for i, h in enumerate(heights):
        x = x0
        for j, w in enumerate(widths):
            out.append(box(x, y - h, x + w, y))
            x += w + (colgaps[j] if j < len(colgaps) else 0)
        y -= h + (rowgaps[i] if i < len(rowgaps) else 0)
    return out
