"""Deep snapshots of layouts and trees (for before/after comparison)."""
import numpy as np

from mpllayout.containers import Node


def freeze(x, ids=False):
    """A comparable deep copy.  With `ids`, the identity of nodes and arrays is part of it."""
    if isinstance(x, Node):
        body = ("node", type(x).__name__, freeze(x.value, ids),
                tuple((k, freeze(c, ids)) for k, c in x.children.items()))
        return body + ((id(x), id(x.value)),) if ids else body
    if isinstance(x, np.ndarray):
        return ("ndarray", str(x.dtype), x.shape, x.tobytes())
    if hasattr(x, "__jax_array__") or type(x).__module__.startswith("jax"):
        a = np.asarray(x)
        return ("jax", str(a.dtype), a.shape, a.tobytes())
    if isinstance(x, tuple):
        return ("tuple", type(x).__name__) + tuple(freeze(v, ids) for v in x)
    if isinstance(x, list):
        return ("list",) + tuple(freeze(v, ids) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((freeze(k), freeze(v, ids)) for k, v in x.items())
    if x is None or isinstance(x, (bool, int, float, str, bytes, np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, type):
        return ("type", x.__module__, x.__qualname__)
    return ("obj", type(x).__name__, id(x))


def layout(L, ids=True):
    counter = L._constraint_counter if hasattr(L, "_constraint_counter") else None
    return {
        "prims": freeze(L.root_prim, ids),
        "constraints": freeze(L.root_constraint, ids),
        "prim_keys": freeze(L.root_prim_keys, ids),
        "params": freeze(L.root_param, ids),
    }


def alias_pattern(root):
    """Which nodes share their value array: for every node in order the position of the first node with the same array."""
    seen, out = {}, []
    for i, (_, n) in enumerate(walk(root)):
        out.append(seen.setdefault(id(n.value), i) if np.size(n.value) else None)
    return out


def diff(a, b, path=""):
    """A short description of the first difference."""
    if type(a) is not type(b):
        return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"
    if isinstance(a, dict):
        for k in a:
            if k not in b or a[k] != b[k]:
                return diff(a[k], b.get(k), f"{path}/{k}")
        return None if a == b else f"{path}: keys"
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} -> {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            if u != v:
                return diff(u, v, f"{path}.{i}")
        return None
    return None if a == b else f"{path}: {str(a)[:120]} -> {str(b)[:120]}"


def skeleton(node, types=True):
    """Kinds, keys, order, nesting and parameter sizes of a tree."""
    return ((type(node).__name__ if types else None), np.shape(node.value),
            tuple((k, skeleton(c, types)) for k, c in node.children.items()))


def walk(node, key=""):
    yield key, node
    for k, c in node.children.items():
        yield from walk(c, f"{key}/{k}" if key else k)
