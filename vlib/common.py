"""Shared machinery: recorder, violations, number generation, tolerant comparison."""

import hashlib
import json
import zlib

import numpy as np


class Violation(Exception):
    """The property was observed to be broken."""


class Skip(Exception):
    """The generated case is outside the stated class (counted, never silently)."""


def fail(msg, **detail):
    if detail:
        msg = msg + " | " + ", ".join(f"{k}={short(v)}" for k, v in detail.items())
    raise Violation(msg)


def require(cond, msg, **detail):
    if not cond:
        fail(msg, **detail)


def short(v, n=400):
    try:
        if isinstance(v, np.ndarray):
            s = np.array2string(v, precision=17, threshold=40)
        else:
            s = repr(v)
    except Exception as e:  # pragma: no cover
        s = f"<unprintable {type(v).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def expect_raises(exc_types, fn, msg, **detail):
    """`fn()` must raise one of `exc_types` (any exception when None)."""
    try:
        out = fn()
    except Exception as e:
        if exc_types is not None and not isinstance(e, exc_types):
            fail(f"{msg}: raised {type(e).__name__}({e}) instead of {exc_types}", **detail)
        return e
    fail(f"{msg}: accepted silently", result=out, **detail)


class Recorder:
    """What the monitors actually observed during a run (mergeable between processes)."""

    def __init__(self):
        self.events = {}
        self.states = set()
        self.samples = []
        self.skips = {}
        self.cases = 0
        self.maxima = {}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def state(self, *desc):
        """Record a distinct non-trivial situation."""
        h = hashlib.blake2b(repr(desc).encode(), digest_size=8).hexdigest()
        self.states.add(h)

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(short(text, 1200) if not isinstance(text, str) else text[:1200])

    def maximum(self, name, value):
        value = float(value)
        if value == value:
            self.maxima[name] = max(self.maxima.get(name, -np.inf), value)

    def dump(self):
        return {
            "events": self.events, "states": sorted(self.states), "samples": self.samples,
            "skips": self.skips, "cases": self.cases, "maxima": self.maxima,
        }

    def merge(self, d):
        for k, v in d["events"].items():
            self.event(k, v)
        self.states.update(d["states"])
        for k, v in d["skips"].items():
            self.skips[k] = self.skips.get(k, 0) + v
        for k, v in d["maxima"].items():
            self.maximum(k, v)
        for s in d["samples"]:
            if len(self.samples) < 4:
                self.samples.append(s)
        self.cases += d["cases"]


def case_rng(prop, seed, group, idx):
    return np.random.default_rng([int(seed), zlib.crc32(prop.encode()), zlib.crc32(group.encode()), int(idx)])


# -- comparison ---------------------------------------------------------------------------------

def arr(x):
    return np.asarray(x, dtype=float)


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def scale_of(*arrays):
    s = 0.0
    for a in arrays:
        a = np.asarray(a, dtype=float)
        if a.size:
            s = max(s, float(np.max(np.abs(a))))
    return s


# -- random numbers -----------------------------------------------------------------------------

def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def sgn(rng):
    return 1.0 if rng.random() < 0.5 else -1.0


SCALES = (1e-3, 1e-2, 0.1, 1.0, 1.0, 1.0, 5.0, 30.0, 1e3, 1e4)


def coord_sampler(rng):
    """A random style of coordinates: scale, offset, integer or not, sometimes exact zeros."""
    scale = pick(rng, SCALES)
    style = pick(rng, ("uniform", "uniform", "normal", "int", "zeros", "offset", "unit"))

    def sample(shape=()):
        if style == "uniform":
            x = rng.uniform(-1, 1, shape)
        elif style == "normal":
            x = rng.normal(size=shape)
        elif style == "int":
            x = rng.integers(-6, 7, shape).astype(float)
        elif style == "zeros":
            x = rng.uniform(-1, 1, shape) * (rng.random(shape) < 0.6)
        elif style == "offset":
            x = rng.uniform(-1, 1, shape) + 7.0
        else:
            x = rng.uniform(0, 1, shape)
        return np.asarray(x * scale, dtype=float)

    sample.scale = scale * (8.0 if style == "offset" else 6.0 if style == "int" else 1.0)
    sample.style = style
    sample.base = scale
    return sample


def rand_name(rng):
    """Names users could choose: odd ones included, never a slash and never empty."""
    pool = (
        "A", "B", "a b", "Line1", "Line10", "Line2", "Point0", "x.y", "Größe", "0", "10", "2", "arg0",
        "Figure1", "AxesX", "my-quad", "_", "quad#", "Z", "Point10", "None", "Axe", "axes", "é", "9", "Frame2",
    )
    s = pick(rng, pool)
    if rng.random() < 0.5:
        s += str(int(rng.integers(0, 30)))
    return s


def unique_names(rng, n, exclude=()):
    out = []
    seen = set(exclude)
    while len(out) < n:
        s = rand_name(rng)
        if s in seen:
            s = s + "_" + str(int(rng.integers(10000)))
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def call_style(rng, cls, defaults, **opts):
    """cls with the options given by name, by position, or left out where they are the signature's defaults."""
    r = rng.random()
    if r < 0.4:
        kw = {k: v for k, v in opts.items() if not (k in defaults and defaults[k] == v)}
        return lambda: cls(**kw)
    if r < 0.6:
        return lambda: cls(*opts.values())
    return lambda: cls(**opts)
