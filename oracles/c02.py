"""random rows: convert to apparent and back, and to true and back"""
import math
import numpy as np
from oracles.util import *
from hrosailing.core import computing as C


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        n = rng.randint(1, 5)
        wind = rows(rng, n, [lambda: num(rng, 0.5, 40, (1.0, 5.0)), lambda: num(rng, -720, 720, ANGLES),
                             lambda: num(rng, 0, 25, (0.0, 5.0))])
        yield {"first": pick(rng, "app", "true"), "wind": wind}


def run(case):
    w = np.array(case["wind"], float)
    f, g, sgn = C.convert_true_wind_to_apparent, C.convert_apparent_wind_to_true, 1
    if case["first"] == "true":
        f, g, sgn = g, f, -1
    a = np.radians(w[:, 1] % 360)
    L = np.hypot(w[:, 0] * np.cos(a) + sgn * w[:, 2], w[:, 0] * np.sin(a))
    w = w[L > 1e-2]
    if not len(w):
        return None
    ok, r = attempt(lambda: g(f(w)))
    if not ok:
        return bad(f"{type(r).__name__}: {r}")
    if r.shape != w.shape:
        return bad(f"shape {r.shape}")
    for x, y in zip(w, r):
        if abs(x[0] - y[0]) > 1e-5 * (1 + x[0]) or x[2] != y[2] or not angdiff(x[1], y[1]) < 1e-2:
            return bad(f"{x} came back as {y}")
    return None
