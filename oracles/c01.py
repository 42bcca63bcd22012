"""random wind arrays (0..6 rows; integer, list and float inputs; angles on and beyond both sides) and malformed inputs"""
import math
import numpy as np
from oracles.util import *
from hrosailing.core import computing as C


def cases(rng, tier):
    for k in range(1500 if tier == "quick" else 20000):
        n = rng.randint(0, 6)
        wind = rows(rng, n, [lambda: num(rng, 0, 40, (0.0, 1.0, 5.0)), lambda: num(rng, -720, 720, ANGLES),
                             lambda: num(rng, -5, 25, (0.0, 5.0))])
        kind = pick(rng, "float", "list", "int", "fortran", "view")
        yield {"dir": pick(rng, "app", "true"), "wind": wind, "kind": kind}
        if k % 10 == 0:
            yield {"dir": pick(rng, "app", "true"), "bad": pick(rng, "neg", "shape2", "shape4", "1d", "3d", "nan", "inf", "str"),
                   "at": rng.random(), "wind": wind}


def fn(d):
    return C.convert_true_wind_to_apparent if d == "app" else C.convert_apparent_wind_to_true


def run(case):
    f = fn(case["dir"])
    w = np.array(case["wind"], float).reshape(-1, 3)
    if "bad" in case:
        return run_bad(f, case, w)
    kind = case["kind"]
    if kind == "list":
        if not len(w):
            return None
        arg = [list(r) for r in w]
    elif kind == "int":
        w = np.round(w)
        arg = w.astype(int)
    elif kind == "fortran":
        arg = np.asfortranarray(w)
    elif kind == "view":
        big = np.zeros((2 * len(w), 4))
        big[::2, :3] = w
        arg = big[::2, :3]
    else:
        arg = w.copy()
    before = [list(r) for r in arg] if kind == "list" else arg.copy()
    sgn = 1 if case["dir"] == "app" else -1
    with np.errstate(all="ignore"):
        ok, r = attempt(f, arg)
    if not ok:
        return bad(f"{type(r).__name__}: {r}")
    if not np.array_equal(np.asarray(before), np.asarray(arg)):
        return bad("the caller's array was modified")
    if r.shape != (len(w), 3):
        return bad(f"result shape {r.shape}")
    for (ws, wa, b), (s, u, b2) in zip(w, r):
        if b2 != b:
            return bad(f"boat speed {b} became {b2}")
        a = math.radians(wa % 360)
        vx, vy = ws * math.cos(a) + sgn * b, ws * math.sin(a)
        L = math.hypot(vx, vy)
        if L < 1e-3:
            continue
        if not (s >= 0 and -1e-9 <= u <= 360 + 1e-9):
            return bad(f"speed {s} angle {u} for row {(ws, wa, b)}")
        if abs(s - L) > 1e-6 * (1 + L):
            return bad(f"speed {s} expected {L} for row {(ws, wa, b)}")
        ru = math.radians(u)
        tol = 1e-5 * (1 + ws + abs(b))
        if abs(s * math.cos(ru) - vx) > tol or abs(s * math.sin(ru) - vy) > tol * 10:
            return bad(f"row {(ws, wa, b)} gives {(s, u)}, vector {(s * math.cos(ru), s * math.sin(ru))} expected {(vx, vy)}")
    return None


def run_bad(f, case, w):
    kind = case["bad"]
    if len(w) == 0:
        w = np.ones((1, 3))
    i = int(case["at"] * len(w))
    if kind == "neg":
        w[i, 0] = -0.5
    elif kind == "nan":
        w[i, i % 3] = math.nan
    elif kind == "inf":
        w[i, (i + 1) % 3] = math.inf
    elif kind == "shape2":
        w = w[:, :2]
    elif kind == "shape4":
        w = np.column_stack([w, w[:, 0]])
    elif kind == "1d":
        w = w[0]
    elif kind == "3d":
        w = w.reshape(-1, 3, 1)
    elif kind == "str":
        w = np.array([["a", "b", "c"]], dtype=object)
    ok, r = attempt(f, w)
    if ok:
        return bad(f"malformed input ({kind}) accepted, result {r!r}")
    return None
