"""Helpers shared by the run-time oracles."""
import math

import numpy as np


def bad(what, key=None):
    return {"what": str(what)[:600], "key": key}


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def attempt(f, *a, **k):
    """(True, value) or (False, exception)"""
    try:
        return True, f(*a, **k)
    except Exception as e:  # noqa: BLE001
        return False, e


def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


def num(rng, lo, hi, special=()):
    """a number in [lo, hi]: special value, integer, half-integer or any float"""
    r = rng.random()
    if special and r < 0.3:
        return rng.choice(list(special))
    if r < 0.5:
        return float(rng.randint(math.ceil(lo), math.floor(hi)))
    if r < 0.6:
        return rng.randint(math.ceil(lo) * 2, math.floor(hi) * 2) / 2
    return rng.uniform(lo, hi)


def angdiff(a, b):
    d = (a - b) % 360
    return min(d, 360 - d)


ANGLES = (0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0, 360.0, -90.0, 540.0, 359.5, 180.5, 179.5)


def rows(rng, n, cols):
    """cols: list of callables"""
    return [[f() for f in cols] for _ in range(n)]


def res_ws(rng, n, lo=0.0):
    """n pairwise different wind speeds in random order"""
    kind = rng.random()
    if kind < 0.4:
        xs = rng.sample(range(0, 41), n)
    elif kind < 0.7:
        xs = [x / 2 for x in rng.sample(range(0, 81), n)]
    else:
        xs = sorted({round(rng.uniform(0, 40), 3) for _ in range(n * 3)})
        xs = rng.sample(xs, n)
    return [float(x) for x in xs]


def res_wa(rng, n, beyond=True):
    """n wind angles, pairwise different modulo 360, in random order"""
    kind = rng.random()
    if kind < 0.5:
        xs = rng.sample(range(0, 360, 15), min(n, 24)) if n <= 24 else rng.sample(range(360), n)
    elif kind < 0.7:
        xs = rng.sample(range(360), n)
    else:
        xs = rng.sample([k / 4 for k in range(1440)], n)
    if beyond and rng.random() < 0.5:
        xs = [x + 360 * rng.choice((-1, 0, 0, 1)) for x in xs]
    return [float(x) for x in xs]


def matrix(rng, n, m, lo=0, hi=20):
    r = rng.random()
    if r < 0.3:
        return [[float(i * m + j + 1) for j in range(m)] for i in range(n)]
    return [[num(rng, lo, hi, (0.0, 5.0)) for _ in range(m)] for _ in range(n)]


def raises(f, *a, **k):
    ok, r = attempt(f, *a, **k)
    return not ok


def weight_statistics(st, w):
    "what is wrong with the statistics of these weights; None if nothing"
    w = np.asarray(w, float)
    lo, hi = w.min(), w.max()
    for key, x in (("minimal_weight", lo), ("maximal_weight", hi), ("average_weight", w.mean())):
        if key not in st or st[key] is None or not close(st[key], x):
            return f"{key} {st.get(key)} instead of {x} for weights {w.tolist()[:20]}"
    e = 1e-9 * (1 + abs(lo) + abs(hi))
    for i in range(10):
        a, b = lo + (hi - lo) * i / 10, lo + (hi - lo) * (i + 1) / 10
        least = np.sum((w >= a + e) & (w <= b - e)) if hi - lo > e else 0
        most = np.sum((w >= a - e) & (w <= b + e))
        if not 100 * least / len(w) - 0.006 <= st["quantiles"][i] <= 100 * most / len(w) + 0.006:
            return f"{st['quantiles'][i]} % of the weights in tenth {i + 1} of the span instead of {100 * most / len(w)} % for weights {w.tolist()[:20]}"
    return None if len(st["quantiles"]) == 10 else f"{len(st['quantiles'])} quantiles"
