"""random records (arrays of 0..12 rows and Data with mixed columns, missing/str columns) through every weigher against a direct
evaluation of its definition; weighers are used several times on different data; statistics; permutation of the rows"""
import math
from datetime import datetime, timedelta
from oracles.util import *
from hrosailing.core.data import Data
from hrosailing.core.constants import NORM_SCALES
from hrosailing.processing import weigher as W


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        kind = pick(rng, "mean", "member", "fluct", "one")
        def block():
            n = rng.randint(1, 10) if rng.random() < 0.98 else rng.randint(60, 100)
            b = rows(rng, n, [lambda: num(rng, 0, 20, (10.0,)), lambda: num(rng, 0, 359, (90.0,)), lambda: num(rng, 0, 12, (5.0,))])
            if n > 50:
                b = b[:n * 3 // 4] + [[10 + rng.choice((0, 0.1, 0.5)), 90.0, 5 + rng.choice((0, 0.1))] for _ in range(n - n * 3 // 4)]
            elif rng.random() < 0.5:
                b = [[10 + rng.choice((0, 0.1, 0.5)), 90 + rng.choice((0, 1, 5)), x[2]] for x in b]
            return b
        yield {"kind": kind, "first": block(), "second": block(), "data": rng.random() < 0.6, "r": num(rng, 0.01, 2, (0.05,)), "h": num(rng, 0, 3, (0.0, 1.0)),
               "norm": pick(rng, "default", "l1"), "dims": pick(rng, None, ["TWS", "TWA", "BSP"], ["TWA", "BSP"], ["TWS", "BSP"]), "bsp": pick(rng, "BSP", "SOG"),
               "before": rng.choice((0, 5, 20, 100, 1000)), "after": rng.choice((None, 0, 10, 30)), "gap": rng.choice((1, 7, 30)), "ub": [num(rng, 0.1, 5, (1.0,)), num(rng, 1, 200)],
               "attrs": pick(rng, ["BSP", "TWA"], ["TWA", "BSP"], ["TWA"], ["BSP"]), "seed": rng.randint(0, 99), "perm": rng.random()}


def table(b, case):
    g = timedelta(seconds=case["gap"])
    return Data.from_dict({"datetime": [datetime(2020, 1, 1) + i * g for i in range(len(b))], case["bsp"]: [float(x[2]) for x in b],
                           "TWS": [float(x[0]) for x in b], "note": ["n"] * len(b), "TWA": [float(x[1]) for x in b]})


def l1(v):
    return np.abs(v).sum(axis=1)


def dist(p, q, dims, case, default_array):
    d = [a - b for a, b in zip(p, q)]
    if case["norm"] == "l1":
        return sum(abs(x) for x in d)
    if dims is None:
        sc = default_array
    else:
        sc = [NORM_SCALES.get(k, 1) for k in dims]
    return math.sqrt(sum((s * x) ** 2 for s, x in zip(sc, d)))


def weigh_spec(case, b):
    kind, n = case["kind"], len(b)
    if kind == "one":
        return [1.0] * n, []
    col = {"TWS": 0, "TWA": 1, "BSP": 2, "SOG": 2}
    soft = []
    if kind == "fluct":
        out = []
        after = case["after"] or 0
        for i in range(n):
            w = 1.0
            js = [j for j in range(n) if 0 <= (i - j) * case["gap"] <= case["before"] or 0 <= (j - i) * case["gap"] <= after]
            for a, ub in zip(case["attrs"], case["ub"]):
                s = float(np.std([b[j][col[a]] for j in js]))
                w *= max(0.0, (ub - s) / ub)
            out.append(w)
        return out, soft
    if case["data"]:
        names = [k if k != "BSP" else case["bsp"] for k in (case["dims"] or ["BSP", "TWS", "TWA"])]
        if kind == "mean":
            dims = [k for k in [case["bsp"], "TWS", "TWA"] if k in names and k != case["bsp"]]
            coords = [[x[col[k]] for k in dims] for x in b]
            last = [x[2] for x in b]
        else:
            order = [k for k in [case["bsp"], "TWS", "TWA"] if k in names]
            dims, lk = order[:-1], order[-1]
            coords = [[x[col[k]] for k in dims] for x in b]
            last = [x[col[lk]] for x in b]
    else:
        dims = None
        coords, last = [x[:2] for x in b], [x[2] for x in b]
    sc = (NORM_SCALES["TWS"], NORM_SCALES["TWA"])
    raw = []
    for i in range(n):
        inside = []
        for j in range(n):
            d = dist(coords[i], coords[j], dims, case, sc)
            if abs(d - case["r"]) < 1e-9 or kind == "member" and abs(abs(last[i] - last[j]) - case["h"]) < 1e-9 and case["h"] != 0:
                soft.append(1)
            if d <= case["r"] and (kind == "mean" or abs(last[i] - last[j]) <= case["h"]):
                inside.append(last[j])
        if kind == "member":
            raw.append(len(inside) - 1)
        else:
            s = float(np.std(inside))
            if 0 < s < 1e-9:
                soft.append(1)
            raw.append(abs(float(np.mean(inside)) - last[i]) / (s or 1))
    m = max(raw)
    if m == 0 or 0 < m < 1e-9:
        if m:
            soft.append(1)
        return ([1.0] * n if kind == "mean" else [0.0] * n), soft
    return [1 - x / m if kind == "mean" else x / m for x in raw], soft


def make(case):
    k = case["kind"]
    norm = l1 if case["norm"] == "l1" else None
    dims = None
    if case["data"] and k in ("mean", "member"):
        dims = None if case["dims"] is None else [x if x != "BSP" else case["bsp"] for x in case["dims"]]
    if k == "mean":
        return W.CylindricMeanWeigher(case["r"], norm, dims), dims
    if k == "member":
        return W.CylindricMemberWeigher(case["r"], case["h"], norm, dims), dims
    if k == "fluct":
        dims = [x if x != "BSP" else case["bsp"] for x in case["attrs"]]
        t = timedelta(seconds=case["before"])
        return W.FluctuationWeigher(dims, t if case["after"] is None else (t, timedelta(seconds=case["after"])), case["ub"][:len(dims)]), dims
    return W.AllOneWeigher(), dims


def run(case):
    wg, dims = make(case)
    keep = None if dims is None else list(dims)
    if case["kind"] == "mean" and case["data"] and case["dims"] is None:
        # all numeric attributes; the mean weigher needs to find its own dimensions from the data
        pass
    for b in (case["first"], case["second"], case["first"]):
        as_data = case["data"] or case["kind"] == "fluct"
        pts = table(b, case) if as_data else np.array(b, float)
        before = {k: list(v) for k, v in pts.data.items()} if as_data else pts.copy()
        ok, w = attempt(wg.weigh, pts)
        if not ok:
            return bad(f"{case['kind']}: {type(w).__name__}: {w}")
        if not isinstance(w, np.ndarray) or w.shape != (len(b),):
            return bad(f"{case['kind']}: {type(w).__name__} of shape {getattr(w, 'shape', None)} for {len(b)} points")
        same = ({k: list(v) for k, v in pts.data.items()} == before) if as_data else np.array_equal(pts, before)
        if not same:
            return bad(f"{case['kind']}: points modified")
        if dims is not None and list(dims) != keep:
            return bad(f"{case['kind']}: the caller's attribute list became {dims}")
        if not np.all((w >= -1e-12) & (w <= 1 + 1e-12)):
            return bad(f"{case['kind']}: weights {w} leave [0, 1]")
        exp, soft = weigh_spec(case, b)
        if not soft and not close(w, exp, 1e-6):
            return bad(f"{case['kind']}: weights {w.tolist()} instead of {exp} for {b}")
        st = wg.get_latest_statistics()
        if case["kind"] != "one":
            if wrong := weight_statistics(st, w):
                return bad(f"{case['kind']}: statistics: {wrong}")
    if case["kind"] in ("mean", "member") and not case["data"]:
        b = case["first"]
        perm = list(np.random.default_rng(case["seed"]).permutation(len(b)))
        w0 = wg.weigh(np.array(b, float))
        w1 = wg.weigh(np.array([b[k] for k in perm], float))
        if not soft and not close(w1, w0[perm], 1e-6):
            return bad(f"{case['kind']}: reordering the points changes their weights")
        for bad_args in ((0,), (-1,)):
            if not raises(type(wg), *bad_args):
                return bad("non-positive radius accepted")
        e = attempt(wg.weigh, np.zeros((0, 3)))
        if not e[0] or len(e[1]) != 0:
            return bad("no points: no empty weights")
