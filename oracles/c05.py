"""random point sets (1..12 points, duplicated points, equidistant points, constant values) against each interpolator at data
points and elsewhere; random parameters; independent inverse-distance formula"""
import math
from oracles.util import *
from hrosailing.processing import interpolator as I, neighbourhood as N
from hrosailing.core.data import WeightedPoints


def cases(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        n = rng.randint(1, 10) if rng.random() < 0.98 else rng.randint(20, 80)
        kind = pick(rng, "random", "grid", "ring")
        if kind == "grid":
            pts = [[float(rng.randint(0, 5)), float(rng.randint(0, 5)), num(rng, 0, 20)] for _ in range(n)]
        elif kind == "ring":
            q = [(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-5, 0), (0, -5)]
            pts = [[float(a), float(b), num(rng, 0, 20)] for a, b in rng.sample(q, rng.randint(1, 7))]
        else:
            pts = rows(rng, n, [lambda: num(rng, 0, 40), lambda: num(rng, 0, 360), lambda: num(rng, 0, 20)])
        if rng.random() < 0.3:  # close together
            pts += [[a + rng.uniform(-1e-3, 1e-3), b + rng.uniform(-1e-3, 1e-3), num(rng, 0, 20)] for a, b, _ in rng.sample(pts, rng.randint(1, min(n, len(pts), 3)))]
        if rng.random() < 0.25:
            pts = [[a, b, 7.5] for a, b, _ in pts]
        q = rng.random()
        query = [0.0, 0.0] if kind == "ring" and q < 0.6 else list(rng.choice(pts)[:2]) if q < 0.75 else [num(rng, 0, 40), num(rng, 0, 360)]
        if rng.random() < 0.15:
            a, b, _ = rng.choice(pts)
            query = [a + rng.uniform(-1e-3, 1e-3), b + rng.uniform(-1e-3, 1e-3)]
        yield {"pts": pts, "q": query, "cls": pick(rng, "idw", "improved", "mean", "shepard"), "norm": pick(rng, "l2", "l1", "default"),
               "p": rng.randint(0, 4), "tol": pick(rng, None, 2.0 ** -20, 0.01), "s": pick(rng, 1, 1, 2, 0.5), "w": [num(rng, 0, 1, (0.0, 1.0)) for _ in pts],
               "alpha": pick(rng, None, 0.5, 3)}


def l1(v):
    return np.abs(v).sum(axis=1)


def l2(v):
    return np.sqrt((np.asarray(v) ** 2).sum(axis=1))


def run(case):
    pts, q, w = np.array(case["pts"], float), np.array(case["q"], float), np.array(case["w"], float)
    kw = {} if case["norm"] == "default" else {"norm": {"l1": l1, "l2": l2}[case["norm"]]}
    dist = [{"l1": abs(a - q[0]) + abs(b - q[1]), "l2": math.hypot(a - q[0], b - q[1]), "default": math.hypot((a - q[0]) / 40, (b - q[1]) / 360)}[case["norm"]]
            for a, b, _ in case["pts"]]
    cls, scale = case["cls"], 1
    if cls == "idw":
        obj = I.IDWInterpolator(case["p"], **kw)
    elif cls == "improved":
        obj = I.ImprovedIDWInterpolator(**kw)
    elif cls == "mean":
        scale = case["s"]
        if case["alpha"] is None and case["norm"] == "default":
            obj = I.ArithmeticMeanInterpolator(scale, **kw)
        else:
            obj = I.ArithmeticMeanInterpolator(scale, params=(min(case["alpha"] or 0.5, 200 / (1 + max(dist))),), **kw)
    else:
        if len({(a, b) for a, b, _ in case["pts"]}) < len(pts):
            return None
        obj = I.ShepardInterpolator(N.Ball(max(dist) + 1e-3, **kw), tol=case["tol"], **kw)
    keep = pts.copy(), q.copy(), w.copy()
    ok, r = attempt(obj.interpolate, WeightedPoints(pts, w), q)
    if not ok:
        return bad(f"{cls}: {type(r).__name__}: {r}")
    if not all(np.array_equal(a, b) for a, b in zip(keep, (pts, q, w))):
        return bad(f"{cls}: an argument was modified")
    r = float(r)
    here = [z for d, (_, _, z) in zip(dist, case["pts"]) if d == 0]
    zs = [z for *_, z in case["pts"]]
    tol = 1e-7 * (1 + max(map(abs, zs)))
    if here:
        if not any(abs(r - z) <= tol for z in here):
            return bad(f"{cls}: at a data point with values {here}: {r}")
        return None
    if case["norm"] != "default" and (cls != "shepard" or min(dist) > 1e-6):
        r2 = float(obj.interpolate(WeightedPoints(pts[:, [1, 0, 2]].copy(), w), q[::-1].copy()))
        if not abs(r - r2) <= 1e-6 * (1 + abs(r)):
            return bad(f"{cls}: {r}, with the two coordinates exchanged {r2}")
    if cls == "shepard":
        near = [z for d, z in zip(dist, zs) if case["tol"] and d < case["tol"]]
        if near and not any(abs(d - case["tol"]) < 1e-9 for d in dist) and not abs(r - math.fsum(near) / len(near)) <= tol:
            return bad(f"shepard: {r}, points nearer than the tolerance: {near}")
        if min(dist) > 1e-6 and len(set(zs)) == 1 and not abs(r - zs[0]) <= tol:
            return bad(f"shepard: constant data {zs[0]} gives {r}")
        if min(dist) > 1e-6 and not math.isfinite(r):
            return bad(f"shepard: {r}")
        return None
    if not min(zs) * scale - tol <= r <= max(zs) * scale + tol:
        return bad(f"{cls}: {r} outside the range of {zs} (scale {scale})")
    if cls == "idw":
        ws = [1 / d ** case["p"] for d in dist]
        e = math.fsum(a * z for a, z in zip(ws, zs)) / math.fsum(ws)
        if abs(e - r) > tol:
            return bad(f"idw: {r}, formula {e}")
    if cls == "improved":
        R = max(dist)
        ws = [(1 / d if d <= R / 3 else 27 / (4 * R) * (d / R - 1) ** 2) ** 2 for d in dist]
        if math.fsum(ws) > 1e-12:
            e = math.fsum(a * z for a, z in zip(ws, zs)) / math.fsum(ws)
            if abs(e - r) > tol and not any(abs(d - R / 3) < 1e-9 for d in dist):
                return bad(f"improved: {r}, formula {e}")
    return None
