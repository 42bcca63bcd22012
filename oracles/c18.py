"""random point sets (0..12 points, also on boundaries and duplicated) against each neighbourhood class with random shapes,
default and custom norms; invalid shape parameters; permuting the points permutes the mask"""
import math
from oracles.util import *
from hrosailing.processing import neighbourhood as N


def cases(rng, tier):
    for _ in range(2500 if tier == "quick" else 20000):
        n = rng.randint(1, 12)
        sc = pick(rng, 1, 0.05, 10)
        pts = rows(rng, n, [lambda: num(rng, -3, 3, (0.0, 1.0, -1.0)) * sc] * 2)
        if rng.random() < 0.3:
            pts += [list(p) for p in pts[: rng.randint(1, 3)]]
        cls = pick(rng, "ball", "scaling", "ellipsoid", "cuboid", "polytope")
        r = num(rng, 0.01, 3, (1.0, 0.05))
        T = rows(rng, 2, [lambda: num(rng, -2, 2, (0.0, 1.0))] * 2)
        k = rng.randint(2, 6)
        yield {"cls": cls, "pts": pts, "r": r, "T": T, "norm": pick(rng, "default", "l1", "max"), "min": rng.randint(1, len(pts)),
               "dim": [num(rng, 0.01, 3), num(rng, 0.01, 3)], "A": rows(rng, k, [lambda: num(rng, -2, 2, (0.0, 1.0))] * 2),
               "b": [num(rng, -1, 3, (1.0,)) for _ in range(k)], "bad": rng.random() < 0.05}


def l1(v):
    return np.abs(v).sum(axis=1)


def mx(v):
    return np.abs(v).max(axis=1)


def spec_norm(kind, x, y):
    if kind == "l1":
        return abs(x) + abs(y)
    if kind == "max":
        return max(abs(x), abs(y))
    return math.hypot(x / 40, y / 360)


def run(case):
    pts = np.array(case["pts"], float)
    kw = {} if case["norm"] == "default" else {"norm": {"l1": l1, "max": mx}[case["norm"]]}
    cls, r, T = case["cls"], case["r"], np.array(case["T"])
    if case["bad"]:
        bads = {"ball": lambda: N.Ball(-r), "scaling": lambda: N.ScalingBall(0), "ellipsoid": lambda: N.Ellipsoid([[1, 2], [2, 4]]),
                "cuboid": None, "polytope": lambda: N.Polytope(case["A"], case["b"] + [1.0])}
        if bads[cls] and not raises(bads[cls]):
            return bad(f"invalid parameters of {cls} accepted")
    rad = lambda p: spec_norm(case["norm"], *p)
    r2 = r * (0.05 if case["norm"] == "default" else 1)
    if cls == "ball":
        obj, member = N.Ball(r2, **kw), [(rad(p), r2) for p in pts]
    elif cls == "scaling":
        obj, member = N.ScalingBall(case["min"], **kw), None
    elif cls == "ellipsoid":
        det = T[0, 0] * T[1, 1] - T[0, 1] * T[1, 0]
        if abs(det) < 1e-3:
            return None
        inv = np.array([[T[1, 1], -T[0, 1]], [-T[1, 0], T[0, 0]]]) / det
        obj, member = N.Ellipsoid(T, radius=r2, **kw), [(rad((inv[0] @ p, inv[1] @ p)), r2) for p in pts]
    elif cls == "cuboid":
        obj = N.Cuboid(dimensions=tuple(case["dim"]))
        member = [(max(abs(p[0]) / case["dim"][0], abs(p[1]) / case["dim"][1]), 1) for p in pts]
    else:
        A, b = np.array(case["A"]), np.array(case["b"])
        obj = N.Polytope(A, b)
        member = [(max(A @ p - b), 0) for p in pts]
    keep = pts.copy()
    ok, m = attempt(obj.is_contained_in, pts)
    if not ok:
        return bad(f"{cls}: {type(m).__name__}: {m}")
    m = np.asarray(m)
    if not np.array_equal(keep, pts):
        return bad("points modified")
    if m.shape != (len(pts),) or m.dtype != bool:
        return bad(f"mask has shape {m.shape} dtype {m.dtype}")
    if member is not None:
        for i, (d, lim) in enumerate(member):
            if abs(d - lim) > 1e-9 * (1 + abs(lim)) and bool(m[i]) != (d <= lim):
                return bad(f"{cls}: point {pts[i]} (measure {d}, limit {lim}) flagged {m[i]}")
            if d == lim and cls in ("cuboid",) and 1 == 1 and not m[i] and d * case["dim"][0] == abs(pts[i][0]):
                return bad(f"{cls}: boundary point {pts[i]} excluded")
    else:
        ds = [rad(p) for p in pts]
        if sum(m) < case["min"]:
            return bad(f"scaling ball holds {sum(m)} of at least {case['min']} points")
        lim = sorted(ds)[case["min"] - 1]
        for i, d in enumerate(ds):
            if abs(d - lim) > 1e-9 and bool(m[i]) != (d <= lim):
                return bad(f"scaling ball: point {pts[i]} at {d}, minimal radius {lim}, flagged {m[i]}")
        m0 = np.asarray(obj.is_contained_in(pts[: case["min"]] * 0.5))
        if sum(m0) < case["min"]:
            return bad("scaling ball depends on an earlier call")
    if list(np.asarray(obj.is_contained_in(pts[::-1]))) != list(m[::-1]) and member is not None:
        return bad(f"{cls}: membership depends on the order of the points")
    listed = attempt(obj.is_contained_in, [list(p) for p in pts])
    if not listed[0] or list(np.asarray(listed[1])) != list(m):
        return bad(f"{cls}: nested list input gives {listed[1]!r} instead of {m}")
    return None
