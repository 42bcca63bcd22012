"""random points (poles, date line, equal, near and far points) on the sphere and the Mercator map with any virtual pole: spherical trigonometry
and the Mercator formula, evaluated independently, judge projections, their inverses, distances and paths"""
from oracles.util import *
import hrosailing.models.globe_model as gm


def place(rng):
    return [num(rng, -90, 90, (0, 90, -90, 45, 89.99)), num(rng, -180, 180, (0, 180, -180, 90, 179.99))]


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        n = rng.choice((1, 2, 3, 10))
        pts = [place(rng) for _ in range(n)]
        kind = rng.random()
        b = list(pts[0]) if kind < 0.15 else [pts[0][0] + rng.choice((0.01, -0.01, 1)) * (1 if pts[0][0] < 0 else -1), pts[0][1]] if kind < 0.3 else place(rng)
        yield {"pts": pts, "end": b, "radius": rng.choice((None, 1, 3440.0, 6371)), "model": pick(rng, "sphere", "sphere", "mercator"), "res": rng.choice((2, 3, 10, 50)),
               "zero": rng.choice((None, [rng.uniform(-80, 80), rng.uniform(-179, 179)])), "arr": rng.random() < 0.5}


def xyz(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])


def angle(a, b):
    "angle between points, precise for near points as well"
    u, v = xyz(a), xyz(b)
    return math.atan2(float(np.linalg.norm(np.cross(u, v))), float(u @ v))


def apart(a, b):
    return float(np.linalg.norm(xyz(a) - xyz(b)))


def run(case):
    return sphere(case) if case["model"] == "sphere" else mercator(case)


def sphere(case):
    g = gm.SphericalGlobe(*([case["radius"]] if case["radius"] else []))
    R = case["radius"] or 21600 / 2 / math.pi
    pts, end = case["pts"], case["end"]
    arg = np.array(pts) if case["arr"] else pts
    pr = g.project(arg)
    if pr.shape != (len(pts), 3) or not close(pr, np.array([R * xyz(p) for p in pts]), 1e-9):
        return bad(f"project({pts}) = {pr}")
    back = g.lat_lon(pr)
    if back.shape != (len(pts), 2) or any(not apart(p, q) < 1e-7 for p, q in zip(pts, back)):
        return bad(f"lat_lon of the projection of {pts} is {back}")
    a, b = pts[0], end
    w = angle(a, b)
    for x, y in ((a, b), (b, a)):
        d = g.distance(x, y)
        if not abs(d - R * w) <= 2e-8 * R:
            return bad(f"distance of {x} and {y} is {d} instead of {R * w}")
    if w > math.pi - 1e-3:
        return None
    res = case["res"]
    ok, path = attempt(lambda: g.shortest_path(a, b, res))
    if not ok:
        return bad(f"path from {a} to {b} raised {path!r}")
    if path.shape != (res, 2):
        return bad(f"path of shape {path.shape}")
    u, v = xyz(a), xyz(b)
    for k, p in enumerate(path):
        t = k / (res - 1)
        q = (math.sin((1 - t) * w) * u + math.sin(t * w) * v) / math.sin(w) if w > 1e-9 else u
        if not float(np.linalg.norm(xyz(p) - q)) < 2e-6:
            return bad(f"point {k} of {res} from {a} to {b} is {p}")


def mercator(case):
    zero = case["zero"]
    kw = {}
    turn = np.eye(3)
    if zero is not None:
        pole = [90 - zero[0], zero[1] + 180] if zero[0] > 20 else [zero[0] - 90, zero[1]] if zero[0] > 0 else [90 + zero[0], zero[1]]
        kw = {"virt_northpole": pole, "virt_zero": zero}
        # the pole at a quarter turn from the zero
        turn = np.array([xyz(zero), np.cross(xyz(pole), xyz(zero)), xyz(pole)])
    if case["radius"]:
        kw["earth_radius"] = case["radius"]
    R = case["radius"] or 3440
    g = gm.FlatMercatorProjection(**kw)
    pts = [p for p in case["pts"] + [case["end"]] if abs((turn @ xyz(p))[2]) < 1 - 1e-9 and (turn @ xyz(p))[0] > -1 + 1e-9]
    if not pts:
        return None

    def ref(p):
        x, y, z = turn @ xyz(p)
        return [R * math.atan2(y, x), R * math.atanh(z)]

    pr = g.project(np.array(pts) if case["arr"] else pts)
    if pr.shape != (len(pts), 2):
        return bad(f"projection of shape {pr.shape}")
    for p, q in zip(pts, pr):
        r = ref(p)
        if abs(abs(r[0]) - R * math.pi) < 1e-6 * R:
            q, r = (abs(q[0]), q[1]), (abs(r[0]), r[1])
        if not close(np.array(q) / R, np.array(r) / R, 1e-6):
            return bad(f"projection of {p} is {q} instead of {r}, zero {zero}")
    back = g.lat_lon(pr)
    if any(not apart(p, q) < 1e-6 for p, q in zip(pts, back)):
        return bad(f"inverse of the projection of {pts} is {back}")
    a, b = pts[0], pts[-1]
    d = g.distance(a, b)
    want = math.dist(pr[0], pr[-1])
    if not abs(d - want) <= 1e-7 * (1 + want):
        return bad(f"distance of {a} and {b} is {d} instead of {want}")
    res = case["res"]
    path = g.shortest_path(a, b, res)
    if path.shape != (res, 2):
        return bad(f"path of shape {path.shape}")
    line = g.project(path)
    for k in range(res):
        want = pr[0] + (pr[-1] - pr[0]) * k / (res - 1)
        if abs(abs(want[0]) - R * math.pi) > 1e-6 * R and not close(line[k] / R, want / R, 1e-5):
            return bad(f"point {k} of {res} from {a} to {b} is {path[k]}")
