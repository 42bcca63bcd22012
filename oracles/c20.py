"""random weighted points, samplers, neighbourhoods, interpolators and resolutions; every entry of the result is recomputed from the points
around it"""
import warnings

from oracles.util import *
import hrosailing.polardiagram as pol
import hrosailing.processing as pc
from hrosailing.core.data import WeightedPoints
from hrosailing.pipeline.extensions import CurveExtension, PointcloudExtension, TableExtension


def cases(rng, tier):
    for _ in range(900 if tier == "quick" else 8000):
        n = rng.choice((1, 2, 3, 6, 12, 40))
        pts = rows(rng, n, [lambda: num(rng, 0, 20), lambda: num(rng, 0, 359.4), lambda: num(rng, 0.5, 15)])
        kind = pick(rng, "table", "table", "cloud", "curve", "minmax", "auto")
        if kind == "auto":
            lo = rng.randint(0, 8)
            pts = [[float(rng.choice((lo, lo + 2, lo + 3, lo + 4))), float(rng.choice((0, 5, 10, 60, 355, 360))), 3.0] for _ in range(rng.choice((5, 60, 500)))]
        yield {"kind": kind, "pts": pts, "w": [num(rng, 0.25, 1) for _ in pts], "nb": pick(rng, "ball1", "ball20", "ellipse", "cuboid", "scaling", "half"),
               "ip": pick(rng, "mean", "idw", "own"), "ws": [float(x) for x in rng.sample(range(0, 21), rng.randint(1, 5))],
               "wa": [float(x) for x in rng.sample(range(0, 360, 5), rng.randint(1, 6))], "res": pick(rng, "lists", "lists", "steps", "none", "mixed"),
               "grid": [[num(rng, 0, 20), num(rng, 0, 360)] for _ in range(rng.randint(1, 8))], "radians": rng.random() < 0.5}


class Own:
    "weight times boat speed plus a term for the grid point: sees the weights and the point"

    def interpolate(self, wp, point):
        return float(np.sum(wp.weights * wp.data[:, 2]) + point[0] + 0.01 * point[1] + len(wp.weights))


class Grid(pc.Sampler):
    def __init__(self, pts):
        self.pts, self.seen = pts, None
        super().__init__()

    def sample(self, pts):
        self.seen = np.array(pts)
        return np.array(self.pts)


def neighbourhood(kind):
    return {"ball1": lambda: pc.Ball(radius=1.5), "ball20": lambda: pc.Ball(radius=30), "ellipse": lambda: pc.Ellipsoid(radius=8),
            "half": lambda: pc.Polytope(np.array([[1.0, 0], [-1, 0], [0, 1], [0, -1]]), np.array([2.0, 8, 40, 5])), "cuboid": lambda: pc.Cuboid(dimensions=(3.0, 40.0)), "scaling": lambda: pc.Ball(norm=lambda p: np.abs(p).max(axis=1), radius=12)}[kind]()


def interpolator(kind):
    return {"mean": lambda: pc.ArithmeticMeanInterpolator(1, lambda p: np.linalg.norm(p, axis=1), params=(0.02,)), "idw": pc.IDWInterpolator, "own": Own}[kind]()


def expected(case, wp, p):
    inside = neighbourhood(case["nb"]).is_contained_in(np.array([[r[0] - p[0], r[1] - p[1]] for r in wp.data]))
    if not any(inside):
        return 0.0
    keep = [i for i, x in enumerate(inside) if x]
    return interpolator(case["ip"]).interpolate(WeightedPoints(wp.data[keep], wp.weights[keep]), np.array(p))


def run(case):
    data, w = np.array(case["pts"], dtype=float), np.array(case["w"], dtype=float)
    wp = WeightedPoints(data.copy(), w.copy())
    kind = case["kind"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = curve(case, wp, data) if kind == "curve" else cloud(case, wp, data) if kind == "cloud" else table(case, wp, data)
    if r is None and not (np.array_equal(wp.data, data) and np.array_equal(wp.weights, w)):
        return bad("the weighted points are changed", "frame")
    return r


def curve(case, wp, data):
    seen = []

    class Reg(pc.Regressor):
        model_func = staticmethod(lambda ws, wa, a, b: a * ws + b * wa)
        optimal_params = (2.0, 0.5)

        def fit(self, d):
            seen.append(np.array(d))

    ext = CurveExtension(Reg(), radians=case["radians"])
    for _ in range(2):
        ok, pd = attempt(ext.process, wp)
        if not ok:
            return bad(f"process raises {type(pd).__name__}: {pd}", "raises")
        want = data.copy()
        if case["radians"]:
            want[:, 1] = want[:, 1] / 180 * np.pi
        if len(seen[-1]) != len(want) or not close(seen[-1], want):
            return bad(f"the regressor gets {seen[-1][:3]} instead of {want[:3]}", "data")
        if not isinstance(pd, pol.PolarDiagramCurve) or pd.radians != case["radians"] or tuple(pd.parameters) != (2.0, 0.5):
            return bad(f"curve {pd!r}", "curve")
        a = 1.25  # in the unit of the data
        if not close(pd(3.0, a), 6.0 + 0.5 * a):
            return bad(f"curve value {pd(3.0, a)}", "curve")
    return None


def cloud(case, wp, data):
    s = Grid(case["grid"])
    ok, pd = attempt(PointcloudExtension(s, neighbourhood(case["nb"]), interpolator(case["ip"])).process, wp)
    if not ok:
        return bad(f"process raises {type(pd).__name__}: {pd}", "raises")
    if not np.array_equal(s.seen, data):
        return bad("the sampler does not get the data", "data")
    want = [[p[0], p[1] % 360, expected(case, wp, p)] for p in case["grid"]]
    got = pd.points
    if len(got) != len(want) or not close(sorted(map(list, got)), sorted(want)):
        return bad(f"points {sorted(map(list, got))} instead of {sorted(want)}", "points")
    return None


def table(case, wp, data):
    kind, ws, wa = case["kind"], case["ws"], case["wa"]
    res = "min_max" if kind == "minmax" else "auto" if kind == "auto" else {
        "lists": (ws, wa), "steps": (4, 30), "none": None, "mixed": (None, wa)}[case["res"]]
    ext = TableExtension(res, neighbourhood(case["nb"]), interpolator(case["ip"]))
    ok, pd = attempt(ext.process, wp)
    if not ok:
        return bad(f"process raises {type(pd).__name__}: {pd}", "raises")
    if kind == "minmax":
        lo, hi = round(min(data[:, 0])), round(max(data[:, 0]))
        ws, wa = range(lo, hi + 1, 2), range(5, 360, 5)
    elif kind == "auto":
        ws, wa = list(pd.wind_speeds), list(pd.wind_angles)
        if len(set(ws)) != len(ws) or len(set(wa)) != len(wa):
            return bad(f"resolution with duplicates: {ws}, {wa}", "duplicates")
        for x, y, name in ((round(min(data[:, 0])), round(max(data[:, 0])), "speed"),):
            if x not in ws or y not in ws or min(ws) < x or max(ws) > y:
                return bad(f"wind {name}s {ws} of data between {x} and {y}", "resolution")
        if any(round(f(data[:, 1])) % 360 not in wa for f in (min, max)):
            return bad(f"wind angles {wa} of data between {min(data[:, 1])} and {max(data[:, 1])}", "resolution")
        return None
    elif case["res"] == "steps":
        ws, wa = range(4, 40, 4), range(30, 360, 30)
    elif case["res"] in ("none", "mixed"):
        ws, wa = range(2, 42, 2), range(0, 360, 5) if case["res"] == "none" else wa
    if list(pd.wind_speeds) != sorted(ws) or list(pd.wind_angles) != sorted(wa):
        return bad(f"resolution {pd.wind_speeds}, {pd.wind_angles} instead of {sorted(ws)}, {sorted(wa)}", "resolution")
    cells = [(i, j) for i in range(len(wa)) for j in range(len(ws))]
    if len(cells) > 60:
        cells = cells[:: len(cells) // 60]
    swa, sws = sorted(wa), sorted(ws)
    for i, j in cells:
        want = expected(case, wp, [sws[j], swa[i]])
        if not close(pd.boat_speeds[i, j], want):
            return bad(f"boat speed {pd.boat_speeds[i, j]} at {sws[j]}, {swa[i]} instead of {want}", "cells")
    return None
