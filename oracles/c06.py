"""random tables and shuffled grids (1..5 speeds, 1..6 angles) evaluated at nodes, on grid lines, inside cells and outside with
the bilinear interpolator; random neighbourhoods with a recording interpolator"""
import math
from oracles.util import *
from hrosailing.processing import interpolator as I, neighbourhood as N
from hrosailing.core.data import WeightedPoints
from hrosailing.polardiagram import PolarDiagramTable


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        m, n = (rng.randint(6, 14), rng.randint(6, 14)) if rng.random() < 0.03 else (rng.randint(1, 5), rng.randint(1, 6))
        ws, wa = sorted(res_ws(rng, m)), sorted(res_wa(rng, n, beyond=False))
        order = list(range(m * n))
        rng.shuffle(order)

        def q(r, hi):
            k = rng.random()
            return rng.choice(r) if k < 0.35 else rng.uniform(r[0], r[-1]) if k < 0.85 else rng.uniform(0, hi)

        yield {"ws": ws, "wa": wa, "bsp": matrix(rng, n, m), "order": order, "q": [q(ws, 41), q(wa, 360)], "r": pick(rng, 0.02, 0.1, 0.4),
               "norm": pick(rng, "default", "l1"), "far": rng.random() < 0.8}


class Spy(I.Interpolator):
    def interpolate(self, w_pts, grid_pt):
        self.data, self.pt = np.array(w_pts.data), np.array(grid_pt)
        return 7.5


def l1(v):
    return np.abs(v / np.array([40, 360])).sum(axis=1)


def spec(ws, wa, b, x, y):
    """independent bilinear value or None"""
    if not (ws[0] <= x <= ws[-1] and wa[0] <= y <= wa[-1]):
        return None
    j0, j1 = max(j for j, v in enumerate(ws) if v <= x), min(j for j, v in enumerate(ws) if v >= x)
    i0, i1 = max(i for i, v in enumerate(wa) if v <= y), min(i for i, v in enumerate(wa) if v >= y)
    u = 0 if j0 == j1 else (x - ws[j0]) / (ws[j1] - ws[j0])
    v = 0 if i0 == i1 else (y - wa[i0]) / (wa[i1] - wa[i0])
    c = [b[i0][j0], b[i0][j1], b[i1][j0], b[i1][j1]]
    return (1 - v) * ((1 - u) * c[0] + u * c[1]) + v * ((1 - u) * c[2] + u * c[3]), c


def run(case):
    ws, wa, b, (x, y) = case["ws"], case["wa"], case["bsp"], case["q"]
    n, m = len(wa), len(ws)
    pts = np.array([[ws[k % m], wa[k // m], b[k // m][k % m]] for k in case["order"]], float)
    keep = pts.copy()
    q = np.array([x, y])
    exp = spec(ws, wa, b, x, y)
    ok, r = attempt(I.BilinearGridInterpolator().interpolate, WeightedPoints(pts, np.ones(len(pts))), q)
    if not np.array_equal(pts, keep) or not np.array_equal(q, [x, y]):
        return bad("an argument was modified")
    if exp is None:
        if ok:
            return bad(f"query {x, y} outside {ws} x {wa} gives {r}")
    else:
        if not ok:
            return bad(f"query {x, y}: {type(r).__name__}: {r}")
        if abs(r - exp[0]) > 1e-8 * (1 + abs(exp[0])):
            return bad(f"query {x, y} in {ws} x {wa}: {r}, bilinear value {exp[0]}")
    t = PolarDiagramTable(ws, wa, b)
    if exp is not None:
        ok, r = attempt(t, x, y, I.BilinearGridInterpolator(), N.Ball(3))
        if not ok or abs(r - exp[0]) > 1e-8 * (1 + abs(exp[0])):
            return bad(f"table at {x, y}: {r!r}, bilinear value {exp[0]}")
    kw = {"norm": l1} if case["norm"] == "l1" else {}
    spy = Spy()
    node = x in ws and y in wa
    ok, r = attempt(t, x, y, spy, N.Ball(case["r"], **kw))
    if node:
        if not ok or r != b[wa.index(y)][ws.index(x)]:
            return bad(f"table at node {x, y}: {r!r}")
        return None
    if not ok or r != 7.5:
        return bad(f"table at {x, y} does not return the interpolator's value: {r!r}")
    if list(spy.pt) != [x, y]:
        return bad(f"interpolator asked at {spy.pt} instead of {x, y}")
    nm = (lambda a, c: abs(a) / 40 + abs(c) / 360) if kw else (lambda a, c: math.hypot(a / 40, c / 360))
    got = {(a, c): z for a, c, z in spy.data.tolist()}
    if len(got) != len(spy.data):
        return bad("a node reaches the interpolator twice")
    for i in range(n):
        for j in range(m):
            d = nm(ws[j] - x, wa[i] - y)
            if abs(d - case["r"]) < 1e-9:
                continue
            if ((ws[j], wa[i]) in got) != (d < case["r"]):
                return bad(f"node {ws[j], wa[i]} at distance {d} of {x, y}, radius {case['r']}: {'used' if (ws[j], wa[i]) in got else 'not used'}")
            if d < case["r"] and got[ws[j], wa[i]] != b[i][j]:
                return bad(f"node {ws[j], wa[i]} reaches the interpolator with {got[ws[j], wa[i]]}")
    return None
