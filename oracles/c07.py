"""random tables on one side (with and without the axis, shuffled, sizes 1..6, sometimes 20), clouds of 0..8 points, curves in
degrees and radians at mirrored and wrapped angles, and polar diagrams of several sails; symmetrized and compared with the rule"""
import math
from oracles.util import *
from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable


def one_side(rng, n):
    low = rng.random() < 0.6
    pool = [x / 2 for x in range(1, 360)] if rng.random() < 0.4 else [float(x) for x in range(1, 180)]
    xs = rng.sample(pool, n)
    if rng.random() < 0.4:
        xs[rng.randrange(n)] = 0.0
    if rng.random() < 0.4:
        k = rng.randrange(n)
        if xs[k] != 0.0:
            xs[k] = 180.0
    return xs if low else [(360 - x) % 360 for x in xs]


def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        n = 20 if rng.random() < 0.04 else rng.randint(1, 6)
        ws = res_ws(rng, rng.randint(1, 4))
        yield {"k": "table", "ws": ws, "wa": one_side(rng, n), "bsp": matrix(rng, n, len(ws))}
        if rng.random() < 0.4:
            n = 60 if rng.random() < 0.05 else rng.randint(0, 8)
            yield {"k": "cloud", "pts": [[num(rng, 0, 40), num(rng, -400, 800, ANGLES), num(rng, 0, 20, (0.0,))] for _ in range(n)]}
        if rng.random() < 0.4:
            yield {"k": "curve", "rad": rng.random() < 0.5, "p": [round(rng.uniform(-2, 2), 2) for _ in range(3)],
                   "q": [[num(rng, 0, 40), num(rng, -400, 800, ANGLES)] for _ in range(6)]}
        if rng.random() < 0.2:
            s = []
            for k in range(rng.randint(1, 3)):
                n = rng.randint(1, 4)
                ws = res_ws(rng, rng.randint(1, 3))
                s.append({"name": rng.choice("jgsa") + "ib %d" % k, "ws": ws, "wa": one_side(rng, n), "bsp": matrix(rng, n, len(ws))})
            yield {"k": "multi", "sails": s}


def tab(case):
    return PolarDiagramTable(list(case["ws"]), list(case["wa"]), [list(r) for r in case["bsp"]])


def check_table(case, t, s):
    exp = {}
    for i, y in enumerate(case["wa"]):
        for j, x in enumerate(case["ws"]):
            exp[x, y % 360] = exp[x, (-y) % 360] = case["bsp"][i][j]
    if sorted(case["ws"]) != list(s.wind_speeds):
        return bad(f"wind speeds {list(s.wind_speeds)} from {case['ws']}")
    wa = sorted({y for _, y in exp})
    if list(s.wind_angles) != wa:
        return bad(f"wind angles {list(s.wind_angles)} from {case['wa']}, expected {wa}")
    for i, y in enumerate(wa):
        for j, x in enumerate(s.wind_speeds):
            if s.boat_speeds[i][j] != exp[x, y]:
                return bad(f"boat speed at {x, y}: {s.boat_speeds[i][j]}, expected {exp[x, y]} (angles {case['wa']})")
    o = tab(case)
    if not (np.array_equal(o.boat_speeds, t.boat_speeds) and np.array_equal(o.wind_angles, t.wind_angles)):
        return bad("the original table was modified")
    return None


def run(case):
    k = case["k"]
    if k == "table":
        t = tab(case)
        ok, s = attempt(t.symmetrize)
        return check_table(case, t, s) if ok else bad(f"angles {case['wa']}: {type(s).__name__}: {s}")
    if k == "cloud":
        p = PolarDiagramPointcloud(np.array(case["pts"], float).reshape(-1, 3)) if case["pts"] else PolarDiagramPointcloud(np.zeros((0, 3)))
        before = np.array(p.points)
        ok, s = attempt(p.symmetrize)
        if not ok:
            return bad(f"{type(s).__name__}: {s}")
        exp = sorted([tuple(x) for x in before.tolist()] + [(a, (360 - b) % 360, z) for a, b, z in before.tolist()])
        got = sorted(tuple(x) for x in np.array(s.points).tolist())
        if exp != got:
            return bad(f"points {got} from {before.tolist()}")
        return None if np.array_equal(before, p.points) else bad("the original cloud was modified")
    if k == "curve":
        a, b, d = case["p"]
        u = 1.0 if case["rad"] else math.pi / 180
        f = lambda ws, wa, a, b, d: ws * (a + b * np.sin(wa * u) + d * np.cos(2 * wa * u + 0.3))  # noqa: E731
        s = PolarDiagramCurve(f, a, b, d, radians=case["rad"]).symmetrize()
        for x, y in case["q"]:
            y = math.radians(y) if case["rad"] else y
            full = 2 * math.pi if case["rad"] else 360
            v, w = float(s(x, y)), float(s(x, -y))
            e = (f(x, y, a, b, d) + f(x, -y, a, b, d)) / 2
            if abs(v - w) > 1e-7 or abs(v - float(s(x, full - y))) > 1e-7:
                return bad(f"value {v} at {x, y} and {w} at the mirrored angle (radians={case['rad']})")
            if abs(v - e) > 1e-7:
                return bad(f"value {v} at {x, y}, average of both sides {e}")
        return None
    ts = [tab(c) for c in case["sails"]]
    ms = PolarDiagramMultiSails(ts, [c["name"] for c in case["sails"]])
    ok, s = attempt(ms.symmetrize)
    if not ok:
        return bad(f"{type(s).__name__}: {s}")
    if list(s.sails) != [c["name"] for c in case["sails"]]:
        return bad(f"sails {s.sails}")
    for c, t, d in zip(case["sails"], ts, s.diagrams):
        r = check_table(c, t, d)
        if r:
            return bad(c["name"] + ": " + r["what"])
    return None
