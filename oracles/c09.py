"""slices and points of diagrams of every kind, for single wind speeds, lists, other iterables and defaults, with steps in between; every
column is compared with the diagram's own data or its prediction at that wind"""
from fractions import Fraction

from oracles.util import *
import hrosailing.polardiagram as pol
from hrosailing.polardiagram._polardiagramcurve import MODEL_FUNCTIONS
from hrosailing.processing.interpolator import ArithmeticMeanInterpolator, IDWInterpolator

KINDS = ("table", "table", "curve", "cloud", "cloud", "sails")


def a_table(rng):
    ws = res_ws(rng, rng.randint(1, 5))
    wa = res_wa(rng, rng.randint(1, 6))
    return {"ws": ws, "wa": wa, "bsp": matrix(rng, len(wa), len(ws))}


def cases(rng, tier):
    for j in range(1200 if tier == "quick" else 10000):
        kind = rng.choice(KINDS)
        case = {"kind": kind, "do": pick(rng, "slices", "slices", "slices", "points"), "as": pick(rng, "list", "array", "tuple", "scalar", "npint", "gen", "none", "ints"),
                "steps": pick(rng, None, None, None, 1, 2, 5), "info": rng.random() < 0.4, "res": rng.randint(1, 12), "range": pick(rng, 1, 0, 2.5, 0.5),
                "idw": rng.random() < 0.5, "radians": rng.random() < 0.5, "shape": pick(rng, "nd", "dn", "tuple", "none"), "scal": num(rng, -1, 2)}
        if kind == "cloud":
            case["points"] = [[num(rng, 0.5, 12), num(rng, 0, 359), num(rng, 0, 20)] for _ in range(rng.randint(1, 12))]
            known = [p[0] for p in case["points"]]
        else:
            case["tables"] = [a_table(rng) for _ in range(rng.randint(1, 3) if kind == "sails" else 1)]
            known = [w for t in case["tables"] for w in t["ws"]]
        case["ws"] = [pick(rng, rng.choice(known), rng.choice(known) + pick(rng, 1.0, -1.0, 0.5), num(rng, 0.5, 15)) for _ in range(rng.randint(1, 5))]
        case["ws"] = [max(0.25, abs(w)) for w in case["ws"]]
        if case["as"] in ("ints", "npint"):
            case["ws"] = [int(w) + 1 for w in case["ws"]]
        angles = [w for t in case["tables"] for w in t["wa"]] if kind != "cloud" else [p[1] for p in case["points"]]
        case["wind"] = [[pick(rng, rng.choice(known), num(rng, 0.5, 15)), pick(rng, rng.choice(angles), num(rng, 0, 359))] for _ in range(pick(rng, 1, 2, 3, 3, 4, 7))]
        case["wind"] = [[max(0.25, a), b % 360] for a, b in case["wind"]]
        if kind == "cloud":  # points exactly at and close to the bounds of the range
            for _ in range(rng.randint(0, 3)):
                w = rng.choice(case["ws"]) + rng.choice([1, -1]) * case["range"] + pick(rng, 0, 1e-4, -1e-4, 3e-6, -3e-6)
                case["points"].insert(rng.randint(0, len(case["points"])), [max(0.25, w), num(rng, 0, 359), num(rng, 0, 20)])
        yield case


def clear(case, w):
    "no point is so close to the bounds of the range that rounding decides, unless it is exactly there"
    off = [abs(abs(Fraction(p[0]) - Fraction(w)) - Fraction(case["range"])) for p in case["points"]]
    return all(d == 0 or d > 1e-9 for d in off)


def build(case):
    k = case["kind"]
    if k == "cloud":
        return pol.PolarDiagramPointcloud(np.array(case["points"], float))
    if k == "curve":
        return pol.PolarDiagramCurve(MODEL_FUNCTIONS["ws_times_wa"] if case["idw"] else wavy, case["scal"], radians=case["radians"])
    ts = [pol.PolarDiagramTable(t["ws"], t["wa"], t["bsp"]) for t in case["tables"]]
    return ts[0] if k == "table" else pol.PolarDiagramMultiSails(ts, [f"s{i}" for i in range(len(ts))])


def wavy(ws, wa, scal):
    return scal * np.sqrt(ws) * np.abs(np.sin(wa)) + 0.1 * wa


def given(case, pd):
    "(argument, expected wind speeds)"
    ws, how = list(case["ws"]), case["as"]
    if how == "none":
        return None, [float(x) for x in pd.default_slices]
    if how == "scalar":
        return ws[0], [ws[0]]
    if how == "npint":
        return np.int64(ws[0]), [ws[0]]
    arg = {"list": list, "array": np.array, "tuple": tuple, "gen": lambda x: (y for y in x), "ints": list}[how](ws)
    return arg, ws


def near(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1 + abs(b))


def slice_of(case, pd, w, it):
    "the columns expected at wind speed w, as (ws, wa, bsp)"
    if isinstance(pd, pol.PolarDiagramTable):
        ws = list(pd.wind_speeds)
        return [(w, a, pd.boat_speeds[i, ws.index(w)] if w in ws else pd(w, a, it)) for i, a in enumerate(pd.wind_angles)]
    if isinstance(pd, pol.PolarDiagramMultiSails):
        return [x for t in pd.diagrams for x in slice_of(case, t, w, it)]
    angles = [360 * k / (case["res"] - 1) if case["res"] > 1 else 0.0 for k in range(case["res"])]
    if isinstance(pd, pol.PolarDiagramCurve):
        return [(w, a, pd(w, math.radians(a) if case["radians"] else a)) for a in angles]
    if it is not None:
        return [(w, a, pd(w, a, it)) for a in angles]
    return [tuple(p) for p in pd.points if abs(p[0] - w) <= case["range"]]


def run(case):
    pd = build(case)
    with np.errstate(all="ignore"):
        return (slices if case["do"] == "slices" else points)(case, pd)


def slices(case, pd):
    arg, ws = given(case, pd)
    kw, it = {}, None
    if case["kind"] == "table" or case["kind"] == "sails":
        it = IDWInterpolator() if case["idw"] else ArithmeticMeanInterpolator(params=(50,))
        if case["idw"]:
            kw["interpolator"] = it
    elif case["kind"] == "curve":
        kw["wa_resolution"] = case["res"]
    else:
        kw["range_"] = case["range"]
        if case["idw"]:
            kw.update(interpolator=IDWInterpolator(), wa_resolution=case["res"])
            it = kw["interpolator"]
    if case["steps"] and case["as"] not in ("scalar", "npint"):
        s = case["steps"]
        ws = [a + (b - a) * k / (s + 1) for a, b in zip(ws, ws[1:]) for k in range(s + 1)] + [ws[-1]]
    kept = np.array(arg) if isinstance(arg, np.ndarray) else None
    try:
        want = []
        for w in ws:
            want.append(slice_of(case, pd, w, it))
    except Exception:  # noqa: BLE001 -- the diagram makes no prediction there
        return None
    ok, r = attempt(pd.get_slices, arg, case["steps"], case["info"], **kw)
    if not ok:
        return bad(f"get_slices({arg!r}, {case['steps']}) raised {r!r}")
    if kept is not None and not np.array_equal(kept, arg):
        return bad("the given wind speeds were changed")
    labels, got = r[0], r[1]
    if len(labels) != len(ws) or not all(near(a, b) for a, b in zip(labels, ws)):
        return bad(f"labels {labels}, expected {ws}")
    if len(got) != len(ws):
        return bad(f"{len(got)} slices for {len(ws)} wind speeds")
    for k, (g, e) in enumerate(zip(got, want)):
        g = np.asarray(g, float)
        if not e and g.size == 0 and g.shape[0] == 3:
            continue
        if g.ndim != 2 or g.shape[0] != 3:
            return bad(f"slice of shape {g.shape}")
        if case["kind"] == "cloud" and not case["idw"]:
            if not clear(case, ws[k]):
                continue
            g, e = np.array(sorted(g.T.tolist())).reshape(-1, 3).T, sorted(e)
        if near(labels[k], ws[k], 0) and (g.shape[1] != len(e) or e and not np.allclose(g.T, np.array(e, float), 1e-7, 1e-9, equal_nan=True)):
            return bad(f"slice at {ws[k]}: {g.T.tolist()}, expected {e}")
    if case["info"]:
        info = r[2]
        if case["kind"] != "sails":
            return None if info is None else bad(f"info {info}")
        for g, i in zip(got, info):
            n = [s for s, t in zip(pd.sails, pd.diagrams) for _ in t.wind_angles]
            if list(i) != n or len(n) != g.shape[1]:
                return bad(f"sails {i} for the records {g.T.tolist()}, expected {n}")
    return None


def points(case, pd):
    if case["shape"] == "none":
        got = np.asarray(pd.get_points(), float)
        if case["kind"] == "table":
            want = [(w, a, pd.boat_speeds[i, j]) for i, a in enumerate(pd.wind_angles) for j, w in enumerate(pd.wind_speeds)]
        elif case["kind"] == "cloud":
            want = [tuple(p) for p in case["points"]]
        elif case["kind"] == "sails":
            want = [(w, a, t.boat_speeds[i, j]) for t in pd.diagrams for i, a in enumerate(t.wind_angles) for j, w in enumerate(t.wind_speeds)]
        else:
            want = [(w, a, pd(w, math.radians(a) if case["radians"] else a)) for w, a, _ in got]
            if len(got) < 2 or got[:, 1].max() < 300 or not all(near(a, b, 1e-6) for a, b in zip(got[:, 2], [x[2] for x in want])):
                return bad("a default point of the curve is not a point of the curve")
            return None
        same = got.shape == (len(want), 3) and np.allclose(got, np.array(want), 1e-9, 1e-12)
        return None if same else bad(f"default points {got.tolist()}, expected {want}")
    wind = [list(x) for x in case["wind"]]
    if case["shape"] == "tuple":
        a, b = sorted({x[0] for x in wind}), sorted({x[1] for x in wind})
        arg, wind = (np.array(a), np.array(b)), [[x, y] for y in b for x in a]
    elif case["shape"] == "nd" or len(wind) == 2:
        arg = np.array(wind)
    else:
        arg = np.array(wind).T
    try:
        want = [(w, a, pd(w, a)) for w, a in wind]
    except Exception:  # noqa: BLE001
        return None
    ok, got = attempt(pd.get_points, arg)
    if not ok:
        return bad(f"get_points({arg!r}) raised {got!r}")
    got = np.asarray(got, float)
    if got.shape != (len(want), 3) or not np.allclose(got, np.array(want, float), 1e-9, 1e-12, equal_nan=True):
        return bad(f"points {got.tolist()}, expected {want}")
    return None
