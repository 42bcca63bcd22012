"""the fastest way to sail into a direction: compared with the best speed of all pairs of points of the slice"""
from oracles.util import *
import hrosailing.polardiagram as pol
from hrosailing.cruising import convex_direction
from hrosailing.models.influencemodel import IdentityInfluenceModel, InfluenceModel

KINDS = ("table", "table", "table", "cloud", "curve", "sails", "sails")


class Slower(InfluenceModel):
    def __init__(self, f):
        self.f = f

    def remove_influence(self, data):
        raise NotImplementedError

    def add_influence(self, pd, influence_data):
        return self.f

    def fit(self, training_data):
        pass


def a_sail(rng, lo, hi):
    n = rng.randint(2, 9)
    a = sorted({pick(rng, float(rng.randrange(int(lo), int(hi), 5)), num(rng, lo, hi)) for _ in range(n)})
    a = [x for x, y in zip(a, a[1:] + [1000]) if y - x > 0.5 and x < 359.5]
    return {"wa": a, "bsp": [pick(rng, float(rng.randint(0, 9)), num(rng, 0.5, 12)) for _ in a]}


def cases(rng, tier):
    for j in range(900 if tier == "quick" else 9000):
        kind = rng.choice(KINDS)
        lo, hi = pick(rng, (0, 359), (0, 359), (0, 180), (30, 150), (20, 340), (200, 359), (0, 100))
        case = {"kind": kind, "sails": [a_sail(rng, lo, hi) for _ in range(rng.randint(1, 3) if kind == "sails" else 1)], "scal": num(rng, 1, 3),
                "shift": rng.choice([0, 0, 360, -360]), "im": kind in ("table", "cloud") and rng.random() < 0.15, "order": rng.random()}
        angles = [x for s in case["sails"] for x in s["wa"]]
        if not angles:
            continue
        d = rng.choice(angles) if rng.random() < 0.3 else pick(rng, num(rng, 0, 359.5), num(rng, min(angles), max(angles)), num(rng, 0, 20), num(rng, 340, 359.5))
        case["d"] = d
        yield case


def wavy(ws, wa, scal):
    return scal * np.sqrt(ws) * np.abs(np.sin(np.deg2rad(wa) / 2)) ** 0.5 + 0.2


def build(case):
    k = case["kind"]
    if k == "curve":
        return pol.PolarDiagramCurve(wavy, case["scal"])
    if k == "cloud":
        s = case["sails"][0]
        pts = [[6 + 0.1 * (i % 3), a, b] for i, (a, b) in enumerate(zip(s["wa"], s["bsp"]))]
        import random
        random.Random(case["order"]).shuffle(pts)
        return pol.PolarDiagramPointcloud(pts)
    ts = [pol.PolarDiagramTable([6], s["wa"], [[b] for b in s["bsp"]]) for s in case["sails"] if s["wa"]]
    return ts[0] if k == "table" else pol.PolarDiagramMultiSails(ts, [f"s{i}" for i in range(len(ts))])


def best(a, b, d):
    "the best speed in direction d of two of the points sailed alternately; None if two of them are (almost) opposite"
    r = np.deg2rad(a)
    u = np.deg2rad(d)
    along, across = b * np.cos(r - u), b * np.sin(r - u)
    top = max([along[i] for i in range(len(a)) if abs(across[i]) <= 1e-12 * (1 + b[i])], default=-math.inf)
    close = False
    left, right = [i for i in range(len(a)) if across[i] > 0], [i for i in range(len(a)) if across[i] < 0]
    for i in left:
        for j in right:
            lam = -across[j] / (across[i] - across[j])
            v = lam * along[i] + (1 - lam) * along[j]
            close = close or abs(v) < 1e-6
            top = max(top, v)
    return top, close


def run(case):
    pd = build(case)
    _, slices, info = pd.get_slices(6, full_info=True)
    _, wa, bsp = np.asarray(slices[0], float)
    im = None
    if case["im"]:
        bsp = bsp * 0.5 + 1
        im = Slower(list(bsp))
    pts = np.column_stack([bsp * np.cos(np.deg2rad(wa)), bsp * np.sin(np.deg2rad(wa))])
    if len(pts) < 2 or np.linalg.svd(pts, compute_uv=False)[1] < 1e-3:
        return None
    d = (case["d"] + case["shift"]) % 360
    if any(a % 360 != d and abs((a - d + 180) % 360 - 180) < 1e-9 for a in wa):
        return None  # off an angle of the slice by rounding only
    top, close = best(wa % 360, bsp, d)
    if close and top < 1e-3 or 0 < top < 1e-3:
        return None
    ok, r = attempt(convex_direction, pd, 6, case["d"] + case["shift"], im=im, influence_data={} if im else None)
    if not ok:
        if isinstance(r, ValueError) and top < 1e-3:
            return None
        return bad(f"convex_direction(…, {case['d'] + case['shift']}) raised {r!r}, speed {top} is possible", key="raises")
    if top <= 0:
        return bad(f"direction {d}: {r}, no speed is possible", key="impossible")
    names = list(info[0]) if info else [None] * len(wa)

    def speed(angle, sail):
        "of a data point, or None"
        at = [b for a, b, s in zip(wa, bsp, names) if s == sail and abs((a - angle + 180) % 360 - 180) < 1e-9]
        return max(at, default=None)

    if len(r) not in (1, 2) or any(x.proportion < -1e-9 for x in r) or abs(sum(x.proportion for x in r) - 1) > 1e-9:
        return bad(f"direction {d}: {r}", key="proportions")
    if len(r) == 1:
        if abs((r[0].angle - d + 180) % 360 - 180) > 1e-6:
            return bad(f"direction {d}: told to sail at {r[0].angle}", key="straight")
        v = speed(r[0].angle, r[0].sail)
        if v is None:  # between two neighbours
            mine = sorted((a % 360, b) for a, b, s in zip(wa, bsp, names) if s == r[0].sail)
            below, above = [x for x in mine if x[0] < d], [x for x in mine if x[0] > d]
            if not below or not above:
                return bad(f"direction {d}: told to sail straight with {r[0].sail!r} which has only {mine}", key="straight")
            l, h = max(below), min(above)
            l = max(x for x in below if x[0] == l[0])
            h = max(x for x in above if x[0] == h[0])
            v = best(np.array([l[0], h[0]]), np.array([l[1], h[1]]), d)[0]
        if v < top - 1e-6 * (1 + top):
            return bad(f"direction {d}: told to sail straight at speed {v}, {top} is possible", key="slow")
        return None
    x = y = 0.0
    for e in r:
        v = speed(e.angle, e.sail)
        if v is None:
            return bad(f"direction {d}: {r}, no point of the slice has {e}", key="no data")
        x, y = x + e.proportion * v * math.cos(math.radians(e.angle)), y + e.proportion * v * math.sin(math.radians(e.angle))
    u = math.radians(d)
    if abs(x * math.sin(u) - y * math.cos(u)) > 1e-6 * (1 + top):
        return bad(f"direction {d}: {r} leads to {math.degrees(math.atan2(y, x))}", key="elsewhere")
    v = x * math.cos(u) + y * math.sin(u)
    if v < top - 1e-6 * (1 + top):
        return bad(f"direction {d}: {r} has speed {v}, {top} is possible", key="slow")
    return None
