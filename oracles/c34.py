"""point clouds on random points (duplicates, negative wind speeds, angles beyond 0 to 360, apparent wind) with sequences of additions and queries, against lists of
points kept here; sets of sails on random diagrams and names"""
from oracles.util import *
import hrosailing.polardiagram as pol
from hrosailing.core.computing import convert_apparent_wind_to_true
from hrosailing.processing import Ball, ScalingBall, ArithmeticMeanInterpolator, IDWInterpolator


def point(rng, low):
    return [num(rng, low, 20, (0.0, 4.0, 6.0) if low <= 0 else (4.0, 6.0)), num(rng, -200, 700, ANGLES) if rng.random() < 0.8 else num(rng, -2000, 2000, (0, -360, 1080, 725)), num(rng, 0, 15)]


def cases(rng, tier):
    for _ in range(3000 if tier == "quick" else 30000):
        if rng.random() < 0.25:
            n = rng.randint(1, 4)
            yield {"sails": n, "names": rng.choice([None] + [[rng.choice(("jib", "spi", "Sail 1", "Sail 2", "x")) + ("" if rng.random() < 0.2 else str(i)) for i in range(k)] for k in range(6)]),
                   "f": [[rng.uniform(-1, 1), rng.uniform(0, 3), rng.uniform(0, 1)] for _ in range(n)], "seq": pick(rng, "list", "tuple", "array"), "ws": num(rng, 0, 20), "wa": num(rng, 0, 360)}
            continue
        k = rng.choice((1, 2, 5, 12))
        pts = [point(rng, -3) for _ in range(k)]
        if rng.random() < 0.5:
            pts += [[p[0], p[1] + rng.choice((0, 360, -360)), num(rng, 0, 15)] for p in rng.sample(pts, rng.randint(0, len(pts)))]
            rng.shuffle(pts)
        ops = []
        for _ in range(rng.choice((0, 1, 3))):
            q = [point(rng, rng.choice((0.5, 0.5, 0.5, -1))) for _ in range(rng.choice((1, 2, 4)))]
            ops.append({"pts": q, "apparent": rng.random() < 0.2, "seq": pick(rng, "array", "list", "int")})
        yield {"pts": pts, "ops": ops, "apparent": rng.random() < 0.2, "seq": pick(rng, "array", "list", "int"), "seed": rng.randrange(10**6)}


class Spy(ArithmeticMeanInterpolator):
    def __init__(self):
        super().__init__(50)
        self.got = []

    def interpolate(self, w_pts, grid_pt):
        self.got.append((np.array(w_pts.data), np.array(w_pts.weights), np.array(grid_pt)))
        return 7.25


def arr(p, how):
    if how == "list":
        return [list(x) for x in p]
    return np.round(np.array(p)).astype(int) if how == "int" else np.array(p, float)


def held(p, how, apparent):
    "what a cloud should hold of these points"
    p = np.array(arr(p, how))
    if apparent:
        return convert_apparent_wind_to_true(np.asarray(p, float))
    p = p[p[:, 0] >= 0].astype(float)
    p[:, 1] = [float(x) % 360 for x in p[:, 1]]
    return p


def run_sails(case):
    names, f = case["names"], case["f"]
    pds = [pol.PolarDiagramCurve(lambda ws, wa, a, b, d: a + b * np.asarray(ws) + d * np.asarray(wa), *g) for g in f]
    arg = None if names is None else list(names) if case["seq"] == "list" else tuple(names) if case["seq"] == "tuple" else np.array(names, object)
    keep = None if names is None else list(arg)
    m = pol.PolarDiagramMultiSails(list(pds) if case["seq"] == "list" else tuple(pds), arg)
    want = [(names or [])[i] if i < len(names or []) else f"Sail {i}" for i in range(len(pds))]
    if list(m.sails) != want:
        return bad(f"sails {m.sails} instead of {want}")
    if len(m.diagrams) != len(pds) or any(a is not b for a, b in zip(m.diagrams, pds)):
        return bad("other diagrams")
    if names is not None and list(arg) != keep:
        return bad("the given names were changed")
    for s in set(want):
        if m[s] is not pds[want.index(s)]:
            return bad(f"another diagram for {s}")
    ok, e = attempt(lambda: m["nobody"])
    if ok or not isinstance(e, ValueError):
        return bad(f"a sail that does not exist: {e!r}")
    got, vals = float(m(case["ws"], case["wa"])), [float(p(case["ws"], case["wa"])) for p in pds]
    if got != max(vals):
        return bad(f"{got} instead of the greatest of {vals}")
    return None


def run(case):
    if "sails" in case:
        return run_sails(case)
    import random
    rng = random.Random(case["seed"])
    given = arr(case["pts"], case["seq"])
    if case["apparent"] and any(p[0] < 0 for p in (given if isinstance(given, list) else given.tolist())):
        return None
    before = np.array(given)
    pd = pol.PolarDiagramPointcloud(given, apparent_wind=case["apparent"])
    if not np.array_equal(before, np.array(given)):
        return bad("the given points were changed")
    want = held(case["pts"], case["seq"], case["apparent"])
    if not np.isfinite(want).all():  # no wind at all has no angle
        return None

    def look(when):
        p = pd.points
        if p.shape != want.shape or not np.allclose(p, want, atol=1e-9, rtol=0):
            return bad(f"{when}: points {p.tolist()} instead of {want.tolist()}")
        if want.size:
            p[:] = -1
            if not np.allclose(pd.points, want, atol=1e-9, rtol=0):
                return bad(f"{when}: the points can be changed from outside")
        for name, w in (("wind_speeds", sorted(set(pd.points[:, 0]))), ("wind_angles", sorted(set(pd.points[:, 1]))), ("boat_speeds", list(pd.points[:, 2]))):
            if list(getattr(pd, name)) != w:
                return bad(f"{when}: {name} {getattr(pd, name)} instead of {w}")
        return query(when)

    def query(when):
        pts = pd.points
        for _ in range(2):
            if len(pts) and rng.random() < 0.5:
                ws, wa = (float(x) for x in pts[rng.randrange(len(pts))][:2])
                if rng.random() < 0.3:
                    ws += rng.choice((0, 0.25, 1e-9))
            else:
                ws, wa = num(rng, 0.5, 20), num(rng, 0, 359)
            shift = rng.choice((0, 0, 360, -360)) if wa == round(wa) else 0
            spy = Spy()
            ball = rng.choice((Ball(radius=rng.choice((1, 5, 60))), Ball(radius=40, norm=lambda x: np.max(np.abs(x), axis=1)), ScalingBall(min_pts=1)))
            if isinstance(ball, ScalingBall) and len(pts) < 3:
                ball = Ball(radius=3)
            if ws <= 0:
                ok, e = attempt(pd, ws, wa, spy, ball)
                if ok or not isinstance(e, ValueError):
                    return bad(f"{when}: wind speed {ws} is not rejected: {e!r}")
                continue
            got = pd(ws, wa + shift, spy, ball)
            here = [p[2] for p in pts if p[0] == ws and p[1] == wa]
            if here:
                if got not in here or spy.got:
                    return bad(f"{when}: {got} at ({ws}, {wa + shift}), where the points have {here}")
                continue
            if got != 7.25 or len(spy.got) != 1:
                return bad(f"{when}: {got} is not the value of the interpolator")
            d, w, g = spy.got[0]
            near = pts[ball.is_contained_in(pts[:, :2] - np.array([ws, wa]))]
            if d.shape != near.shape or not np.array_equal(d, near) or not np.array_equal(w, np.ones(len(near))) or not np.allclose(g, [ws, wa]):
                return bad(f"{when}: interpolation at {g} from {d.tolist()} with weights {w.tolist()} instead of {near.tolist()} at {(ws, wa)}")
        return None

    b = look("at first")
    if b:
        return b
    for i, op in enumerate(case["ops"]):
        new = arr(op["pts"], op["seq"])
        before = np.array(new)
        low = before[:, 0].min()
        if op["apparent"] and low < 0:
            continue
        if op["apparent"]:
            more = convert_apparent_wind_to_true(np.asarray(before, float))
            if not np.isfinite(more).all():
                continue
        ok, e = attempt(pd.add_points, new, op["apparent"]) if rng.random() < 0.5 else attempt(pd.add_points, new, apparent_wind=op["apparent"])
        if not np.array_equal(before, np.array(new)):
            return bad(f"the added points were changed: {before.tolist()} to {np.array(new).tolist()}")
        if not op["apparent"] and low <= 0:
            if ok or not isinstance(e, ValueError):
                return bad(f"points with wind speed {low} are not rejected: {e!r}")
        else:
            if not ok:
                return bad(f"adding {before.tolist()} raised {e!r}")
            want = np.vstack((want, more if op["apparent"] else held(op["pts"], op["seq"], False)))
        b = look(f"after step {i}")
        if b:
            return b
    return None
