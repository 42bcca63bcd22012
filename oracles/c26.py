"""isochrone and cost_cruise on random diagrams and weather models: in constant weather against distance / boat speed on the Mercator map computed here;
in changing weather the travel time along the returned way is integrated here with small steps; without boat speed there is no progress"""
import datetime as dt
import math

from oracles.util import *
import hrosailing.polardiagram as pol
from hrosailing.cruising import cost_cruise, isochrone
from hrosailing.models import WeatherModel
from hrosailing.models.influencemodel import InfluenceModel

T0 = dt.datetime(2021, 3, 4, 5, 6)


def cases(rng, tier):
    for _ in range(260 if tier == "quick" else 4000):
        yield {"what": pick(rng, "isochrone", "isochrone", "cost"), "weather": pick(rng, "constant", "constant", "later", "place", "time", "calm"), "seed": rng.randrange(10**6),
               "im": rng.random() < 0.3, "dens": rng.random() < 0.6, "abs": rng.random() < 0.4}


class Weather(WeatherModel):
    def __init__(self, kind, ws, frm, slope, place):
        self.kind, self.ws, self.frm, self.slope, self.place = kind, ws, frm, slope, place
        self.until = T0 + dt.timedelta(hours=1000)
        self.asked = []

    def speed(self, t, lat, lon):
        if self.kind == "place":
            return self.ws * (1.5 + math.sin(self.slope * ((lat - self.place[0]) * 2 + (lon - self.place[1]))))
        if self.kind == "time":
            return self.ws * (1.5 + math.sin(self.slope * (t - T0).total_seconds() / 3600))
        if self.kind == "later" and t > self.until:
            return self.ws * 2.5
        return self.ws

    def get_weather(self, p):
        t, lat, lon = p
        self.asked.append((t, lat, lon))
        w = self.speed(t, lat, lon)
        r = math.radians(self.frm)
        return {"UGRID": -w * math.sin(r), "VGRID": -w * math.cos(r)}


class Half(InfluenceModel):
    "a boat that makes half of the speed of its diagram"

    def remove_influence(self, data):
        raise NotImplementedError

    def add_influence(self, pd, data):
        out = []
        for u, v, h in zip(data["UGRID"], data["VGRID"], data["HDT"]):
            ws, frm = math.hypot(u, v), math.degrees(math.atan2(-u, -v))
            out.append(speed(pd, ws, frm, h) / 2)
        return out

    def fit(self, data):
        pass


def speed(pd, ws, frm, hdt):
    return float(np.asarray(pd(ws, (hdt - frm) % 360)).ravel()[0])


def mercator(p, ref):
    la = math.radians(p[0])
    k = 60 * math.cos(math.radians(ref))
    return np.array([k * p[1], k * math.degrees(math.log(math.tan(math.pi / 4 + la / 2)))])


def inverse(q, ref):
    k = 60 * math.cos(math.radians(ref))
    return math.degrees(2 * math.atan(math.exp(math.radians(q[1] / k))) - math.pi / 2), q[0] / k


def run(case):
    import random
    rng = random.Random(case["seed"])
    a, b = rng.uniform(0.3, 0.7), rng.uniform(0.05, 0.2)
    pd = pol.PolarDiagramCurve(lambda ws, wa, a, b: a * np.asarray(ws) * (1 - b * np.cos(np.deg2rad(wa)) - b * np.cos(2 * np.deg2rad(wa) + 1)), a, b)
    start = (rng.uniform(-65, 65), rng.uniform(-170, 170))
    frm, ws = num(rng, 0, 359), 0.0 if case["weather"] == "calm" else rng.uniform(4, 20)
    slope = rng.uniform(0.2, 1)
    w = Weather(case["weather"], ws, frm, slope, start)
    im = Half() if case["im"] else None

    def v(t, lat, lon, hdt):
        return speed(pd, w.speed(t, lat, lon), frm, hdt) * (0.5 if im else 1)
    changing = case["weather"] in ("place", "time")
    if case["what"] == "isochrone":
        d = num(rng, 0, 359, (0.0, 90.0, 180.0, 270.0))
        T = rng.choice((1, 0.5, 3, 7.25))
        nodes = rng.choice((100, 150)) if not changing else 300
        w.until = T0 + dt.timedelta(hours=T)
        end, s = isochrone(pd, start, T0, d, w, total_time=T, min_nodes=nodes, im=im)
        s = float(np.asarray(s).ravel()[0])
        r = math.radians(d)
        q = mercator(start, start[0]) + s * np.array([math.sin(r), math.cos(r)])
        want = inverse(q, start[0])
        if not close([float(np.asarray(x).ravel()[0]) for x in end], want, 1e-6):
            return bad(f"end {end}, but {s} miles in direction {d} from {start} lead to {want}")
        if case["weather"] == "calm":
            return None if 0 <= s <= T / 500 else bad(f"{s} miles without boat speed")
        if not changing:
            if not close(s, T * v(T0, *start, d), 1e-6):
                return bad(f"{s} miles in {T} h at {v(T0, *start, d)} knots (direction {d}, wind {ws} from {frm})")
            return None
        n = 4000
        t, h = 0.0, s / n
        for i in range(n):
            p = inverse(mercator(start, start[0]) + (i + 0.5) * h * np.array([math.sin(r), math.cos(r)]), start[0])
            t += h / v(T0 + dt.timedelta(hours=t), *p, d)
        if abs(t - T) > 0.03 * T:
            return bad(f"{s} miles take {t} h, not {T} (direction {d})")
        return None
    end = (start[0] + rng.uniform(-1.5, 1.5), start[1] + rng.uniform(-1.5, 1.5))
    if rng.random() < 0.2:
        end = (start[0], end[1])
    elif rng.random() < 0.2:
        end = (end[0], start[1])
    ref = (start[0] + end[0]) / 2
    p0, p1 = mercator(start, ref), mercator(end, ref)
    dist = float(np.linalg.norm(p1 - p0))
    if dist < 1:
        return None
    hdt = math.degrees(math.atan2(*(p1 - p0))) % 360
    seen, dens = [], []
    kw = {}
    c = rng.uniform(0.5, 3)
    if case["abs"]:
        kw["cost_fun_abs"] = lambda t, s: seen.append((float(t), float(s))) or 2 * t + s
    if case["dens"]:
        kw["cost_fun_dens"] = lambda t, la, lo, wm: dens.append((t, float(la), float(lo), wm)) or c * (1 + (t - T0).total_seconds() / 36000)
    got = float(np.asarray(cost_cruise(pd, start, end, T0, w, im=im, **kw, rtol=1e-5, max_step=dist / 50)).ravel()[0])
    if case["weather"] == "calm":
        t = 1000 * dist
        if case["abs"] or case["dens"]:
            return None
        return None if got > 100 * dist else bad(f"{got} h for {dist} miles without boat speed")
    n = 2000
    t, h = 0.0, dist / n
    cost = 0.0
    for i in range(n):
        p = inverse(p0 + (i + 0.5) / n * (p1 - p0), ref)
        dt1 = h / v(T0 + dt.timedelta(hours=t), *p, hdt)
        cost += h * c * (1 + (t + dt1 / 2) / 10)
        t += dt1
    want = (2 * t + dist if case["abs"] else t) + (cost if case["dens"] else 0)
    if abs(got - want) > (0.01 if changing else 1e-3) * abs(want):
        return bad(f"cost {got}, expected {want}: {dist} miles, {t} h, heading {hdt}")
    if seen and (abs(seen[-1][0] - t) > 0.01 * t or not close(seen[-1][1], dist, 1e-6)):
        return bad(f"the absolute cost is asked for {seen[-1]} instead of {(t, dist)}")
    for tt, la, lo, wm in dens:
        f = (tt - T0).total_seconds() / 3600 / t
        q = mercator((la, lo), ref) - p0
        e = (p1 - p0) / dist
        if wm is not w or not -1e-6 <= f <= 1.02 or abs(q[0] * e[1] - q[1] * e[0]) > 1e-4 or not -1e-6 <= float(q @ e) / dist <= 1 + 1e-6:
            return bad(f"the cost density is asked for {tt} at {(la, lo)}, off the way from {start} to {end}")
        if not changing and abs(f - float(q @ e) / dist) > 1e-3:
            return bad(f"the cost density is asked for {tt} at {(la, lo)}, but the boat is there at another time")
    return None
