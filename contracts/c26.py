from datetime import timedelta

import numpy as np
import scipy.integrate

from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import DT, S, Arr, PDict
from pyvc.npmodel import build
from pyvc.interp import PyExc
from pyvc.z3load import z3
B = "hrosailing.cruising.basics."
ASSUMED = "arsinh and sinh, arctan and tan (between the poles) are inverse to each other"


class Thing:
    pass


def scale(lat_mp):
    return 60 * F_COS(zr(ops.deg2rad(zr(lat_mp))))


def stretched(lat):
    return zr(ops.rad2deg(F_ASINH(F_TAN(zr(ops.deg2rad(zr(lat)))))))


def latitude(c, name):
    x = c.real(name)
    c.require(z3.And(x > -90, x < 90))
    return x


def between_the_poles(c, *lats):
    for la in lats:
        a = zr(ops.deg2rad(la))
        c.assert_("between the poles", z3.And(a > -PI / 2, a < PI / 2))
        c.assert_("positive cosine", F_COS(a) > 0)


@contract("C26", [B + "_mercator_proj", B + "_inverse_mercator_proj"])
def mercator(c):
    "a place is projected to longitude and stretched latitude in sea miles of the reference latitude, and comes back from its projection"
    S.assumed.add(ASSUMED)
    ref, lat, lon = latitude(c, "ref"), latitude(c, "lat"), c.real("lon")
    between_the_poles(c, ref, lat)
    p = c.returns(c.call(B + "_mercator_proj", (lat, lon), ref))
    c.shape_is("shape", p, (2,))
    c.ensure("east", zr(p.get(0)) == scale(ref) * lon)
    c.ensure("north", zr(p.get(1)) == scale(ref) * stretched(lat))
    q = c.returns(c.call(B + "_inverse_mercator_proj", p, ref))
    c.ensure("longitude", zr(q[1]) == lon)
    c.ensure("latitude", zr(q[0]) == lat)


@contract("C26", [B + "_inverse_mercator_proj", B + "_mercator_proj"])
def mercator_onto(c):
    "every point of the map is the projection of its place, between the poles"
    S.assumed.add(ASSUMED)
    ref, x, y = latitude(c, "ref"), c.real("x"), c.real("y")
    between_the_poles(c, ref)
    q = c.returns(c.call(B + "_inverse_mercator_proj", c.arr_of((2,), lambda ix: z3.If(zi(ix[0]) == 0, x, y)), ref))
    lat, lon = zr(q[0]), zr(q[1])
    c.ensure("longitude", scale(ref) * lon == x)
    c.ensure("between the poles", z3.And(lat > -90, lat < 90))
    k = zr(ops.deg2rad(y / scale(ref)))
    c.assert_("tangent", F_TAN(zr(ops.deg2rad(lat))) == F_SINH(k))


def wind_angle(c, got, u, v, hdt, w):
    "the angle is taken from the heading to where the wind comes from"
    frm = zr(hdt) - zr(got)
    r = ops.deg2rad(frm)
    for fact in ops.whole_turns(frm):
        S.assume(fact)
    c.ensure("range", z3.And(zr(got) >= 0, zr(got) < 360))
    c.ensure("comes from the east", u == -w * zr(ops.trig("sin")(r)))
    c.ensure("comes from the north", v == -w * zr(ops.trig("cos")(r)))


@contract("C26", [B + "_uvgrid_to_tw"])
def wind(c):
    "speed and angle to the heading of the wind with the given eastward and northward speeds"
    u, v, hdt = c.real("u"), c.real("v"), c.real("hdt")
    w, a = c.returns(c.call(B + "_uvgrid_to_tw", u, v, hdt))
    w = zr(w)
    c.ensure("speed", z3.And(w >= 0, w * w == u * u + v * v))
    wind_angle(c, a, u, v, hdt, w)


def the_time(c, t, start, hours):
    c.ensure("asked at the time", zr(t.t) == zr(start) + 3600 * zr(hours))


@contract("C26", [B + "_get_inverse_bsp"])
def hours_per_mile(c):
    "the time for a mile at a place and time of the way: 1 / boat speed in the weather there and then; 1000 outside of the weather data and without boat speed"
    ref, x, y, hdt, t0, t = latitude(c, "ref"), c.real("x"), c.real("y"), c.real("hdt"), c.real("t0"), c.real("t")
    lat, lon, u, v, bsp = c.real("lat"), c.real("lon"), c.real("u"), c.real("v"), c.real("bsp")
    tws, twa = c.real("tws"), c.real("twa")
    pos = c.arr_of((2,), lambda ix: z3.If(zi(ix[0]) == 0, x, y))
    asked = []

    def place(p, lat_mp):
        c.ensure("place of the point", z3.And(zr(p.get(0)) == x, zr(p.get(1)) == y, zr(lat_mp) == ref))
        return lat, lon

    def true_wind(a, b, h):
        c.ensure("wind of the weather", z3.And(zr(a) == u, zr(b) == v, zr(h) == hdt))
        return tws, twa

    outside = c.bool("outside")

    def get_weather(it, args, kw):
        when, la, lo = it.seq(args[0])[2]
        the_time(c, when, t0, t)
        c.ensure("asked at the place", z3.And(zr(la) == lat, zr(lo) == lon))
        if S.branch(outside):
            raise PyExc(ValueError, ("outside",))
        return PDict({"UGRID": u, "VGRID": v})

    def boat(it, args, kw):
        c.ensure("speed of the diagram in this wind", z3.And(zr(args[0]) == tws, zr(args[1]) == twa))
        return bsp

    pd = c.opaque_fn("pd", boat)

    def add_influence(it, args, kw):
        c.ensure("diagram", zb(args[0] is pd))
        d = args[1].d
        c.ensure("weather", zb(set(d) == {"UGRID", "VGRID", "HDT"}))
        for key, want in (("UGRID", u), ("VGRID", v), ("HDT", hdt)):
            c.ensure("one " + key, z3.And(zi(len(it.seq(d[key])[2])) == 1, zr(it.seq(d[key])[2][0]) == want))
        return c.list_of(1, lambda i: bsp)

    c.by_contract(B + "_inverse_mercator_proj", place)
    c.by_contract(B + "_uvgrid_to_tw", true_wind)
    wm = c.obj("contracts.c26.Thing", get_weather=c.opaque_fn("get_weather", get_weather))
    im = c.obj("contracts.c26.Thing", add_influence=c.opaque_fn("add_influence", add_influence)) if c.branch(c.bool("influence")) else None
    r = zr(c.returns(c.call(B + "_get_inverse_bsp", pd, pos, hdt, t, ref, DT(t0), wm, im)))
    none = z3.Or(outside, bsp == 0)
    c.ensure("no progress", z3.Implies(none, r == 1000))
    c.ensure("hours for a mile", z3.Implies(z3.Not(none), r * bsp == 1))


def projections(c):
    "the projections are used by their contracts"
    e, n = c.fun("east", REAL, REAL, REAL, REAL), c.fun("north", REAL, REAL, REAL, REAL)
    la, lo = c.fun("lat", REAL, REAL, REAL, REAL), c.fun("lon", REAL, REAL, REAL, REAL)

    def there(p, ref):
        a, b = zr(c.it.seq(p)[2][0]), zr(c.it.seq(p)[2][1])
        return c.arr_of((2,), lambda ix: z3.If(zi(ix[0]) == 0, e(a, b, zr(ref)), n(a, b, zr(ref))))

    def back(p, ref):
        a, b = zr(p.get(0)), zr(p.get(1))
        return la(a, b, zr(ref)), lo(a, b, zr(ref))

    c.by_contract(B + "_mercator_proj", there)
    c.by_contract(B + "_inverse_mercator_proj", back)
    return e, n, la, lo


@contract("C26", [B + "isochrone"])
def isochrone(c):
    """the way leads in the direction from the start for the time: whatever the weather, it is as long as the time at a speed between the
    slowest and the fastest of the way, in constant weather exactly time * boat speed; it ends at the place that far on the map"""
    e, n, la, lo = projections(c)
    lat, lon, d, t0, T, nodes = latitude(c, "lat"), c.real("lon"), c.real("direction"), c.real("t0"), c.real("T"), c.int("nodes", lo=1)
    slow, fast = c.real("slow"), c.real("fast")
    c.require(z3.And(T > 0, fast > 0, fast <= slow))
    things = [c.obj("contracts.c26.Thing") for _ in range(3)]
    pd, wm, im = things
    arc = zr(ops.deg2rad(d))
    rest = PI / 2 - arc
    S.assume(z3.And(zr(ops.trig("cos")(rest)) == F_SIN(arc), zr(ops.trig("sin")(rest)) == F_COS(arc)))
    x0, y0 = e(lat, lon, lat), n(lat, lon, lat)
    hours = c.fun("hours", REAL, REAL, REAL, REAL)

    def inverse(pd, pos, hdt, t, lat_mp, start_time, wm, im):
        c.ensure("weather, boat and direction of the way", z3.And(zb([pd, wm, im] == things), zr(hdt) == d, zr(lat_mp) == lat, zr(start_time.t) == t0))
        x, y = zr(pos.get(0)) - x0, zr(pos.get(1)) - y0
        c.ensure("place on the way", x * F_COS(arc) == y * F_SIN(arc))
        r = hours(zr(pos.get(0)), zr(pos.get(1)), zr(t))
        S.assume(z3.And(r >= fast, r <= slow))
        return r

    c.by_contract(B + "_get_inverse_bsp", inverse)

    def make(v, i):
        v.steps, v.s, v.t = S.fresh("steps", INT), S.fresh("s"), S.fresh("t")
        v.step_size, v.der = S.fresh("step_size"), S.fresh("der")

    def inv(v, i):
        s, t, h, der, k = zr(v.s), zr(v.t), zr(v.step_size), zr(v.der), zi(v.steps)
        yield "steps", z3.And(k >= 0, h > 0)
        yield "at the start", z3.Implies(k == 0, z3.And(s == 0, t == 0))
        yield "on the way", z3.Implies(k > 0, z3.And(der >= fast, der <= slow, t - der * h < T, s >= h))
        yield "at most", z3.Implies(k > 0, t - der * h <= slow * (s - h))
        yield "at least", z3.Implies(k > 0, t - der * h >= fast * (s - h))

    c.invariant(B + "isochrone", 0, make, inv)
    end, s = c.returns(c.call(B + "isochrone", pd, (lat, lon), DT(t0), d, wm, total_time=T, min_nodes=nodes, im=im))
    s = zr(s)
    c.ensure("not further than at the greatest speed", s * fast <= T)
    c.ensure("not less than at the least speed", s * slow >= T)
    x, y = x0 + s * F_SIN(arc), y0 + s * F_COS(arc)
    c.ensure("latitude of the end", zr(end[0]) == la(x, y, lat))
    c.ensure("longitude of the end", zr(end[1]) == lo(x, y, lat))


@contract("C26", [B + "cost_cruise"])
def cruise_cost(c):
    """the boat goes straight from start to end on the map, in the direction of the way; the differential equation is that of the time needed
    there and then; the cost is that of the time and distance of its solution, plus the integral of the density at the places and times"""
    e, n, la, lo = projections(c)
    a, b = (latitude(c, "lat0"), c.real("lon0")), (latitude(c, "lat1"), c.real("lon1"))
    t0, m = c.real("t0"), c.int("nodes", lo=1)
    things = [c.obj("contracts.c26.Thing") for _ in range(3)]
    pd, wm, im = things
    ref = (a[0] + b[0]) / 2
    x0, y0 = e(a[0], a[1], ref), n(a[0], a[1], ref)
    dx, dy = e(b[0], b[1], ref) - x0, n(b[0], b[1], ref) - y0
    dist = F_SQRT(dx * dx + dy * dy)
    c.require(dx * dx + dy * dy > 0)
    hours = c.fun("hours", REAL, REAL, REAL, REAL)
    S.assume(z3.And(dist > 0, dist * dist == dx * dx + dy * dy))

    def inverse(pd, pos, hdt, t, lat_mp, start_time, wm, im):
        c.ensure("weather and boat of the way", z3.And(zb([pd, wm, im] == things), zr(lat_mp) == ref, zr(start_time.t) == t0))
        r = ops.deg2rad(zr(hdt))
        for fact in ops.whole_turns(hdt):
            S.assume(fact)
        c.ensure("heading to the east", dist * zr(ops.trig("sin")(r)) == dx)
        c.ensure("heading to the north", dist * zr(ops.trig("cos")(r)) == dy)
        return hours(zr(pos.get(0)), zr(pos.get(1)), zr(t))

    c.by_contract(B + "_get_inverse_bsp", inverse)
    times, ways = c.fun("time_at", INT, REAL), c.fun("way_at", INT, REAL)
    tol = c.real("tolerance")

    def on_the_way(s):
        return x0 + s / dist * dx, y0 + s / dist * dy

    def solve(fun, t_span, y0, **kw):
        c.ensure("from the start to the end", z3.And(zr(t_span[0]) == 0, zr(t_span[1]) == dist))
        c.ensure("no time at the start", z3.And(zi(y0.shape[0]) == 1, zr(y0.get(0)) == 0))
        c.ensure("settings of the solver", zb(set(kw) == {"rtol"} and kw["rtol"] is tol))
        s, t = c.real("s"), c.real("t")
        r = c.returns(c.it.call(fun, [s, c.arr_of((1,), lambda ix: t)], {}))
        x, y = on_the_way(s)
        c.ensure("time for a mile at this place and time", zr(r.get(0) if isinstance(r, Arr) else r) == hours(x, y, t))
        return c.obj("contracts.c26.Thing", t=c.arr_of((m,), lambda ix: ways(zi(ix[0]))), y=c.arr_of((1, m), lambda ix: times(zi(ix[1]))))

    c.external(scipy.integrate.solve_ivp, "scipy.integrate.solve_ivp solves the initial value problem", solve)
    absolute, total = c.fun("absolute", REAL, REAL, REAL), c.real("integral")
    dens = c.fun("density", REAL, REAL, REAL, REAL)
    kw = {"rtol": tol}
    own = c.branch(c.bool("absolute cost"))
    if own:
        kw["cost_fun_abs"] = c.opaque_fn("cost_fun_abs", lambda it, args, kw: absolute(zr(args[0]), zr(args[1])))
    dense = c.branch(c.bool("cost density"))
    if dense:
        def density(it, args, kw):
            c.ensure("weather for the density", zb(args[3] is wm))
            return dens(zr(args[0].t), zr(args[1]), zr(args[2]))

        def integral(it, args, kw):
            costs, s = args
            c.ensure("as many costs as nodes", z3.And(zi(it.seq(costs)[0]) == m, zi(it.seq(s)[0]) == m))
            k = c.skolem(m, "k")
            x, y = on_the_way(ways(k))
            c.ensure("nodes", zr(it.seq(s)[1](k)) == ways(k))
            c.ensure("cost at the node", zr(it.seq(costs)[1](k)) == dens(t0 + 3600 * times(k), la(x, y, ref), lo(x, y, ref)))
            return total

        kw["cost_fun_dens"] = c.opaque_fn("cost_fun_dens", density)
        kw["integration_method"] = c.opaque_fn("integration_method", integral)
    r = zr(c.returns(c.call(B + "cost_cruise", pd, a, b, DT(t0), wm, im=im, **kw)))
    t = times(m - 1)
    c.ensure("cost", r == (absolute(t, dist) if own else t) + (total if dense else 0))
