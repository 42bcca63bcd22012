import numpy as np

from pyvc.harness import Raised, contract
from pyvc.terms import *
from pyvc.values import Seq, S
from pyvc.z3load import z3
from contracts.common import flat, table, val
P = "hrosailing.polardiagram."
BASE, TABLE, CLOUD, CURVE, SAILS = (P + m for m in ("_basepolardiagram.PolarDiagram", "_polardiagramtable.PolarDiagramTable",
                                                    "_polardiagrampointcloud.PolarDiagramPointcloud", "_polardiagramcurve.PolarDiagramCurve",
                                                    "_polardiagrammultisails.PolarDiagramMultiSails"))


def speeds(c, n):
    w = c.fun("w", INT, REAL)
    return c.list_of(n, lambda k: w(zi(k))), w


def prediction(c, cls):
    "__call__ by its contract: a value for every wind (and interpolator)"
    g = z3.Function("prediction", REAL, REAL, REAL)
    seen = []

    def call(self, ws, wa, *rest, **kw):
        seen.append((rest, kw))
        if hasattr(wa, "shape") and wa.ndim == 1:
            f = wa.snap()
            return c.arr_of(wa.shape, lambda idx: g(zr(ws), zr(f(idx))))
        return g(zr(val(ws)), zr(val(wa)))

    c.by_contract(cls + ".__call__", call)
    return g, seen


def three_rows(c, r, K):
    N, fn, items = c.it.seq(r)
    c.ensure("one slice per wind speed", zi(N) == K)
    k = c.skolem(K)
    s = fn(k)
    c.ensure("three rows", zb(s.ndim == 2))
    c.ensure("three rows", zi(s.shape[0]) == 3)
    return k, s


@contract("C09", [BASE + "._get_windspeeds"])
def given_wind_speeds(c):
    "the wind speeds as they were given, in their order; a single one is one; the default if there are none"
    n = c.int("n", lo=1)
    l, w = speeds(c, n)
    t, m, _, f, _, _ = table(c)
    for x in (l, c.arr_of((n,), lambda idx: w(zi(idx[0])))):
        r = c.returns(c.method(t, "_get_windspeeds", x, None))
        N, fn, items = c.it.seq(r)
        c.ensure("as many", zi(N) == n)
        k = c.skolem(n)
        c.ensure("the given wind speeds", zr(fn(k)) == w(k))
    N, fn, items = c.it.seq(c.returns(c.method(t, "_get_windspeeds", None, None)))
    k = c.skolem(m)
    c.ensure("default: the wind speeds of the table", z3.And(zi(N) == m, zr(fn(k)) == f((k,))))
    x = c.real("single")
    for v in (x, c.int("whole")):
        N, fn, items = c.it.seq(c.returns(c.method(t, "_get_windspeeds", v, None)))
        c.ensure("a single wind speed", z3.And(zi(N) == 1, zr(fn(0)) == zr(v)))


@contract("C09", [BASE + "._get_windspeeds"])
def wind_speeds_with_steps(c):
    "n_steps evenly spaced wind speeds between any two neighbours (two to four given wind speeds, any number of steps)"
    for K in (2, 3, 4):
        ws = [c.real(f"w{i}_{K}") for i in range(K)]
        n = c.int(f"steps_{K}", lo=1)
        t, *_ = table(c, f"t{K}")
        N, fn, items = c.it.seq(c.returns(c.method(t, "_get_windspeeds", c.plist(list(ws)), n)))
        c.ensure("as many", zi(N) == (K - 1) * (n + 1) + 1)
        j = c.int(f"j_{K}", lo=0)
        c.require(j <= n)
        for i in range(K - 1):
            c.ensure(f"steps from wind speed {i}", zr(fn(simp(i * (n + 1) + j))) == ws[i] + (ws[i + 1] - ws[i]) * z3.ToReal(j) / z3.ToReal(n + 1))
        c.ensure("the last wind speed", zr(fn(simp((K - 1) * (n + 1)))) == ws[-1])


@contract("C09", [TABLE + ".ws_to_slices"])
def table_slices(c):
    """the wind speed, every wind angle and the entry of the table there or, at other wind speeds, the prediction by the interpolator"""
    t, m, n, f, g, h = table(c)
    K = c.int("K", lo=1)
    l, w = speeds(c, K)
    p, seen = prediction(c, TABLE)
    it = c.opaque_fn("interpolator", lambda *a: None)
    k, s = three_rows(c, c.returns(c.method(t, "ws_to_slices", l, interpolator=it)), K)
    c.ensure("as many columns as wind angles", zi(s.shape[1]) == n)
    c.ensure("with the given interpolator", zb(all(a == (it,) and not kw or not a and list(kw) == ["interpolator"] and kw["interpolator"] is it for a, kw in seen)))
    i, j = c.skolem(n), c.skolem(m)
    c.ensure("wind speed", s.get(0, i) == w(k))
    c.ensure("wind angle", s.get(1, i) == g((i,)))
    c.ensure("boat speed of the table", z3.Implies(f((j,)) == w(k), s.get(2, i) == h((i, j))))
    c.require_all(m, lambda x: f((x,)) != w(k))
    c.ensure("a prediction at wind speeds not in the table", s.get(2, i) == p(w(k), g((i,))))


@contract("C09", [CURVE + ".ws_to_slices"])
def curve_slices(c):
    "the wind speed, angles evenly from 0 to 360 degrees, and the prediction there, in the unit of the curve"
    K, R = c.int("K", lo=1), c.int("R", lo=2)
    l, w = speeds(c, K)
    p, seen = prediction(c, CURVE)
    for rad in (False, True):
        pd = c.obj(CURVE, _f=None, _params=(), _rad=rad)
        k, s = three_rows(c, c.returns(c.method(pd, "ws_to_slices", l, wa_resolution=R)), K)
        c.ensure("as many columns as angles", zi(s.shape[1]) == R)
        i = c.skolem(R)
        a = 360 * z3.ToReal(i) / z3.ToReal(R - 1)
        c.ensure("wind speed", s.get(0, i) == w(k))
        c.ensure("wind angle", s.get(1, i) == a)
        x = s.get(1, i)
        c.ensure("boat speed", s.get(2, i) == p(w(k), c.returns(c.call("contracts.c09.radians", x)) if rad else x))


def radians(x):
    return np.deg2rad(x)


@contract("C09", [CLOUD + ".ws_to_slices"])
def cloud_slices(c):
    "with an interpolator: angles evenly from 0 to 360 degrees and the predictions there"
    K, R, n = c.int("K", lo=1), c.int("R", lo=2), c.int("n", lo=1)
    l, w = speeds(c, K)
    p, seen = prediction(c, CLOUD)
    it = c.opaque_fn("interpolator", lambda *a: None)
    pd = c.obj(CLOUD, _points=c.arr("points", (n, 3)))
    k, s = three_rows(c, c.returns(c.method(pd, "ws_to_slices", l, wa_resolution=R, interpolator=it)), K)
    c.ensure("as many columns as angles", zi(s.shape[1]) == R)
    c.ensure("with the given interpolator", zb(all(a == (it,) and not kw or not a and list(kw) == ["interpolator"] and kw["interpolator"] is it for a, kw in seen)))
    i = c.skolem(R)
    c.ensure("wind speed", s.get(0, i) == w(k))
    c.ensure("wind angle", s.get(1, i) == 360 * z3.ToReal(i) / z3.ToReal(R - 1))
    c.ensure("boat speed", s.get(2, i) == p(w(k), s.get(1, i)))


@contract("C09", [CLOUD + ".ws_to_slices"])
def points_near_the_wind_speed(c):
    "without an interpolator: exactly the points of the cloud whose wind speed is within the range"
    n, ran, w = c.int("n", lo=1), c.real("range"), c.real("w")
    a = c.arr("points", (n, 3))
    f = a.snap()
    pd = c.obj(CLOUD, _points=a)
    r = c.returns(c.method(pd, "ws_to_slices", c.plist([w]), range_=ran))
    N, fn, items = c.it.seq(r)
    s = fn(0)
    c.ensure("one slice of three rows", z3.And(zi(N) == 1, zb(s.ndim == 2), zi(s.shape[0]) == 3))
    near = lambda k: z3.And(f((k, 0)) - w <= ran, w - f((k, 0)) <= ran)
    x = c.skolem(n)
    M = zi(s.shape[1])
    if c.branch(M == 0):
        c.ensure("no point is near", z3.Not(near(x)))
        return
    j = c.skolem(M)
    same = lambda k, q: z3.And(*[f((k, d)) == s.get(d, q) for d in range(3)])
    c.member("every column is a point that is near", n, lambda k: z3.And(near(k), same(k, j)), hints=[j], ghosts=True)
    if c.branch(near(x)):
        c.member("every point that is near is a column", M, lambda q: same(x, q), hints=[x], ghosts=True)


@contract("C09", [SAILS + ".ws_to_slices", SAILS + ".get_slice_info"])
def slices_of_sails(c):
    "the slices of the sails side by side, and the name of the sail for every column (one to three sails, slices of any length)"
    for n in (1, 2, 3):
        K = c.int("K", lo=1)
        l, w = speeds(c, K)
        lens = [c.fun(f"len{i}_{n}", INT, INT) for i in range(n)]
        vals = [c.fun(f"slice{i}_{n}", INT, INT, INT, REAL) for i in range(n)]
        c.require_all(K, lambda k: z3.And(*[g(k) >= 0 for g in lens]))
        tables = [c.obj("contracts.c09.Sail", given=c.list_of(K, lambda k, i=i: c.arr_of((3, lens[i](zi(k))), lambda idx: vals[i](zi(k), zi(idx[0]), zi(idx[1])))))
                  for i in range(n)]
        pd = c.returns(c.new(SAILS, c.plist(tables), c.plist([f"s{i}" for i in range(n)])))
        k, s = three_rows(c, c.returns(c.method(pd, "ws_to_slices", l)), K)
        c.ensure("as many columns as in the slices of all sails", zi(s.shape[1]) == z3.Sum([g(k) for g in lens]) if n > 1 else zi(s.shape[1]) == lens[0](k))
        at = zi(0)
        r = c.int("row", lo=0)
        c.require(r < 3)
        for i in range(n):
            q = c.int("column", lo=0)
            c.require(q < lens[i](k))
            c.ensure(f"slice of sail {i}", s.get(r, simp(at + q)) == vals[i](k, r, q))
            at = at + lens[i](k)


class Sail:
    def ws_to_slices(self, ws, **kwargs):
        return self.given


@contract("C09", [BASE + ".get_points", BASE + "._get_wind"])
def points(c):
    "every wind record with the prediction there, in the given order, for both orientations of an array"
    n = c.int("n", lo=3)
    t, *_ = table(c)
    p, seen = prediction(c, TABLE)
    w = c.fun("wind", INT, INT, REAL)
    for flip in (False, True):
        a = c.arr_of((2, n) if flip else (n, 2), lambda idx: w(zi(idx[1]), zi(idx[0])) if flip else w(zi(idx[0]), zi(idx[1])))
        r = c.returns(c.method(t, "get_points", a))
        c.shape_is("a row of three for every record", r, (n, 3))
        i = c.skolem(n)
        c.ensure("wind speed", r.get(i, 0) == w(i, 0))
        c.ensure("wind angle", r.get(i, 1) == w(i, 1))
        c.ensure("boat speed", r.get(i, 2) == p(w(i, 0), w(i, 1)))


@contract("C09", [BASE + ".get_points", BASE + "._get_wind", TABLE + ".default_points"])
def points_of_a_grid(c):
    "all combinations of two resolutions; by default all entries of the table"
    t, m, n, f, g, h = table(c)
    p, seen = prediction(c, TABLE)
    N, M = c.int("N", lo=1), c.int("M", lo=1)
    ws, wa = c.arr("ws", (M,)), c.arr("wa", (N,))
    u, v = ws.snap(), wa.snap()
    for (r, M, N, u, v, b) in ((c.returns(c.method(t, "get_points", (ws, wa))), M, N, u, v, lambda i, j: p(u((j,)), v((i,)))),
                               (c.returns(c.method(t, "get_points")), m, n, f, g, lambda i, j: h((i, j)))):
        i, j = c.skolem(N), c.skolem(M)
        flat(c, i, N, j, M)
        c.shape_is("a row of three for every combination", r, (N * M, 3))
        q = i * M + j
        c.ensure("wind speed", r.get(q, 0) == u((j,)))
        c.ensure("wind angle", r.get(q, 1) == v((i,)))
        c.ensure("boat speed", r.get(q, 2) == b(i, j))
