import numpy as np

from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
P = "hrosailing.polardiagram."
CLOUD, SAILS = P + "_polardiagrampointcloud.PolarDiagramPointcloud", P + "_polardiagrammultisails.PolarDiagramMultiSails"


class Spy:
    """an interpolator that records what it is given"""

    def interpolate(self, w_pts, grid_pt):
        self.data = w_pts.data
        self.weights = w_pts.weights
        self.pt = grid_pt
        return 7.5


class Diagram:
    def __call__(self, ws, wa):
        return self.f(ws, wa)


def given(c, name="points", n=None):
    n = c.int("n", lo=1) if n is None else n
    a = c.arr(name, (n, 3))
    return n, a, a.snap()


def turned(x):
    return zr(ops.mod(zr(x), 360))


def row(f, k):
    return [zr(f((k, 0))), turned(f((k, 1))), zr(f((k, 2)))]


def same(r, q, want):
    return z3.And(*[zr(r.get(q, d)) == want[d] for d in range(3)])


@contract("C34", [CLOUD + ".__init__", CLOUD + ".points"])
def construction(c):
    "the points of a cloud are exactly the given points with wind speeds of at least 0, with their wind angles modulo 360"
    n, a, f = given(c)
    pd = c.returns(c.new(CLOUD, a))
    r = c.returns(c.it.getattr(pd, "points"))
    c.unchanged("the given array", a, f)
    M = zi(r.shape[0])
    c.ensure("three columns", z3.And(zb(r.ndim == 2), zi(r.shape[1]) == 3))
    x = c.skolem(n)
    keep = lambda k: zr(f((k, 0))) >= 0
    if c.branch(M == 0):
        c.ensure("no wind speed of at least 0", z3.Not(keep(x)))
        return
    j = c.skolem(M)
    c.member("every point is a given one", n, lambda k: z3.And(keep(k), same(r, j, row(f, k))), hints=[j], ghosts=True)
    if c.branch(keep(x)):
        c.member("every given point is there", M, lambda q: same(r, q, row(f, x)), hints=[x], ghosts=True)


@contract("C34", [CLOUD + ".__init__", CLOUD + ".points", CLOUD + ".boat_speeds"])
def construction_in_order(c):
    "if no wind speed is negative, row by row; the points can not be changed from outside"
    n, a, f = given(c)
    c.require_all(n, lambda k: zr(f((k, 0))) >= 0)
    pd = c.returns(c.new(CLOUD, a))
    r = c.returns(c.it.getattr(pd, "points"))
    c.shape_is("shape", r, (n, 3))
    k = c.skolem(n)
    c.ensure("row", same(r, k, row(f, k)))
    b = c.returns(c.it.getattr(pd, "boat_speeds"))
    c.shape_is("boat speeds", b, (n,))
    c.ensure("boat speed", zr(b.get(k)) == zr(f((k, 2))))
    c.it.setitem(r, (c.skolem(n), c.skolem(3)), c.real("other"))
    again = c.returns(c.it.getattr(pd, "points"))
    c.ensure("row, after a change of the result", same(again, k, row(f, k)))


@contract("C34", [CLOUD + ".add_points", CLOUD + ".points"])
def added(c):
    "added points follow the points there are, with their wind angles modulo 360; wind speeds that are not positive are rejected and nothing changes"
    n, a, f = given(c)
    m, b, g = given(c, "new", c.int("m", lo=1))
    pd = c.obj(CLOUD, _points=a)
    r = c.method(pd, "add_points", b)
    low = c.skolem(m)
    rejected = c.branch(zr(g((low, 0))) <= 0)
    if rejected:
        c.raises(r, ValueError)
    else:
        c.require_all(m, lambda k: zr(g((k, 0))) > 0)
        c.returns(r)
    c.unchanged("the given array", b, g)
    p = c.returns(c.it.getattr(pd, "points"))
    c.shape_is("points", p, (n if rejected else n + m, 3))
    k = c.skolem(n)
    c.ensure("points that were there", z3.And(*[zr(p.get(k, d)) == zr(f((k, d))) for d in range(3)]))
    if not rejected:
        k = c.skolem(m)
        c.ensure("new points", same(p, n + k, row(g, k)))


@contract("C34", [CLOUD + ".__call__"])
def at_a_point(c):
    "at a wind speed and angle of the cloud: the boat speed of a point there"
    n, a, f = given(c)
    pd = c.obj(CLOUD, _points=a)
    ws, wa = c.real("ws"), c.real("wa")
    there = lambda k: z3.And(zr(f((k, 0))) == ws, zr(f((k, 1))) == turned(wa))
    x = c.skolem(n)
    c.require(z3.And(ws > 0, there(x)))
    nb = c.returns(c.new("hrosailing.processing.neighbourhood.Ball", radius=1, norm=c.norm_fn()))
    r = zr(c.returns(c.method(pd, "__call__", ws, wa, c.new(Spy), nb)))
    c.member("boat speed of a point there", n, lambda k: z3.And(there(k), zr(f((k, 2))) == r), hints=[z3.IntVal(0)], ghosts=True)


@contract("C34", [CLOUD + ".__call__"])
def elsewhere(c):
    "elsewhere: what the interpolator makes of exactly the points in the neighbourhood, all with weight 1, at the query"
    n, a, f = given(c)
    pd = c.obj(CLOUD, _points=a)
    ws, wa = c.real("ws"), c.real("wa")
    w = turned(wa)
    c.require_all(n, lambda k: z3.Or(zr(f((k, 0))) != ws, zr(f((k, 1))) != w))
    c.require(ws > 0)
    norm = c.norm_fn()
    rad = c.real("radius")
    c.require(rad > 0)
    nb = c.returns(c.new("hrosailing.processing.neighbourhood.Ball", radius=rad, norm=norm))
    spy = c.new(Spy)
    r = c.returns(c.method(pd, "__call__", ws, wa, spy, nb))
    c.prune()
    c.ensure("the interpolator's value is returned", zr(r) == 7.5)
    p = c.attr(spy, "pt")
    c.ensure("asked at the query", z3.And(zr(p.get(0)) == ws, zr(p.get(1)) == w))
    d, u = c.attr(spy, "data"), c.attr(spy, "weights")
    near = lambda k: norm.spec(zr(f((k, 0))) - ws, zr(f((k, 1))) - w) <= rad
    M = zi(d.shape[0])
    c.ensure("as many weights", zi(u.shape[0]) == M)
    x = c.skolem(n)
    if c.branch(M == 0):
        c.ensure("no point is near", z3.Not(near(x)))
        return
    j = c.skolem(M)
    c.ensure("weight", zr(u.get(j)) == 1)
    c.member("every point is near and a point of the cloud", n, lambda k: z3.And(near(k), same(d, j, [zr(f((k, e))) for e in range(3)])), hints=[j], ghosts=True)
    if c.branch(near(x)):
        c.member("every point that is near", M, lambda q: same(d, q, [zr(f((x, e))) for e in range(3)]), hints=[x], ghosts=True)


@contract("C34", [CLOUD + ".__call__"])
def no_wind(c):
    "wind speeds that are not positive are rejected"
    n, a, f = given(c)
    ws = c.real("ws")
    c.require(ws <= 0)
    c.raises(c.method(c.obj(CLOUD, _points=a), "__call__", ws, c.real("wa")), ValueError)


@contract("C34", [SAILS + ".__init__", SAILS + ".sails", SAILS + ".diagrams", SAILS + ".__getitem__", SAILS + ".__call__"])
def sails(c):
    "every diagram with its name (or Sail i); found by its name; the greatest boat speed of all sails (one to three sails, up to four names)"
    ws, wa = c.real("ws"), c.real("wa")
    for n in (1, 2, 3):
        f = [c.fun(f"speed{i}_{n}", REAL, REAL, REAL) for i in range(n)]
        pds = [c.obj("contracts.c34.Diagram", f=c.opaque_fn(f"f{i}", lambda it, args, kw, i=i: f[i](zr(args[0]), zr(args[1])))) for i in range(n)]
        for k in (None, 0, 1, 2, 3, 4):
            for seq in (tuple, list) if k is not None else (tuple,):
                names = None if k is None else [f"name {i}" for i in range(k)]
                arg = None if names is None else c.plist(list(names)) if seq is list else tuple(names)
                m = c.returns(c.new(SAILS, c.plist(list(pds)), arg))
                want = [(names or [])[i] if i < (k or 0) else f"Sail {i}" for i in range(n)]
                got = c.it.seq(c.returns(c.it.getattr(m, "sails")))[2]
                c.ensure("names", zb(list(got) == want))
                ds = c.it.seq(c.returns(c.it.getattr(m, "diagrams")))[2]
                c.ensure("diagrams", zb(len(ds) == n and all(a is b for a, b in zip(ds, pds))))
                for i in range(n):
                    c.ensure("diagram of the name", zb(c.returns(c.method(m, "__getitem__", want[i])) is pds[i]))
                c.raises(c.method(m, "__getitem__", "nobody"), ValueError)
                r = zr(c.returns(c.method(m, "__call__", ws, wa)))
                vals = [g(ws, wa) for g in f]
                c.ensure("greatest boat speed", z3.And(z3.Or(*[r == v for v in vals]), *[r >= v for v in vals]))
