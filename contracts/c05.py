from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3
I = "hrosailing.processing.interpolator."
W = "hrosailing.core.data.WeightedPoints"


def setup(c):
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, 3))
    f = pts.snap()
    gp = c.arr("grid_pt", (2,))
    g = gp.snap()
    wts = c.arr("weights", (n,))
    w = wts.snap()
    norm = c.norm_fn()
    wp = c.obj(W, data=pts, weights=wts)
    dist = lambda i: norm.spec(f((i, 0)) - g((0,)), f((i, 1)) - g((1,)))
    z = lambda i: f((i, 2))
    return n, pts, f, gp, g, wts, w, norm, wp, dist, z


def frame(c, pts, f, gp, g, wts, w):
    c.unchanged("data not modified", pts, f)
    c.unchanged("query point not modified", gp, g)
    c.unchanged("weights not modified", wts, w)


def reproduces(c, interp, n, pts, f, gp, g, wts, w, norm, wp, dist, z):
    "at a data point the value of a data point there is returned; inputs untouched"
    k = c.skolem(n, "k")
    c.require(dist(k) == 0)
    a = c.fun("at", INT, INT)
    r = c.returns(c.method(interp, "interpolate", wp, gp))
    # the value is that of some point at distance 0
    lo, hi = c.real("lo"), c.real("hi")
    c.require_all(n, lambda i: z3.Implies(dist(i) == 0, z3.And(lo <= z(i), z(i) <= hi)))
    c.ensure("value of a data point at the query point", z3.And(lo <= zr(r), zr(r) <= hi))
    frame(c, pts, f, gp, g, wts, w)


def ranges(c, interp, n, pts, f, gp, g, wts, w, norm, wp, dist, z, scale=None):
    "elsewhere the result lies between any lower and upper bound of the data values"
    lo, hi = c.real("lo"), c.real("hi")
    c.require_all(n, lambda i: z3.And(lo <= z(i), z(i) <= hi))
    c.require_all(n, lambda i: dist(i) > 0)
    r = c.returns(c.method(interp, "interpolate", wp, gp))
    c.weighted_bounds(lo, hi)
    r = zr(r)
    if scale is not None:
        c.ensure("within the scaled range", z3.And(scale * lo <= r, r <= scale * hi))
    else:
        c.ensure("within the range of the data", z3.And(lo <= r, r <= hi))
    frame(c, pts, f, gp, g, wts, w)


@contract("C05", I + "IDWInterpolator.interpolate")
def idw_at_data(c):
    s = setup(c)
    p = c.int("p", lo=0)
    it = c.returns(c.new(I + "IDWInterpolator", p, s[7]))
    reproduces(c, it, *s)


@contract("C05", I + "IDWInterpolator.interpolate")
def idw_range(c):
    s = setup(c)
    p = c.int("p", lo=0)
    it = c.returns(c.new(I + "IDWInterpolator", p, s[7]))
    ranges(c, it, *s)


@contract("C05", I + "ArithmeticMeanInterpolator.interpolate")
def mean_at_data(c):
    s = setup(c)
    it = c.returns(c.new(I + "ArithmeticMeanInterpolator", norm=s[7]))
    reproduces(c, it, *s)


@contract("C05", [I + "ArithmeticMeanInterpolator.interpolate", I + "_gauss_potential"])
def mean_range(c):
    s = setup(c)
    sc = c.real("s")
    c.require(sc > 0)
    it = c.returns(c.new(I + "ArithmeticMeanInterpolator", sc, norm=s[7], params=(c.real("alpha"),)))
    ranges(c, it, *s, scale=sc)


@contract("C05", I + "ImprovedIDWInterpolator.interpolate")
def improved_at_data(c):
    s = setup(c)
    it = c.returns(c.new(I + "ImprovedIDWInterpolator", s[7]))
    reproduces(c, it, *s)


@contract("C05", [I + "ImprovedIDWInterpolator.interpolate", I + "_set_weights"])
def improved_range(c):
    s = setup(c)
    it = c.returns(c.new(I + "ImprovedIDWInterpolator", s[7]))
    ranges(c, it, *s)


@contract("C05", I + "ShepardInterpolator.interpolate")
def shepard_at_data(c):
    s = setup(c)
    nh = c.obj("hrosailing.processing.neighbourhood.Ball")
    it = c.returns(c.new(I + "ShepardInterpolator", nh, norm=s[7]))
    reproduces(c, it, *s)


@contract("C05", I + "IDWInterpolator.interpolate")
def idw_empty(c):
    "no data points: rejected"
    it = c.returns(c.new(I + "IDWInterpolator"))
    wp = c.obj(W, data=c.arr("pts", (0, 3)), weights=c.arr("w", (0,)))
    c.raises(c.method(it, "interpolate", wp, c.arr("g", (2,))), ValueError)
