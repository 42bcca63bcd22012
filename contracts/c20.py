import numpy as np

from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
X = "hrosailing.pipeline.extensions."
W = "hrosailing.core.data.WeightedPoints"


class Region:
    "an arbitrary neighbourhood"

    def __init__(self, inside):
        self.inside = inside

    def is_contained_in(self, pts):
        return self.inside(pts)


class Scheme:
    "an arbitrary interpolator"

    def __init__(self, value):
        self.value = value

    def interpolate(self, w_pts, grid_pt):
        return self.value(w_pts, grid_pt)


class Samples:
    def __init__(self, make):
        self.make = make

    def sample(self, pts):
        return self.make(pts)


def world(c):
    """weighted points, an arbitrary neighbourhood and an arbitrary interpolator; the boat speed expected at (x, y)."""
    n = c.int("n", lo=1)
    pts, w = c.arr("p", (n, 3)), c.arr("w", (n,))
    at, wat = pts.snap(), w.snap()
    inside, value = c.fun("inside", REAL, REAL, BOOL), c.fun("value", REAL, REAL, REAL)

    def contained(it, a, k):
        f = a[0].snap()
        c.shape_is("differences to all points", a[0], (n, 2))
        return c.arr_of((n,), lambda ix: inside(zr(f((ix[0], 0))), zr(f((ix[0], 1)))), "b")

    wp = c.obj(W, data=pts, weights=w)

    # the boat speed stands for the point: it is its number
    c.require_all(n, lambda i: zr(at((i, 2))) == z3.ToReal(zi(i)))

    def interpolate(it, a, k):
        d, v, g = c.attr(a[0], "data"), c.attr(a[0], "weights"), a[1]
        c.ensure("the point is a pair", zb(conc(g.shape[0]) == 2))
        x, y = zr(g.get(0)), zr(g.get(1))
        m = zi(d.shape[0])
        near = lambda j: inside(zr(at((j, 0))) - x, zr(at((j, 1))) - y)
        c.shape_is("one weight per point", v, (m,))
        t, j = c.skolem(m), c.skolem(n)
        no = zr(d.get(t, 2))
        S.touch(no)
        old = z3.ToInt(no)
        c.ensure("the interpolator gets points in the neighbourhood", z3.And(no == z3.ToReal(old), old >= 0, old < n, near(old)))
        for q in (0, 1):
            c.ensure(f"the interpolator gets points in the neighbourhood: coordinate {q}", zr(d.get(t, q)) == zr(at((old, q))))
        c.ensure("the interpolator gets the weights of these points", zr(v.get(t)) == zr(wat((old,))))
        u = c.skolem(m)
        c.ensure("no point twice", z3.Implies(t < u, zr(d.get(t, 2)) < zr(d.get(u, 2))))
        c.member("the interpolator gets all points in the neighbourhood", m, lambda q: zr(d.get(q, 2)) == z3.ToReal(j), hints=[j], ghosts=True, given=near(j))
        return value(x, y)

    def expected(name, got, x, y):
        if c.branch(c.bool(S.name("somewhere"))):
            j = c.skolem(n)
            c.require(inside(zr(at((j, 0))) - x, zr(at((j, 1))) - y))
            c.ensure(name, zr(got) == value(x, y))
        else:
            c.require_all(n, lambda j: z3.Not(inside(zr(at((j, 0))) - x, zr(at((j, 1))) - y)))
            c.ensure(name + " (no point around: 0)", zr(got) == 0)

    parts = {"neighbourhood": c.obj("contracts.c20.Region", inside=c.opaque_fn("inside", contained)),
             "interpolator": c.obj("contracts.c20.Scheme", value=c.opaque_fn("interpolate", interpolate))}
    return n, wp, parts, expected, at


def constructor(c, qual):
    "arguments with which the diagram is made"
    got = []

    def init(self, *args, **kw):
        got.append((args, kw))

    c.by_contract(qual, init)
    return got


@contract("C20", [X + "PointcloudExtension.process", X + "_interpolate_points", X + "_interpolate_point", X + "_neighbourhood_too_small"])
def pointcloud(c):
    "one point per sample, with the boat speed interpolated from exactly the weighted points around it, 0 if there are none"
    n, wp, parts, expected, at = world(c)
    m = c.int("m", lo=1)
    g = c.arr("g", (m, 2))
    gat = g.snap()

    def sample(it, a, k):
        c.ensure("the sampler gets the data", zb(a[0] is c.attr(wp, "data")))
        return g

    got = constructor(c, "hrosailing.polardiagram._polardiagrampointcloud.PolarDiagramPointcloud.__init__")
    ext = c.returns(c.new(X + "PointcloudExtension", c.obj("contracts.c20.Samples", make=c.opaque_fn("sample", sample)), **parts))
    pd = c.returns(c.method(ext, "process", wp))
    c.ensure("a point cloud", zb(len(got) == 1 and pd.cls.__name__ == "PolarDiagramPointcloud"))
    p = got[0][0][0]
    c.shape_is("one point per sample", p, (m, 3))
    i = c.skolem(m)
    x, y = zr(gat((i, 0))), zr(gat((i, 1)))
    c.ensure("wind speed", zr(p.get(i, 0)) == x)
    c.ensure("wind angle", zr(p.get(i, 1)) == y)
    expected("boat speed", p.get(i, 2), x, y)
    c.unchanged("the data", c.attr(wp, "data"), at)


@contract("C20", [X + "TableExtension.process", X + "TableExtension._determine_table_size", X + "_interpolate_points", X + "_interpolate_point",
                  X + "_extract_boat_speed"])
def table(c):
    "for every wind speed and wind angle of the resolution, the boat speed interpolated from exactly the weighted points around them, 0 if there are none"
    n, wp, parts, expected, at = world(c)
    k, m = c.int("k", lo=1), c.int("m", lo=1)
    ws, wa = c.arr("ws", (k,)), c.arr("wa", (m,))
    f, g = ws.snap(), wa.snap()
    H = "hrosailing.polardiagram._polardiagramtable._Resolution_helper."
    c.by_contract(H + "build_wind_speed_resolution", lambda r=None: r)  # C01
    c.by_contract(H + "build_wind_angle_resolution", lambda r=None: r)
    got = constructor(c, "hrosailing.polardiagram._polardiagramtable.PolarDiagramTable.__init__")
    ext = c.returns(c.new(X + "TableExtension", (ws, wa), **parts))
    pd = c.returns(c.method(ext, "process", wp))
    c.ensure("a table", zb(len(got) == 1 and pd.cls.__name__ == "PolarDiagramTable"))
    r, q, b = got[0][0]
    c.shape_is("wind speeds", r, (k,))
    c.shape_is("wind angles", q, (m,))
    c.shape_is("boat speeds", b, (m, k))
    i, j = c.skolem(m), c.skolem(k)
    c.ensure("wind speeds: values", zr(r.get(j)) == zr(f((j,))))
    c.ensure("wind angles: values", zr(q.get(i)) == zr(g((i,))))
    c.assert_("row-major position: quotient", (i * k + j) / k == i)
    c.assert_("row-major position: remainder", (i * k + j) % k == j)
    expected("boat speed", b.get(i, j), zr(f((j,))), zr(g((i,))))
    c.unchanged("the data", c.attr(wp, "data"), at)


@contract("C20", [X + "CurveExtension.process", X + "_convert_angles_to_radians"])
def curve(c):
    "the regressor gets the data (angles in radians if wanted), the curve is its function with its parameters, and the data are not changed"
    n = c.int("n", lo=1)
    pts = c.arr("p", (n, 3))
    at = pts.snap()
    radians = c.branch(c.bool("radians"))
    seen = []
    deg, pi = (lambda x: zr(c.call(np.deg2rad, x))), zr(c.attr(c.it.lift(np), "pi"))
    c.require_all(n, lambda i: deg(zr(at((i, 1)))) == zr(at((i, 1))) * pi / 180)

    def fit(it, a, k):
        seen.append(a[0])

    got = constructor(c, "hrosailing.polardiagram._polardiagramcurve.PolarDiagramCurve.__init__")
    u, v = c.real("u"), c.real("v")
    fn = c.opaque_fn("model", lambda it, a, k: z3.RealVal(0))
    reg = c.obj("contracts.c20.Regression", fit=c.opaque_fn("fit", fit), model_func=fn, optimal_params=(u, v))
    ext = c.returns(c.new(X + "CurveExtension", reg, radians=radians))
    pd = c.returns(c.method(ext, "process", c.obj(W, data=pts, weights=c.arr("w", (n,)))))
    c.ensure("fitted once", zb(len(seen) == 1))
    d = seen[0]
    c.shape_is("data of the regressor", d, (n, 3))
    i = c.skolem(n)
    for k in range(3):
        want = zr(at((i, k)))
        c.ensure(f"data of the regressor, coordinate {k}", zr(d.get(i, k)) == (deg(want) if radians and k == 1 else want))
    a, kw = got[0]
    c.ensure("the fitted function", zb(a[0] is fn and len(a) == 3))
    c.ensure("the optimal parameters", z3.And(zr(a[1]) == u, zr(a[2]) == v))
    c.ensure("unit of the angles", zb(kw.get("radians", a[3] if len(a) > 3 else None) is radians))
    c.unchanged("the data", pts, at)


class Regression:
    pass


@contract("C20", [X + "TableExtension._determine_table_size", X + "_min_max_resolution"])
def min_max(c):
    "wind speeds in steps of 2 from the least wind speed of the data (rounded), as long as the greatest (rounded) is not exceeded; angles in steps of 5"
    n = c.int("n", lo=1)
    pts = c.arr("p", (n, 3))
    at = pts.snap()
    ext = c.returns(c.new(X + "TableExtension"))
    ws, wa = c.returns(c.method(ext, "_determine_table_size", pts))
    size, get, items = c.it.seq(ws)
    i, j, lo, hi = c.skolem(size), c.skolem(n), zr(get(0)), zr(get(simp(zi(size) - 1)))
    c.ensure("steps of 2", zr(get(i)) == lo + 2 * z3.ToReal(i))
    c.ensure("no data below (up to rounding)", lo <= zr(at((j, 0))) + z3.Q(1, 2))
    c.ensure("no data above (up to a step and rounding)", zr(at((j, 0))) <= hi + 2 + z3.Q(1, 2))
    c.member("within the data: least wind speed", n, lambda t: zr(at((t, 0))) <= lo + z3.Q(1, 2), ghosts=True)
    c.member("within the data: greatest wind speed", n, lambda t: zr(at((t, 0))) >= hi - z3.Q(1, 2), ghosts=True)
    m, aget, aitems = c.it.seq(wa)
    c.ensure("wind angles", zb(list(aitems or []) == list(range(5, 360, 5))))
