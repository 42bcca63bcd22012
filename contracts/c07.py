from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3
from contracts.common import scalar, table
P = "hrosailing.polardiagram."
T = P + "_polardiagramtable."
C = P + "_polardiagrampointcloud.PolarDiagramPointcloud"
CURVE = P + "_polardiagramcurve.PolarDiagramCurve"
MS = P + "_polardiagrammultisails.PolarDiagramMultiSails"
mirror = lambda y: ops.mod(360 - y, 360)


def table_law(c, has0, has180, low):
    t, m, n, f, g, h = table(c)
    if low:
        c.require_all(n, lambda k: g((k,)) <= 180)
    else:
        c.require_all(n, lambda k: z3.Or(g((k,)) >= 180, g((k,)) == 0))
    at = []
    for v, has in ((0, has0), (180, has180)):
        if has:
            # ascending, so the axis can only be the first, second or last angle
            k = zi(0) if v == 0 else n - 1 if low else zi(int(has0))
            c.require(z3.And(k >= 0, k < n, g((k,)) == v))
            at.append(k)
        else:
            c.require_all(n, lambda k: g((k,)) != v)
    s = c.returns(c.method(t, "symmetrize"))
    rs, ra, bs = c.attr(s, "wind_speeds"), c.attr(s, "wind_angles"), c.attr(s, "boat_speeds")
    N = 2 * n - int(has0) - int(has180)
    c.shape_is("same wind speeds: number", rs, (m,))
    c.shape_is("angles: given ones, mirrored ones, axis once", ra, (N,))
    c.shape_is("matrix shape", bs, (N, m))
    i, j, p = c.skolem(n, "i"), c.skolem(m, "j"), c.skolem(N, "p")
    c.ensure("same wind speeds", rs.get(j) == f((j,)))
    c.ensure("boat speed at a given angle", z3.Implies(ra.get(p) == g((i,)), bs.get(p, j) == h((i, j))))
    c.ensure("boat speed at a mirrored angle", z3.Implies(ra.get(p) == mirror(g((i,))), bs.get(p, j) == h((i, j))))
    for k in at:
        if c.branch(i == k):
            break
    hints = [i, i - 1, n + i, n - 1 - i, 2 * n - 1 - i, 2 * n - 2 - i, n + i - 1]
    c.member("every given angle is a row", N, lambda x: ra.get(x) == g((i,)), hints=hints)
    c.member("every mirrored angle is a row", N, lambda x: ra.get(x) == mirror(g((i,))), hints=hints)
    q = c.skolem(N, "q")
    c.ensure("angles strictly ascending", z3.Implies(p < q, ra.get(p) < ra.get(q)))
    c.ensure("angles reduced", z3.And(ra.get(p) >= 0, ra.get(p) < 360))
    c.unchanged("the original table is not modified", t.attrs["_boat_speeds"], h)
    c.unchanged("the original angles are not modified", t.attrs["_wa_resolution"], g)


DEPS = [T + "PolarDiagramTable.symmetrize", T + "_delete_multiple_180_degree_occurrences", T + "_delete_multiple_0_degree_occurrences",
        T + "PolarDiagramTable.__init__"]


@contract("C07", DEPS)
def table_open(c):
    "table with angles strictly between 0 and 180"
    table_law(c, False, False, True)


@contract("C07", DEPS)
def table_zero(c):
    table_law(c, True, False, True)


@contract("C07", DEPS)
def table_180(c):
    table_law(c, False, True, True)


@contract("C07", DEPS)
def table_both(c):
    table_law(c, True, True, True)


@contract("C07", DEPS)
def table_port(c):
    "table with angles beyond 180"
    table_law(c, False, False, False)


@contract("C07", DEPS)
def table_port_both(c):
    table_law(c, True, True, False)


@contract("C07", C + ".symmetrize")
def cloud(c):
    "a point cloud gains, for every point, exactly its mirror image, and keeps its points"
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, 3))
    f = pts.snap()
    c.require_all(n, lambda k: z3.And(f((k, 0)) >= 0, f((k, 1)) >= 0, f((k, 1)) < 360))
    s = c.returns(c.method(c.obj(C, _points=pts), "symmetrize"))
    r = c.attr(s, "points")
    c.shape_is("twice as many points", r, (2 * n, 3))
    for k in range(3):
        c.forall("points kept", n, lambda i: r.get(i, k) == f((i, k)))
        c.forall("mirror images", n, lambda i: r.get(n + i, k) == (mirror(f((i, 1))) if k == 1 else f((i, k))))
    c.unchanged("the original cloud is not modified", pts, f)


@contract("C07", C + ".symmetrize")
def cloud_empty(c):
    s = c.returns(c.method(c.obj(C, _points=c.arr("pts", (0, 3))), "symmetrize"))
    c.shape_is("an empty cloud stays empty", c.attr(s, "points"), (0, 3))


@contract("C07", [CURVE + ".symmetrize", CURVE + ".__call__"])
def curve(c):
    "a symmetrized curve is the average of the curve over both sides, so it has equal values at mirrored angles"
    f = c.fun("f", REAL, REAL, REAL, REAL)
    a = c.real("a")
    fn = c.opaque_fn("f", lambda it, args, kw: f(zr(scalar(args[0])), zr(scalar(args[1])), zr(args[2])))
    x, y = c.real("x"), c.real("y")
    c.require(x >= 0)
    for rad in (False, True):
        full = 2 * PI if rad else 360
        pd = c.obj(CURVE, _f=fn, _params=(a,), _rad=rad)
        s = c.returns(c.method(pd, "symmetrize"))
        r = c.returns(c.method(s, "__call__", x, y))
        red = (lambda t: ops.deg2rad(ops.mod(ops.rad2deg(t), 360))) if rad else (lambda t: ops.mod(t, 360))
        c.ensure("average of both sides", zr(scalar(r)) == (f(x, red(y), a) + f(x, full - red(y), a)) / 2)
        for z in (full - y, -y, y + full):
            r2 = c.returns(c.method(s, "__call__", x, z))
            w = red(y)
            if c.branch(w > 0):
                c.ensure("equal values at mirrored angles", zr(scalar(r2)) == zr(scalar(r)))
            else:
                c.ensure("equal values at mirrored angles on the axis", zr(scalar(r2)) == zr(scalar(r)))
        c.ensure("the original curve is not modified", z3.BoolVal(pd.attrs["_f"] is fn))


@contract("C07", MS + ".symmetrize")
def multisails(c):
    "every sail keeps its name and gets its own table symmetrized"
    ts = [table(c, "t%d" % k) for k in range(3)]
    for t, m, n, f, g, h in ts:
        c.require_all(n, lambda k: z3.And(g((k,)) > 0, g((k,)) < 180))
    ms = c.obj(MS, _sails=c.plist(["b", "a", "c"]), _diagrams=c.plist([t[0] for t in ts]))
    s = c.returns(c.method(ms, "symmetrize"))
    c.ensure("names", z3.BoolVal([str(x) for x in c.attr(s, "sails").items] == ["b", "a", "c"]))
    for k, (t, m, n, f, g, h) in enumerate(ts):
        d = c.attr(s, "diagrams").items[k]
        e = c.returns(c.method(t, "symmetrize"))
        N = 2 * n
        for nm, sh in (("wind_angles", (N,)), ("wind_speeds", (m,)), ("boat_speeds", (N, m))):
            c.shape_is(f"{nm}: shape of the symmetrized table", c.attr(d, nm), sh)
        p, j = c.skolem(N), c.skolem(m)
        q = c.skolem(N)
        c.ensure("symmetrized table of that sail", z3.Implies(c.attr(d, "wind_angles").get(p) == c.attr(e, "wind_angles").get(q),
                 c.attr(d, "boat_speeds").get(p, j) == c.attr(e, "boat_speeds").get(q, j)))
        c.ensure("wind speeds of that sail", c.attr(d, "wind_speeds").get(j) == f((j,)))


@contract("C07", DEPS)
def table_port_zero(c):
    table_law(c, True, False, False)


@contract("C07", DEPS)
def table_port_180(c):
    table_law(c, False, True, False)
