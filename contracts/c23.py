import numpy as np

from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
from contracts.common import scalar
G = "hrosailing.models.globe_model."


def globe(c):
    R = c.real("radius")
    c.require(R > 0)
    return R, c.returns(c.new(G + "SphericalGlobe", R))


def inside(at, i):
    return z3.And(zr(at((i, 0))) > -90, zr(at((i, 0))) < 90, zr(at((i, 1))) > -180, zr(at((i, 1))) <= 180)


def places(c, n, name="p"):
    p = c.arr(name, (n, 2))
    at = p.snap()
    c.require_all(n, lambda i: inside(at, i))
    return p, at


def place(c, name):
    la, lo = c.real(name + "_lat"), c.real(name + "_lon")
    c.require(z3.And(la >= -90, la <= 90, lo > -180, lo <= 180))
    return c.arr_of((2,), lambda ix: z3.If(zi(ix[0]) == 0, la, lo)), la, lo


def ball(lat, lon):
    la, lo = zr(ops.deg2rad(zr(lat))), zr(ops.deg2rad(zr(lon)))
    return F_COS(la) * F_COS(lo), F_COS(la) * F_SIN(lo), F_SIN(la)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


@contract("C23", [G + "SphericalGlobe.project", G + "_on_ball"])
def on_the_sphere(c):
    "every place is projected to its point of the sphere"
    n = c.int("n", lo=1)
    R, g = globe(c)
    p, at = places(c, n)
    r = c.returns(c.method(g, "project", p))
    c.shape_is("shape", r, (n, 3))
    i = c.skolem(n)
    for k, w in enumerate(ball(at((i, 0)), at((i, 1)))):
        c.ensure("xyz"[k], zr(r.get(i, k)) == R * w)
    c.unchanged("places", p, at)


@contract("C23", [G + "SphericalGlobe.lat_lon", G + "SphericalGlobe.project", G + "_on_lat_lon"])
def sphere_round_trip(c):
    "the place of the projection of a place is that place"
    n = c.int("n", lo=1)
    R, g = globe(c)
    p, at = places(c, n)
    r = c.returns(c.method(g, "lat_lon", c.returns(c.method(g, "project", p))))
    c.shape_is("shape", r, (n, 2))
    i = c.skolem(n)
    c.assert_("place", inside(at, i))
    inverse(c, at((i, 0)), at((i, 1)))
    c.ensure("latitude", zr(r.get(i, 0)) == zr(at((i, 0))))
    c.ensure("longitude", zr(r.get(i, 1)) == zr(at((i, 1))))


def inverse(c, lat, lon):
    "arc sine and arc tangent give back latitude and longitude (between the poles)"
    la, lo = zr(ops.deg2rad(zr(lat))), zr(ops.deg2rad(zr(lon)))
    c.assert_("between the poles", z3.And(la > -PI / 2, la < PI / 2, lo > -PI, lo <= PI))
    c.assert_("positive cosine", F_COS(la) > 0)
    c.assert_("arc sine", F_ASIN(F_SIN(la)) == la)
    x, y = F_COS(la) * F_COS(lo), F_COS(la) * F_SIN(lo)
    c.assert_("distance from the axis", F_SQRT(x * x + y * y) == F_COS(la))
    a = F_ATAN2(y, x)
    c.assert_("cosine of the arc tangent", F_COS(a) == F_COS(lo))
    c.assert_("sine of the arc tangent", F_SIN(a) == F_SIN(lo))
    c.assert_("arc tangent", a == lo)


def cauchy(c, p, q):
    x = p[0] * q[1] - p[1] * q[0], p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2]
    w, pp, qq, xx = dot(p, q), dot(p, p), dot(q, q), dot(x, x)
    c.ensure_from("squares", [], xx >= 0, abstract=list(x), then=True)
    c.ensure_from("cosine of an angle", [pp == 1, qq == 1, xx >= 0, w * w + xx == pp * qq], z3.And(w <= 1, w >= -1), abstract=[w, pp, qq, xx], then=True)


def angle_by_contract(c, r, w=None):
    "angles between points of the sphere of radius r as stated by the contract angle_between_points; w: a known angle"
    def summary(p, q):
        p, q = [[zr(x.get(0, k) if x.ndim == 2 else x.get(k)) for k in range(3)] for x in (p, q)]
        c.assert_("points of the sphere", z3.And(dot(p, p) == r * r, dot(q, q) == r * r))
        if w is not None:
            c.assert_("the angle", F_ACOS(dot(p, q) / (r * r)) == w)
            return w
        return F_ACOS(dot(p, q) / (r * r))

    c.by_contract(G + "_angle", summary)


@contract("C23", [G + "_angle"])
def angle_between_points(c):
    "arc cosine of the normalized inner product, for points of a sphere of any radius; rounding does not matter"
    r = c.real("r")
    u, v = [c.real("u" + k) for k in "xyz"], [c.real("v" + k) for k in "xyz"]
    c.require(z3.And(r > 0, dot(u, u) == r * r, dot(v, v) == r * r))
    c.assert_("norms", z3.And(F_SQRT(dot(u, u)) == r, F_SQRT(dot(v, v)) == r))
    a, b = c.arr_of((3,), lambda ix: pick3(u, ix[0])), c.arr_of((3,), lambda ix: pick3(v, ix[0]))
    x = u[0] * v[1] - u[1] * v[0], u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2]
    q = c.real("q")
    c.require(q == dot(u, v) / (r * r))
    c.assert_("quotient", q * (r * r) == dot(u, v))
    c.assert_("Lagrange's identity", dot(u, v) * dot(u, v) + dot(x, x) == dot(u, u) * dot(v, v))
    c.assert_("Cauchy and Schwarz", (q * q) * ((r * r) * (r * r)) <= (r * r) * (r * r))
    c.assert_("cosine", z3.And(q <= 1, q >= -1))
    w = zr(scalar(c.returns(c.call(G + "_angle", a, b))))
    c.ensure("angle", w == F_ACOS(q))


@contract("C23", [G + "SphericalGlobe.distance", G + "_angle"])
def sphere_distance(c):
    R, g = globe(c)
    a, alat, alon = place(c, "a")
    b, blat, blon = place(c, "b")
    angle_by_contract(c, z3.RealVal(1))
    d = zr(scalar(c.returns(c.method(g, "distance", a, b))))
    e = zr(scalar(c.returns(c.method(g, "distance", b, a))))
    same = zr(scalar(c.returns(c.method(g, "distance", a, a))))
    w = dot(ball(alat, alon), ball(blat, blon))
    cauchy(c, ball(alat, alon), ball(blat, blon))
    c.ensure("arc", d == R * F_ACOS(w))
    c.ensure("symmetric", d == e)
    c.ensure("no distance to itself", same == 0)
    c.ensure("range", z3.And(d >= 0, d <= R * PI))


@contract("C23", [G + "SphericalGlobe.shortest_projected_path", G + "_angle"])
def sphere_path(c):
    "the path is on the sphere, starts and ends where it should and proceeds by equal angles"
    n = c.int("res", lo=2)
    R, g = globe(c)
    u, v = [c.real("u" + k) for k in "xyz"], [c.real("v" + k) for k in "xyz"]
    w = c.real("w")
    c.require(z3.And(dot(u, u) == 1, dot(v, v) == 1))
    c.require(z3.And(dot(u, v) == F_COS(w), w > 0, w < PI))
    a, b = c.arr_of((3,), lambda ix: R * pick3(u, ix[0])), c.arr_of((3,), lambda ix: R * pick3(v, ix[0]))
    angle_by_contract(c, R, w)
    r = c.returns(c.method(g, "shortest_projected_path", a, b, n))
    c.shape_is("shape", r, (n, 3))
    C, Sn = F_COS(w), F_SIN(w)
    c.assert_("sine", Sn > 0)
    k = c.skolem(n)
    last = n - 1
    even = zr(c.returns(c.call(np.linspace, 0, w, n)).get(k))
    c.assert_("equal angles", even * z3.ToReal(last) == z3.ToReal(k) * w)
    for name, i, t in (("start", z3.IntVal(0), z3.RealVal(0)), ("end", last, w), ("between", k, even)):
        x = [zr(r.get(i, j)) for j in range(3)]
        for j in range(3):
            c.ensure_rewriting(f"{name} {'xyz'[j]}", x[j] == R * ((F_COS(t) - F_SIN(t) * (C / Sn)) * u[j] + F_SIN(t) * (1 / Sn) * v[j]), [F_COS(t), F_SIN(t)], [n >= 2, Sn > 0])


def pick3(v, i):
    return z3.If(zi(i) == 0, v[0], z3.If(zi(i) == 1, v[1], v[2]))


@contract("C23", [G + "SphericalGlobe.shortest_projected_path"])
def arcs_lie_on_the_sphere(c):
    "the points described by the contract sphere_path have distance radius from the center and the stated angle from the start"
    s, co, C, Sn = c.real("sin"), c.real("cos"), c.real("C"), c.real("S")
    c.require(z3.And(s * s + co * co == 1, C * C + Sn * Sn == 1, Sn > 0))
    b = c.real("b")
    c.require(b == s / Sn)
    c.assert_("quotient", b * Sn == s)
    a = co - b * C
    c.ensure("radius", a * a + 2 * a * b * C + b * b == 1)
    c.ensure("angle", a + b * C == co)


@contract("C23", [G + "SphericalGlobe.shortest_projected_path"])
def path_without_length(c):
    "the path from a point to itself stays there"
    n = c.int("res", lo=1)
    R, g = globe(c)
    u = [c.real("u" + k) for k in "xyz"]
    c.require(dot(u, u) == R * R)
    angle_by_contract(c, R, z3.RealVal(0))
    c.assert_("normalized", dot(u, u) / (R * R) == 1)
    c.assert_("no angle", F_ACOS(z3.RealVal(1)) == 0)
    a = c.arr_of((3,), lambda ix: pick3(u, ix[0]))
    r = c.returns(c.method(g, "shortest_projected_path", a, a, n))
    c.shape_is("shape", r, (n, 3))
    k = c.skolem(n)
    for j in range(3):
        c.ensure("xyz"[j], zr(r.get(k, j)) == u[j])


def mercator(c):
    R = c.real("radius")
    c.require(R > 0)
    return R, c.returns(c.new(G + "FlatMercatorProjection", earth_radius=R))


@contract("C23", [G + "FlatMercatorProjection.project", G + "FlatMercatorProjection._transform_coordinates", G + "_on_ball", G + "_on_lat_lon"])
def mercator_projection(c):
    "the formula of Mercator, for the usual pole"
    n = c.int("n", lo=1)
    R, g = mercator(c)
    p, at = places(c, n)
    r = c.returns(c.method(g, "project", p))
    c.shape_is("shape", r, (n, 2))
    i = c.skolem(n)
    c.assert_("place", inside(at, i))
    inverse(c, at((i, 0)), at((i, 1)))
    la, lo = zr(ops.deg2rad(zr(at((i, 0))))), zr(ops.deg2rad(zr(at((i, 1)))))
    c.ensure("east", zr(r.get(i, 0)) == R * lo)
    c.ensure("north", zr(r.get(i, 1)) == R * F_ASINH(F_TAN(la)))
    c.unchanged("places", p, at)


@contract("C23", [G + "FlatMercatorProjection.lat_lon", G + "FlatMercatorProjection.project"])
def mercator_round_trip(c):
    n = c.int("n", lo=1)
    R, g = mercator(c)
    p, at = places(c, n)
    i = c.skolem(n)
    c.assert_("place", inside(at, i))
    inverse(c, at((i, 0)), at((i, 1)))
    r = c.returns(c.method(g, "lat_lon", c.returns(c.method(g, "project", p))))
    c.shape_is("shape", r, (n, 2))
    c.ensure("latitude", zr(r.get(i, 0)) == zr(at((i, 0))))
    c.ensure("longitude", zr(r.get(i, 1)) == zr(at((i, 1))))


@contract("C23", [G + "FlatMercatorProjection.shortest_projected_path", G + "FlatMercatorProjection.distance"])
def mercator_path(c):
    "straight lines; the distance is their length"
    n = c.int("res", lo=2)
    R, g = mercator(c)
    a, b = c.arr("a", (2,)), c.arr("b", (2,))
    r = c.returns(c.method(g, "shortest_projected_path", a, b, n))
    c.shape_is("shape", r, (n, 2))
    k = c.skolem(n)
    for j in range(2):
        x, y = zr(a.get(j)), zr(b.get(j))
        c.ensure("xy"[j], zr(r.get(k, j)) * z3.ToReal(n - 1) == x * z3.ToReal(n - 1) + z3.ToReal(k) * (y - x))
