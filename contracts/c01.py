from pyvc.harness import contract
from pyvc.terms import *
from pyvc import ops
from pyvc.z3load import z3
M = "hrosailing.core.computing."
DEPS = [M + "_Wind.convert_wind", M + "_Wind._convert_wind_speed", M + "_Wind._convert_wind_angle"]


def setup(c, sgn, rows=None):
    n = c.int("n", lo=0)
    w = c.arr("wind", (n, 3))
    orig = w.snap()
    a = lambda i: ops.deg2rad(ops.mod(orig((i, 1)), 360))
    vx = lambda i: orig((i, 0)) * F_COS(a(i)) + sgn * orig((i, 2))
    vy = lambda i: orig((i, 0)) * F_SIN(a(i))
    c.require_all(n, lambda i: orig((i, 0)) >= 0)
    # the resulting wind is not zero
    c.require_all(n, lambda i: orig((i, 0)) * orig((i, 0)) + orig((i, 2)) * orig((i, 2))
                  + 2 * sgn * orig((i, 0)) * orig((i, 2)) * F_COS(a(i)) > 0)
    return n, w, orig, a, vx, vy


def law(c, fn, sgn):
    n, w, orig, a, vx, vy = setup(c, sgn)
    r = c.returns(c.call(M + fn, w))
    c.shape_is("one row per row", r, (n, 3))
    i = c.skolem(n)
    s, b, bsp = r.get(i, 0), r.get(i, 1), r.get(i, 2)
    u = ops.deg2rad(b)
    cu, su, ca, sa = ops.trig("cos")(u), ops.trig("sin")(u), F_COS(a(i)), F_SIN(a(i))
    w0, b0 = orig((i, 0)), orig((i, 2))
    above = ops.mod(orig((i, 1)), 360) > 180
    c.ensure("boat speed unchanged", bsp == b0)
    c.assert_("speed is positive", s > 0)
    h_len = s * s == w0 * w0 + b0 * b0 + 2 * sgn * w0 * b0 * ca
    c.assert_("speed is the length of the vector sum", h_len)
    c.ensure("angle within 0..360", z3.And(b >= 0, b <= 360))
    c.assert_("component along the bow axis", s * cu == vx(i))
    c.ensure("same side of the boat", z3.And(z3.Implies(z3.Not(above), b <= 180), z3.Implies(above, b >= 180)))
    h_side = z3.Or(z3.And(sa >= 0, su >= 0), z3.And(sa <= 0, su <= 0))
    one = z3.And(cu * cu + su * su == 1, ca * ca + sa * sa == 1)
    p, q = s * su, w0 * sa
    c.ensure_from("squares of the cross components agree", [h_len, s * cu == vx(i), one], p * p == q * q,
                  abstract=[s, cu, su, ca, sa, w0, b0], then=True)
    c.ensure_from("cross components have the same sign", [h_side, s > 0, w0 >= 0],
                  z3.Or(z3.And(p >= 0, q >= 0), z3.And(p <= 0, q <= 0)), abstract=[s, su, sa, w0], then=True)
    c.ensure_from("component across the boat", [p * p == q * q, z3.Or(z3.And(p >= 0, q >= 0), z3.And(p <= 0, q <= 0))],
                  p == q, abstract=[p, q])
    c.unchanged("caller's array not modified", w, orig)


@contract("C01", [M + "convert_true_wind_to_apparent"] + DEPS)
def true_to_apparent(c):
    "apparent wind vector = true wind vector + boat speed along the bow axis, row by row; argument untouched"
    law(c, "convert_true_wind_to_apparent", 1)


@contract("C01", [M + "convert_apparent_wind_to_true"] + DEPS)
def apparent_to_true(c):
    "true wind vector = apparent wind vector - boat speed along the bow axis, row by row; argument untouched"
    law(c, "convert_apparent_wind_to_true", -1)


@contract("C01", [M + "_Wind.convert_wind"])
def rejects_negative_speed(c):
    "any row with a negative wind speed makes the call fail"
    n = c.int("n", lo=1)
    w = c.arr("wind", (n, 3))
    i = c.skolem(n)
    c.require(w.get(i, 0) < 0)
    for f in ("convert_true_wind_to_apparent", "convert_apparent_wind_to_true"):
        c.raises(c.call(M + f, w), Exception, what="negative wind speed rejected by " + f)


@contract("C01", [M + "_Wind.convert_wind"])
def rejects_wrong_shape(c):
    "arrays that are not (n, 3) are rejected"
    n, m = c.int("n", lo=1), c.int("m", lo=0)
    c.require(m != 3)
    for f in ("convert_true_wind_to_apparent", "convert_apparent_wind_to_true"):
        c.raises(c.call(M + f, c.arr("w2", (n, m))), Exception, what="wrong width rejected by " + f)
        c.raises(c.call(M + f, c.arr("w1", (n,))), Exception, what="one-dimensional input rejected by " + f)
        c.raises(c.call(M + f, c.arr("w3", (n, 3, m))), Exception, what="three-dimensional input rejected by " + f)
