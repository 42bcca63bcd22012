from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3
from contracts.common import scalar
M = "hrosailing.core.modelfunctions."
D = M + "_models2d."
CURVE = "hrosailing.polardiagram._polardiagramcurve.PolarDiagramCurve"
exp = F_EXP
sq = lambda t: t * t
gauss = lambda x, a, b, s: a * exp((z3.RealVal(-1) / 2 * sq(x - b)) / s)
sig = lambda x, a, b, m: m / (1 + exp(a - b * x))


def params(c, k):
    return [c.real(f"a{j}") for j in range(k)]


def law2(c, fn, k, formula, nonzero=()):
    "value for numbers and, elementwise, for arrays of any length; arguments not modified"
    a = params(c, k)
    for j in nonzero:
        c.require(a[j] != 0)
    x, y = c.real("x"), c.real("y")
    r = c.returns(c.call(M + fn, x, y, *a))
    c.ensure("numbers: documented formula", zr(scalar(r)) == formula(x, y, a))
    n = c.int("n", lo=0)
    ws, wa = c.arr("ws", (n,)), c.arr("wa", (n,))
    f, g = ws.snap(), wa.snap()
    r = c.returns(c.call(M + fn, ws, wa, *a))
    c.shape_is("arrays: one value per wind", r, (n,))
    c.forall("arrays: documented formula", n, lambda i: zr(r.get(i)) == formula(f((i,)), g((i,)), a))
    c.unchanged("wind speeds not modified", ws, f)
    c.unchanged("wind angles not modified", wa, g)


def law1(c, fn, k, formula, nonzero=(), **kw):
    a = params(c, k)
    for j in nonzero:
        c.require(a[j] != 0)
    x = c.real("x")
    r = c.returns(c.call(D + fn, x, *a, **kw))
    c.ensure(f"{kw or ''} number: documented formula", zr(scalar(r)) == formula(x, a))
    n = c.int("n", lo=0)
    xs = c.arr("xs", (n,))
    f = xs.snap()
    r = c.returns(c.call(D + fn, xs, *a, **kw))
    c.shape_is(f"{kw or ''} array: one value per entry", r, (n,))
    c.forall(f"{kw or ''} array: documented formula", n, lambda i: zr(r.get(i)) == formula(f((i,)), a))
    c.unchanged("argument not modified", xs, f)


@contract("C27", M + "ws_times_wa")
def times(c):
    law2(c, "ws_times_wa", 1, lambda x, y, a: a[0] * x * y)


@contract("C27", [M + "ws_concave_dt_wa", D + "concave_function", D + "inverted_shifted_parabola"])
def concave_dt_wa(c):
    law2(c, "ws_concave_dt_wa", 11, lambda x, y, a: a[0] + a[1] * x - a[2] * sq(x) + a[3] * y + a[5] * sq(y - a[4]) + a[6] * x * y
         + a[7] * (360 - y) + a[9] * sq((360 - y) - a[8]) + a[10] * x * (360 - y))


@contract("C27", [M + "ws_wa_s_dt", D + "s_shaped"])
def wa_s_dt(c):
    law2(c, "ws_wa_s_dt", 14, lambda x, y, a: sig(x, a[0], a[1], a[2]) - a[3] * sq(x) + sig(y, a[4], a[5], a[6]) - a[7] * sq(y) + a[8] * x * y
         + sig(360 - y, a[9], a[10], a[11]) - a[12] * sq(360 - y) + a[13] * x * (360 - y))


@contract("C27", [M + "ws_s_dt_wa_gauss", D + "s_shaped", D + "gaussian_model"])
def s_dt_wa_gauss(c):
    law2(c, "ws_s_dt_wa_gauss", 10, lambda x, y, a: sig(x, a[0], a[1], a[2]) - a[3] * sq(x) + gauss(y, a[4], a[5], a[6])
         + gauss(360 - y, a[7], a[8], a[9]), (6, 9))


@contract("C27", [M + "ws_s_s_dt_wa_gauss_comb", D + "s_shaped", D + "gaussian_model"])
def s_s_dt_wa_gauss_comb(c):
    law2(c, "ws_s_s_dt_wa_gauss_comb", 12, lambda x, y, a: sig(x, a[0], a[1], a[2]) - a[3] * sq(x) + gauss(y, a[4], a[5], a[6]) + a[7] * x * y
         + gauss(360 - y, a[8], a[9], a[10]) + a[11] * x * (360 - y), (6, 10))


@contract("C27", [M + "ws_s_wa_gauss", D + "s_shaped", D + "gaussian_model"])
def s_wa_gauss(c):
    law2(c, "ws_s_wa_gauss", 9, lambda x, y, a: sig(x, a[0], a[1], a[2]) + gauss(y, a[3], a[4], a[5]) + gauss(360 - y, a[6], a[7], a[8]), (5, 8))


@contract("C27", [M + "ws_s_wa_gauss_and_square", D + "s_shaped", D + "gaussian_model"])
def s_wa_gauss_and_square(c):
    law2(c, "ws_s_wa_gauss_and_square", 10, lambda x, y, a: (sig(x, a[0], a[1], a[2]) - a[3] * sq(x)
         + x * (gauss(y, a[4], a[5], a[6]) + gauss(360 - y, a[7], a[8], a[9]))) * y * (360 - y), (6, 9))


@contract("C27", [D + "polynomial_function", D + "inverted_parabola", D + "inverted_shifted_parabola", D + "concave_function"])
def polynomials(c):
    def poly(d):
        def f(x, a):
            p, s = z3.RealVal(1), z3.RealVal(0)
            for j in range(d + 1):
                s, p = s + a[j] * p, p * x
            return s
        return f
    for d in (1, 2, 3):
        law1(c, "polynomial_function", d + 1, poly(d), deg=d)
    law1(c, "inverted_parabola", 3, lambda x, a: a[1] + a[2] * sq(x - a[0]))
    law1(c, "inverted_shifted_parabola", 3, lambda x, a: a[0] * x + a[2] * sq(x - a[1]))
    law1(c, "concave_function", 3, lambda x, a: a[0] + a[1] * x - a[2] * sq(x), downturn=True, sat_limit=False)
    law1(c, "concave_function", 3, lambda x, a: a[2] - a[0] * exp(a[1] - x), downturn=False, sat_limit=True)
    law1(c, "concave_function", 4, lambda x, a: a[2] - a[0] * exp(a[1] - x) - a[3] * sq(x), downturn=True, sat_limit=True)
    c.raises(c.call(D + "concave_function", c.real("x"), *params(c, 4), downturn=False, sat_limit=False), ValueError)


@contract("C27", [D + "s_shaped", D + "gaussian_model", D + "gmm_model"])
def exponentials(c):
    law1(c, "s_shaped", 4, lambda x, a: sig(x, *a[:3]) - a[3] * sq(x))
    law1(c, "s_shaped", 3, lambda x, a: sig(x, *a[:3]), downturn=False)
    law1(c, "gaussian_model", 3, lambda x, a: gauss(x, *a[:3]), (2,))
    law1(c, "gaussian_model", 4, lambda x, a: gauss(x, *a[:3]) + a[3], (2,), offset=True)
    law1(c, "gmm_model", 7, lambda x, a: gauss(x, *a[:3]) + gauss(x, *a[3:6]) + a[6], (2, 5))


@contract("C27", CURVE + ".__call__")
def curve(c):
    "a curve evaluates its function, with its parameters, at the wind speed and the wind angle modulo the full circle"
    n = c.int("n", lo=0)
    f = c.fun("f", REAL, REAL, REAL, REAL, REAL)
    a = params(c, 2)
    from pyvc import npmodel

    def m(it, args, kw):
        ws, wa, p, q = args
        if hasattr(wa, "shape") and wa.shape != ():
            u, v = ws.snap(), wa.snap()
            return c.arr_of((n,), lambda ix: f(zr(u(ix)), zr(v(ix)), zr(p), zr(q)))
        return f(zr(scalar(ws)), zr(scalar(wa)), zr(p), zr(q))

    fn = c.opaque_fn("f", m)
    for rad in (False, True):
        pd = c.obj(CURVE, _f=fn, _params=tuple(a), _rad=rad)
        red = (lambda y: ops.deg2rad(ops.mod(ops.rad2deg(y), 360))) if rad else (lambda y: ops.mod(y, 360))
        x, y = c.real("x"), c.real("y")
        c.require(x >= 0)
        r = c.returns(c.method(pd, "__call__", x, y))
        c.ensure("numbers", zr(scalar(r)) == f(x, red(y), *a))
        ws, wa = c.arr("ws", (n,)), c.arr("wa", (n,))
        u, v = ws.snap(), wa.snap()
        c.require_all(n, lambda k: u((k,)) >= 0)
        r = c.returns(c.method(pd, "__call__", ws, wa))
        c.shape_is("arrays: one boat speed per wind", r, (n,))
        c.forall("arrays", n, lambda i: zr(r.get(i)) == f(u((i,)), red(v((i,))), *a))
        c.unchanged("wind speeds not modified", ws, u)
        c.unchanged("wind angles not modified", wa, v)


@contract("C27", CURVE + ".__call__")
def curve_negative_speed(c):
    pd = c.obj(CURVE, _f=c.opaque_fn("f", lambda it, args, kw: zr(0)), _params=(), _rad=c.bool("rad"))
    x = c.real("x")
    c.require(x < 0)
    c.raises(c.method(pd, "__call__", x, c.real("y")), ValueError, what="a negative wind speed is rejected")
    n = c.int("n", lo=1)
    ws, wa = c.arr("ws", (n,)), c.arr("wa", (n,))
    i = c.skolem(n)
    c.require(ws.get(i) < 0)
    c.raises(c.method(pd, "__call__", ws, wa), ValueError, what="an array with a negative wind speed is rejected")


@contract("C27", CURVE + ".__init__")
def curve_construction(c):
    "the parameters that are stored are those given; too few or too many are rejected"
    a = params(c, 9)
    pd = c.returns(c.new(CURVE, c.it.lift(__import__("hrosailing.core.modelfunctions", fromlist=["x"]).ws_times_wa), a[0]))
    r = c.returns(c.method(pd, "__call__", c.int("u", lo=0), c.real("y")))
    c.ensure("evaluates with its parameter", zr(scalar(r)) == a[0] * z3.ToReal(z3.Int("u")) * ops.mod(z3.Real("y"), 360))
    c.raises(c.new(CURVE, c.it.lift(__import__("hrosailing.core.modelfunctions", fromlist=["x"]).ws_times_wa)), ValueError, what="missing parameter")
    c.raises(c.new(CURVE, "f", a[0]), TypeError, what="not a function")
