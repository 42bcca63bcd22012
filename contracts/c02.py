"""The round trip is a lemma over the contracts of the two conversions (both re-verified here on the real code)."""
from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3

from contracts import c01
from pyvc.harness import REGISTRY

del REGISTRY[:]
M = "hrosailing.core.computing."


@contract("C02", [M + "convert_true_wind_to_apparent"] + c01.DEPS)
def true_to_apparent(c):
    "vector law of the conversion to apparent wind"
    c01.law(c, "convert_true_wind_to_apparent", 1)


@contract("C02", [M + "convert_apparent_wind_to_true"] + c01.DEPS)
def apparent_to_true(c):
    "vector law of the conversion to true wind"
    c01.law(c, "convert_apparent_wind_to_true", -1)


def composed(c, sgn):
    """From the two vector laws alone: speed, angle (mod 360) and boat speed come back."""
    w, b, x, s, y, s2, z = (c.real(k) for k in ("ws", "bsp", "wa", "s", "ang", "s2", "ang2"))
    a, u, v = ops.deg2rad(ops.mod(x, 360)), ops.deg2rad(ops.mod(y, 360)), ops.deg2rad(z)
    ca, sa, cu, su, cv, sv = F_COS(a), F_SIN(a), F_COS(u), F_SIN(u), F_COS(v), F_SIN(v)
    c.require(z3.And(w > 0, s > 0, s2 > 0, z >= 0, z <= 360))
    c.require(z3.And(s * cu == w * ca + sgn * b, s * su == w * sa))           # first conversion
    c.require(z3.And(s2 * cv == s * cu - sgn * b, s2 * sv == s * su))         # second conversion
    one = z3.And(ca * ca + sa * sa == 1, cv * cv + sv * sv == 1)
    comp = z3.And(s2 * cv == w * ca, s2 * sv == w * sa)
    c.assert_("components come back", comp)
    c.ensure_from("squared speeds agree", [comp, one], s2 * s2 == w * w, abstract=[ca, sa, cv, sv], then=True)
    c.ensure_from("speed comes back", [s2 * s2 == w * w, s2 > 0, w > 0], s2 == w, then=True)
    c.ensure_from("direction comes back", [comp, s2 == w, w > 0], z3.And(cv == ca, sv == sa), abstract=[ca, sa, cv, sv], then=True)
    r = ops.mod(x, 360)
    c.ensure("angle comes back modulo 360", z3.Or(z == r, z3.And(z == 360, r == 0)))


@contract("C02", [M + "_Wind.convert_wind"], lemma=True)
def roundtrip_true_apparent_true(c):
    "lemma: to true after to apparent is the identity (mod 360)"
    composed(c, 1)


@contract("C02", [M + "_Wind.convert_wind"], lemma=True)
def roundtrip_apparent_true_apparent(c):
    "lemma: to apparent after to true is the identity (mod 360)"
    composed(c, -1)


@contract("C02", [M + "_Wind.convert_wind"], lemma=True)
def normalised_angle(c):
    "lemma: the angle handed on, within 0..360, has the same sine and cosine after the reduction modulo 360"
    y = c.real("ang")
    c.require(z3.And(y >= 0, y <= 360))
    u, v = ops.deg2rad(ops.mod(y, 360)), ops.deg2rad(y)
    c.ensure("same direction", z3.And(F_COS(u) == F_COS(v), F_SIN(u) == F_SIN(v)))
