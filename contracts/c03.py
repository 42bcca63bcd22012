from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3
T = "hrosailing.polardiagram._polardiagramtable."
DEPS = [T + "PolarDiagramTable.__init__", T + "_sort_table", T + "_Resolution_helper._custom_iterable_resolution"]


def inputs(c, distinct=True):
    m, n = c.int("m", lo=1), c.int("n", lo=1)
    ws, wa, b = c.arr("ws", (m,)), c.arr("wa", (n,)), c.arr("bsp", (n, m))
    f, g, h = ws.snap(), wa.snap(), b.snap()
    c.require_all(m, lambda k: f((k,)) >= 0)
    if distinct:
        c.require_pairs(m, lambda k, l: f((k,)) != f((l,)))
        c.require_pairs(n, lambda k, l: ops.mod(g((k,)), 360) != ops.mod(g((l,)), 360))
    return m, n, ws, wa, b, f, g, h


@contract("C03", DEPS)
def construct(c):
    "resolutions ascending and reduced; every supplied pair keeps its boat speed; arguments untouched"
    m, n, ws, wa, b, f, g, h = inputs(c)
    t = c.returns(c.new(T + "PolarDiagramTable", ws, wa, b))
    rs, ra, bs = c.attr(t, "wind_speeds"), c.attr(t, "wind_angles"), c.attr(t, "boat_speeds")
    c.shape_is("one column per wind speed", rs, (m,))
    c.shape_is("one row per wind angle", ra, (n,))
    c.shape_is("matrix shape", bs, (n, m))
    i, j = c.skolem(n, "i"), c.skolem(m, "j")
    k, l = c.skolem(n, "k"), c.skolem(m, "l")
    red = ops.mod(g((k,)), 360)
    c.ensure("boat speed of the supplied pair", z3.Implies(z3.And(ra.get(i) == red, rs.get(j) == f((l,))), bs.get(i, j) == h((k, l))))
    c.member("every supplied wind angle is a row", n, lambda x: ra.get(x) == red, hints=[k])
    c.member("every supplied wind speed is a column", m, lambda x: rs.get(x) == f((l,)), hints=[l])
    c.ensure("angles reduced", z3.And(ra.get(i) >= 0, ra.get(i) < 360))
    i2, j2 = c.skolem(n, "i2"), c.skolem(m, "j2")
    c.ensure("angles strictly ascending", z3.Implies(i < i2, ra.get(i) < ra.get(i2)))
    c.ensure("speeds strictly ascending", z3.Implies(j < j2, rs.get(j) < rs.get(j2)))
    c.unchanged("wind speeds argument not modified", ws, f)
    c.unchanged("wind angles argument not modified", wa, g)
    c.unchanged("boat speeds argument not modified", b, h)


from contracts.common import table


@contract("C03", [T + "PolarDiagramTable.__getitem__", T + "PolarDiagramTable._get_indices", T + "_Resolution_helper.normalize_wind"])
def lookup(c):
    "t[ws, wa] at a node is the stored value (angles modulo 360); the table is not modified"
    t, m, n, f, g, h = table(c)
    i, j = c.skolem(n, "i"), c.skolem(m, "j")
    wa = c.real("angle")
    c.require(ops.mod(wa, 360) == g((i,)))
    r = c.returns(c.method(t, "__getitem__", (f((j,)), wa)))
    c.ensure("stored value", r == h((i, j)))
    c.unchanged("table not modified", t.attrs["_boat_speeds"], h)


@contract("C03", [T + "PolarDiagramTable.__call__", T + "PolarDiagramTable.__getitem__"])
def call_at_node(c):
    "t(ws, wa) at a node is the stored value, whatever interpolator is set"
    t, m, n, f, g, h = table(c)
    i, j = c.skolem(n, "i"), c.skolem(m, "j")
    r = c.returns(c.method(t, "__call__", f((j,)), g((i,))))
    c.ensure("stored value", r == h((i, j)))


@contract("C03", [T + "PolarDiagramTable.__getitem__", T + "PolarDiagramTable._get_indices"])
def lookup_unknown(c):
    "a wind speed or angle that is not a node is rejected"
    t, m, n, f, g, h = table(c)
    ws, wa = c.real("speed"), c.real("angle")
    i = c.skolem(n, "i")
    c.require_all(m, lambda k: f((k,)) != ws)
    r = c.method(t, "__getitem__", (ws, g((i,))))
    c.raises(r, ValueError)


@contract("C03", [T + "PolarDiagramTable.__init__", T + "_incompatible_shapes"])
def rejects_mismatch(c):
    "a matrix whose shape does not match the resolutions is rejected; so are negative wind speeds"
    m, n, ws, wa, b, f, g, h = inputs(c, distinct=False)
    p, q = c.int("p", lo=0), c.int("q", lo=0)
    c.require(z3.Or(p != n, q != m))
    c.raises(c.new(T + "PolarDiagramTable", ws, wa, c.arr("bad", (p, q))), Exception, what="wrong shape rejected")
    c.raises(c.new(T + "PolarDiagramTable", ws, wa, c.arr("bad1", (p,))), Exception, what="one-dimensional matrix rejected")


@contract("C03", [T + "_Resolution_helper._custom_iterable_resolution"])
def rejects_negative(c):
    "a negative wind speed anywhere is rejected"
    m = c.int("m", lo=1)
    ws = c.arr("ws", (m,))
    i = c.skolem(m)
    c.require(ws.get(i) < 0)
    c.raises(c.new(T + "PolarDiagramTable", ws, None, None), Exception, what="negative wind speed rejected")


@contract("C03", [T + "PolarDiagramTable.__init__", T + "PolarDiagramTable._create_zero_table"])
def zero_table(c):
    "without boat speeds the table is all zero over the given resolutions"
    m, n, ws, wa, b, f, g, h = inputs(c)
    t = c.returns(c.new(T + "PolarDiagramTable", ws, wa))
    rs, ra, bs = c.attr(t, "wind_speeds"), c.attr(t, "wind_angles"), c.attr(t, "boat_speeds")
    c.shape_is("one column per wind speed", rs, (m,))
    c.shape_is("one row per wind angle", ra, (n,))
    c.shape_is("matrix shape", bs, (n, m))
    i, j, k, l = c.skolem(n), c.skolem(m), c.skolem(n), c.skolem(m)
    c.ensure("zero", bs.get(i, j) == 0)
    c.ensure("angles ascending", z3.Implies(i < k, ra.get(i) < ra.get(k)))
    c.ensure("speeds ascending", z3.Implies(j < l, rs.get(j) < rs.get(l)))
    c.member("every supplied wind angle is a row", n, lambda x: ra.get(x) == ops.mod(g((k,)), 360), hints=[k])
    c.member("every supplied wind speed is a column", m, lambda x: rs.get(x) == f((l,)), hints=[l])
    c.unchanged("arguments not modified", wa, g)


@contract("C03", [T + "_Resolution_helper._custom_stepsize_resolution"])
def stepsize(c):
    "a positive step gives all its multiples below the maximum; other steps are rejected"
    r = c.real("step")
    H = T + "_Resolution_helper."
    for nm, mx in (("build_wind_speed_resolution", 40), ("build_wind_angle_resolution", 360)):
        a = c.call(H + nm, r)
        if c.branch(z3.Or(r <= 0, r > mx)):
            c.raises(a, ValueError, what="step out of range rejected")
        else:
            a = c.returns(a)
            n = a.shape[0]
            c.forall("multiples of the step", n, lambda k: a.get(k) == r * (z3.ToReal(k) + 1))
            c.forall("below the maximum", n, lambda k: a.get(k) < mx)
            c.ensure("none missing", r * (zr(n) + 1) >= mx)
