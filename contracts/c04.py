from contracts.common import table
from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3
T = "hrosailing.polardiagram._polardiagramtable."
DEPS = [T + "PolarDiagramTable.change_entries", T + "PolarDiagramTable._get_indices", T + "_Resolution_helper.normalize_wind"]


def selection(c, f, g, m, n, lo=2):
    """ws[b], wa[a]: pairwise different nodes of the table, in any order (with the positions as ghost functions)"""
    k, l = c.int("k", lo=lo), c.int("l", lo=lo)
    ws, wa = c.arr("sel_ws", (k,)), c.arr("sel_wa", (l,))
    u, v = ws.snap(), wa.snap()
    pj, pi = c.fun("pos_ws", INT, INT), c.fun("pos_wa", INT, INT)
    red = lambda a: ops.mod(v((a,)), 360)
    c.require_all(k, lambda b: z3.And(pj(b) >= 0, pj(b) < m, u((b,)) == f((pj(b),)), u((b,)) >= 0))
    c.require_all(l, lambda a: z3.And(pi(a) >= 0, pi(a) < n, red(a) == g((pi(a),))))
    c.require_pairs(k, lambda a, b: u((a,)) != u((b,)))
    c.require_pairs(l, lambda a, b: red(a) != red(b))
    return k, l, ws, wa, u, red, pj, pi, v


@contract("C04", DEPS)
def changed_cells(c):
    "the value given for a pair ends up at exactly that pair (selections of at least two speeds and two angles, any order)"
    t, m, n, f, g, h = table(c)
    k, l, ws, wa, u, red, pj, pi, v = selection(c, f, g, m, n)
    new = c.arr("new", (l, k))
    w = new.snap()
    c.returns(c.method(t, "change_entries", new, ws, wa))
    bs = c.attr(t, "boat_speeds")
    c.shape_is("shape unchanged", bs, (n, m))
    a, b = c.skolem(l, "a"), c.skolem(k, "b")
    c.ensure("value at its pair", bs.get(pi(a), pj(b)) == w((a, b)))
    c.unchanged("new values not modified", new, w)
    c.unchanged("selected speeds not modified", ws, u)
    c.unchanged("selected angles not modified", wa, v)
    c.unchanged("speeds of the table", t.attrs["_ws_resolution"], f)
    c.unchanged("angles of the table", t.attrs["_wa_resolution"], g)


@contract("C04", DEPS)
def other_cells(c):
    "frame: a cell whose speed or angle is not selected keeps its value"
    t, m, n, f, g, h = table(c)
    k, l, ws, wa, u, red, pj, pi, v = selection(c, f, g, m, n)
    i, j = c.skolem(n, "i"), c.skolem(m, "j")
    out = c.bool("row_is_outside")
    c.require_all(l, lambda a: z3.Implies(out, red(a) != g((i,))))
    c.require_all(k, lambda b: z3.Implies(z3.Not(out), u((b,)) != f((j,))))
    c.returns(c.method(t, "change_entries", c.arr("new", (l, k)), ws, wa))
    c.ensure("cell keeps its value", c.attr(t, "boat_speeds").get(i, j) == h((i, j)))


@contract("C04", DEPS)
def one_column(c):
    "ws=one speed: column replaced in row order, the rest kept"
    t, m, n, f, g, h = table(c)
    j0, j = c.skolem(m, "j0"), c.skolem(m, "j")
    i = c.skolem(n, "i")
    new = c.arr("new", (n,))
    c.returns(c.method(t, "change_entries", new, ws=f((j0,))))
    bs = c.attr(t, "boat_speeds")
    c.ensure("column", bs.get(i, j0) == new.get(i))
    c.ensure("rest", z3.Implies(j != j0, bs.get(i, j) == h((i, j))))


@contract("C04", DEPS)
def one_row(c):
    "wa=one angle: row replaced in column order, the rest kept"
    t, m, n, f, g, h = table(c)
    i0, i = c.skolem(n, "i0"), c.skolem(n, "i")
    j = c.skolem(m, "j")
    new = c.arr("new", (m,))
    ang = c.real("angle")
    c.require(ops.mod(ang, 360) == g((i0,)))
    c.returns(c.method(t, "change_entries", new, wa=ang))
    bs = c.attr(t, "boat_speeds")
    c.ensure("row", bs.get(i0, j) == new.get(j))
    c.ensure("rest", z3.Implies(i != i0, bs.get(i, j) == h((i, j))))


@contract("C04", DEPS)
def one_cell(c):
    "one speed and one angle: that cell only"
    t, m, n, f, g, h = table(c)
    i0, i, j0, j = c.skolem(n, "i0"), c.skolem(n, "i"), c.skolem(m, "j0"), c.skolem(m, "j")
    x = c.real("x")
    c.returns(c.method(t, "change_entries", x, f((j0,)), g((i0,))))
    bs = c.attr(t, "boat_speeds")
    c.ensure("cell", bs.get(i0, j0) == x)
    c.ensure("rest", z3.Implies(z3.Or(i != i0, j != j0), bs.get(i, j) == h((i, j))))


@contract("C04", DEPS)
def whole_table(c):
    "without a selection every cell is replaced"
    t, m, n, f, g, h = table(c)
    c.require(z3.And(m >= 2, n >= 2))
    i, j = c.skolem(n, "i"), c.skolem(m, "j")
    new = c.arr("new", (n, m))
    c.returns(c.method(t, "change_entries", new))
    c.ensure("cell", c.attr(t, "boat_speeds").get(i, j) == new.get(i, j))


@contract("C04", DEPS)
def rejects_unknown_speed(c):
    "a selection with a speed that is not in the table is rejected and nothing changes"
    t, m, n, f, g, h = table(c)
    k = c.int("k", lo=1)
    ws = c.arr("sel_ws", (k,))
    b = c.skolem(k, "b")
    c.require_all(m, lambda j: f((j,)) != ws.get(b))
    c.require_pairs(k, lambda x, y: ws.get(x) != ws.get(y))
    c.raises(c.method(t, "change_entries", c.arr("new", (c.int("p", lo=0), c.int("q", lo=0))), ws), Exception, what="unknown speed rejected")
    c.unchanged("table as before", t.attrs["_boat_speeds"], h)


@contract("C04", DEPS)
def rejects_unknown_angle(c):
    "a selection with an angle that is not in the table is rejected and nothing changes"
    t, m, n, f, g, h = table(c)
    k = c.int("k", lo=1)
    wa = c.arr("sel_wa", (k,))
    b = c.skolem(k, "b")
    red = lambda i: ops.mod(wa.get(i), 360)
    c.require_all(n, lambda i: g((i,)) != red(b))
    c.require_pairs(k, lambda x, y: red(x) != red(y))
    c.raises(c.method(t, "change_entries", c.arr("new", (c.int("p", lo=0), c.int("q", lo=0))), None, wa), Exception, what="unknown angle rejected")
    c.unchanged("table as before", t.attrs["_boat_speeds"], h)


@contract("C04", DEPS)
def rejects_shape(c):
    "a value array of the wrong shape is rejected and nothing changes"
    t, m, n, f, g, h = table(c)
    k, l, ws, wa, u, red, pj, pi, v = selection(c, f, g, m, n)
    p, q = c.int("p", lo=0), c.int("q", lo=0)
    c.require(z3.Or(p != l, q != k))
    c.raises(c.method(t, "change_entries", c.arr("new", (p, q)), ws, wa), Exception, what="wrong shape rejected")
    c.unchanged("table as before", t.attrs["_boat_speeds"], h)


@contract("C04", DEPS)
def rejects_flat(c):
    "a flat list for a selection of several speeds and angles is rejected and nothing changes"
    t, m, n, f, g, h = table(c)
    k, l, ws, wa, u, red, pj, pi, v = selection(c, f, g, m, n)
    c.raises(c.method(t, "change_entries", c.arr("new", (c.int("p", lo=0),)), ws, wa), Exception, what="flat array rejected")
    c.unchanged("table as before", t.attrs["_boat_speeds"], h)
