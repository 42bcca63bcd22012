from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
from contracts.common import type_by_contract, val
W = "hrosailing.core.data.WeightedPoints"
N = ("TWS", "TWA", "BSP")


def points(c, form, n, tag, turned=False):
    "n points with ghost tags: the wind speed of point i is tag(i), the others are functions of i"
    f = [c.fun(f"{tag}_{k}", INT, REAL) for k in N]
    if form == "array":
        return c.arr_of((n, 3), lambda ix: z3.If(zi(ix[1]) == 0, f[0](zi(ix[0])), z3.If(zi(ix[1]) == 1, f[1](zi(ix[0])), f[2](zi(ix[0]))))), f
    cols = {k: c.list_of(n, lambda i, g=g: g(zi(i))) for k, g in zip(N, f)}
    if turned:
        cols = dict(reversed(cols.items()))
    return (c.data(n, **cols) if form == "data" else c.dict(**cols)), f


def reader(c, wp, form):
    "number of points, coordinate k of point i"
    d = c.attr(wp, "data")
    if form == "array":
        return zi(d.shape[0]), lambda i, k: zr(d.get(i, k))
    cols = c.attr(d, "_data").d if form == "data" else d.d
    c.ensure("columns", zb(set(cols) == set(N)))
    if form == "data":
        c.ensure("rows", zi(c.attr(d, "n_rows")) == zi(cols["TWS"].length()))
    for k in N[1:]:
        c.ensure(f"length of {k}", zi(cols[k].length()) == zi(cols["TWS"].length()))
    return zi(cols["TWS"].length()), lambda i, k: zr(val(cols[N[k]].get(i)))


def build(c, form, scalar=False):
    n = c.int("n", lo=1)
    pts, f = points(c, form, n, "p")
    w = c.real("w") if scalar else c.arr("w", (n,))
    wp = c.returns(c.new(W, pts, w))
    return n, wp, f, (lambda i: w) if scalar else w.snap()



def masked(c, form):
    n, wp, f, w = build(c, form)
    flag = c.arr("mask", (n,), "b")
    g = flag.snap()
    r = c.returns(c.method(wp, "__getitem__", flag))
    # the entry of the first coordinate stands for the point: it is its number
    c.require_all(n, lambda i: f[0](i) == z3.ToReal(zi(i)))
    m, at = reader(c, r, form)
    ws = c.attr(r, "weights")
    c.shape_is("one weight per point", ws, (m,))
    x = c.skolem(n)
    if conc(m) == 0:
        c.ensure("nothing was selected", z3.Not(zb(g((x,)))))
        return
    i, j = c.skolem(m), c.skolem(m)
    old = z3.ToInt(at(i, 0))
    S.touch(at(i, 0))
    c.ensure("point is a selected one", z3.And(at(i, 0) == z3.ToReal(old), old >= 0, old < n, zb(g((old,)))))
    c.ensure("its other coordinates", z3.And(at(i, 1) == f[1](old), at(i, 2) == f[2](old)))
    c.ensure("its weight", zr(ws.get(i)) == zr(w((old,))))
    c.ensure("order", z3.Implies(i < j, at(i, 0) < at(j, 0)))
    if c.branch(zb(g((x,)))):
        c.member("every selected point is there", m, lambda t: at(t, 0) == z3.ToReal(x), hints=[x], ghosts=True)
    k, at0 = reader(c, wp, form)
    c.ensure("original keeps its points", z3.And(k == n, at0(x, 0) == f[0](x), at0(x, 1) == f[1](x), at0(x, 2) == f[2](x)))
    w0 = c.attr(wp, "weights")
    c.shape_is("original keeps its weights", w0, (n,))
    c.ensure("original weight", zr(w0.get(x)) == zr(w((x,))))


@contract("C32", [W + ".__getitem__", W + ".__init__"])
def mask_array(c):
    masked(c, "array")


@contract("C32", [W + ".__getitem__", W + ".__init__", "hrosailing.core.data.Data._mask_rows"])
def mask_data(c):
    masked(c, "data")


@contract("C32", [W + ".__getitem__", W + ".__init__"])
def mask_dict(c):
    masked(c, "dict")


def extended(c, form):
    if form == "data":
        type_by_contract(c)
    n, wp, f, w = build(c, form)
    m = c.int("m", lo=1)
    pts, g = points(c, form, m, "q", turned=True)
    v = c.arr("v", (m,))
    vf = v.snap()
    o = c.returns(c.new(W, pts, v))
    c.returns(c.method(wp, "extend", o))
    k, at = reader(c, wp, form)
    ws = c.attr(wp, "weights")
    c.ensure("all points", k == n + m)
    c.shape_is("one weight per point", ws, (n + m,))
    i, j = c.skolem(n), c.skolem(m)
    for d in range(3):
        c.ensure(f"first points, coordinate {d}", at(i, d) == f[d](i))
        c.ensure(f"appended points, coordinate {d}", at(n + j, d) == g[d](j))
    c.ensure("first weights", zr(ws.get(i)) == zr(w((i,))))
    c.ensure("appended weights", zr(ws.get(n + j)) == zr(vf((j,))))
    k, at = reader(c, o, form)
    c.ensure("appended object unchanged", z3.And(k == m, *[at(j, d) == g[d](j) for d in range(3)]))
    c.shape_is("its weights unchanged", c.attr(o, "weights"), (m,))


@contract("C32", [W + ".extend", W + ".__init__"])
def extend_array(c):
    extended(c, "array")


@contract("C32", [W + ".extend", W + ".__init__", "hrosailing.core.data.Data.concatenate"])
def extend_data(c):
    extended(c, "data")


@contract("C32", [W + ".extend", W + ".__init__"])
def extend_dict(c):
    extended(c, "dict")


@contract("C32", [W + ".__init__"])
def scalar_weights(c):
    "a number as weight: every point has it"
    for form in ("array", "data", "dict"):
        n, wp, f, w = build(c, form, scalar=True)
        ws = c.attr(wp, "weights")
        c.shape_is(f"{form}: one weight per point", ws, (n,))
        i = c.skolem(n)
        c.ensure(f"{form}: weight", zr(ws.get(i)) == w(i))
