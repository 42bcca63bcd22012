"""plots draw the diagram's own points, in their order, with the sail and the colour of each (hrosailing/plotting/projections.py)"""
import numpy as np
from matplotlib.axes import Axes
from matplotlib.colors import to_rgb
from scipy.spatial import ConvexHull

from hrosailing.polardiagram import PolarDiagram
from pyvc import ops
from pyvc.harness import Raised, contract
from pyvc.terms import *
from pyvc.values import Choice, S
from pyvc.z3load import z3
from contracts.common import val
P = "hrosailing.plotting.projections."


class Axis:
    "an axis which records what it is asked to draw"

    def plot(self, x, y, **kwargs):
        self.drawn.append((x, y))

    def scatter(self, x, y, **kwargs):
        self.dots.append((x, y))


class Diagram:
    "a polar diagram, by the contract of get_points"

    def get_points(self, wind=None):
        return self.points


class PolarPoints(PolarDiagram):
    "a polar diagram, by the contract of get_points"

    def get_points(self, wind=None):
        return self.points


def gradient(c, name="value"):
    n = c.int("n", lo=1)
    v = c.fun(name, INT, REAL)
    return n, v


@contract("C28", [P + "_get_gradient_coefficients"])
def coefficients(c):
    "the share of the way from the smallest to the largest value; 0 if all are equal"
    n, v = gradient(c)
    r = c.returns(c.call(P + "_get_gradient_coefficients", c.list_of(n, lambda k: v(zi(k)))))
    c.ensure("one per value", zi(r.length()) == n)
    i, j, k = c.skolem(n, "i"), c.skolem(n, "j"), c.skolem(n, "k")
    c.require_all(n, lambda m: z3.And(v(i) <= v(m), v(m) <= v(j)))  # i, j: the smallest and the largest value
    x = zr(r.get(k))
    c.ensure("interpolated", z3.Implies(v(i) < v(j), x * (v(j) - v(i)) == v(k) - v(i)))
    c.ensure("between 0 and 1", z3.And(x >= 0, x <= 1))


@contract("C28", [P + "_determine_color_gradient", P + "_determine_colors_from_coefficients"])
def colours(c):
    "every value has the colour between the two given ones that belongs to its share"
    n, v = gradient(c)
    rgb = [[c.real(f"c{a}{b}") for b in range(3)] for a in range(2)]

    def model(col, *a, **k):
        return tuple(rgb[0] if col == "red" else rgb[1])
    c.external(to_rgb, "matplotlib.colors.to_rgb: some colour", model)
    r = c.returns(c.call(P + "_determine_color_gradient", ("red", "blue"), c.arr_of((n,), lambda idx: v(zi(idx[0])))))
    c.ensure("one per value", zi(r.length()) == n)
    i, j, k = c.skolem(n, "i"), c.skolem(n, "j"), c.skolem(n, "k")
    c.require_all(n, lambda m: z3.And(v(i) <= v(m), v(m) <= v(j)))
    c.require(v(i) < v(j))
    col = r.get(k)
    for b in range(3):
        x = zr(col.get(b))
        c.ensure(f"channel {b}", ((x - rgb[0][b]) * (v(j) - v(i)) == (rgb[1][b] - rgb[0][b]) * (v(k) - v(i))))


@contract("C28", [P + "_configure_color_cycle"])
def cycle(c):
    "the slices take the colors in turn; blue if there are too few; pairs color the slice of their wind speed"
    for m in (1, 2, 3):
        for n in (1, 2, 3):
            cyc = c.plist(["blue"] * n)
            cols = ["red", "green", "black"][:m]
            ws = [c.real(f"ws{i}") for i in range(n)]
            c.returns(c.call(P + "_configure_color_cycle", cyc, c.plist(cols), c.plist(ws)))
            for i in range(n):
                c.ensure(f"{m} colors, slice {i} of {n}", cyc.get(i) == (cols + ["blue"] * n)[i])
    ws = [c.real(f"w{i}") for i in range(3)]
    c.require(z3.Distinct(*ws))
    cyc = c.plist(["blue"] * 3)
    c.returns(c.call(P + "_configure_color_cycle", cyc, c.plist([(ws[2], "red"), (ws[0], "green")]), c.plist(list(ws))))
    for i, x in enumerate(("green", "blue", "red")):
        c.ensure(f"pair {i}", cyc.get(i) == x)


def a_slice(c, n):
    w, a, b = c.fun("ws", INT, REAL), c.fun("wa", INT, REAL), c.fun("bsp", INT, REAL)
    c.require_all(n, lambda k: z3.And(a(k) >= 0, a(k) <= 360, b(k) >= 0))
    return c.arr_of((3, n), lambda idx: {0: w, 1: a, 2: b}[conc(idx[0])](zi(idx[1]))), w, a, b


@contract("C28", [P + "_plot"])
def drawing(c):
    "without info, every slice is drawn with its own points, in the order of their angles; an empty selection draws nothing"
    n = c.int("n", lo=1)
    sl, w, a, b = a_slice(c, n)
    for radians in (False, True):
        for scatter in (False, True):
            ax = c.obj("contracts.c28.Axis", drawn=c.plist([]), dots=c.plist([]))
            c.returns(c.call(P + "_plot", ax, c.plist([sl]), None, radians, False, scatter))
            got, other = ax.attrs["drawn"], ax.attrs["dots"]
            if scatter:
                got, other = other, got
            tag = f"{'polar' if radians else 'flat'} {'scatter' if scatter else 'plot'}"
            c.ensure(f"{tag}: once", z3.And(zi(got.length()) == 1, zi(other.length()) == 0))
            x, y = got.get(0)
            c.shape_is(f"{tag}: angles", x, (n,))
            c.shape_is(f"{tag}: boat speeds", y, (n,))
            angle = (lambda t: ops.deg2rad(t)) if radians else (lambda t: t)
            k = c.skolem(n, "k")
            c.member(f"{tag}: every point drawn", n, lambda m: z3.And(zr(x.get(m)) == zr(angle(a(k))), zr(y.get(m)) == b(k)), ghosts=True, hints=[k])
            c.member(f"{tag}: only points", n, lambda m: z3.And(zr(x.get(k)) == zr(angle(a(m))), zr(y.get(k)) == b(m)), ghosts=True, hints=[k])
            j = c.skolem(n, "j")
            c.ensure(f"{tag}: ordered", z3.Implies(k < j, zr(x.get(k)) <= zr(x.get(j))))


@contract("C28", [P + "_plot"])
def sails(c):
    "with info, every point is handed on with its own entry"
    n = c.int("n", lo=1)
    sl, w, a, b = a_slice(c, n)
    s = c.fun("sail", INT, INT)
    seen = []

    def summary(wa, bsp, info):
        seen.append((wa, bsp, info))
        return wa, bsp
    c.by_contract(P + "_alter_with_info", summary)
    ax = c.obj("contracts.c28.Axis", drawn=c.plist([]), dots=c.plist([]))
    c.returns(c.call(P + "_plot", ax, c.plist([sl]), c.plist([c.list_of(n, lambda k: s(zi(k)))]), False))
    if len(seen) != 1:
        raise Unsupported("info is not handed to _alter_with_info once")
    x, y, info = seen[0]
    k = c.skolem(n, "k")
    it = c.it.seq(info)[1]
    c.member("own entry", n, lambda m: z3.And(zr(x.get(k)) == a(m), zr(y.get(k)) == b(m), zi(it(k)) == s(m)), ghosts=True, hints=[k])


OWN = {"A": "Jib", "B": "JIB", "C": "Jib 2", "D": None}


@contract("C28", [P + "_alter_with_info", P + "_get_info_intervals", P + "_merge"], bounded="slices of up to 4 points, in every pattern of equal entries; every angle and boat speed")
def joined(c):
    "points with equal info are joined in their order, the parts are separated by gaps and follow the first point of each "
    for names in ["A", "AA", "AB", "AAA", "AAB", "ABA", "ABB", "ABC", "AAAB", "AABA", "ABAA", "AABB", "ABAB", "ABBA", "AABC", "ABAC", "ABCA", "ABBC", "ABCB", "ABCD", "BA"]:
        a, b = [c.real(f"a{names}{i}") for i in range(len(names))], [c.real(f"b{names}{i}") for i in range(len(names))]
        x, y = c.returns(c.call(P + "_alter_with_info", c.carr(a), c.carr(b), c.plist([OWN[z] for z in names])))
        parts = [[i for i, z in enumerate(names) if z == t] for t in sorted(set(names), key=names.index)]
        want = []
        for p in parts:
            want += [None] + p
        want = want[1:]
        c.shape_is(f"info {names}: angles", x, (len(want),))
        c.shape_is(f"info {names}: boat speeds", y, (len(want),))
        for k, i in enumerate(want):
            for nm, u, v in (("angle", x, a), ("boat speed", y, b)):
                e = u.get(k)
                if i is None:
                    c.ensure(f"info {names}: gap {nm} {k}", gap(e))
                else:
                    c.ensure(f"info {names}: {nm} {k}", False if gap(e) else zr(e) == v[i])


def gap(e):
    return isinstance(e, float) and e != e


@contract("C28", [P + "Axes3D._prepare_points"])
def space(c):
    "the points in space: the boat speed in the direction of the wind angle, the wind speed as height"
    n = c.int("n", lo=1)
    p = c.fun("point", INT, INT, REAL)
    pd = c.obj("contracts.c28.Diagram", points=c.arr_of((n, 3), lambda idx: p(zi(idx[0]), zi(idx[1]))))
    ax = c.obj(P + "Axes3D")
    x, y, z = c.returns(c.call(P + "Axes3D._prepare_points", ax, pd, None))
    k = c.skolem(n, "k")
    r = ops.deg2rad(p(k, 1))
    for nm, u in (("x", x), ("y", y), ("z", z)):
        c.shape_is(nm, u, (n,))
    c.ensure("across", zr(x.get(k)) == p(k, 2) * zr(ops.trig("sin")(r)))
    c.ensure("along", zr(y.get(k)) == p(k, 2) * zr(ops.trig("cos")(r)))
    c.ensure("height", zr(z.get(k)) == p(k, 0))


def same(t, x):
    if isinstance(t, Choice):
        out, before = [], []
        for cond, u in t.alts:
            out.append(z3.And(*[z3.Not(zb(o)) for o in before], zb(cond), same(u, x)))
            before.append(cond)
        return z3.Or(*out)
    return z3.BoolVal(False) if t is None else zi(t) == x


@contract("C28", [P + "_get_convex_hull"])
def hull(c):
    "the corners of the hull with their own info, in the order of their angles; if they go around, the ends at 0 and 360 degrees are one point on the edge between the last and the first corner"
    n = c.int("n", lo=3)
    sl, w, a, b = a_slice(c, n)
    V = c.int("vertices", lo=3)
    v = c.fun("vertex", INT, INT)
    c.require_all(V, lambda k: z3.And(v(k) >= 0, v(k) < n))
    c.require_pairs(V, lambda k, l: v(k) != v(l))
    seen = []

    def model(pts, *args, **kw):
        seen.append(pts.snap())
        return c.obj("contracts.c25.Hull", points=pts, vertices=c.arr_of((V,), lambda idx: v(zi(idx[0])), "i"))
    c.external(ConvexHull, "scipy.spatial.ConvexHull: vertices are the vertices of the convex hull", model)
    def sine(k):
        t = zr(ops.trig("sin")(ops.deg2rad(a(k))))
        return z3.And(z3.Implies(z3.And(a(k) > 0, a(k) < 180), t > 0), z3.Implies(z3.And(a(k) > 180, a(k) < 360), t < 0))
    S.assumed.add("trigonometry: the sine is positive between 0 and 180 degrees and negative between 180 and 360 degrees")
    c.require_all(n, sine)
    c.require_pairs(V, lambda k, l: z3.Not(z3.And(b(v(k)) == 0, b(v(l)) == 0)))  # the corners are different points
    info = c.branch(c.bool("with info"))
    s = c.fun("sail", INT, INT)
    ws, wa, bsp, inf = c.returns(c.call(P + "_get_convex_hull", sl, c.list_of(n, lambda k: s(zi(k))) if info else None))
    if len(seen) != 1:
        raise Unsupported("not one hull")
    i = c.skolem(n, "i")
    c.ensure("hull of the points of the plane", z3.And(zr(seen[0]((i, 0))) == b(i) * zr(ops.trig("cos")(ops.deg2rad(a(i)))), zr(seen[0]((i, 1))) == b(i) * zr(ops.trig("sin")(ops.deg2rad(a(i))))))
    m = simp(zi(wa.shape[0]))
    c.shape_is("boat speeds", bsp, (m,))
    c.shape_is("wind speeds", ws, (m,))
    at = c.it.seq(inf)[1] if info else None
    if info:
        c.ensure("one info per point", zi(c.it.seq(inf)[0]) == m)

    def corner(p, k, shift=0):
        "the point drawn at p is the corner k"
        g = z3.And(zr(wa.get(p)) == a(v(k)), zr(bsp.get(p)) == b(v(k)), zr(ws.get(p)) == w(v(k)))
        if not info:
            return g
        return z3.And(g, same(at(p), s(v(k))))
    first, last = zr(wa.get(0)), zr(wa.get(m - 1))
    k, p, q = c.skolem(V, "k"), c.skolem(m, "p"), c.skolem(m, "q")
    c.ensure("in the order of the angles", z3.Implies(p < q, zr(wa.get(p)) <= zr(wa.get(q))))
    c.ensure("around or along", z3.Or(z3.And(first == 0, last == 360), last - first < 180))
    extra = simp(m - V)
    ends = [0] if conc(extra) == 0 else [0, 1]
    c.member("every corner is drawn", m, lambda x: z3.Or(*[z3.And(x + e < m, corner(x + e, k)) for e in ends]), hints=[k])
    c.member("only corners are drawn", V, lambda x: corner(p, x), hints=[p, p - 1], given=z3.Not(z3.Or(p == 0, p == m - 1)) if conc(extra) != 0 else True)
    if conc(extra) == 1:  # there is a corner at 0 or 360
        c.ensure("the ends are one point", z3.And(zr(bsp.get(0)) == zr(bsp.get(m - 1)), zr(ws.get(0)) == zr(ws.get(m - 1))))
    if conc(extra) == 2:
        def pt(i):
            r = ops.deg2rad(wa.get(i))
            return zr(bsp.get(i)) * zr(ops.trig("sin")(r)), zr(bsp.get(i)) * zr(ops.trig("cos")(r))
        (x0, y0), (x1, y1) = pt(1), pt(m - 2)
        e = zr(bsp.get(0))
        c.ensure("the ends are one point", e == zr(bsp.get(m - 1)))
        c.ensure("between the last and the first corner", z3.And(x0 >= 0, x1 <= 0, x0 - x1 > 0))
        c.ensure("on the edge", e * (x0 - x1) == x0 * y1 - x1 * y0)


@contract("C28", [P + "HROColorGradient.scatter", P + "_determine_color_gradient"])
def heat_map(c):
    "the points are drawn at their wind speed and wind angle, in the colours of their boat speeds"
    n = c.int("n", lo=1)
    p = c.fun("point", INT, INT, REAL)
    pd = c.obj("contracts.c28.PolarPoints", points=c.arr_of((n, 3), lambda idx: p(zi(idx[0]), zi(idx[1]))))
    ax = c.obj(P + "HROColorGradient")
    seen = []
    colours = {}

    def gradient(colors, values):
        f = values.snap()
        colours["v"], colours["n"] = (lambda i: f((i,))), values.shape[0]
        return "the colours"
    c.by_contract(P + "_determine_color_gradient", gradient)
    c.external(Axes.scatter, "matplotlib.axes.Axes.scatter draws the points (x, y) it is given", lambda self, *args, **kw: seen.append((args, kw)))
    c.returns(c.call(P + "HROColorGradient.scatter", ax, pd))
    if len(seen) != 1 or len(seen[0][0]) != 2 or seen[0][1].get("c") != "the colours":
        raise Unsupported("not drawn by one call of scatter")
    (x, y), _ = seen[0]
    k = c.skolem(n, "k")
    c.shape_is("x", x, (n,))
    c.shape_is("y", y, (n,))
    c.ensure("a colour per point", zi(colours["n"]) == n)
    c.ensure("wind speed", zr(x.get(k)) == p(k, 0))
    c.ensure("wind angle", zr(y.get(k)) == p(k, 1))
    c.ensure("colour of the boat speed", zr(colours["v"](k)) == p(k, 2))
