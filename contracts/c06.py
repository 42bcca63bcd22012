from contracts.common import flat, table
from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
B = "hrosailing.processing.interpolator.BilinearGridInterpolator"
W = "hrosailing.core.data.WeightedPoints"
T = "hrosailing.polardiagram._polardiagramtable."
FUNS = [B + ".interpolate", B + "._convex_interpolation_1d", B + "._bs_in_grid", B + "._get_maximum_of_smaller_values",
        B + "._get_minimum_of_bigger_values"]


def grid(c):
    """n data rows of which some form the corners (x0|x1) x (y0|y1) of the cell around the query point"""
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, 3))
    f = pts.snap()
    gp = c.arr("grid_pt", (2,))
    g = gp.snap()
    x, y = g((0,)), g((1,))
    wp = c.obj(W, data=pts, weights=c.arr("weights", (n,)))
    return n, pts, f, gp, g, x, y, wp


def corners(c, n, f, x, y):
    x0, x1, y0, y1 = [c.real(k) for k in ("x0", "x1", "y0", "y1")]
    c.require(z3.And(x0 <= x, x <= x1, y0 <= y, y <= y1))
    # nearest coordinates on each side; on a grid line both sides are that line
    c.require_all(n, lambda k: z3.And(z3.Or(f((k, 0)) <= x0, f((k, 0)) >= x1), z3.Or(f((k, 1)) <= y0, f((k, 1)) >= y1)))
    c.require(z3.Implies(z3.Or(x0 == x, x1 == x), x0 == x1))
    c.require(z3.Implies(z3.Or(y0 == y, y1 == y), y0 == y1))
    # one boat speed per pair of coordinates
    bsp = c.fun("bsp", REAL, REAL, REAL)
    c.require_all(n, lambda i: f((i, 2)) == bsp(f((i, 0)), f((i, 1))))
    z = {}
    for a, xa in (("0", x0), ("1", x1)):
        for b, yb in (("0", y0), ("1", y1)):
            k = c.skolem(n, "corner" + a + b)
            c.require(z3.And(f((k, 0)) == xa, f((k, 1)) == yb))
            z[a + b] = bsp(xa, yb)
    return x0, x1, y0, y1, z


def case(c, xe, ye):
    n, pts, f, gp, g, x, y, wp = grid(c)
    x0, x1, y0, y1, z = corners(c, n, f, x, y)
    c.require(x0 == x1 if xe else x0 < x1)
    c.require(y0 == y1 if ye else y0 < y1)
    r = zr(c.returns(c.method(c.returns(c.new(B)), "interpolate", wp, gp)))
    c.unchanged("data not modified", pts, f)
    c.unchanged("query not modified", gp, g)
    return r, x, y, x0, x1, y0, y1, z


@contract("C06", FUNS)
def bilinear_node(c):
    "at a node: the stored value"
    r, x, y, x0, x1, y0, y1, z = case(c, True, True)
    c.ensure("stored value", r == z["00"])


@contract("C06", FUNS)
def bilinear_speed_line(c):
    "on a wind speed of the grid: linear between the two neighbouring angles"
    r, x, y, x0, x1, y0, y1, z = case(c, True, False)
    c.ensure("linear in the angle", r * (y1 - y0) == z["00"] * (y1 - y) + z["01"] * (y - y0))


@contract("C06", FUNS)
def bilinear_angle_line(c):
    "on a wind angle of the grid: linear between the two neighbouring speeds"
    r, x, y, x0, x1, y0, y1, z = case(c, False, True)
    c.ensure("linear in the speed", r * (x1 - x0) == z["00"] * (x1 - x) + z["10"] * (x - x0))


@contract("C06", FUNS, timeout=10)
def bilinear_cell(c):
    "inside a cell: the bilinear combination of its four corners"
    r, x, y, x0, x1, y0, y1, z = case(c, False, False)
    u, v = (x - x0) / (x1 - x0), (y - y0) / (y1 - y0)
    goal = r == (1 - u) * ((1 - v) * z["00"] + v * z["01"]) + u * ((1 - v) * z["10"] + v * z["11"])

    def cands(e):
        if e.decl().name() != "pts":
            return []
        return {"0": [x0, x1], "1": [y0, y1], "2": list(z.values())}.get(str(e.arg(1)), [])

    c.ensure_rewriting("bilinear combination", goal, cands, [x0 < x1, y0 < y1])


@contract("C06", FUNS)
def bilinear_in_range(c):
    "lemma: the bilinear combination lies between the smallest and the largest corner"
    z = [c.real(k) for k in ("z00", "z01", "z10", "z11")]
    u, v, lo, hi = c.real("u"), c.real("v"), c.real("lo"), c.real("hi")
    c.require(z3.And(u >= 0, u <= 1, v >= 0, v <= 1, *[z3.And(lo <= t, t <= hi) for t in z]))
    a, b = (1 - v) * z[0] + v * z[1], (1 - v) * z[2] + v * z[3]
    c.assert_("lower edge", z3.And(lo <= a, a <= hi))
    c.assert_("upper edge", z3.And(lo <= b, b <= hi))
    A, Bv = c.real("A"), c.real("B")
    c.require(z3.And(A == a, Bv == b))
    c.ensure_from("range", [u >= 0, u <= 1, lo <= A, A <= hi, lo <= Bv, Bv <= hi], z3.And(lo <= (1 - u) * A + u * Bv, (1 - u) * A + u * Bv <= hi))


@contract("C06", FUNS)
def outside(c):
    "a query outside the covered speeds or angles is rejected"
    n, pts, f, gp, g, x, y, wp = grid(c)
    side = c.int("side", lo=0, hi=3)
    j = c.int("axis", lo=0, hi=1)
    low = c.bool("below")
    q = z3.If(j == 0, x, y)
    c.require_all(n, lambda k: z3.If(low, q < z3.If(j == 0, f((k, 0)), f((k, 1))), q > z3.If(j == 0, f((k, 0)), f((k, 1)))))
    c.raises(c.method(c.returns(c.new(B)), "interpolate", wp, gp), Exception)


class Spy:
    """an interpolator that records what it is given"""

    def interpolate(self, w_pts, grid_pt):
        self.data = w_pts.data
        self.pt = grid_pt
        return 7.5


@contract("C06", T + "PolarDiagramTable.__call__")
def table_neighbourhood(c):
    "off the nodes exactly the table nodes inside the neighbourhood reach the interpolator, with their boat speeds"
    t, m, n, f, g, h = table(c)
    ws, wa = c.real("ws"), c.real("wa")
    j = c.skolem(m, "j")
    c.require_all(m, lambda k: f((k,)) != ws)
    norm = c.norm_fn()
    rad = c.real("radius")
    c.require(rad > 0)
    nb = c.returns(c.new("hrosailing.processing.neighbourhood.Ball", radius=rad, norm=norm))
    spy = c.new(Spy)
    r = c.returns(c.method(t, "__call__", ws, wa, spy, nb))
    c.ensure("the interpolator's value is returned", zr(r) == 7.5)
    p = c.attr(spy, "pt")
    c.ensure("asked at the query", z3.And(p.get(0) == ws, p.get(1) == wa))
    d = c.attr(spy, "data")
    k = c.skolem(d.shape[0], "k")
    c.ensure("only points inside the neighbourhood", norm.spec(d.get(k, 0) - ws, d.get(k, 1) - wa) <= rad)
    i, j2 = c.skolem(n, "i"), c.skolem(m, "j2")
    c.ensure("each node with its own boat speed", z3.Implies(z3.And(d.get(k, 0) == f((j2,)), d.get(k, 1) == g((i,))), d.get(k, 2) == h((i, j2))))
    lost = c.bool("lost")
    c.require_all(d.shape[0], lambda q: z3.Implies(lost, z3.Not(z3.And(d.get(q, 0) == f((j2,)), d.get(q, 1) == g((i,))))))
    flat(c, i, n, j2, m)
    c.ensure("every node inside the neighbourhood", z3.Implies(lost, norm.spec(f((j2,)) - ws, g((i,)) - wa) > rad))
