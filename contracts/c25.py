from scipy.spatial import ConvexHull

from pyvc import ops
from pyvc.harness import Raised, contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
from contracts.common import val
C = "hrosailing.cruising.basics."


class Diagram:
    "a polar diagram, by the contract of get_slices"

    def get_slices(self, ws=None, n_steps=None, full_info=False, **kwargs):
        return self.labels, self.slices, self.info


class Hull:
    pass


def setting(c, sails):
    n = c.int("n", lo=2)
    w, b, s = c.fun("wa", INT, REAL), c.fun("bsp", INT, REAL), c.fun("sail", INT, INT)
    c.require_all(n, lambda k: z3.And(w(k) >= 0, w(k) < 360, b(k) >= 0))
    ws = c.real("ws")
    sl = c.arr_of((3, n), lambda idx: {0: ws, 1: w(zi(idx[1])), 2: b(zi(idx[1]))}[conc(idx[0])])
    info = c.plist([c.list_of(n, lambda k: s(zi(k)))]) if sails else None
    pd = c.obj("contracts.c25.Diagram", labels=c.plist([ws]), slices=c.plist([sl]), info=info)
    V = c.int("vertices", lo=1)
    v = c.fun("vertex", INT, INT)
    c.require_all(V, lambda k: z3.And(v(k) >= 0, v(k) <= n))
    c.require_pairs(V, lambda k, l: v(k) != v(l))
    seen = []

    def model(pts, *a, **kw):
        seen.append(pts.snap())
        f = pts.snap()
        c.require(z3.And(v(0) < n, z3.Or(zr(f((v(0), 0))) != 0, zr(f((v(0), 1))) != 0)))  # the boat can move at all
        c.shape_is("hull of points in the plane and the origin", pts, (n + 1, 2))
        return c.obj(Hull, points=pts, vertices=c.arr_of((V,), lambda idx: v(zi(idx[0])), "i"))

    c.external(ConvexHull, "scipy.spatial.ConvexHull: vertices are the vertices of the convex hull", model)
    return pd, ws, n, w, b, s, V, v, seen


def unit(a):
    r = ops.deg2rad(a)
    return zr(ops.trig("cos")(r)), zr(ops.trig("sin")(r))


def cross(p, q):
    return p[0] * q[1] - p[1] * q[0]


def turn(c, x, y):
    "trigonometry: the sign of sin(y - x), written with the addition theorem, for angles between 0 and 360 degrees"
    t = cross(unit(x), unit(y))
    S.assumed.add("trigonometry: cos x sin y - sin x cos y = sin(y - x), which is positive for differences between 0 and 180 degrees")
    c.require(z3.And(z3.Implies(z3.Or(z3.And(y > x, y - x < 180), y - x < -180), t > 0),
                     z3.Implies(z3.Or(z3.And(y < x, x - y < 180), x - y < -180), t < 0)))
    return t


@contract("C25", [C + "_get_first_proportion"])
def first_proportion(c):
    "the proportion of the first point such that the two combined lie in the direction"
    p, q, d = [c.real("x1"), c.real("y1")], [c.real("x2"), c.real("y2")], c.real("direction")
    D = unit(d)
    for sign in (1, -1):
        if c.branch(z3.And(sign * cross(p, q) > 0, sign * cross(p, D) >= 0, sign * cross(D, q) >= 0)):
            r = zr(c.returns(c.call(C + "_get_first_proportion", c.arr_of((2,), lambda idx: p[conc(idx[0])]), c.arr_of((2,), lambda idx: q[conc(idx[0])]), d)))
            m = cross(p, q)
            u, v = cross(D, q) / m, cross(p, D) / m
            c.assert_("the direction is not both", z3.And(u >= 0, v >= 0))
            c.assert_("as a combination", z3.And(u * p[0] + v * q[0] == D[0], u * p[1] + v * q[1] == D[1]))
            c.assert_("not both 0", u + v > 0)
            c.assert_("proportion", r == u / (u + v))
            c.ensure("between 0 and 1", z3.And(r >= 0, r <= 1))
            x = [r * p[k] + (1 - r) * q[k] for k in (0, 1)]
            for k in (0, 1):
                c.ensure_from("in the direction", [r == u / (u + v), u + v > 0, z3.And(u * p[0] + v * q[0] == D[0], u * p[1] + v * q[1] == D[1])], x[k] * (u + v) == D[k], abstract=[r, u, v, D[0], D[1]])
            return


def data_index(c, n, w, angle, what):
    "the point of the slice whose angle it is"
    t = simp(angle)
    ok = z3.is_app(t) and t.decl().eq(w)
    k = t.arg(0) if ok else c.int("unknown index")
    c.ensure(what, z3.And(k >= 0, k < n, angle == w(k)))
    return k


def way(c, sails):
    pd, ws, n, w, b, sail, V, v, seen = setting(c, sails)
    d = c.real("direction")
    args = []

    def first(p, q, direction):
        p, q, D = [zr(p.get(k)) for k in (0, 1)], [zr(q.get(k)) for k in (0, 1)], unit(direction)
        lam, k = S.fresh("proportion", REAL), S.fresh("speed", REAL)
        args.append((p, q, D, lam, k))
        return lam

    c.by_contract(C + "_get_first_proportion", first)
    r = c.call(C + "convex_direction", pd, ws, d)
    e = zr(c.returns(c.call("contracts.c25.circle", d)))
    c.assert_("direction within the circle", z3.And(e >= 0, e < 360))
    if isinstance(r, Raised):
        c.ensure("only directions that are not supported are rejected", zb(r.is_a(ValueError)))
        return
    order, rank, cnt, sel, place = ghosts(c)  # the sorted vertices: at place s stands vertex number sel(order(s))
    point = lambda s: v(sel(order(s)))
    turned = S.sumreg["perms"][0][0]
    A = lambda s: w(turned(point(s)))
    x = c.skolem(cnt - 1)
    if S.entails(z3.Not(z3.And(A(x) <= e, e <= A(x + 1)))):  # no two neighbouring vertices enclose the direction
        c.induct("all vertices are before the direction if the first one is", cnt, lambda s: z3.Or(A(zi(0)) > e, A(s) <= e))
        S.touch(A(cnt - 1))
    items = c.it.seq(r)[2]
    c.ensure("one or two directions", zb(items is not None and len(items) in (1, 2)))
    a, p = [zr(c.attr(x, "angle")) for x in items], [zr(c.attr(x, "proportion")) for x in items]
    if len(items) == 1:
        c.ensure("straight into the direction", z3.And(a[0] == e, p[0] == 1))
        t = simp(a[0])
        if z3.is_app(t) and t.decl().eq(w):
            k = data_index(c, n, w, a[0], "a direction of the slice")
            at = places(k, order)
            if not at:
                raise Unsupported("the direction is found in another way")
            for x in at[:1]:
                S.touch(order(x))
                c.ensure("at a vertex of the hull", z3.And(x >= 0, x < cnt, turned(point(x)) == k, b(k) > 0))
        else:
            c.member("between two neighbours of the slice that are vertices of the hull", cnt - 1,
                     lambda s: z3.And(point(s + 1) == point(s) + 1, A(s) <= e, e <= A(s + 1), A(s + 1) - A(s) < 180,
                                      zb(not sails) if not sails else sail(turned(point(s))) == sail(turned(point(s + 1)))), hints=[zi(0)] + found())
        return
    k, l = [data_index(c, n, w, x, f"direction {i} is one of the slice") for i, x in enumerate(a)]
    if sails:
        for i, j in enumerate((k, l)):
            c.ensure(f"sail of direction {i}", zr(c.attr(items[i], "sail")) == zr(sail(j)))
    P, Q, D, lam, speed = args[-1]
    c.ensure("points of the directions", z3.And(P[0] == b(k) * unit(a[0])[0], P[1] == b(k) * unit(a[0])[1], Q[0] == b(l) * unit(a[1])[0], Q[1] == b(l) * unit(a[1])[1]))
    c.ensure("combined for the direction", zb(same(D, unit(e))))
    t = turn(c, a[0], a[1]), turn(c, a[0], e), turn(c, e, a[1])
    for sign in (1, -1):
        if c.branch(sign * t[0] > 0):
            c.assert_("the direction lies between them", z3.And(sign * t[1] >= 0, sign * t[2] >= 0, z3.Or(sign * t[1] > 0, sign * t[2] > 0)))
            c.assert_("at positive speeds", z3.And(b(k) > 0, b(l) > 0))
            c.require(z3.And(lam >= 0, lam <= 1))  # first_proportion
            c.ensure("proportions", z3.And(p[0] == lam, p[1] == 1 - lam))
            if sails:
                return
            j = c.skolem(V)
            y = w(turned(v(j)))
            u = turn(c, a[0], y), turn(c, y, a[1])
            S.touch(order(rank(place(j))))
            f = seen[-1]
            X = [zr(f((v(j), i))) for i in (0, 1)]
            W, bw = unit(y), b(turned(v(j)))
            if c.branch(z3.And(v(j) < n, z3.Or(X[0] != 0, X[1] != 0))):
                hyps = [X[0] == bw * W[0], X[1] == bw * W[1], bw > 0, z3.Not(z3.And(sign * u[0] > 0, sign * u[1] > 0))]
                between = z3.And(sign * cross(unit(a[0]), X) > 0, sign * cross(X, unit(a[1])) > 0)
                c.ensure_from("no vertex of the hull lies between them", hyps, z3.Not(between), abstract=[*X, *W, bw, *unit(a[0]), *unit(a[1])])
                return
            optimal(c, sign, unit(a[0]), unit(a[1]), b(k), b(l), D, t, lam, speed, n, w, b)
            return
    c.ensure("they are not opposite", z3.BoolVal(False))


def optimal(c, sign, U, V, bu, bv, D, t, lam, speed, n, w, b):
    "no combination of two points of the slice is faster"
    P, Q = [bu * x for x in U], [bv * x for x in V]
    c.require(z3.And(lam * P[0] + (1 - lam) * Q[0] == speed * D[0], lam * P[1] + (1 - lam) * Q[1] == speed * D[1]))  # first_proportion
    S.assumed.add("geometry: two vertices of the convex hull (of points and the origin) with no vertex between them are joined by an edge of the hull")
    E = [Q[i] - P[i] for i in (0, 1)]
    X = []
    for i in (1, 2):
        x = c.skolem(n)
        X.append([b(x) * u for u in unit(w(x))])
        c.require(sign * cross(E, [X[-1][k] - P[k] for k in (0, 1)]) >= 0)
    mu, g = c.real("mu"), c.real("other_speed")
    c.require(z3.And(mu >= 0, mu <= 1, *[mu * X[0][k] + (1 - mu) * X[1][k] == g * D[k] for k in (0, 1)]))
    atoms = [bu, bv, *U, *V, *D, *X[0], *X[1], lam, speed, mu, g]
    N = [sign * cross(E, [x[k] - P[k] for k in (0, 1)]) for x in X]
    both = [z3.And(mu >= 0, mu <= 1, *[mu * X[0][k] + (1 - mu) * X[1][k] == g * D[k] for k in (0, 1)])]
    at = sign * cross(E, [g * D[k] - P[k] for k in (0, 1)])
    c.ensure_from("the other combination is inside of the hull", [N[0] >= 0, N[1] >= 0] + both, at >= 0, abstract=atoms, then=True)
    c.ensure_from("which ends at the edge", [at >= 0, z3.And(lam * P[0] + (1 - lam) * Q[0] == speed * D[0], lam * P[1] + (1 - lam) * Q[1] == speed * D[1])],
                  sign * (g - speed) * cross(E, D) >= 0, abstract=atoms, then=True)
    c.ensure_from("in the direction", [z3.And(bu > 0, bv > 0), z3.And(sign * cross(U, D) >= 0, sign * cross(D, V) >= 0, z3.Or(sign * cross(U, D) > 0, sign * cross(D, V) > 0))],
                  sign * cross(E, D) < 0, abstract=atoms, then=True)
    c.ensure_from("no faster", [sign * (g - speed) * cross(E, D) >= 0, sign * cross(E, D) < 0], g <= speed, abstract=atoms)


def ghosts(c):
    order, rank = S.sumreg["perms"][-1]
    f = list(S.filters.values())[-1]
    return order, rank, f[2], f[3], f[4]


def places(t, order):
    "the places s mentioned in the term as order(s)"
    r, decl = [], order(z3.Int("place")).decl()

    def walk(t):
        if z3.is_app(t):
            if t.decl().eq(decl):
                r.append(t.arg(0))
            for x in t.children():
                walk(x)

    walk(t)
    return r


def found():
    "where searches ended"
    return [x for f in S.conds for x in consts(zb(f)) if x.decl().name().startswith("exit_at")][:3]


def consts(t):
    return [t] if z3.is_const(t) and t.sort() == INT and not z3.is_int_value(t) else [x for y in t.children() for x in consts(y)] if z3.is_app(t) else []


def same(x, y):
    return all(simp(i).eq(simp(j)) for i, j in zip(x, y))


def circle(d):
    return d % 360


@contract("C25", [C + "convex_direction"])
def fastest(c):
    """what is returned leads into the direction and no two points of the slice do so faster (the directions are vertices of the hull
    with none between them; that such vertices are joined by an edge of the hull is geometry, assumed)"""
    way(c, False)


@contract("C25", [C + "convex_direction"])
def fastest_with_sails(c):
    "sailing with the sails of the points"
    way(c, True)
