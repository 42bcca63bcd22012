from pyvc import ops
from pyvc.harness import Raised, contract
from pyvc.terms import *
from pyvc.values import DT, TD, Choice, S
from pyvc.z3load import z3
from contracts.common import type_by_contract, val
M = "hrosailing.processing.smoother."
A = M + "AffineSmoother"
HALF = z3.RealVal("1/2")


def lst(c, v, name, comps):
    "the local list `name` becomes an unknown list"
    n = S.fresh(name + "_len", INT)
    S.conds.append(n >= 0)
    fs = [S.fresh_fun(name, 1, REAL) for _ in range(comps)]
    getattr(v, name).assign(n=n, fn=lambda k: tuple(f(zi(k)) for f in fs) if comps > 1 else fs[0](zi(k)))


def series(c, n, strict=False):
    x, y = c.fun("x", INT, REAL), c.fun("y", INT, REAL)
    c.require_pairs(n, lambda a, b: x(a) < x(b) if strict else x(a) <= x(b))
    return x, y


def stretches(c, n, y):
    "ghost: the number of changes up to row j"
    r = c.fun("changes", INT, INT)
    c.require(r(z3.IntVal(0)) == 0)
    c.require_all(n - 1, lambda j: r(j + 1) == r(j) + z3.If(y(j) == y(j + 1), 0, 1))
    c.require_pairs(n, lambda a, b: r(a) <= r(b))
    return r


@contract("C13", [A + "._get_interval_bounds"])
def stretches_of_constant_measurements(c):
    "the intervals are the stretches of equal measurements, bounded by the middle between the last and the first time of two stretches"
    n = c.int("n", lo=1)
    x, y = series(c, n)
    r = stretches(c, n, y)
    sm = c.returns(c.new(A))
    xs, ys = c.list_of(n, lambda i: x(zi(i))), c.list_of(n, lambda i: y(zi(i)))

    def make(v, i):
        lst(c, v, "interval_bounds_x", 2)
        lst(c, v, "interval_bounds_y", 1)

    def inv(v, i):
        i = zi(i)
        bx, by = v.interval_bounds_x, v.interval_bounds_y
        lb, ub = (lambda k: zr(bx.get(k)[0])), (lambda k: zr(bx.get(k)[1]))
        x_lb, y_lb = zr(v.x_lb), zr(v.y_lb)
        yield "as many intervals as changes so far", z3.And(zi(bx.length()) == r(i), zi(by.length()) == r(i))
        yield "current stretch", z3.And(y_lb == y(i), x_lb <= x(i))
        yield "no change yet: starts at the first time", z3.Implies(r(i) == 0, x_lb == x(0))
        if conc(bx.length()) == 0:
            yield "rows of the current stretch", i + 1, lambda j: z3.And(r(j) <= r(i), z3.Implies(r(j) == r(i), z3.And(y(j) == y_lb, x_lb <= x(j))))
            return
        yield "first starts at the first time", z3.Implies(r(i) > 0, lb(z3.IntVal(0)) == x(0))
        yield "the last ends where the current stretch starts", z3.Implies(r(i) > 0, z3.And(ub(r(i) - 1) == x_lb, zr(by.get(r(i) - 1)) != y_lb))
        yield "without gaps", r(i) - 1, lambda k: z3.And(ub(k) == lb(k + 1), zr(by.get(k)) != zr(by.get(k + 1)))
        yield "ordered", r(i), lambda k: lb(k) <= ub(k)
        yield "rows of the current stretch", i + 1, lambda j: z3.And(r(j) <= r(i), z3.Implies(r(j) == r(i), z3.And(y(j) == y_lb, x_lb <= x(j))))
        yield "rows of the stretches before", i + 1, lambda j: z3.Implies(r(j) < r(i), z3.And(lb(r(j)) <= x(j), x(j) <= ub(r(j)), zr(by.get(r(j))) == y(j)))
        yield "middle", i, lambda j: z3.Implies(r(j + 1) != r(j), ub(r(j)) == (x(j) + x(j + 1)) / 2)

    c.invariant(A + "._get_interval_bounds", 0, make, inv)
    bx, by = c.returns(c.method(sm, "_get_interval_bounds", xs, ys))
    K = r(n - 1) + 1
    lb, ub = (lambda k: zr(bx.get(k)[0])), (lambda k: zr(bx.get(k)[1]))
    c.ensure("as many intervals as stretches", z3.And(zi(bx.length()) == K, zi(by.length()) == K))
    c.ensure("from the first to the last time", z3.And(lb(z3.IntVal(0)) == x(0), ub(K - 1) == x(n - 1)))
    k = c.skolem(K)
    c.ensure("ordered", lb(k) <= ub(k))
    c.ensure("without gaps", z3.Implies(k < K - 1, ub(k) == lb(k + 1)))
    c.ensure("different from the next", z3.Implies(k < K - 1, zr(by.get(k)) != zr(by.get(k + 1))))
    j = c.skolem(n)
    c.ensure("every row lies in its interval", z3.And(lb(r(j)) <= x(j), x(j) <= ub(r(j)), zr(by.get(r(j))) == y(j)))
    c.ensure("bounded by the middle", z3.Implies(z3.And(j < n - 1, r(j + 1) != r(j)), ub(r(j)) == (x(j) + x(j + 1)) / 2))


def intervals(c):
    "K >= 1 adjoining intervals with their values, and a bound for the values"
    K = c.int("K", lo=1)
    lb, ub, y = c.fun("lb", INT, REAL), c.fun("ub", INT, REAL), c.fun("value", INT, REAL)
    c.require_all(K, lambda k: lb(k) <= ub(k))
    c.require_all(K - 1, lambda k: ub(k) == lb(k + 1))
    return K, lb, ub, y


def positions(c, K, lb, ub, T):
    "ghost: the number of pieces before interval k"
    p = c.fun("pieces_before", INT, INT)
    c.require(p(z3.IntVal(0)) == 0)
    c.require_all(K, lambda k: p(k + 1) == p(k) + z3.If(ub(k) - lb(k) < 2 * T, 2, 3))
    c.require_pairs(K + 1, lambda a, b: p(a) + 2 * (b - a) <= p(b))
    return p


def pieces(k, K, lb, ub, y, T, p, X, Y, L):
    "the pieces of interval k: X, Y give the bounds and the values of a piece as pairs"
    before = (y(k) + z3.If(k > 0, y(k - 1), y(k))) / 2
    after = (y(k) + z3.If(k < K - 1, y(k + 1), L)) / 2
    mid = (lb(k) + ub(k)) / 2

    def is_(q, a, b, u, v):
        return z3.And(X(q)[0] == a, X(q)[1] == b, Y(q)[0] == u, Y(q)[1] == v)

    short = z3.And(is_(p(k), lb(k), mid, before, y(k)), is_(p(k) + 1, mid, ub(k), y(k), after))
    long_ = z3.And(is_(p(k), lb(k), lb(k) + T, before, y(k)), is_(p(k) + 1, lb(k) + T, ub(k) - T, y(k), y(k)), is_(p(k) + 2, ub(k) - T, ub(k), y(k), after))
    return z3.If(ub(k) - lb(k) < 2 * T, short, long_)


def pair(l):
    return lambda q: (zr(l.get(q)[0]), zr(l.get(q)[1]))


@contract("C13", [A + "._approximate_intervals"])
def ramps_between_stretches(c):
    """every interval becomes a ramp from the mean with the value before, a constant part and a ramp to the mean with the value after, each ramp
    as long as the time span or half of the interval; the pieces adjoin and their values stay within the range of the measurements"""
    K, lb, ub, y = intervals(c)
    T, lo, hi = c.real("timespan"), c.real("least"), c.real("most")
    c.require(T >= 0)
    c.require_all(K, lambda k: z3.And(lo <= y(k), y(k) <= hi))
    n = c.int("n", lo=1)
    m = c.fun("y", INT, REAL)
    c.require(z3.And(m(z3.IntVal(0)) == y(z3.IntVal(0)), m(n - 1) == y(K - 1)))
    p = positions(c, K, lb, ub, T)
    sm = c.returns(c.new(A, timespan=TD(T)))

    def make(v, i):
        lst(c, v, "approx_intervals_x", 2)
        lst(c, v, "approx_intervals_y", 2)

    def facts(i, ax, ay):
        X, Y = pair(ax), pair(ay)
        yield "number of pieces", z3.And(zi(ax.length()) == p(i), zi(ay.length()) == p(i))
        if conc(ax.length()) == 0:
            return
        yield "first piece", z3.Implies(i > 0, X(z3.IntVal(0))[0] == lb(z3.IntVal(0)))
        yield "last piece", z3.Implies(i > 0, X(p(i) - 1)[1] == ub(i - 1))
        yield "pieces of every interval", i, lambda k: pieces(k, K, lb, ub, y, T, p, X, Y, m(n - 1))
        yield "ordered", p(i), lambda q: X(q)[0] <= X(q)[1]
        yield "without gaps", p(i) - 1, lambda q: X(q)[1] == X(q + 1)[0]
        yield "within the range", p(i), lambda q: z3.And(lo <= Y(q)[0], Y(q)[0] <= hi, lo <= Y(q)[1], Y(q)[1] <= hi)

    def inv(v, i):
        i = zi(i)
        yield "value before", zr(v.y_before) == z3.If(i > 0, y(i - 1), y(z3.IntVal(0)))
        yield from facts(i, v.approx_intervals_x, v.approx_intervals_y)

    c.invariant(A + "._approximate_intervals", 0, make, inv)
    bx = c.list_of(K, lambda k: (lb(zi(k)), ub(zi(k))))
    by = c.list_of(K, lambda k: y(zi(k)))
    ax, ay = c.returns(c.method(sm, "_approximate_intervals", bx, by, c.list_of(n, lambda i: m(zi(i)))))
    for name, *f in facts(K, ax, ay):
        c.ensure(name, f[0] if len(f) == 1 else f[1](c.skolem(f[0])))


@contract("C13", [A + "._smooth_data_from_approx_intervals"])
def values_on_the_ramps(c):
    """every measurement is replaced by the value at its time on the first piece that reaches it, which lies between the bounds of the values;
    nothing else changes"""
    type_by_contract(c)
    n, P = c.int("n", lo=1), c.int("P", lo=1)
    x, y = series(c, n)
    lo, hi = c.real("least"), c.real("most")
    a, b, u, w = (c.fun(z, INT, REAL) for z in ("from", "to", "value_from", "value_to"))
    c.require_all(P, lambda q: z3.And(a(q) <= b(q), lo <= u(q), u(q) <= hi, lo <= w(q), w(q) <= hi))
    c.require_all(P - 1, lambda q: b(q) == a(q + 1))
    c.require_all(n, lambda i: z3.And(a(z3.IntVal(0)) <= x(i), x(i) <= b(P - 1)))
    q = c.fun("piece", INT, INT)  # ghost: the first piece that reaches row i
    c.require_all(n, lambda i: z3.And(q(i) >= 0, q(i) < P, x(i) <= b(q(i))))
    j, t = S.bound("j"), S.bound("t")
    S.forall([j, t], z3.Implies(z3.And(j >= 0, j < n, t >= 0, t < q(j)), b(t) < x(j)))
    c.require_pairs(n, lambda i, k: q(i) <= q(k))
    sm = c.returns(c.new(A))
    d = c.data(n, note=c.list_of(n, lambda i: z3.ToReal(zi(i))), key=c.list_of(n, lambda i: y(zi(i))))
    col = c.attr(d, "_data").d["key"]

    def new(i):
        k = q(i)
        return z3.If(a(k) == b(k), w(k), u(k) + (x(i) - a(k)) / (b(k) - a(k)) * (w(k) - u(k)))

    def piece(v, k):
        return z3.And(zr(v.x_lb) == a(k), zr(v.x_ub) == b(k), zr(v.y_lb) == u(k), zr(v.y_ub) == w(k))

    def make(v, i):
        v.interval_idx = S.fresh("interval_idx", INT)
        now = S.fresh_fun("now", 1, REAL)
        col.assign(n=n, fn=lambda k: now(zi(k)))

    def inv(v, i):
        i, k = zi(i), zi(v.interval_idx)
        yield "piece", z3.And(k == z3.If(i > 0, q(i - 1), 0), piece(v, k))
        yield "length", zi(col.length()) == n
        yield "smoothed so far", n, lambda r: zr(col.get(r)) == z3.If(r < i, new(r), y(r))

    def make2(v, i):
        v.interval_idx = S.fresh("interval_idx", INT)

    def inv2(v, i):
        k = zi(v.interval_idx)
        yield "piece", z3.And(k >= 0, k <= q(zi(v.i)), piece(v, k))

    c.invariant(A + "._smooth_data_from_approx_intervals", 0, make, inv)
    c.invariant(A + "._smooth_data_from_approx_intervals", 1, make2, inv2)
    ax = c.list_of(P, lambda k: (a(zi(k)), b(zi(k))))
    ay = c.list_of(P, lambda k: (u(zi(k)), w(zi(k))))
    r = c.returns(c.method(sm, "_smooth_data_from_approx_intervals", ax, ay, c.list_of(n, lambda i: x(zi(i))), d, "key"))
    cols = c.attr(r, "_data").d
    c.ensure("columns and rows", z3.And(zb(list(cols) == ["note", "key"]), zi(cols["key"].length()) == n, zi(cols["note"].length()) == n))
    i = c.skolem(n)
    c.ensure("the other column stays", zr(cols["note"].get(i)) == z3.ToReal(i))
    c.ensure("value on the piece", zr(cols["key"].get(i)) == new(i))
    k = q(i)
    S.touch(k)
    S.touch(k - 1)
    c.ensure("time on the piece", z3.And(a(k) <= x(i), x(i) <= b(k)))
    mu = (x(i) - a(k)) / (b(k) - a(k))
    if c.branch(a(k) < b(k)):
        c.assert_("relative position", z3.And(mu >= 0, mu <= 1))
        v = u(k) + mu * (w(k) - u(k))
        c.ensure_from("within the range", [mu >= 0, mu <= 1, lo <= u(k), u(k) <= hi, lo <= w(k), w(k) <= hi], z3.And(lo <= v, v <= hi), abstract=[mu, u(k), w(k)])
    else:
        c.ensure("within the range", z3.And(lo <= zr(cols["key"].get(i)), zr(cols["key"].get(i)) <= hi))


def fun(name, sort=None):
    return S.fresh_fun(name, 1, REAL if sort is None else sort)


def forall(n, f):
    k = S.bound("k")
    S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n)), f(k)))


def pairs(n, f):
    a, b = S.bound("a"), S.bound("b")
    S.forall([a, b], z3.Implies(z3.And(a >= 0, a < b, b < zi(n)), f(a, b)))


class Steps:
    "the three steps of _smooth_field by their contracts, for every column anew"

    def __init__(self, c, n, x, T, bounds):
        self.c, self.n, self.x, self.T, self.bounds, self.done = c, n, x, T, bounds, []
        for m in ("_get_interval_bounds", "_approximate_intervals", "_smooth_data_from_approx_intervals"):
            c.by_contract(f"{A}.{m}", getattr(self, m))

    def oblige_list(self, what, l, n, f):
        k = self.c.skolem(n)
        S.oblige(what, z3.And(zi(l.length()) == zi(n), zr(l.get(k)) == f(k)))

    def _get_interval_bounds(self, sm, xs, ys):
        c, n = self.c, self.n
        x0 = self.x(z3.IntVal(0))
        x = lambda i: self.x(i) - x0
        self.oblige_list("times since the first", xs, n, x)
        y = lambda i: zr(ys.fn(i))
        K, r, lb, ub, v = S.fresh("K", INT), fun("stretch", INT), fun("lb"), fun("ub"), fun("value")
        S.conds.append(z3.And(K >= 1, K == r(n - 1) + 1, r(z3.IntVal(0)) == 0, lb(z3.IntVal(0)) == x(z3.IntVal(0)), ub(K - 1) == x(n - 1)))
        forall(n, lambda j: z3.And(r(j) >= 0, r(j) < K, lb(r(j)) <= x(j), x(j) <= ub(r(j)), v(r(j)) == y(j)))
        forall(n - 1, lambda j: z3.And(r(j + 1) == r(j) + z3.If(y(j) == y(j + 1), 0, 1), z3.Implies(r(j + 1) != r(j), ub(r(j)) == (x(j) + x(j + 1)) / 2)))
        pairs(n, lambda i, j: r(i) <= r(j))
        forall(K, lambda k: lb(k) <= ub(k))
        forall(K - 1, lambda k: z3.And(ub(k) == lb(k + 1), v(k) != v(k + 1)))
        row = fun("some_row_of", INT)  # every stretch has a row
        forall(K, lambda k: z3.And(row(k) >= 0, row(k) < n, r(row(k)) == k))
        first = fun("first_row_of", INT)
        forall(K, lambda k: z3.And(first(k) >= 0, first(k) < n, r(first(k)) == k, z3.Implies(k > 0, z3.And(first(k) > 0, r(first(k) - 1) == k - 1))))
        self.now = dict(K=K, r=r, lb=lb, ub=ub, v=v, row=row, y=y, x=x, ys=ys, first=first)
        return c.list_of(K, lambda k: (lb(zi(k)), ub(zi(k)))), c.list_of(K, lambda k: v(zi(k)))

    def _approximate_intervals(self, sm, bx, by, ys):
        c, s, (lo, hi) = self.c, self.now, self.bounds
        K, lb, ub, v = s["K"], s["lb"], s["ub"], s["v"]
        S.oblige("intervals and values are passed on", zb(ys is s["ys"] or ys.fn is s["ys"].fn))
        self.oblige_list("the values of the intervals", by, K, v)
        k = c.skolem(K)
        S.oblige("the intervals", z3.And(zi(bx.length()) == K, *[zr(g) == f(k) for g, f in zip(bx.get(k), (lb, ub))]))
        S.touch(s["row"](k))
        S.oblige("values within the range of the measurements", z3.And(lo <= v(k), v(k) <= hi))
        S.oblige("first and last value", z3.And(s["y"](z3.IntVal(0)) == v(z3.IntVal(0)), s["y"](self.n - 1) == v(K - 1)))
        p, P = fun("pieces_before", INT), S.fresh("P", INT)
        a, b, u, w = fun("from"), fun("to"), fun("value_from"), fun("value_to")
        S.conds.append(z3.And(p(z3.IntVal(0)) == 0, P == p(K), a(z3.IntVal(0)) == lb(z3.IntVal(0)), b(P - 1) == ub(K - 1), P >= 2))
        forall(K, lambda k: p(k + 1) == p(k) + z3.If(ub(k) - lb(k) < 2 * self.T, 2, 3))
        pairs(K + 1, lambda i, j: p(i) + 2 * (j - i) <= p(j))
        forall(K, lambda k: pieces(k, K, lb, ub, v, self.T, p, lambda q: (a(q), b(q)), lambda q: (u(q), w(q)), s["y"](self.n - 1)))
        forall(P, lambda q: z3.And(a(q) <= b(q), lo <= u(q), u(q) <= hi, lo <= w(q), w(q) <= hi))
        forall(P - 1, lambda q: b(q) == a(q + 1))
        pairs(P, lambda i, j: b(i) <= b(j))
        s.update(p=p, P=P, a=a, b=b, u=u, w=w)
        return c.list_of(P, lambda q: (a(zi(q)), b(zi(q)))), c.list_of(P, lambda q: (u(zi(q)), w(zi(q))))

    def _smooth_data_from_approx_intervals(self, sm, ax, ay, xs, data, key):
        c, n, s, (lo, hi) = self.c, self.n, self.now, self.bounds
        a, b, u, w, x, P = (s[z] for z in ("a", "b", "u", "w", "x", "P"))
        q = c.skolem(P)
        S.oblige("pieces are passed on", z3.And(zi(ax.length()) == P, zi(ay.length()) == P, *[zr(g) == f(q) for g, f in zip((*ax.get(q), *ay.get(q)), (a, b, u, w))]))
        self.oblige_list("times since the first", xs, n, x)
        i = c.skolem(n)
        S.oblige("the pieces reach all rows", z3.And(a(z3.IntVal(0)) <= x(i), x(i) <= b(P - 1)))
        f, new = fun("piece", INT), fun("smoothed")
        forall(n, lambda i: z3.And(f(i) >= 0, f(i) < P, a(f(i)) <= x(i), x(i) <= b(f(i)), lo <= new(i), new(i) <= hi,
                                   new(i) == z3.If(a(f(i)) == b(f(i)), w(f(i)), u(f(i)) + (x(i) - a(f(i))) / (b(f(i)) - a(f(i))) * (w(f(i)) - u(f(i))))))
        j, t = S.bound("j"), S.bound("t")
        S.forall([j, t], z3.Implies(z3.And(j >= 0, j < n, t >= 0, t < f(j)), b(t) < x(j)))
        l = c.attr(data, "_data").d[key]
        l.assign(n=n, fn=lambda k: new(zi(k)))
        s.update(f=f, new=new)
        self.done.append((key, s))
        return data


def a_table(c, n, order):
    t, f, g = c.fun("t", INT, REAL), c.fun("a", INT, REAL), c.fun("other", INT, REAL)
    if order:
        c.require_pairs(n, order(t))
    d = c.data(n, types={"datetime": DT, "other": str}, a=c.list_of(n, lambda i: f(zi(i))), datetime=c.list_of(n, lambda i: DT(t(zi(i)))),
               other=c.list_of(n, lambda i: g(zi(i))))
    return d, t, f, g


def rest_stays(c, r, n, t, g):
    cols = c.attr(r, "_data").d
    c.ensure("columns", zb(list(cols) == ["a", "datetime", "other"]))
    for k in cols:
        c.ensure(f"length of column {k}", zi(cols[k].length()) == n)
    i = c.skolem(n)
    c.ensure("times stay", val(cols["datetime"].get(i)) == t(i))
    c.ensure("columns that hold no numbers stay", zr(cols["other"].get(i)) == g(i))
    c.ensure("rows", zi(c.attr(r, "n_rows")) == n)


@contract("C13", [A + ".smooth", A + "._smooth_field"])
def smoothing_a_table(c):
    """smoothed values lie between the least and the greatest measurement; times, other columns, order and number of rows stay (the steps by
    their contracts)"""
    type_by_contract(c)
    n, T, lo, hi = c.int("n", lo=1), c.real("timespan"), c.real("least"), c.real("most")
    c.require(T >= 0)
    d, t, f, g = a_table(c, n, lambda t: lambda i, j: t(i) <= t(j))
    c.require_all(n, lambda i: z3.And(lo <= f(i), f(i) <= hi))
    st = Steps(c, n, t, T, (lo, hi))
    sm = c.returns(c.new(A, timespan=TD(T)))
    r = c.returns(c.method(sm, "smooth", d))
    rest_stays(c, r, n, t, g)
    i = c.skolem(n)
    x = zr(c.attr(r, "_data").d["a"].get(i))
    c.ensure("within the range of the measurements", z3.And(lo <= x, x <= hi))
    c.ensure("every column once", zb([k for k, s in st.done] == ["a"]))


@contract("C13", [A + ".smooth", A + "._smooth_field"])
def smoothed_values(c):
    """at pairwise different times every measurement is kept if it lies at least the time span (or half of its stretch) away from the ends of
    its stretch, and is interpolated towards the mean with the neighbouring value otherwise (the steps by their contracts)"""
    type_by_contract(c)
    n, T, lo, hi = c.int("n", lo=1), c.real("timespan"), c.real("least"), c.real("most")
    c.require(T >= 0)
    d, t, f, g = a_table(c, n, lambda t: lambda i, j: t(i) < t(j))
    c.require_all(n, lambda i: z3.And(lo <= f(i), f(i) <= hi))
    st = Steps(c, n, t, T, (lo, hi))
    sm = c.returns(c.new(A, timespan=TD(T)))
    r = c.returns(c.method(sm, "smooth", d))
    i = c.skolem(n)
    s = st.done[0][1]
    new = zr(c.attr(r, "_data").d["a"].get(i))
    q, p, k, x = s["f"](i), s["p"], s["r"](i), s["x"](i)
    lb, ub, v, K, a, b, P = (s[z] for z in ("lb", "ub", "v", "K", "a", "b", "P"))
    for z in (q, k, p(k), p(k) - 1, p(k) + 1, p(k) + 2, p(k + 1), k - 1, k + 1):
        S.touch(z)
        S.skolems.append(z)
    S.touch(s["first"](k))
    S.skolems.append(s["first"](k))
    u, w = s["u"], s["w"]
    c.assert_("row of its stretch", z3.And(lb(k) <= x, x <= ub(k), v(k) == f(i), k >= 0, k < K))
    c.assert_("later than the start of the stretch", z3.Implies(k > 0, lb(k) < x))
    c.assert_("the piece before", z3.Implies(k > 0, z3.And(p(k) >= 2, p(k) <= P, b(p(k) - 1) == lb(k))))
    c.assert_("ends in their order", z3.Implies(z3.And(k > 0, q < p(k)), b(q) <= b(p(k) - 1)))
    c.assert_("not before the pieces of the stretch", q >= p(k))
    c.assert_("not after the pieces of the stretch", z3.And(p(k + 1) <= P, b(p(k + 1) - 1) == ub(k)))
    c.assert_("one of the pieces of the stretch", q < p(k + 1))
    before = (v(k) + z3.If(k > 0, v(k - 1), v(k))) / 2
    after = (v(k) + z3.If(k < K - 1, v(k + 1), v(k))) / 2
    L, U = lb(k), ub(k)
    short = c.branch(U - L < 2 * T)
    reach = (U - L) / 2 if short else T
    start = c.branch(q == p(k))
    end = not start and c.branch(q == p(k) + (1 if short else 2))
    if start:
        want = L, L + reach, before, v(k)
    elif end:
        want = U - reach, U, v(k), after
    else:
        want = L + reach, U - reach, v(k), v(k)
    for z, g in zip((a, b, u, w), want):
        c.assert_("piece of the row", z(q) == g)
    c.assert_("position on the piece", z3.And(want[0] <= x, x <= want[1]))
    if not start:
        c.assert_("the pieces before end earlier", b(p(k)) < x)
        c.assert_("later than the ramp at the start", L + reach < x)
    if end and not short:
        c.assert_("the constant piece ends earlier", b(p(k) + 1) < x)
    val_ = z3.If(want[0] == want[1], want[3], want[2] + (x - want[0]) / (want[1] - want[0]) * (want[3] - want[2]))
    c.assert_("value on the piece", new == val_)
    hyps = [want[0] <= x, x <= want[1], new == val_, T >= 0, L <= U, L <= x, x <= U, U - L < 2 * T if short else U - L >= 2 * T]
    if not start:
        hyps.append(L + reach < x)
    if end:
        hyps.append(U - reach < x)
    c.assert_("lower ramp: constant value", v(k) == f(i))
    ab = [x, new, before, after, v(k), L, U, T]
    c.ensure_from("kept away from the ends of the stretch", hyps, z3.Implies(z3.And(L + reach <= x, x <= U - reach), new == v(k)), abstract=ab)
    c.ensure_from("ramp at the start of the stretch", hyps, z3.Implies(z3.And(reach > 0, x < L + reach), new == before + (x - L) / reach * (v(k) - before)), abstract=ab)
    c.ensure_from("ramp at the end of the stretch", hyps, z3.Implies(z3.And(reach > 0, x > U - reach), new == v(k) + (x - (U - reach)) / reach * (after - v(k))), abstract=ab)


@contract("C13", [A + ".smooth"])
def order_is_checked(c):
    "a series is rejected iff some time stamp is earlier than the one before; without rows nothing happens"
    type_by_contract(c)
    n = c.int("n", lo=0)
    d, t, f, g = a_table(c, n, None)
    Steps(c, n, t, z3.RealVal(30), (z3.RealVal(0), z3.RealVal(0)))
    c.by_contract(A + "._smooth_field", lambda self, key, data: data)
    sm = c.returns(c.new(A))
    r = c.method(sm, "smooth", d)
    if isinstance(r, Raised):
        c.raises(r, ValueError)
        c.member("some time stamp is earlier than the one before", n - 1, lambda k: t(k + 1) < t(k), ghosts=True)
        return
    r = c.returns(r)
    k = c.skolem(n - 1)
    c.ensure("chronological", t(k) <= t(k + 1))
    rest_stays(c, r, n, t, g)


@contract("C13", [M + "LazySmoother.smooth"])
def lazy(c):
    "the lazy smoother returns the data as it is"
    type_by_contract(c)
    n = c.int("n", lo=1)
    d, t, f, g = a_table(c, n, None)
    sm = c.returns(c.new(M + "LazySmoother"))
    r = c.returns(c.method(sm, "smooth", d))
    c.ensure("the same table", zb(r is d))
    rest_stays(c, r, n, t, g)
    i = c.skolem(n)
    c.ensure("numbers stay", zr(c.attr(r, "_data").d["a"].get(i)) == f(i))
