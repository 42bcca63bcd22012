"""Symbolic inputs shared by several contracts."""
from pyvc import ops
from pyvc.terms import *
from pyvc.values import DT, Choice, S
from pyvc.z3load import z3
T = "hrosailing.polardiagram._polardiagramtable."


def table(c, name="t", m=None, n=None):
    """A polar table satisfying its representation invariant, of any size."""
    m = c.int(name + "_m", lo=1) if m is None else m
    n = c.int(name + "_n", lo=1) if n is None else n
    rs, ra, b = c.arr(name + "_ws", (m,)), c.arr(name + "_wa", (n,)), c.arr(name + "_bsp", (n, m))
    f, g, h = rs.snap(), ra.snap(), b.snap()
    c.require_all(m, lambda k: f((k,)) >= 0)
    c.require_all(n, lambda k: z3.And(g((k,)) >= 0, g((k,)) < 360))
    c.require_pairs(m, lambda k, l: f((k,)) < f((l,)))
    c.require_pairs(n, lambda k, l: g((k,)) < g((l,)))
    t = c.obj(T + "PolarDiagramTable", _ws_resolution=rs, _wa_resolution=ra, _boat_speeds=b)
    return t, m, n, f, g, h


def flat(c, i, n, j, m):
    "proof step: row-major position i*m+j of an (n, m) matrix (an index the solver does not come up with by itself)"
    p = i * m + j
    c.assert_("row-major position: quotient", p / m == i)
    c.assert_("row-major position: remainder", p % m == j)
    c.assert_("row-major position: one row at a time", (n - 1 - i) * m >= 0)
    c.assert_("row-major position: in range", z3.And(p >= 0, p < n * m))
    S.skolems.append(p)


def scalar(r):
    return r.get() if hasattr(r, "shape") and r.shape == () else r


D = "hrosailing.core.data.Data"


def column(c, name, n, sort=None):
    "a column of n entries, each either a float or missing"
    f, miss = c.fun(name, INT, REAL if sort is None else sort), c.fun(name + "_missing", INT, BOOL)
    return c.list_of(n, lambda i: Choice([(miss(zi(i)), None), (True, f(zi(i)))])), f, miss


def type_by_contract(c):
    """_get_type judged by its contract (get_type): None if every entry is missing, else the type of the entries"""
    memo = {}

    def summary(data):
        n, fn, items = c.it.seq(data)
        if items is not None and all(x is None for x in items):
            return None
        if items is not None and any(is_scalar(x) for x in items):
            return float
        x = fn(S.fresh("any", INT)) if items is None else None
        if items is None and is_scalar(x) and S.entails(zi(n) > 0):
            return float  # there is an entry, and none is missing
        k = S.fresh("some", BOOL)
        return Choice([(k, float), (True, None)])

    c.by_contract(D + "._get_type", summary)


def is_none(v):
    if isinstance(v, Choice):
        r, rest = zb(False), zb(True)
        for cnd, x in v.alts:
            cnd = zb(cnd)
            r = z3.Or(r, z3.And(rest, cnd, is_none(x)))
            rest = z3.And(rest, z3.Not(cnd))
        return r
    return zb(v is None)


def val(v):
    if isinstance(v, Choice):
        r = None
        for cnd, x in reversed(v.alts):
            y = val(x)
            r = y if r is None or y is None and r is None else r if y is None else z3.If(zb(cnd), y, r)
        return r
    return None if v is None else v.t if isinstance(v, DT) else zr(v)


def entry(c, what, v, miss, f):
    c.ensure(what + " (missing or not)", is_none(v) == zb(miss))
    x = val(v)
    if x is not None:
        c.ensure(what, z3.Implies(z3.Not(zb(miss)), x == zr(f)))


def tagged(c, n, names="ab"):
    "a table with a ghost column that numbers the rows"
    cols = {k: column(c, k, n) for k in names}
    d = c.data(n, **{k: v[0] for k, v in cols.items()}, row=c.list_of(n, lambda i: z3.ToReal(zi(i))))
    return d, {k: v[1] for k, v in cols.items()}, {k: v[2] for k, v in cols.items()}


def selected(c, d, n, f, m, keep):
    "d consists of exactly the old rows that satisfy keep, complete and in their order"
    cols = c.attr(d, "_data").d
    N = zi(c.attr(d, "n_rows"))
    c.ensure("columns", zb(set(cols) == set(f) | {"row"}))
    for k in cols:
        c.ensure(f"length of column {k}", zi(cols[k].length()) == N)
    p = lambda t: val(cols["row"].get(t))
    x = c.skolem(n)
    if conc(N) == 0:
        c.ensure("nothing was to be kept", z3.Not(keep(x)))
        return
    i = c.skolem(N)
    S.touch(p(i))
    old = z3.ToInt(p(i))
    c.ensure("every row is an old row that was to be kept", z3.And(p(i) == z3.ToReal(old), old >= 0, old < n, keep(old)))
    for k in f:
        entry(c, f"entries of {k} belong to the row", cols[k].get(i), m[k](old), f[k](old))
    j = c.skolem(N)
    c.ensure("order kept", z3.Implies(i < j, p(i) < p(j)))
    if c.branch(keep(x)):
        c.member("every row to be kept is there", N, lambda t: p(t) == z3.ToReal(x), hints=[x], ghosts=True)


def noted_statistics(c):
    "Weigher.set_statistics by its contract (C14): the weights it is given are noted"
    def summary(self, weights):
        self.attrs["noted weights"] = weights
    c.by_contract("hrosailing.processing.weigher.Weigher.set_statistics", summary)


def statistics_of(c, wg, w, n, what=""):
    "the statistics of the weigher are those of these weights"
    seen = wg.attrs.get("noted weights")
    if seen is not None:
        c.ensure(what + "number of weights in the statistics", zi(c.it.call(len, [seen], {})) == zi(n))
        c.forall(what + "statistics of these weights", n, lambda i: zr(c.it.getitem(seen, i)) == zr(w.get(i)))
        return
    st = c.returns(c.method(wg, "get_latest_statistics"))
    if "average_weight" not in getattr(st, "d", ()):
        c.ensure(what + "statistics of these weights", z3.BoolVal(False))
        return
    mean = c.it.getitem(st, "average_weight")
    c.ensure(what + "statistics of these weights", zr(mean) == zr(c.sum(n, lambda i: zr(w.get(i)))) / z3.ToReal(zi(n)))
