from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import DT, TD, Choice, S
from pyvc.z3load import z3
from contracts.common import column, entry, is_none, selected, tagged, type_by_contract, val
M = "hrosailing.processing.imputator."
D = "hrosailing.core.data.Data"


def statistics(c, imp, **want):
    st = c.returns(c.method(imp, "get_latest_statistics"))
    for k, x in want.items():
        c.ensure(f"statistics: {k}", zi(c.it.getitem(st, k)) == zi(x))


@contract("C12", [M + "RemoveOnlyImputator.impute", M + "Imputator.set_statistics"])
def remove_only(c):
    "exactly the complete rows remain, as they were and in their order; the statistics count the others"
    type_by_contract(c)
    n = c.int("n", lo=0)
    d, f, m = tagged(c, n)
    imp = c.returns(c.new(M + "RemoveOnlyImputator"))
    r = c.returns(c.method(imp, "impute", d))
    selected(c, r, n, f, m, lambda i: z3.Not(z3.Or(m["a"](zi(i)), m["b"](zi(i)))))
    N = zi(c.attr(r, "n_rows"))
    statistics(c, imp, n_removed_cols=0, n_removed_rows=n - N, n_filled_fields=0, n_rows=N, n_cols=3)


def times(c, n):
    t, miss = c.fun("t", INT, REAL), c.fun("no_time", INT, BOOL)
    return c.list_of(n, lambda i: Choice([(miss(zi(i)), None), (True, DT(t(zi(i))))])), t, miss


@contract("C12", [M + "FillLocalImputator._remove_rows"])
def remove_rows(c):
    "exactly the rows with a time stamp remain"
    type_by_contract(c)
    n = c.int("n", lo=0)
    l, t, mt = times(c, n)
    d, f, m = tagged(c, n)
    c.attr(d, "_data").d["datetime"] = l
    c.attr(d, "_types").d["datetime"] = DT
    imp = c.returns(c.new(M + "FillLocalImputator"))
    r, k = c.returns(c.method(imp, "_remove_rows", d))
    tl = c.attr(r, "_data").d.pop("datetime")
    selected(c, r, n, f, m, lambda i: z3.Not(mt(zi(i))))
    N = zi(c.attr(r, "n_rows"))
    c.ensure("time column", zi(tl.length()) == N)
    c.ensure("number of removed rows", zi(k) == n - N)


def is_index(v, p):
    "v is None, or an integer with p"
    if isinstance(v, Choice):
        r, rest = zb(False), zb(True)
        for cnd, x in v.alts:
            r = z3.Or(r, z3.And(rest, zb(cnd), is_index(x, p)))
            rest = z3.And(rest, z3.Not(zb(cnd)))
        return r
    return zb(True) if v is None else zb(p(zi(v)))


@contract("C12", [M + "FillLocalImputator._get_start_and_end_idx"])
def sources(c):
    "the nearest earlier and the nearest later measurement that are close in time, None if there is none"
    n, m = c.int("n", lo=1), c.int("m", lo=0)
    t, src, w = c.fun("t", INT, REAL), c.fun("src", INT, INT), c.real("max")
    c.require_all(m, lambda k: z3.And(src(k) >= 0, src(k) < n))
    i = c.int("i", lo=0)
    c.require(i < n)
    dt = c.list_of(n, lambda k: DT(t(zi(k))))
    idx = c.list_of(m, lambda k: src(zi(k)))
    imp = c.returns(c.new(M + "FillLocalImputator", max_time_diff=TD(w)))
    lo, hi = c.returns(c.method(imp, "_get_start_and_end_idx", dt, i, idx))
    k = c.skolem(m)
    before = lambda j: z3.And(j < i, t(i) - t(j) < w)
    after = lambda j: z3.And(j > i, t(j) - t(i) < w)
    c.ensure("earlier: close in time", is_index(lo, before))
    c.ensure("later: close in time", is_index(hi, after))
    c.ensure("earlier: nearest", z3.Implies(before(src(k)), is_index(lo, lambda j: j >= src(k)) if lo is not None else zb(False)))
    c.ensure("later: nearest", z3.Implies(after(src(k)), is_index(hi, lambda j: j <= src(k)) if hi is not None else zb(False)))
    for x, what in ((lo, "earlier"), (hi, "later")):
        if x is not None:
            c.member(f"{what}: a measurement", m, lambda j: src(j) == zi(x), hints=[], ghosts=True)


def neighbours(c, n, miss):
    "ghost: the nearest time stamp before and after position k, if there is one (these always exist)"
    hp, p, hq, q = c.fun("has_prev", INT, BOOL), c.fun("prev", INT, INT), c.fun("has_next", INT, BOOL), c.fun("next", INT, INT)
    c.require_all(n + 1, lambda k: z3.Implies(hp(k), z3.And(p(k) >= 0, p(k) < k, z3.Not(miss(p(k))))))
    c.require_pairs(n + 1, lambda j, k: z3.Implies(z3.Or(z3.Not(hp(k)), p(k) < j), miss(j)))
    c.require_all(n, lambda k: z3.Implies(hq(k), z3.And(q(k) > k, q(k) < n, z3.Not(miss(q(k))))))
    c.require_pairs(n, lambda k, j: z3.Implies(z3.Or(z3.Not(hq(k)), j < q(k)), miss(j)))
    return hp, p, hq, q


@contract("C12", [M + "FillLocalImputator._interpolate_datetime"])
def interpolate_times(c):
    "time stamps between two close ones are interpolated, all others stay as they are (loop invariant)"
    type_by_contract(c)
    n, w = c.int("n", lo=0), c.real("max")
    l, t, miss = times(c, n)
    d = c.data(n, types={"datetime": DT}, datetime=l)
    hp, p, hq, q = neighbours(c, n, miss)
    lst = c.attr(d, "_data").d["datetime"]

    def new(i, k):
        "expected entry k before iteration i: (missing, time)"
        gap = t(q(k)) - t(p(k))
        near = z3.And(gap <= w, -gap <= w)
        fill = z3.And(miss(k), hp(k), hq(k), q(k) < i, near)
        mu = z3.ToReal(k - p(k)) / z3.ToReal(q(k) - p(k))
        return z3.And(miss(k), z3.Not(fill)), z3.If(miss(k), t(p(k)) + mu * gap, t(k))

    def unknown_list():
        cm, cv = S.fresh_fun("now_missing", 1, BOOL), S.fresh_fun("now", 1, REAL)
        lst.assign(n=n, fn=lambda k: Choice([(cm(zi(k)), None), (True, DT(cv(zi(k))))]))

    def make(v, i):
        have, li, ld = S.fresh("have", BOOL), S.fresh("last_i", INT), S.fresh("last_t")
        v.last_i, v.last_dt = Choice([(z3.Not(have), None), (True, li)]), Choice([(z3.Not(have), None), (True, DT(ld))])
        unknown_list()

    def inv(v, i):
        i = zi(i)
        yield "last time stamp or none", z3.And(is_none(v.last_i) == z3.Not(hp(i)), is_none(v.last_dt) == z3.Not(hp(i)))
        if val(v.last_i) is not None:
            yield "last time stamp: position", z3.Implies(hp(i), val(v.last_i) == z3.ToReal(p(i)))
            yield "last time stamp: time", z3.Implies(hp(i), val(v.last_dt) == t(p(i)))
        yield "length", zi(lst.length()) == n
        yield "missing or not", n, lambda k: is_none(lst.get(k)) == new(i, k)[0]
        yield "times", n, lambda k: z3.Implies(z3.Not(new(i, k)[0]), val(lst.get(k)) == new(i, k)[1])

    def inv2(v, j):
        i, last = zi(v.i), z3.ToInt(val(v.last_i))

        def now(k):
            done = z3.And(k > last, k <= last + zi(j))
            a, b = new(i, k), new(i + 1, k)
            return z3.If(done, b[0], a[0]), z3.If(done, b[1], a[1])

        yield "length", zi(lst.length()) == n
        yield "missing or not", n, lambda k: is_none(lst.get(k)) == now(k)[0]
        yield "times", n, lambda k: z3.Implies(z3.Not(now(k)[0]), val(lst.get(k)) == now(k)[1])

    c.invariant(M + "FillLocalImputator._interpolate_datetime", 0, make, inv)
    c.invariant(M + "FillLocalImputator._interpolate_datetime", 1, lambda v, j: unknown_list(), inv2)
    imp = c.returns(c.new(M + "FillLocalImputator", max_time_diff=TD(w)))
    r = c.returns(c.method(imp, "_interpolate_datetime", d))
    x = c.attr(r, "_data").d["datetime"]
    c.ensure("rows", z3.And(zi(x.length()) == n, zi(c.attr(r, "n_rows")) == n))
    k = c.skolem(n)
    entry(c, "time", x.get(k), new(n, k)[0], new(n, k)[1])


@contract("C12", [M + "FillLocalImputator._apply_fill_functions"])
def fill_column(c):
    """measured entries stay; missing ones are filled from the nearest close measurements, before, after or between, or stay missing
    (loop invariant; the choice of the measurements by the contract `sources`)"""
    n, w = c.int("n", lo=0), c.real("max")
    c.require(w > 0)
    t = c.fun("t", INT, REAL)
    c.require_pairs(n, lambda a, b: t(a) <= t(b))
    dt = c.list_of(n, lambda k: DT(t(zi(k))))
    col, f, miss = column(c, "a", n)
    lo, hi = c.fun("earlier", INT, INT), c.fun("later", INT, INT)
    has_lo, has_hi = c.fun("has_earlier", INT, BOOL), c.fun("has_later", INT, BOOL)
    c.require_all(n, lambda i: z3.Implies(has_lo(i), z3.And(lo(i) >= 0, lo(i) < i, z3.Not(miss(lo(i))), t(i) - t(lo(i)) < w)))
    c.require_all(n, lambda i: z3.Implies(has_hi(i), z3.And(hi(i) > i, hi(i) < n, z3.Not(miss(hi(i))), t(hi(i)) - t(i) < w)))
    idx = c.returns(c.call("contracts.c12.measured", col))
    c.by_contract(M + "FillLocalImputator._get_start_and_end_idx", lambda self, datetime, i, idx: (
        Choice([(has_lo(zi(i)), lo(zi(i))), (True, None)]), Choice([(has_hi(zi(i)), hi(zi(i))), (True, None)])))
    fb, fm, fa = (z3.Function(x, *([REAL] * k), REAL) for x, k in (("fill_before", 2), ("fill_between", 3), ("fill_after", 2)))

    def filler(name, g):
        def m(it, args, kw):
            mu = zr(args[-1])
            S.oblige(f"{name}: relative position between 0 and 1", z3.And(mu >= 0, mu <= 1))
            S.oblige(f"{name}: column name", zb(args[0] == "a"))
            return g(*[val(x) for x in args[1:]])

        return c.opaque_fn(name, m)

    imp = c.returns(c.new(M + "FillLocalImputator", filler("fill_before", fb), filler("fill_between", fm), filler("fill_after", fa), TD(w)))
    d = c.data(n, a=col, datetime=dt)
    lst = c.attr(d, "_data").d["a"]

    def new(k):
        "expected entry k once it has been visited: (missing, value)"
        a, b = t(lo(k)), t(hi(k))
        wide = b - a > w
        between = z3.And(has_lo(k), has_hi(k), z3.Not(wide))
        after = z3.And(has_lo(k), z3.Not(between))
        x = z3.If(between, fm(f(lo(k)), f(hi(k)), z3.If(a == b, z3.RealVal(1), (t(k) - a) / (b - a))),
                  z3.If(after, fa(f(lo(k)), (t(k) - a) / w), fb(f(hi(k)), (b - t(k)) / w)))
        return z3.And(miss(k), z3.Not(z3.Or(has_lo(k), has_hi(k)))), z3.If(miss(k), x, f(k))

    def make(v, i):
        cm, cv = S.fresh_fun("now_missing", 1, BOOL), S.fresh_fun("now", 1, REAL)
        lst.assign(n=n, fn=lambda k: Choice([(cm(zi(k)), None), (True, cv(zi(k)))]))
        c.it.setattr(imp, "_n_filled", S.fresh("filled", INT))

    def inv(v, i):
        now = lambda k: (z3.If(k < zi(i), new(k)[0], miss(k)), z3.If(k < zi(i), new(k)[1], f(k)))
        yield "length", zi(lst.length()) == n
        yield "missing or not", n, lambda k: is_none(lst.get(k)) == now(k)[0]
        yield "entries", n, lambda k: z3.Implies(z3.Not(now(k)[0]), val(lst.get(k)) == now(k)[1])

    c.invariant(M + "FillLocalImputator._apply_fill_functions", 0, make, inv)
    c.returns(c.method(imp, "_apply_fill_functions", dt, idx, "a", d))
    k = c.skolem(n)
    entry(c, "entry", c.attr(d, "_data").d["a"].get(k), *new(k))


def measured(column):
    "as _interpolate_other collects the measurements of a column"
    return [i for i, data in enumerate(column) if data is not None]


@contract("C12", [M + "FillLocalImputator.impute", M + "FillLocalImputator._interpolate_other", M + "FillLocalImputator._remove_rows"])
def fill_local(c):
    """the result is complete, consists of old rows in their order, whatever was measured is still there, and the statistics count what
    disappeared (time stamps and columns by the contracts interpolate_times and fill_column)"""
    type_by_contract(c)
    n = c.int("n", lo=1)
    l, t, mt = times(c, n)
    d, f, m = tagged(c, n, "a")
    c.attr(d, "_data").d["datetime"] = l
    c.attr(d, "_types").d["datetime"] = DT
    first = c.int("measured", lo=0)  # some entry of every column is there
    c.require(z3.And(first < n, z3.Not(m["a"](first)), z3.Not(mt(first))))
    S.skolems.append(first)

    def new_times(self, data):
        x = c.attr(data, "_data").d["datetime"]
        cm, cv = c.fun("no_time_now", INT, BOOL), c.fun("time_now", INT, REAL)
        k = S.bound("k")
        S.forall([k], z3.Implies(z3.And(k >= 0, k < n, z3.Not(mt(k))), z3.And(z3.Not(cm(k)), cv(k) == t(k))))
        x.assign(n=n, fn=lambda k: Choice([(cm(zi(k)), None), (True, DT(cv(zi(k))))]))
        return data

    def new_column(self, datetime, idx, key, data):
        x = c.attr(data, "_data").d[key]
        g, N = x.fn, x.length()
        cm, cv = S.fresh_fun("still_missing", 1, BOOL), S.fresh_fun("filled", 1, REAL)
        x.assign(n=N, fn=lambda k: Choice([(z3.And(is_none(g(k)), cm(zi(k))), None),
                                           (True, z3.If(is_none(g(k)), cv(zi(k)), zr(val(g(k)))))]))
        c.it.setattr(self, "_n_filled", S.fresh("n_filled", INT))

    c.by_contract(M + "FillLocalImputator._interpolate_datetime", new_times)
    c.by_contract(M + "FillLocalImputator._apply_fill_functions", new_column)
    imp = c.returns(c.new(M + "FillLocalImputator"))
    r = c.returns(c.method(imp, "impute", d))
    cols = c.attr(r, "_data").d
    N = zi(c.attr(r, "n_rows"))
    c.ensure("columns", zb(set(cols) == {"a", "row", "datetime"}))
    if set(cols) != {"a", "row", "datetime"}:
        c.stop()
    for k in cols:
        c.ensure(f"length of column {k}", zi(cols[k].length()) == N)
    statistics(c, imp, n_removed_cols=0, n_removed_rows=n - N, n_rows=N, n_cols=3)
    if conc(N) == 0:
        return
    i, j = c.skolem(N), c.skolem(N)
    p = lambda q: val(cols["row"].get(q))
    S.touch(p(i))
    old = z3.ToInt(p(i))
    c.ensure("complete", z3.Not(z3.Or(*[is_none(cols[k].get(i)) for k in cols])))
    c.ensure("old rows", z3.And(p(i) == z3.ToReal(old), old >= 0, old < n))
    c.ensure("measurements stay", z3.Implies(z3.Not(m["a"](old)), val(cols["a"].get(i)) == f["a"](old)))
    c.ensure("time stamps stay", z3.Implies(z3.Not(mt(old)), val(cols["datetime"].get(i)) == t(old)))
    c.ensure("order kept", z3.Implies(i < j, p(i) < p(j)))
