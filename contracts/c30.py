from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import DT, Choice, PDict, S
from pyvc.z3load import z3
from contracts.common import column, entry, is_none, type_by_contract, val
D = "hrosailing.core.data.Data"
E = "hrosailing.pipeline.expander."
NEW = ("my field", "TWS")


class Model:
    "an arbitrary weather model that knows two quantities at some times and places"

    def __init__(self, known, u, w):
        self.known, self.u, self.w = known, u, w

    def get_weather(self, point):
        if not self.known(point):
            raise ValueError("unknown")
        return {"my field": self.u(point), "TWS": self.w(point)}


def names(x):
    "the names in the records of a list"
    x = x.get(zi(0))
    return {k for y in ([a for _, a in x.alts] if isinstance(x, Choice) else [x]) if isinstance(y, PDict) for k in y.d}


def concatenation(c, gaps):
    "loop of Data.concatenate: the table has the entries of the records so far"
    def make(v, i):
        c.it.setattr(v.data, "_max_len", i if names(v.list_) else 0)
        if S.branch(zi(i) == 0) or not names(v.list_):
            d, t = {}, {}
        else:
            d, t = {}, {}
            for k in NEW:
                cm, cv, ty = S.fresh_fun("missing", 1, BOOL), S.fresh_fun("value", 1, REAL), S.fresh("typed", BOOL)
                d[k] = c.list_of(i, lambda q, cm=cm, cv=cv: Choice([(cm(zi(q)), None), (True, cv(zi(q)))]) if gaps else cv(zi(q)))
                t[k] = Choice([(ty, float), (True, None)]) if gaps else float
        c.it.setattr(v.data, "_data", PDict(d))
        c.it.setattr(v.data, "_types", PDict(t))

    def inv(v, i):
        d = c.attr(v.data, "_data").d
        n, get, items = c.it.seq(v.list_)
        yield "rows", zi(c.attr(v.data, "n_rows")) == (zi(i) if names(v.list_) else 0)
        if not d:
            yield "no row", zi(i) == 0 if names(v.list_) else zb(True)
            return
        for k in NEW:
            yield f"length of {k}", zi(d[k].length()) == zi(i)
            yield f"missing or not: {k}", i, lambda q: is_none(d[k].get(q)) == is_none(field(get(q), k))
            yield f"entries of {k}", i, lambda q: z3.Implies(z3.Not(is_none(d[k].get(q))), val(d[k].get(q)) == val(field(get(q), k)))

    c.invariant(D + ".concatenate", 0, make, inv)


def field(x, k):
    "entry k of a record that may be one of several (or none yet)"
    if isinstance(x, Choice):
        return Choice([(cnd, field(y, k)) for cnd, y in x.alts])
    return x.d.get(k) if isinstance(x, PDict) else None


def filling(c, n, known, new):
    "loop of _get_weather: the records without weather visited so far have empty entries, those with weather keep it"
    def make(v, j):
        keys = NEW if v.weather_keys is not None else ()
        no, em = S.fresh_fun("no_record", 1, BOOL), S.fresh_fun("no_weather", 1, BOOL)
        fs = [S.fresh_fun("weather", 1, REAL) for _ in NEW]
        v.weather_list.assign(n=n, fn=lambda q: Choice([(no(zi(q)), None), (em(zi(q)), PDict({k: None for k in keys})),
                                                       (True, PDict({k: f(zi(q)) for k, f in zip(keys, fs)}))]))

    def inv(v, j):
        get, todo = v.weather_list.get, v.none_idxs
        yield "length", zi(v.weather_list.length()) == n
        yield "visited", j, lambda q: z3.Not(is_none(get(zi(todo.get(q)))))
        yield "nothing yet only without weather", n, lambda q: z3.Implies(is_none(get(q)), z3.Not(known(q)))
        for k, f in zip(NEW, new):
            yield f"{k}: empty without weather", n, lambda q: z3.Implies(z3.Not(is_none(get(q))), is_none(field(get(q), k)) == z3.Not(known(q)))
            if v.weather_keys is not None:
                yield f"{k}: the weather", n, lambda q: z3.Implies(known(q), val(field(get(q), k)) == f(q))

    c.invariant(E + "WeatherExpander._get_weather", 1, make, inv)


def world(c, mode):
    "a table of any size (with a ghost column that numbers the rows), an arbitrary weather model"
    type_by_contract(c)
    n = c.int("n", lo=1)
    t, lat, lon = (c.fun(x, INT, REAL) for x in ("t", "lat", "lon"))
    a, fa, ma = column(c, "a", n)
    data = c.data(n, types={"datetime": DT}, datetime=c.list_of(n, lambda i: DT(t(zi(i)))), lat=c.list_of(n, lambda i: lat(zi(i))),
                  lon=c.list_of(n, lambda i: lon(zi(i))), TWS=a, row=c.list_of(n, lambda i: z3.ToReal(zi(i))))
    known = c.fun("known", REAL, REAL, REAL, BOOL)
    u, w = c.fun("u", REAL, REAL, REAL, REAL), c.fun("w", REAL, REAL, REAL, REAL)

    def at(f):
        def m(it, args, kw):
            n, get, items = it.seq(args[0])
            return f(*[val(x) for x in items])
        return m

    model = c.obj("contracts.c30.Model", **{k: c.opaque_fn(k, at(f)) for k, f in dict(known=known, u=u, w=w).items()})
    e = c.returns(c.new(E + "WeatherExpander", model, exception_handling_mode=mode))
    concatenation(c, mode == "ignore")
    c.by_contract(D + ".hrosailing_standard_format", lambda self: None)  # standard
    S.match_filters = True
    here = lambda i: (t(i), lat(i), lon(i))
    return n, data, e, lambda i: known(*here(i)), lambda i: u(*here(i)), lambda i: w(*here(i)), dict(datetime=t, lat=lat, lon=lon, TWS=fa), ma


def records(c, r, e, n, known, new, f, ma, keep):
    """the records to be kept, in their order, each with its old entries and the weather of its own time and place"""
    for q in S.filters.values():
        S.touch(q[3](zi(0)))
    c.prune()  # ways to leave the loops that are not possible
    cols = c.attr(r, "_data").d
    N = zi(c.attr(r, "n_rows"))
    more = {"my field": new[0], "TWS(duplicate)": new[1]}
    x = c.skolem(n)
    have = any(k in cols for k in more)
    c.ensure("columns", zb(set(cols) == {*f, "row", *(more if have else ())}))
    if not have:
        c.ensure("columns are only left out without any weather", z3.Not(known(x)))
    for k in cols:
        c.ensure(f"length of column {k}", zi(cols[k].length()) == N)
    s = c.attr(e, "_statistics").d
    c.ensure("statistics", z3.And(zi(s["n_rows"]) == N, zi(s["n_cols"]) == len(cols)))
    p = lambda t: val(cols["row"].get(t))
    if c.branch(N == 0):
        c.ensure("nothing was to be kept", z3.Not(keep(x)))
        return
    i = c.skolem(N)
    S.touch(p(i))
    old = z3.ToInt(p(i))
    c.ensure("every record is an old record to be kept", z3.And(p(i) == z3.ToReal(old), old >= 0, old < n, keep(old)))
    for k in f:
        entry(c, f"entries of {k} belong to the record", cols[k].get(i), ma(old) if k == "TWS" else False, f[k](old))
    for k in more if have else ():
        entry(c, f"weather ({k}) belongs to the record", cols[k].get(i), z3.Not(known(old)), more[k](old))
    j = c.skolem(N)
    c.ensure("order kept", z3.Implies(i < j, p(i) < p(j)))
    c.member("every record to be kept is there", N, lambda t: p(t) == z3.ToReal(x), hints=[x], ghosts=True, given=keep(x))


@contract("C30", [E + "WeatherExpander.expand", E + "WeatherExpander._get_weather", E + "WeatherExpander._mark_duplicate_keys", D + ".concatenate"])
def delete(c):
    "exactly the records with known weather stay, in their order, with their entries and the weather of their own time and place"
    n, data, e, known, u, w, f, ma = world(c, "delete")
    r = c.returns(c.method(e, "expand", data))
    records(c, r, e, n, known, (u, w), f, ma, known)


@contract("C30", [E + "WeatherExpander.expand", E + "WeatherExpander._get_weather", E + "WeatherExpander._mark_duplicate_keys", D + ".concatenate"])
def ignore(c):
    "all records stay as they were and get the weather of their own time and place, or no entries where there is none"
    n, data, e, known, u, w, f, ma = world(c, "ignore")
    filling(c, n, known, (u, w))
    r = c.returns(c.method(e, "expand", data))
    records(c, r, e, n, known, (u, w), f, ma, lambda i: zb(True))


@contract("C30", [D + ".hrosailing_standard_format"])
def standard(c):
    "a table whose names are standard names and whose columns are numbers (some missing, perhaps all) or time stamps is in standard format already"
    n = c.int("n", lo=0)
    cols = {k: column(c, k.replace(" ", "_"), n) for k in ("TWS", "my field", "TWS(duplicate)", "lat")}
    t = c.fun("t", INT, REAL)
    typed = {k: c.branch(c.bool(f"{k} typed")) for k in ("TWS", "my field")}
    d = c.data(n, types={"datetime": DT, **{k: float if v else None for k, v in typed.items()}}, datetime=c.list_of(n, lambda i: DT(t(zi(i)))),
               **{k: v[0] for k, v in cols.items()})
    c.returns(c.method(d, "hrosailing_standard_format"))
    got = c.attr(d, "_data").d
    c.ensure("columns and their order", zb(list(got) == ["datetime", *cols]))
    i = c.skolem(n)
    for k, (l, f, m) in cols.items():
        c.ensure(f"length of {k}", zi(got[k].length()) == n)
        entry(c, f"entries of {k}", got[k].get(i), m(i), f(i))
    entry(c, "time stamps", got["datetime"].get(i), False, t(i))
    c.ensure("number of rows", zi(c.attr(d, "n_rows")) == n)


@contract("C30", [E + "LazyExpander.expand"])
def lazy(c):
    "returns the very same table, unchanged"
    n = c.int("n", lo=0)
    a, fa, ma = column(c, "a", n)
    d = c.data(n, a=a)
    e = c.returns(c.new(E + "LazyExpander"))
    r = c.returns(c.method(e, "expand", d))
    c.ensure("the same table", zb(r is d and set(c.attr(d, "_data").d) == {"a"}))
    c.ensure("rows", zi(c.attr(d, "_data").d["a"].length()) == n)
    i = c.skolem(n)
    entry(c, "entries", c.attr(d, "_data").d["a"].get(i), ma(i), fa(i))
    s = c.attr(e, "_statistics").d
    c.ensure("statistics", z3.And(zi(s["n_rows"]) == n, zi(s["n_cols"]) == 1))
