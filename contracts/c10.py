from pyvc import ops
from pyvc.harness import Raised, contract
from pyvc.terms import *
from pyvc.values import Choice, S
from pyvc.z3load import z3
from contracts.common import column, entry, is_none, selected, tagged, type_by_contract, val
D = "hrosailing.core.data.Data"


@contract("C10", D + "._get_type")
def get_type(c):
    n = c.int("n", lo=0)
    l, f, miss = column(c, "a", n)
    r = c.returns(c.call(D + "._get_type", l))
    c.ensure("float or none", zb(r is float or r is None))
    i = c.skolem(n)
    if r is None:
        c.ensure("none only without entries", miss(i))


@contract("C10", [D + ".update", D + ".extend", D + ".fill", D + "._unsafe_update"])
def update(c):
    type_by_contract(c)
    n, m = c.int("n", lo=0), c.int("m", lo=1)
    a, fa, ma = column(c, "a", n)
    b, fb, mb = column(c, "b", n)
    d = c.data(n, a=a, b=b)
    b2, fb2, mb2 = column(c, "b2", m)
    c2, fc2, mc2 = column(c, "c2", m)
    r = c.returns(c.method(d, "update", c.dict(b=b2, c=c2)))
    c.ensure("rows", zi(c.attr(d, "n_rows")) == n + m)
    cols = c.attr(d, "_data").d
    c.ensure("columns", zb(set(cols) == {"a", "b", "c"}))
    for k in "abc":
        c.ensure(f"column {k}: length", zi(cols[k].length()) == n + m)
    i, j = c.skolem(n), c.skolem(m)
    entry(c, "old entry of a", cols["a"].fn(i), ma(i), fa(i))
    entry(c, "old entry of b", cols["b"].fn(i), mb(i), fb(i))
    entry(c, "old entry of c", cols["c"].fn(i), True, 0)
    entry(c, "new entry of a", cols["a"].fn(n + j), True, 0)
    entry(c, "new entry of b", cols["b"].fn(n + j), mb2(j), fb2(j))
    entry(c, "new entry of c", cols["c"].fn(n + j), mc2(j), fc2(j))


def tab(c, n, names="ab"):
    cols = {k: column(c, k, n) for k in names}
    return c.data(n, **{k: v[0] for k, v in cols.items()}), {k: v[1] for k, v in cols.items()}, {k: v[2] for k, v in cols.items()}


@contract("C10", D + ".strip")
def strip_rows(c):
    n = c.int("n", lo=0)
    d, f, m = tab(c, n)
    c.returns(c.method(d, "strip", "rows"))
    cols = c.attr(d, "_data").d
    N = zi(c.attr(d, "n_rows"))
    c.ensure("columns", zb(set(cols) == {"a", "b"}))
    for k in "ab":
        c.ensure("length", zi(cols[k].length()) == N)
    empty = lambda i: z3.And(m["a"](i), m["b"](i))
    i = c.skolem(n)
    if c.branch(N > 0):
        # position of the first kept row
        c.ensure("first row kept has an entry", z3.Not(z3.And(is_none(cols["a"].fn(0)), is_none(cols["b"].fn(0)))))
        c.ensure("last row kept has an entry", z3.Not(z3.And(is_none(cols["a"].fn(N - 1)), is_none(cols["b"].fn(N - 1)))))
    else:
        c.ensure("only empty tables lose all rows", empty(i))


@contract("C10", [D + ".delete"])
def delete_rows(c):
    "deleting rows by their numbers"
    n = c.int("n", lo=0)
    d, f, m = tagged(c, n)
    ks = [c.int("r"), c.int("s")]
    for k in ks:
        c.require(z3.And(k >= 0, k < n))
    c.returns(c.method(d, "delete", c.plist(ks)))
    selected(c, d, n, f, m, lambda i: z3.And(zi(i) != ks[0], zi(i) != ks[1]))


@contract("C10", D + ".delete")
def delete_any_rows(c):
    "deleting any number of rows, in any order and with repetitions; `listed` and `place` (ghosts) say which rows are named, and where"
    n, k = c.int("n", lo=1), c.int("k", lo=1)
    d, f, m = tagged(c, n, "a")
    keys = c.list("rows", k, INT)
    listed, place = c.fun("listed", INT, BOOL), c.fun("place", INT, INT)
    c.require_all(k, lambda t: z3.And(keys.get(t) >= 0, keys.get(t) < n, listed(zi(keys.get(t)))))
    c.require_all(n, lambda i: z3.Implies(listed(i), z3.And(place(i) >= 0, place(i) < k, keys.get(place(i)) == i)))
    c.returns(c.method(d, "delete", keys))
    selected(c, d, n, f, m, lambda i: z3.Not(listed(zi(i))))


@contract("C10", [D + "._mask_rows", D + ".__getitem__"])
def mask(c):
    "row selection by a boolean array; the table itself is not touched"
    n = c.int("n", lo=1)
    d, f, m = tagged(c, n)
    flag = c.arr("mask", (n,), "b")
    g = flag.snap()
    r = c.returns(c.method(d, "__getitem__", flag))
    selected(c, r, n, f, m, lambda i: zb(g((i,))))
    c.ensure("types", zb(set(c.attr(r, "_types").d) == {"a", "b", "row"}))
    c.ensure("table untouched", zi(c.attr(d, "n_rows")) == n)


def same_columns(c, d, n, f, m, names, what=""):
    "d has n rows and, under the given names {new: old}, exactly the old entries"
    cols = c.attr(d, "_data").d
    c.ensure(what + "columns and their order", zb(list(cols) == list(names)))
    c.ensure(what + "types for every column", zb(set(c.attr(d, "_types").d) == set(names)))
    c.ensure(what + "number of rows", zi(c.attr(d, "n_rows")) == n)
    i = c.skolem(n)
    for k, o in names.items():
        c.ensure(f"{what}length of {k}", zi(cols[k].length()) == n)
        entry(c, f"{what}entries of {k}", cols[k].get(i), m[o](i), f[o](i))


@contract("C10", [D + ".delete", D + ".rename", D + ".filter_types"])
def columns(c):
    "deleting and renaming columns leaves every other column as it was"
    n = c.int("n", lo=0)
    d, f, m = tab(c, n, "abcde")
    c.returns(c.method(d, "delete", "b"))
    same_columns(c, d, n, f, m, dict(a="a", c="c", d="d", e="e"), "delete: ")
    c.returns(c.method(d, "delete", c.plist(["a", "e"])))
    same_columns(c, d, n, f, m, dict(c="c", d="d"), "delete several: ")
    c.returns(c.method(d, "rename", "c", "z"))
    same_columns(c, d, n, f, m, dict(d="d", z="c"), "rename: ")
    c.returns(c.method(d, "rename", "z", "z"))
    same_columns(c, d, n, f, m, dict(d="d", z="c"), "rename to itself: ")
    c.raises(c.method(d, "rename", "z", "d"), ValueError, what="renaming to an existing name is rejected")
    same_columns(c, d, n, f, m, dict(d="d", z="c"), "rejected rename: ")
    c.returns(c.method(d, "filter_types", c.plist([float])))
    same_columns(c, d, n, f, m, dict(d="d", z="c"), "filter: ")
    c.returns(c.method(d, "filter_types", c.plist([str])))
    same_columns(c, d, n, f, m, {}, "filter all: ")


@contract("C10", [D + ".get_slice", D + ".__getitem__", D + ".update"])
def slices(c):
    "a table of some of the columns; extending it leaves the original alone"
    type_by_contract(c)
    n = c.int("n", lo=1)
    d, f, m = tab(c, n, "abc")
    names = c.plist(["c", "a"])
    r = c.returns(c.method(d, "__getitem__", names))
    same_columns(c, r, n, f, m, dict(a="a", c="c"), "slice: ")
    k = c.int("k", lo=1)
    a, fa, ma = column(c, "more", k)
    c.returns(c.method(r, "update", c.dict(a=a)))
    same_columns(c, d, n, f, m, dict(a="a", b="b", c="c"), "original: ")
    c.ensure("rows of the slice", zi(c.attr(r, "n_rows")) == n + k)
    cols = c.attr(r, "_data").d
    i, j = c.skolem(n), c.skolem(k)
    entry(c, "old entry of the slice", cols["a"].get(i), m["a"](i), f["a"](i))
    entry(c, "new entry of the slice", cols["a"].get(n + j), ma(j), fa(j))
    entry(c, "other column filled", cols["c"].get(n + j), True, 0)


@contract("C10", [D + ".rows", D + ".__iter__", D + ".__getitem__"])
def rows(c):
    "rows() and iteration give the entries of one row each, in order"
    n = c.int("n", lo=1)
    d, f, m = tab(c, n, "abc")
    i = c.skolem(n)
    r = c.returns(c.method(d, "__getitem__", i))
    c.ensure("row: columns", zb(set(r.d) == {"a", "b", "c"}))
    for k in "abc":
        entry(c, f"row: entry of {k}", r.d[k], m[k](i), f[k](i))
    for kind, keys in ((None, None), (list, ["c", "a"]), (tuple, ["b", "c"]), (dict, ["b"])):
        kw = {}
        if keys:
            kw["keys"] = c.plist(keys)
        if kind:
            kw["return_type"] = kind
        it = c.call(list, c.returns(c.method(d, "rows", **kw)))
        it = c.returns(it)
        nm = getattr(kind, "__name__", "default")
        c.ensure(f"{nm}: one per row", zi(it.length()) == n)
        x = it.get(i)
        x = dict(x.d) if kind in (None, dict) else dict(zip(keys, x.items if kind is list else x))
        c.ensure(f"{nm}: columns", zb(list(x) == list(keys or "abc")))
        for k, v in x.items():
            entry(c, f"{nm}: entry of {k}", v, m[k](i), f[k](i))


@contract("C10", [D + ".update", D + ".from_dict", D + ".concatenate"])
def concatenation(c):
    "concatenating two tables with different columns: all rows of both, missing columns filled; the parts stay as they were"
    type_by_contract(c)
    n, m = c.int("n", lo=1), c.int("m", lo=1)
    a, fa, ma = column(c, "a", n)
    b, fb, mb = column(c, "b", n)
    b2, fb2, mb2 = column(c, "b2", m)
    c2, fc2, mc2 = column(c, "c2", m)
    d, e = c.data(n, a=a, b=b), c.data(m, b=b2, c=c2)
    r = c.returns(c.call(D + ".concatenate", resolve_class(), c.plist([d, e])))
    N = zi(c.attr(r, "n_rows"))
    c.ensure("rows", N == n + m)
    cols = c.attr(r, "_data").d
    c.ensure("columns", zb(list(cols) == ["a", "b", "c"]))
    for k in cols:
        c.ensure("length", zi(cols[k].length()) == N)
    i, j = c.skolem(n), c.skolem(m)
    entry(c, "first part a", cols["a"].get(i), ma(i), fa(i))
    entry(c, "first part b", cols["b"].get(i), mb(i), fb(i))
    entry(c, "first part c", cols["c"].get(i), True, 0)
    entry(c, "second part a", cols["a"].get(n + j), True, 0)
    entry(c, "second part b", cols["b"].get(n + j), mb2(j), fb2(j))
    entry(c, "second part c", cols["c"].get(n + j), mc2(j), fc2(j))
    same_columns(c, d, n, dict(a=fa, b=fb), dict(a=ma, b=mb), dict(a="a", b="b"), "first table: ")
    same_columns(c, e, m, dict(b=fb2, c=fc2), dict(b=mb2, c=mc2), dict(b="b", c="c"), "second table: ")


def resolve_class():
    from pyvc.harness import resolve
    return resolve(D)


@contract("C10", [D + ".from_dict", D + ".update", D + ".fill"])
def ragged(c):
    "columns of different lengths and single values: shorter ones are filled up with missing entries"
    type_by_contract(c)
    n, m = c.int("n", lo=0), c.int("m", lo=0)
    a, fa, ma = column(c, "a", n)
    b, fb, mb = column(c, "b", m)
    x = c.real("x")
    r = c.returns(c.call(D + ".from_dict", resolve_class(), c.dict(a=a, b=b, s=x)))
    N = zi(c.attr(r, "n_rows"))
    mx = z3.If(n >= m, n, m)
    c.ensure("rows", N == z3.If(mx >= 1, mx, 1))
    cols = c.attr(r, "_data").d
    c.ensure("columns", zb(list(cols) == ["a", "b", "s"]))
    for k in cols:
        c.ensure("length", zi(cols[k].length()) == N)
    i = c.skolem(N)
    for k, (f, mi, l) in dict(a=(fa, ma, n), b=(fb, mb, m), s=(lambda t: x, lambda t: zb(False), zi(1))).items():
        entry(c, f"column {k}", cols[k].get(i), z3.Or(i >= l, zb(mi(i))), f(i))


@contract("C10", [D + ".update"])
def compress(c):
    "compress: values go into the last row where its entries in all these columns are missing, else into a new row"
    type_by_contract(c)
    n = c.int("n", lo=1)
    d, f, m = tab(c, n, "abc")
    x, y = c.real("x"), c.real("y")
    arg = c.dict(b=x, c=y)
    c.returns(c.method(d, "update", c.dict(b=x, c=y), compress=True))
    N = zi(c.attr(d, "n_rows"))
    cols = c.attr(d, "_data").d
    free = z3.And(zb(m["b"](n - 1)), zb(m["c"](n - 1)))
    c.ensure("columns", zb(list(cols) == ["a", "b", "c"]))
    c.ensure("rows", N == z3.If(free, n, n + 1))
    for k in cols:
        c.ensure("length", zi(cols[k].length()) == N)
    i = c.skolem(N)
    last = i == N - 1
    entry(c, "a", cols["a"].get(i), z3.Or(i >= n, zb(m["a"](i))), f["a"](i))
    entry(c, "b", cols["b"].get(i), z3.And(z3.Not(last), zb(m["b"](i))), z3.If(last, x, f["b"](i)))
    entry(c, "c", cols["c"].get(i), z3.And(z3.Not(last), zb(m["c"](i))), z3.If(last, y, f["c"](i)))


@contract("C10", [D + ".strip"])
def strip_content(c):
    "exactly the leading and trailing empty rows go, all others stay in their order"
    n = c.int("n", lo=0)
    cols = {k: column(c, k, n) for k in "ab"}
    f, m = {k: v[1] for k, v in cols.items()}, {k: v[2] for k, v in cols.items()}
    tag, ft, mt = column(c, "row", n)
    empty = lambda i: z3.And(zb(m["a"](i)), zb(m["b"](i)))
    c.require_all(n, lambda i: z3.And(ft(i) == z3.ToReal(zi(i)), zb(mt(i)) == empty(i)))
    d = c.data(n, a=cols["a"][0], b=cols["b"][0], row=tag)
    c.returns(c.method(d, "strip", "rows"))
    r = c.attr(d, "_data").d
    N = zi(c.attr(d, "n_rows"))
    x = c.skolem(n)
    if c.branch(N <= 0):
        c.ensure("rows lost only if empty", empty(x))
        return
    # the position of the first remaining row: that of its tag, as the row is not empty
    first = z3.ToInt(val(r["row"].get(0)))
    c.ensure("first remaining row is not empty", z3.Not(empty(first)))
    c.ensure("last remaining row is not empty", z3.And(first >= 0, first + N <= n, z3.Not(empty(first + N - 1))))

    if c.branch(x < first):
        c.ensure("rows before were empty", empty(x))
        return
    if c.branch(x >= first + N):
        c.ensure("rows behind were empty", empty(x))
        return
    i = c.skolem(N)
    for k in "ab":
        entry(c, f"remaining entries of {k}", r[k].get(i), m[k](first + i), f[k](first + i))


@contract("C10", [D + ".strip"])
def strip_columns(c):
    "exactly the columns without any entry go"
    n = c.int("n", lo=0)
    d, f, m = tab(c, n)
    c.returns(c.method(d, "strip", "cols"))
    cols = c.attr(d, "_data").d
    for k in "ab":
        x = c.skolem(n)
        if k in cols:
            i = c.skolem(n)
            c.ensure(f"length of {k}", zi(cols[k].length()) == n)
            entry(c, f"entries of {k}", cols[k].get(i), m[k](i), f[k](i))
            c.member(f"column {k} has an entry", n, lambda t: z3.Not(zb(m[k](t))), ghosts=True)
        else:
            c.ensure(f"column {k} was empty", m[k](x))
    c.ensure("types", zb(set(cols) == set(c.attr(d, "_types").d)))


@contract("C10", [D + ".extend", D + ".append", D + "._get_type"])
def mismatch(c):
    "entries of another type than the column are rejected"
    n = c.int("n", lo=1)
    a = c.list("a", n)
    d = c.data(n, a=a)
    c.raises(c.method(d, "append", "a", "text"), ValueError)
    c.ensure("table unchanged", z3.And(zi(c.attr(d, "n_rows")) == n, zi(c.attr(d, "_data").d["a"].length()) == n))
    c.raises(c.call(D + ".from_dict", resolve_class(), c.dict(a=c.plist([c.real("x"), None, "text"]))), ValueError)


def mixed(c, n):
    "a column of missing entries, text and numbers in any order"
    miss, text, f = c.fun("missing", INT, BOOL), c.fun("text", INT, BOOL), c.fun("number", INT, REAL)
    return c.list_of(n, lambda i: Choice([(miss(zi(i)), None), (text(zi(i)), "text"), (True, f(zi(i)))])), miss, text


@contract("C10", D + "._get_type")
def get_type_mixed(c):
    "what is accepted is consistent"
    n = c.int("n", lo=0)
    l, miss, text = mixed(c, n)
    r = c.call(D + "._get_type", l)
    if isinstance(r, Raised):
        c.raises(r, ValueError)
        return
    r = c.returns(r)
    i = c.skolem(n)
    if r is None:
        c.ensure("none: no entries", miss(i))
    else:
        c.ensure("text or number", zb(r is str or r is float))
        c.ensure("all entries of this type", z3.Or(miss(i), text(i) if r is str else z3.Not(text(i))))


@contract("C10", D + "._get_type")
def get_type_consistent(c):
    "consistent columns are accepted"
    n = c.int("n", lo=0)
    l, miss, text = mixed(c, n)
    t = c.bool("only_text")
    c.require_all(n, lambda i: z3.Or(miss(i), text(i) == t))
    r = c.returns(c.call(D + "._get_type", l))
    c.ensure("text or number", zb(r is None or r is str or r is float))
    if r is not None:
        c.ensure("right type", t if r is str else z3.Not(t))
