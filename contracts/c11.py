from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import Choice, S
from pyvc.z3load import z3
from contracts.common import column, entry, is_none, type_by_contract, val
D = "hrosailing.core.data.Data"
F = [D + ".hrosailing_standard_format", D + ".rename", D + ".extend", D + ".delete"]


def formatted(c, names, sort=REAL):
    """a table with the given columns {old name: expected name} is formatted: every column is there under its new name, entries as before"""
    type_by_contract(c)
    n = c.int("n", lo=0)
    cols = {k: column(c, f"c{i}", n, sort) for i, k in enumerate(names)}
    d = c.data(n, types={k: float if sort == REAL else int for k in names}, **{k: v[0] for k, v in cols.items()})
    c.returns(c.method(d, "hrosailing_standard_format"))
    r = c.attr(d, "_data").d
    c.ensure("columns", zb(set(r) == set(names.values())))
    c.ensure("rows", zi(c.attr(d, "n_rows")) == n)
    if not c.branch(n > 0):
        for old, new in names.items():
            c.ensure(f"length of {new}", zi(r[new].length()) == 0)
        return d, r
    i = c.skolem(n)
    for old, new in names.items():
        _, f, m = cols[old]
        c.ensure(f"length of {new}", zi(r[new].length()) == n)
        entry(c, f"entries of {old!r} under {new!r}", r[new].get(i), m(i), f(i))
    c.ensure("types", zb(set(c.attr(d, "_types").d) == set(r)))
    return d, r


@contract("C11", F)
def synonyms(c):
    "synonyms in any spelling get the standard name, unknown names stay"
    formatted(c, {"Wind_Speed": "TWS", "wind-angles": "TWA", " Boat+Speed ": "BSP", "Longitude": "lon", "LATITUDE": "lat", "Rel&Hums": "humidity",
                  "Speed over ground knots": "SOG", "foo": "foo", "": "", "s": "s", "awa": "AWA", "AWS": "AWS"})


@contract("C11", F)
def clashes(c):
    "several columns with the same meaning: all are kept, as numbered control values; an existing standard name keeps its column"
    formatted(c, {"wind speed": "TWS(Control value 1)", "TWS": "TWS", "ws": "TWS(Control value 2)", "speed": "BSP", "bsp": "BSP(Control value 1)",
                  "Boat Speed": "BSP(Control value 2)", "lat": "lat"})


@contract("C11", F)
def clash_with_control_value(c):
    "a name that already looks like a control value is not overwritten"
    formatted(c, {"TWS(Control value 1)": "TWS(Control value 1)", "wind speed": "TWS", "TWSs": "TWS(Control value 2)"})
    formatted(c, {"TWS(Control value 2)": "TWS(Control value 2)", "wind speed": "TWS(Control value 1)", "TWS": "TWS", "TWSs": "TWS(Control value 3)"})


@contract("C11", F + ["hrosailing.core.data._try_call_to_float"])
def whole_numbers(c):
    "whole numbers become floats of the same value, missing entries stay missing"
    d, r = formatted(c, {"wind speed": "TWS", "foo": "foo"}, INT)
    for k in r:
        c.ensure("float", zb(c.attr(d, "_types").d[k] is float))


@contract("C11", F + ["hrosailing.core.data._try_call_to_float"])
def text(c):
    "text that is no number stays as it is"
    n = c.int("n", lo=1)
    miss = c.fun("missing", INT, BOOL)
    l = c.list_of(n, lambda i: Choice([(miss(zi(i)), None), (True, "north")]))
    d = c.data(n, types={"bearing": str}, bearing=l)
    c.require_all(n, lambda i: z3.Or(zi(i) != 0, z3.Not(miss(zi(i)))))
    c.returns(c.method(d, "hrosailing_standard_format"))
    r = c.attr(d, "_data").d
    c.ensure("column", zb(set(r) == {"bearing"}))
    c.ensure("type", zb(c.attr(d, "_types").d["bearing"] is str))
    i = c.skolem(n)
    x = r["bearing"].get(i)
    c.ensure("entry", z3.And(is_none(x) == miss(i), zb(isinstance(x, Choice) and x.alts[-1][1] == "north")))
