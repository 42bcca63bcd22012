import csv

import numpy as np

from pyvc.harness import contract
from pyvc.interp import StarSeq
from pyvc.terms import *
from pyvc.values import Choice, NumText, S, Seq
from pyvc.z3load import z3
from contracts.common import table
P = "hrosailing.polardiagram."
TABLE, CLOUD, CURVE, SAILS = (P + m for m in ("_polardiagramtable.PolarDiagramTable", "_polardiagrampointcloud.PolarDiagramPointcloud",
                                              "_polardiagramcurve.PolarDiagramCurve", "_polardiagrammultisails.PolarDiagramMultiSails"))
READ = [P + "_reading.from_csv", P + "_reading._read_intern_format"]


def cell(x):
    return x  # a string stays what it is; replaced by the text of the number otherwise


class Paper:
    "what has been written, as blocks of rows of one delimiter"

    def __init__(self):
        self.blocks = []


class Handle:
    def __init__(self, paper, name):
        self.paper, self.name, self.at = paper, name, 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def take(self):
        self.at += 1
        return self.paper.blocks[self.at - 1][1]

    def readline(self):
        return self.take()[0][0] + "\r\n"


class Writer:
    def __init__(self, handle, delimiter):
        self.handle, self.delimiter = handle, delimiter

    def writerow(self, row):
        self.handle.paper.blocks.append((self.delimiter, [[cell(x) for x in row]]))

    def writerows(self, rows):
        self.handle.paper.blocks.append((self.delimiter, [[cell(x) for x in row] for row in rows]))


class Reader:
    def __init__(self, handle, delimiter):
        self.handle, self.delimiter = handle, delimiter

    def __iter__(self):
        rows = []
        while self.handle.at < len(self.handle.paper.blocks):
            rows = rows + self.rows()
        return rows

    def rows(self):
        if self.handle.paper.blocks[self.handle.at][0] != self.delimiter:
            raise AssertionError("another delimiter")
        return self.handle.take()

    def __next__(self):
        if self.handle.at == len(self.handle.paper.blocks):
            raise StopIteration
        return self.rows()[0]


def written(x):
    if isinstance(x, Choice):
        return Choice([(k, written(v)) for k, v in x.alts])
    return x if isinstance(x, (str, NumText)) else NumText(x)


def read(x, nan):
    "the number that a text stands for"
    if isinstance(x, Choice):
        r = read(x.alts[-1][1], nan)
        for k, v in reversed(x.alts[:-1]):
            r = z3.If(zb(k), read(v, nan), r)
        return r
    return zr(x.t) if isinstance(x, NumText) else nan


def files(c):
    """the file system and the csv module by their contracts: reading gives the rows that were written, and the text of a number reads back
    as that number"""
    papers = {}

    def open_(path, mode="r", *a, **k):
        if "w" in mode:
            papers[path] = c.returns(c.new("contracts.c08.Paper"))
        elif path not in papers:
            S.oblige(f"file {path} has been written", zb(False))
            c.stop()
        return c.returns(c.new("contracts.c08.Handle", papers[path], path))

    what = "csv.writer and csv.reader: the rows written with a delimiter are read again with the same delimiter"
    c.external(open, "files keep what is written to them", open_)
    c.external(csv.writer, what, lambda f, delimiter=",", **k: c.returns(c.new("contracts.c08.Writer", f, delimiter)))
    c.external(csv.reader, what, lambda f, delimiter=",", **k: c.returns(c.new("contracts.c08.Reader", f, delimiter)))
    c.external(cell, "the text of a finite float reads back as that float (repr, str, literal_eval and genfromtxt)",
               written)


    def genfromtxt(f, *a, **k):
        blocks = c.attr(c.attr(f, "paper"), "blocks").items
        rows = [b[1] for b in blocks]
        S.oblige("separated by blanks", zb(all(b[0] in ("\t", " ") for b in blocks)))
        S.oblige("one row of names, one block of rows", zb(len(rows) == 2))
        head = rows[0].get(0)
        first = rows[1].get(z3.IntVal(0))
        S.oblige("rows of equal length", zi(head.length()) == zi(first.length()))

        def at(i, j):
            x = rows[1].get(simp(zi(i) - 1)).get(j)
            return z3.If(zi(i) == 0, read(head.get(j), nan(zi(j))), read(x, nan(zi(j))))

        nan = S.fresh_fun("nan", 1, REAL)
        return c.arr_of((simp(1 + zi(rows[1].length())), head.length()), lambda idx: at(*idx))

    c.external(np.genfromtxt, "numpy.genfromtxt gives the numbers of the rows", genfromtxt)
    return papers


def capture(c, cls):
    "what the constructor is given, as a list of (args, kwargs)"
    made = []
    c.by_contract(cls + ".__init__", lambda self, *a, **k: made.append((a, k)))
    return made


def numbers(c, what, v, n, f):
    "v is a list or vector of n numbers f"
    N, fn, items = c.it.seq(v)
    c.ensure(what + ": how many", zi(N) == n)
    k = c.skolem(n)
    c.ensure(what, zr(fn(k)) == f(k))


def rows(c, what, v, n, m, f):
    N, fn, items = c.it.seq(v)
    c.ensure(what + ": rows", zi(N) == n)
    i, j = c.skolem(n), c.skolem(m)
    N, g, items = c.it.seq(fn(i))
    c.ensure(what + ": length of a row", zi(N) == m)
    c.ensure(what, zr(g(j)) == f(i, j))


def table_in(c, fmt):
    files(c)
    t, m, n, f, g, h = table(c)
    made = capture(c, TABLE)
    c.returns(c.method(t, "to_csv", "a.csv", fmt))
    r = c.returns(c.call(P + "_reading.from_csv", "a.csv", fmt))
    c.ensure("a table", zb(r.cls.__name__ == "PolarDiagramTable" and len(made) == 1))
    (ws, wa, bsp), kw = made[0]
    numbers(c, "wind speeds", ws, m, lambda k: f((k,)))
    numbers(c, "wind angles", wa, n, lambda k: g((k,)))
    rows(c, "boat speeds", bsp, n, m, lambda i, j: h((i, j)))


@contract("C08", [TABLE + ".to_csv", TABLE + "._write_hro_format", TABLE + ".__from_csv__"] + READ)
def table_hro(c):
    table_in(c, "hro")


@contract("C08", [TABLE + ".to_csv", TABLE + "._write_orc_format", TABLE + "._write_rows", P + "_reading._read_orc_format",
                  P + "_reading._read_extern_format", P + "_reading._read_wind_speeds", P + "_reading._read_wind_angles_and_boat_speeds"])
def table_orc(c):
    table_in(c, "orc")


@contract("C08", [TABLE + ".to_csv", TABLE + "._write_opencpn_format", P + "_reading._read_opencpn_format"])
def table_opencpn(c):
    table_in(c, "opencpn")


@contract("C08", [TABLE + ".to_csv", TABLE + "._write_array_format", P + "_reading._read_from_array"])
def table_array(c):
    table_in(c, "array")


@contract("C08", [CLOUD + ".to_csv", CLOUD + ".__from_csv__"] + READ)
def cloud(c):
    "all points in their order, also if there are none"
    files(c)
    n = c.int("n", lo=0)
    a = c.arr("points", (n, 3))
    f = a.snap()
    made = capture(c, CLOUD)
    c.returns(c.method(c.obj(CLOUD, _points=a), "to_csv", "a.csv"))
    r = c.returns(c.call(P + "_reading.from_csv", "a.csv"))
    c.ensure("a point cloud", zb(r.cls.__name__ == "PolarDiagramPointcloud" and len(made) == 1))
    (pts,), kw = made[0]
    c.shape_is("points", pts, (n, 3))
    i, j = c.skolem(n), c.skolem(3)
    c.ensure("points", pts.get(i, j) == f((i, j)))


@contract("C08", [CURVE + ".to_csv", CURVE + ".__from_csv__"] + READ)
def curve(c):
    "the model function, every parameter and the unit of the angles"
    from hrosailing.polardiagram._polardiagramcurve import MODEL_FUNCTIONS
    files(c)
    for name in sorted(MODEL_FUNCTIONS):
        for radians in (True, False):
            n = c.int(f"n_{name}", lo=0)
            p = c.fun("p", INT, REAL)
            made = capture(c, CURVE)
            f = c.it.lift(MODEL_FUNCTIONS[name])
            c.returns(c.method(c.obj(CURVE, _f=f, _params=c.list_of(n, lambda k: p(zi(k))), _rad=radians), "to_csv", "a.csv"))
            r = c.returns(c.call(P + "_reading.from_csv", "a.csv"))
            c.ensure("a curve", zb(r.cls.__name__ == "PolarDiagramCurve" and len(made) == 1))
            args, kw = made[0]
            c.ensure("function", zb(args[0] is f))
            c.ensure("radians", zb(set(kw) == {"radians"} and kw["radians"] is radians))
            given = args[1] if len(args) == 2 and isinstance(args[1], StarSeq) else None
            numbers(c, "parameters", Seq(n=given.n, fn=given.fn) if given else Seq(items=list(args[1:])), n, lambda k: p(k))


@contract("C08", [SAILS + ".to_csv", SAILS + ".__from_csv__", SAILS + "._get_sub_csv_path", SAILS + ".__init__"] + READ)
def sails(c):
    """the names of the sails and every table under its sail, in files of their own next to the given path (one to four sails; the tables by
    the contract table_hro)"""
    for path in ("a.csv", "v1.2/run.3/polar.csv", "some/where/name"):
        for names in (["jib"], ["Sail 0", "spi:2"], ["a", "", "b,c"], ["1", "2", "3", "4"]):
            files(c)
            kept = {}
            tables = [table(c, f"t{i}")[0] for i in range(len(names))]

            def to_csv(self, csv_path, fmt="hro"):
                S.oblige("a file of its own", zb(csv_path not in kept and csv_path != path))
                S.oblige("in the same folder", zb(csv_path.rpartition("/")[0] == path.rpartition("/")[0]))
                S.oblige("in the format that is read", zb(fmt == "hro"))
                kept[csv_path] = self
                c.call("contracts.c08.first_row", c.it.call(c.it.lift(open), [csv_path, "w"]), "PolarDiagramTable")

            def from_csv(cls, file=None):
                name = c.attr(cls if file is None else file, "name")
                S.oblige("a file of a table", zb(name in kept))
                return kept[name] if name in kept else c.stop()

            c.by_contract(TABLE + ".to_csv", to_csv)
            c.by_contract(TABLE + ".__from_csv__", from_csv)
            pd = c.returns(c.new(SAILS, c.plist(tables), c.plist(names)))
            c.returns(c.method(pd, "to_csv", path))
            r = c.returns(c.call(P + "_reading.from_csv", path))
            c.ensure("diagrams of several sails", zb(r.cls.__name__ == "PolarDiagramMultiSails"))
            back, got = c.attr(r, "diagrams").items, c.attr(r, "sails").items
            c.ensure("every table in its place", zb(len(back) == len(tables) and all(x is y for x, y in zip(back, tables))))
            c.ensure("names", zb(list(got) == names))


def first_row(handle, name):
    Writer(handle, ",").writerow([name])
