from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import Choice, PDict, S
from pyvc.z3load import z3
from contracts.common import column, entry, is_none, selected, type_by_contract, val
D = "hrosailing.core.data.Data"
H = "hrosailing.processing.datahandler."
F = [D + ".update", D + ".hrosailing_standard_format"]


def table(c, d, n, want):
    "d has the columns want = {name: value of entry i}, all given"
    cols = c.attr(d, "_data").d
    c.ensure("columns", zb(set(cols) == set(want)))
    c.ensure("rows", zi(c.attr(d, "n_rows")) == n)
    i = c.skolem(n)
    for k, f in want.items():
        c.ensure(f"length of {k}", zi(cols[k].length()) == n)
        entry(c, f"entries of {k}", cols[k].get(i), zb(False), f(i))


@contract("C31", [H + "ArrayHandler.handle"] + F)
def array(c):
    type_by_contract(c)
    n = c.int("n", lo=1)
    a = c.arr("a", (n, 4))
    at = a.snap()
    h = c.returns(c.new(H + "ArrayHandler"))
    d = c.returns(c.method(h, "handle", (a, ("wind speed", "foo", "Lat", "bsp"))))
    table(c, d, n, {k: (lambda i, j=j: zr(at((i, j)))) for j, k in enumerate(("TWS", "foo", "lat", "BSP"))})
    s = c.returns(c.method(h, "get_latest_statistics")).d
    c.ensure("statistics", z3.And(zi(s["n_rows"]) == n, zi(s["n_cols"]) == 4))
    c.unchanged("array", a, at)


@contract("C31", [H + "ArrayHandler.handle"])
def wrong_number_of_names(c):
    n = c.int("n", lo=0)
    h = c.returns(c.new(H + "ArrayHandler"))
    c.raises(c.method(h, "handle", (c.arr("a", (n, 3)), ("TWS", "BSP"))), ValueError)
    c.raises(c.method(h, "handle", (c.arr("b", (n, 1)), ("TWS", "BSP"))), ValueError)


@contract("C31", [H + "NMEAFileHandler._from_nmea_format"])
def position(c):
    "ddmm.mmm: degrees and minutes"
    h = c.returns(c.new(H + "NMEAFileHandler"))
    deg, m = c.int("degrees", lo=0), c.real("minutes")
    c.require(z3.And(m >= 0, m < 60))
    r = c.returns(c.method(h, "_from_nmea_format", 100 * z3.ToReal(deg) + m))
    c.ensure("degrees and minutes", zr(r) == z3.ToReal(deg) + m / 60)


@contract("C31", [H + "NMEAFileHandler._postprocess", H + "NMEAFileHandler._from_nmea_format"])
def sentence(c):
    "wind of either reference, positions of either hemisphere"
    for ref, p in (("R", "A"), ("T", "T")):
        for ns, a in (("N", 1), ("S", -1)):
            for ew, b in (("E", 1), ("W", -1)):
                h = c.returns(c.new(H + "NMEAFileHandler"))
                wa, ws, x = c.real("angle"), c.real("speed"), c.real("other")
                deg, m, deg2, m2 = c.int("d", lo=0), c.real("m"), c.int("d2", lo=0), c.real("m2")
                c.require(z3.And(m >= 0, m < 60, m2 >= 0, m2 < 60))
                r = c.returns(c.method(h, "_postprocess", PDict({
                    "Wind angle": wa, "Reference": ref, "Wind speed": ws, "other": x, "Latitude": 100 * z3.ToReal(deg) + m, "Latitude Direction": ns,
                    "Longitude": 100 * z3.ToReal(deg2) + m2, "Longitude Direction": ew}))).d
                c.ensure("fields", zb(set(r) == {p + "WA", p + "WS", "other", "lat", "lon", "Latitude Direction", "Longitude Direction"}))
                c.ensure("wind angle", zr(r[p + "WA"]) == wa)
                c.ensure("wind speed", zr(r[p + "WS"]) == ws)
                c.ensure("others", zr(r["other"]) == x)
                c.ensure("latitude", zr(r["lat"]) == a * (z3.ToReal(deg) + m / 60))
                c.ensure("longitude", zr(r["lon"]) == b * (z3.ToReal(deg2) + m2 / 60))


class Frame:
    "a data frame of three columns"

    def __init__(self, cols):
        self.cols = cols

    def to_dict(self, orient="dict"):
        return {k: list(v) for k, v in self.cols.items()} if orient == "list" else None


class Pandas:
    def __init__(self, frame):
        self.frame, self.DataFrame = frame, Frame

    def read_csv(self, path):
        return self.frame


@contract("C31", [H + "CsvFileHandler.handle", H + "CsvFileHandler._save_eval"] + F)
def csv_file(c):
    "the columns that pandas reads from the file (numbers)"
    type_by_contract(c)
    n = c.int("n", lo=1)
    f = {k: c.fun("f" + str(i), INT, REAL) for i, k in enumerate(("wind speed", "foo", "Lat"))}
    cols = PDict({k: c.list_of(n, lambda i, g=g: g(zi(i))) for k, g in f.items()})
    frame = c.returns(c.new("contracts.c31.Frame", cols))
    h = c.returns(c.new(H + "CsvFileHandler"))
    c.it.setattr(h, "pand", True)
    c.it.setattr(h, "pd", c.returns(c.new("contracts.c31.Pandas", frame)))
    d = c.returns(c.method(h, "handle", "data.csv"))
    table(c, d, n, {"TWS": f["wind speed"], "foo": f["foo"], "lat": f["Lat"]})


@contract("C31", [H + "ArrayHandler.handle"] + F)
def data_frame(c):
    type_by_contract(c)
    n = c.int("n", lo=1)
    f = {k: c.fun("f" + str(i), INT, REAL) for i, k in enumerate(("wind speed", "foo", "Lat"))}
    cols = PDict({k: c.list_of(n, lambda i, g=g: g(zi(i))) for k, g in f.items()})
    frame = c.returns(c.new("contracts.c31.Frame", cols))
    h = c.returns(c.new(H + "ArrayHandler"))
    c.it.setattr(h, "pand", True)
    c.it.setattr(h, "pd", c.returns(c.new("contracts.c31.Pandas", frame)))
    d = c.returns(c.method(h, "handle", frame))
    table(c, d, n, {"TWS": f["wind speed"], "foo": f["foo"], "lat": f["Lat"]})


class File:
    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self.lines

    def __exit__(self, *args):
        return False


class Wind:
    "a wind sentence"

    def __init__(self, reference, angle, speed, row):
        self.fields = (("Wind angle", "wind_angle", float), ("Reference", "reference"), ("Wind speed", "wind_speed", float), ("row", "row", float))
        self.reference, self.wind_angle, self.wind_speed, self.row = reference, angle, speed, row


def winds(c, ref, wanted):
    "the table for a log of wind measurements of one reference; line number t is kept as 'row'"
    import pynmea2
    type_by_contract(c)
    n = c.int("n", lo=0)
    angle, speed = c.fun("angle", INT, REAL), c.fun("speed", INT, REAL)
    names = dict(zip((ref.replace("R", "A") + "WA", ref.replace("R", "A") + "WS", "row"), (angle, speed, z3.ToReal)))
    lines = c.list_of(n, lambda i: z3.ToReal(zi(i)))
    c.external(open, "lines of the file", lambda path, *a, **k: c.returns(c.new("contracts.c31.File", lines)))

    def parse(line):
        t = z3.ToInt(zr(line))
        return c.returns(c.new("contracts.c31.Wind", ref, angle(t), speed(t), zr(line)))

    c.external(pynmea2.parse, "parse", parse)

    def make(v, i):
        c.it.setattr(v.comp_data, "_max_len", i)
        if S.branch(zi(i) == 0):
            d, ty = {}, {}
        else:
            d = {k: c.list_of(i, lambda q, g=S.fresh_fun("entry", 1, REAL): g(zi(q))) for k in names}
            ty = {k: float for k in names}
        c.it.setattr(v.comp_data, "_data", PDict(d))
        c.it.setattr(v.comp_data, "_types", PDict(ty))

    def inv(v, i):
        d = c.attr(v.comp_data, "_data").d
        line = c.it.seq(v.nmea_sentences)[1]
        yield "rows", zi(c.attr(v.comp_data, "n_rows")) == zi(i)
        yield "columns", zb(set(d) == set(names)) if d else zi(i) == 0
        for k, f in names.items():
            if d:
                yield f"length of {k}", zi(d[k].length()) == zi(i)
                yield f"entries of {k}", i, lambda q, k=k, f=f: z3.And(z3.Not(is_none(d[k].get(q))), val(d[k].get(q)) == f(z3.ToInt(zr(line(q)))))

    c.invariant(H + "NMEAFileHandler.handle", 0, make, inv)
    h = c.returns(c.new(H + "NMEAFileHandler"))
    if wanted is not None:
        c.it.setattr(h, "_sentence_filter", c.opaque_fn("wanted", lambda it, a, k: wanted(z3.ToInt(zr(a[0])))))
    return n, names, c.returns(c.method(h, "handle", "log.vdr"))


@contract("C31", [H + "NMEAFileHandler.handle", H + "NMEAFileHandler._postprocess"] + F)
def log_of_winds(c):
    "every sentence of a log of wind measurements (of the same reference) becomes a row"
    for ref in "RT":
        n, names, d = winds(c, ref, None)
        if c.branch(n > 0):
            table(c, d, n, names)
        else:
            c.ensure("no row", zi(c.attr(d, "n_rows")) == 0)


@contract("C31", [H + "NMEAFileHandler.handle", H + "NMEAFileHandler._postprocess"] + F)
def log_of_wanted_sentences(c):
    "the rows are the wanted sentences, all of them, in their order"
    f = c.fun("wanted", INT, BOOL)
    n, names, d = winds(c, "T", lambda t: f(t))
    cols = c.attr(d, "_data").d
    if not cols:
        c.ensure("no row", zi(c.attr(d, "n_rows")) == 0)
        x = c.skolem(n)
        c.ensure("nothing wanted", z3.Not(f(x)))
        return
    row = cols.pop("row")
    del names["row"]
    cols["row"] = row
    selected(c, d, n, {k: g for k, g in names.items()}, {k: (lambda t: zb(False)) for k in names}, f)
