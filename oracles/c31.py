"""arrays, data frames, csv files and NMEA logs with known contents are read; the tables are compared with the contents entry by entry
(log: a direct implementation of the documented rule for combining sentences)"""
import os
import tempfile
from datetime import date, datetime, time

from oracles.util import *
from oracles.c11 import std
import pandas
import pynmea2
import hrosailing.processing.datahandler as dh

NAMES = ["wind speed", "Wind_Angle", "bsp", "latitude", "lon", "foo", "my value", "TWS ", "AWA", "humidity", "Boat+Speed", "bar", "s"]
FORMATS = ["%Y-%m-%d %H:%M:%S.%f", "%d.%m.%Y %H:%M:%S", "%Y-%m-%dT%H:%M:%S"]


def clock(rng):
    return f"{rng.randrange(24):02}{rng.randrange(60):02}{rng.randrange(60):02}" + pick(rng, "", ".5", ".00", ".250", ".7")


def sentence(rng):
    kind = pick(rng, "MWV", "MWV", "GLL", "RMC", "HDT", "VHW")
    pos = [f"{rng.randrange(90):02}{rng.randrange(60):02}.{rng.randrange(1000):03}", pick(rng, "N", "S"), f"{rng.randrange(180):03}{rng.randrange(60):02}.{rng.randrange(1000):03}", pick(rng, "E", "W")]
    tenth = lambda hi: str(rng.randrange(10 * hi) / 10)
    if kind == "MWV":
        f = [str(rng.randrange(360)), pick(rng, "R", "T"), tenth(30), "N", "A"]
    elif kind == "GLL":
        f = pos + [pick(rng, clock(rng), clock(rng)[:4] + pick(rng, "60", "75.5", "99.25")), "A", "A"]
    elif kind == "RMC":
        f = [clock(rng), "A"] + pos + [tenth(20), tenth(360), f"{rng.randrange(1, 28):02}{rng.randrange(1, 13):02}{rng.randrange(10, 30)}", "", ""]
    elif kind == "HDT":
        f = [tenth(360), "T"]
    else:
        f = [tenth(360), "T", tenth(360), "M", tenth(20), "N", tenth(20), "K"]
    body = ",".join([pick(rng, "II", "GP") + kind] + f)
    c = 0
    for ch in body:
        c ^= ord(ch)
    return f"${body}*{c:02X}\n"


def cases(rng, tier):
    for _ in range(600 if tier == "quick" else 6000):
        kind = pick(rng, "array", "frame", "csv", "csv", "nmea", "nmea", "nmea")
        if kind == "nmea":
            opt = {}
            if rng.random() < 0.5:
                opt[pick(rng, "wanted_sentences", "unwanted_sentences")] = rng.sample(["MWV", "GLL", "RMC", "HDT", "VHW"], rng.randint(1, 3))
            if rng.random() < 0.5:
                opt["wanted_attributes"] = rng.sample(["TWS", "AWA", "lat", "lon", "SOG", "date", "time", "Heading", "True Course", "Status", "Water speed knots"], rng.randint(1, 4))
            elif rng.random() < 0.3:
                opt["unwanted_attributes"] = rng.sample(["Status", "Reference", "Timestamp", "Wind speed", "True Course", "Latitude", "Mode Indicator"], rng.randint(1, 3))
            if rng.random() < 0.3:
                opt["post_filter_types"] = False
            yield {"kind": kind, "lines": [sentence(rng) for _ in range(rng.choice((0, 1, 2, 5, 12)))], "opt": opt}
            continue
        names = rng.sample(NAMES, rng.randint(1, 5))
        if len({std(k) for k in names}) < len(names):
            names = names[:1]
        n = rng.choice((1, 1, 2, 3, 10))
        cols = [[(rng.randrange(-5, 40) if rng.random() < 0.5 else round(rng.uniform(-5, 40), 3)) for _ in range(n)] for _ in names]
        times = None
        if rng.random() < 0.5:
            times = [[2000 + rng.randrange(30), rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(1000) * 1000] for _ in range(n)]
        yield {"kind": kind, "names": names, "cols": cols, "times": times, "fmt": rng.randrange(3), "where": rng.randrange(len(names) + 1), "tuple": rng.random() < 0.5}


def position(s):
    d, m = s[:-6], s[-6:]
    return int(d) + float(m) / 60


FIELDS = {k: tuple(f[0] for f in getattr(pynmea2, k).fields) for k in ("MWV", "GLL", "RMC", "HDT", "VHW")}
NMEA_OF = {"TWS": ("Wind speed", "Reference"), "TWA": ("Wind angle", "Reference"), "AWS": ("Wind speed", "Reference"), "AWA": ("Wind angle", "Reference"),
           "lat": ("Latitude", "Latitude Direction"), "lon": ("Longitude", "Longitude Direction"), "SOG": ("Speed Over Ground",), "date": ("Datestamp",), "time": ("Timestamp",)}


def record(line, opt):
    "what a sentence says, under standard names; positions and winds as numbers"
    parts = line[1:].split("*")[0].split(",")
    kind = parts[0][2:]
    vals = dict(zip(FIELDS[kind], parts[1:] + [""] * 20))
    if opt.get("wanted_attributes") is not None:
        keep = [a for w in opt["wanted_attributes"] for a in NMEA_OF.get(w, (w,))]
        r = {k: v for k, v in vals.items() if k in keep}
    else:
        r = {k: v for k, v in vals.items() if k not in (opt.get("unwanted_attributes") or ())}
    if all(k in r for k in ("Wind angle", "Wind speed", "Reference")):
        p = {"R": "A", "T": "T"}[r.pop("Reference")]
        r[p + "WA"], r[p + "WS"] = float(r.pop("Wind angle")), float(r.pop("Wind speed"))
    for k, dirn, neg, new in (("Latitude", "Latitude Direction", "S", "lat"), ("Longitude", "Longitude Direction", "W", "lon")):
        if k in r:
            r[new] = position(r.pop(k)) * (-1 if r.get(dirn) == neg else 1)
    if "Timestamp" in r:
        t = r["Timestamp"]
        sec = float(t[4:])
        total = int(t[:2]) * 3600 + int(t[2:4]) * 60 + sec
        r["Timestamp"] = ("t", total)
    if "Datestamp" in r:
        t = r["Datestamp"]
        r["Datestamp"] = date(2000 + int(t[4:]), int(t[2:4]), int(t[:2]))
    return r


def same(got, want):
    if want is None or got is None:
        return got is None and want is None
    if isinstance(want, tuple):
        return isinstance(got, time) and abs(got.hour * 3600 + got.minute * 60 + got.second + got.microsecond / 1e6 - want[1]) < 2e-6
    if isinstance(want, datetime):
        return got == want
    if isinstance(want, date):
        return got == want
    if isinstance(want, str):
        try:
            return abs(float(got) - float(want)) < 1e-9
        except (TypeError, ValueError):
            return got == want
    return isinstance(got, float) and abs(got - want) < 1e-9


def table(case):
    "reference table for a log: sentences that add to the last row where it has no entry are joined with it, others start a row"
    opt = case["opt"]
    rows, keys = [], []
    for line in case["lines"]:
        if opt.get("wanted_sentences") is not None and not any(s in line for s in opt["wanted_sentences"]):
            continue
        if opt.get("unwanted_sentences") is not None and any(s in line for s in opt["unwanted_sentences"]):
            continue
        r = record(line, opt)
        if not r:
            continue
        keys += [k for k in r if k not in keys]
        if rows and all(rows[-1].get(k) is None for k in r):
            rows[-1].update(r)
        else:
            rows.append(dict(r))
    return keys, rows


def run(case):
    with tempfile.TemporaryDirectory() as tmp:
        if case["kind"] == "nmea":
            return nmea(case, os.path.join(tmp, "log.vdr"))
        return columns(case, os.path.join(tmp, "data.csv"))


def nmea(case, path):
    with open(path, "w", encoding="utf-8") as f:
        f.writelines(case["lines"])
    opt = dict(case["opt"])
    ok, d = attempt(lambda: dh.NMEAFileHandler(**opt).handle(path))
    text = f"{''.join(case['lines'])} with {case['opt']}"
    if any("Timestamp" in (r := record(l, case["opt"])) and r["Timestamp"][1] >= 86400 for l in case["lines"]):
        return None
    if not ok:
        return bad(f"{text} raised {d!r}")
    keys, rows = table(case)
    names = {k: k for k in keys}
    for k in keys:
        s, i = std(k), 0
        new = s
        while new != k and new in names.values():
            i += 1
            new = f"{s}(Control value {i})"
        names[k] = new
    want = {names[k]: [r.get(k) for r in rows] for k in keys}
    when = None
    if "time" in want and "date" in want:
        when = list(zip(want.pop("date"), want.pop("time")))
    text_cols = {k for k, v in want.items() if any(isinstance(x, str) for x in v) and not all(x is None or number(x) for x in v)}
    if opt.get("post_filter_types") is not False:
        want = {k: v for k, v in want.items() if k not in text_cols}
        if when is not None and all(a is None or b is None for a, b in when):
            when = None
    got = set(d.keys()) - ({"datetime"} if when is not None else set())
    if got != set(want):
        return bad(f"columns {sorted(d.keys())} instead of {sorted(want)} for {text}")
    for k in want:
        if len(d[k]) != len(rows) or not all(same(a, b) for a, b in zip(d[k], want[k])):
            return bad(f"column {k} is {d[k]} instead of {want[k]} for {text}")
    if when is not None:
        for got, (a, b) in zip(d["datetime"], when):
            if (got is None) != (a is None or b is None):
                return bad(f"date and time {d['datetime']} for {text}")
            if got is not None and (got.date() != a or not same(got.time(), b)):
                return bad(f"date and time {d['datetime']} instead of {when} for {text}")
    if d.n_rows != len(rows):
        return bad(f"{d.n_rows} rows instead of {len(rows)} for {text}")


def number(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def columns(case, path):
    names, cols = list(case["names"]), [list(c) for c in case["cols"]]
    n = len(cols[0])
    times = [datetime(*t) for t in case["times"]] if case["times"] else None
    fmt = FORMATS[case["fmt"]]
    if times and case["fmt"]:
        times = [t.replace(microsecond=0) for t in times]
    before = [list(c) for c in cols]
    if case["kind"] == "array":
        times = None
        arr = [list(r) for r in zip(*cols)]
        arr = arr if case["tuple"] else np.array(arr)
        handler, data = dh.ArrayHandler(), (arr, tuple(names) if case["tuple"] else names)
        ok, e = attempt(handler.handle, (arr, names + ["more"]))
        if ok or not isinstance(e, ValueError):
            return bad(f"too many names: {e!r}")
    else:
        table = dict(zip(names, cols))
        if times:
            items = list(table.items())
            items.insert(case["where"], ("datetime", times if case["kind"] == "frame" else [t.strftime(fmt) for t in times]))
            table = dict(items)
        frame = pandas.DataFrame(table)
        if case["kind"] == "frame":
            handler, data = dh.ArrayHandler(), frame
        else:
            frame.to_csv(path, index=False)
            handler, data = dh.CsvFileHandler(**({"date_format": fmt} if case["fmt"] else {})), path
    ok, d = attempt(handler.handle, data)
    if not ok:
        return bad(f"{case} raised {d!r}")
    want = {std(k): c for k, c in zip(names, before)}
    if times:
        want["datetime"] = times
    if set(d.keys()) != set(want) or d.n_rows != n:
        return bad(f"columns {sorted(d.keys())} of {d.n_rows} rows for {case}")
    for k, c in want.items():
        if k == "datetime":
            if [pandas.Timestamp(x) for x in d[k]] != [pandas.Timestamp(x) for x in c]:
                return bad(f"{k}: {d[k]} instead of {c}")
        elif len(d[k]) != n or any(type(x) is not float or abs(x - y) > 1e-9 for x, y in zip(d[k], c)):
            return bad(f"{k}: {d[k]} instead of {c} for {case}")
    if handler.get_latest_statistics() != {"n_rows": n, "n_cols": len(want)}:
        return bad(f"statistics {handler.get_latest_statistics()}")
