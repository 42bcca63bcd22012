"""tables with all kinds of column names (synonyms in any spelling, plurals, separators, clashes, unknown and empty names) and entries (numbers
of several types, numbers as text, text, dates, times, missing) are put into the standard format"""
from datetime import date, datetime, time
from decimal import Decimal

from oracles.util import *
from hrosailing.core.constants import KEYSYNONYMS
from hrosailing.core.data import Data

SEPS = ",;_-+&\n\t"
OTHER = ["foo", "Bar", "x s", "", "s", "S", "wind  speed", "rudder angle", "TWS(Control value 1)", "TWS(Control value 2)", "BSP(Control value 3)", "HDT", "speeds"]
STANDARD = sorted(set(KEYSYNONYMS.values()))


def spelling(rng, key):
    k = "".join(rng.choice((ch, ch.upper())) for ch in key)
    k = "".join(rng.choice(SEPS) if ch == " " and rng.random() < 0.6 else ch for ch in k)
    return k + rng.choice(("", "", "s", " ", "S"))


def cases(rng, tier):
    syn = sorted(KEYSYNONYMS)
    groups = {}
    for k in syn:
        groups.setdefault(KEYSYNONYMS[k], []).append(k)
    for j in range(2000 if tier == "quick" else 20000):
        keys = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.35:
                keys.append(spelling(rng, rng.choice(syn)))
            elif r < 0.6:
                keys.append(spelling(rng, rng.choice(groups[rng.choice(("TWS", "BSP", "datetime", "humidity"))])))
            elif r < 0.8:
                keys.append(rng.choice(STANDARD))
            else:
                keys.append(rng.choice(OTHER))
        if rng.random() < 0.4:
            keys += pick(rng, ["date", "time"], ["Datestamp", "Timestamp"], ["time", "Date", "datetime"], ["time stamp", "date_stamp", "Date Time"], ["time"], ["date"])
        rng.shuffle(keys)
        keys = list(dict.fromkeys(keys))
        n = rng.choice((0, 1, 2, 3, 5, 40 if j % 50 == 0 else 4))
        cols = {}
        for k in keys:
            s = std(k)
            kind = s if s in ("date", "time", "datetime") else pick(rng, "float", "int", "npint", "npfloat", "float32", "decimal", "numtext", "text", "mixtext", "none")
            cols[k] = [kind, [None if rng.random() < 0.2 else rng.randrange(1, 28) for _ in range(n)]]
        yield {"cols": cols}


def std(key):
    k = key.lower()
    for s in SEPS:
        k = k.replace(s, " ")
    k = k.strip()
    for c in (k, k[:-1] if k.endswith("s") else k):
        if c in KEYSYNONYMS:
            return KEYSYNONYMS[c]
    return key


MAKE = {"float": lambda x: x + 0.5, "int": lambda x: x, "npint": np.int64, "npfloat": np.float64, "float32": np.float32, "decimal": Decimal,
        "numtext": str, "text": lambda x: f"t{x}", "mixtext": lambda x: f"t{x}" if x > 20 else str(x), "none": lambda x: None,
        "date": lambda x: date(2020, 1, x), "time": lambda x: time(x % 24, x), "datetime": lambda x: datetime(2021, 2, x)}


def run(case):
    cols = {k: [None if v is None else MAKE[kind](v) for v in vs] for k, (kind, vs) in case["cols"].items()}
    d = Data.from_dict({k: list(v) for k, v in cols.items()})
    n = d.n_rows
    ok, e = attempt(d.hrosailing_standard_format)
    if not ok:
        return bad(f"{cols} raises {type(e).__name__}: {e}")
    # reference: names
    ref = dict(cols)
    for k in cols:
        s = std(k)
        if s == k:
            continue
        new, i = s, 0
        while new in ref:
            i += 1
            new = f"{s}(Control value {i})"
        ref[new] = ref.pop(k)
    if "date" in ref and "time" in ref and "datetime" not in ref:
        ref["datetime"] = [None if a is None or b is None else datetime.combine(a, b) for a, b in zip(ref.pop("date"), ref.pop("time"))]
    for k, v in ref.items():
        if any(isinstance(x, (date, time)) for x in v):
            continue
        try:
            ref[k] = [None if x is None else float(x) for x in v]
        except ValueError:
            pass
    if sorted(d.keys()) != sorted(ref) or d.n_rows != n:
        return bad(f"{cols} becomes columns {d.keys()} with {d.n_rows} rows instead of {list(ref)} with {n}")
    for k, v in ref.items():
        if list(d[k]) != v:
            return bad(f"{cols}: column {k} becomes {d[k]} instead of {v}")
        t = next((type(x) for x in v if x is not None), None)
        if t is not None and (d.type(k) is not t or any(x is not None and type(x) is not t for x in d[k])):
            return bad(f"{cols}: column {k} has type {d.type(k)} and entries {d[k]} instead of {t}")
    return None
