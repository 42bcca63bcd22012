"""expand() on random tables and arbitrary weather models: rows without weather leave (or stay empty), every other row keeps its entries and gets the
weather of its own time and place; names already in use are marked"""
import datetime as dt

from oracles.util import *
import hrosailing.pipeline.expander as ex
from hrosailing.core.data import Data
from hrosailing.models import WeatherModel

NAMES = {"TWS": "TWS", "wspd": "TWS", "wdir": "WD", "temperature": "temp", "my field": "my field", "BSP": "BSP", "wave height": "wave height", "pres": "air pressure"}


def cases(rng, tier):
    for _ in range(3000 if tier == "quick" else 20000):
        n = rng.choice((1, 1, 2, 3, 5, 9))
        names = rng.sample(["TWS", "wdir", "temperature", "my field", "BSP", "wave height", "pres"], rng.randint(1, 4))
        if "TWS" in names and rng.random() < 0.3:
            names[names.index("TWS")] = "wspd"
        p = rng.choice((0, 0.2, 0.5, 0.8, 1))
        yield {"n": n, "names": names, "fail": [rng.random() < p for _ in range(n)], "mode": pick(rng, "delete", "ignore"),
               "cols": rng.sample(["TWS", "TWA", "BSP", "my field", "temp"], rng.randint(0, 4)), "gaps": rng.random() < 0.3, "seed": rng.randrange(10**6),
               "lazy": rng.random() < 0.1, "int": rng.random() < 0.2, "same": rng.random() < 0.3}


class Model(WeatherModel):
    def __init__(self, names, fail, at, cast):
        self.names, self.fail, self.at, self.cast = names, fail, at, cast

    def get_weather(self, point):
        t, lat, lon = point
        if (t, lat, lon) in self.fail:
            raise ValueError("no weather here")
        return {k: self.weather(k, t, lat, lon) for k in self.names}

    def weather(self, k, t, lat, lon):
        x = (self.names.index(k) + 1) * 1000 + (t - self.at).total_seconds() / 60 + 10 * lat + lon
        return int(x) if self.cast else x


def run(case):
    import random
    rng = random.Random(case["seed"])
    n = case["n"]
    at = dt.datetime(2021, 5, 6, 7, 8)
    step = [rng.randint(0, 500) for _ in range(n)]
    if case["same"]:
        step = [7] * n
    cols = {"datetime": [at + dt.timedelta(minutes=s) for s in step], "lat": [float(rng.randint(-80, 80)) for _ in range(n)],
            "lon": [float(rng.randint(-170, 170)) for _ in range(n)]}
    for k in case["cols"]:
        cols[k] = [None if case["gaps"] and rng.random() < 0.3 else float(i) + (0.5 if k == "BSP" else 0) for i in range(n)]
        if all(v is None for v in cols[k]):
            cols[k][0] = 1.0
    order = list(cols)
    rng.shuffle(order)
    cols = {k: cols[k] for k in order}
    data = Data.from_dict({k: list(v) for k, v in cols.items()})
    places = list(zip(cols["datetime"], cols["lat"], cols["lon"]))
    fail = {p for p, f in zip(places, case["fail"]) if f}
    model = Model(case["names"], fail, at, case["int"])
    if case["lazy"]:
        e = ex.LazyExpander()
        ok, r = attempt(e.expand, data)
        if not ok or r is not data or {k: list(data[k]) for k in data.keys()} != cols:
            return bad(f"LazyExpander changed the data {cols}")
        return None if e.get_latest_statistics() == {"n_rows": n, "n_cols": len(cols)} else bad(f"statistics {e.get_latest_statistics()}")
    e = ex.WeatherExpander(model, exception_handling_mode=case["mode"]) if rng.random() < 0.8 or case["mode"] != "delete" else ex.WeatherExpander(model)
    ok, r = attempt(e.expand, data)
    if not ok:
        return bad(f"expanding {cols} (no weather at {fail}, {case['mode']}) raised {r!r}")
    kept = [i for i in range(n) if places[i] not in fail or case["mode"] == "ignore"]
    want = {k: [v[i] for i in kept] for k, v in cols.items()}
    if any(p not in fail for p in places):
        for k in case["names"]:
            new = NAMES[k] + ("(duplicate)" if NAMES[k] in cols else "")
            want[new] = [None if places[i] in fail else model.weather(k, *places[i]) for i in kept]
    got = {k: list(r[k]) for k in r.keys()}
    if got != want:
        return bad(f"{case['mode']}: {got} instead of {want}")
    if r.n_rows != len(kept) or len(list(r.rows())) != len(kept):
        return bad(f"{r.n_rows} rows instead of {len(kept)}")
    if e.get_latest_statistics() != {"n_rows": len(kept), "n_cols": len(want)}:
        return bad(f"statistics {e.get_latest_statistics()}")
