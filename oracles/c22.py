"""random strictly ascending grids (1..5 values per axis, sometimes 12), whole-number and float data, queries at grid points, on grid lines,
inside cells, at the border and outside; the same after a round trip through a file, for NetCDF files (with a stand-in for the netCDF4 module: axes in
ascending and descending order, dimensions in any order) and fetched from meteostat (with a stand-in for the module); combinations of several models"""
import datetime as dt
import os
import tempfile
from oracles.util import *
import types
import pandas
from hrosailing.models import weather_model as W
from hrosailing.models.weather_model import GriddedWeatherModel as G, MultiWeatherModel as M
T0 = dt.datetime(2020, 2, 28, 22, 15, 30)


def axis(rng, n, lo, hi, ints):
    return sorted(rng.sample(range(lo, hi), n)) if ints else sorted({round(rng.uniform(lo, hi), 3) for _ in range(n)})


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        k = 12 if rng.random() < 0.02 else 5
        g = [axis(rng, rng.randint(1, k), 0, 100000, True), axis(rng, rng.randint(1, k), -90, 90, rng.random() < 0.4),
             axis(rng, rng.randint(1, k), -180, 180, rng.random() < 0.4)]
        ints = rng.random() < 0.3
        s = rng.randint(1, 3)
        data = [[[[rng.randint(-20, 20) if ints else num(rng, -20, 20, (0.0,)) for _ in range(s)] for _ in g[2]] for _ in g[1]] for _ in g[0]]
        q = []
        for a in g:
            r = rng.random()
            q.append(rng.choice(a) if r < 0.4 else rng.uniform(a[0], a[-1]) if r < 0.9 else pick(rng, a[0] - 1, a[-1] + 0.5, a[0], a[-1]))
        q[0] = int(q[0])
        yield {"grid": g, "data": data, "q": q, "file": rng.random() < 0.15, "arrays": rng.random() < 0.5,
               "fail": [rng.random() < 0.4 for _ in range(3)], "exc": rng.randrange(4), "attrs": [pick(rng, ["TWS"], ["TWS", "TWA"], ["TWA", "X"]) for _ in range(3)],
               "sens": rng.random() < 0.4, "source": pick(rng, None, None, None, "nc", "meteo"), "seed": rng.randrange(10**6)}


def spec(g, data, q, s):
    """multilinear interpolation by weights"""
    ws = []
    for a, x in zip(g, q):
        if not a[0] <= x <= a[-1]:
            return None
        i = max(k for k, v in enumerate(a) if v <= x)
        if a[i] == x:
            ws.append({i: 1.0})
        else:
            u = (x - a[i]) / (a[i + 1] - a[i])
            ws.append({i: 1 - u, i + 1: u})
    return sum(ws[0][i] * ws[1][j] * ws[2][k] * data[i][j][k][s] for i in ws[0] for j in ws[1] for k in ws[2])


class Fake:
    def __init__(self, res):
        self.res = res

    def get_weather(self, point):
        if isinstance(self.res, Exception):
            raise self.res
        return dict(self.res)


def check(wm, g, data, attrs, q, when):
    p = (T0 + dt.timedelta(seconds=q[0]), q[1], q[2])
    ok, r = attempt(wm.get_weather, p)
    exp = [spec(g, data, q, s) for s in range(len(attrs))]
    if exp[0] is None:
        return bad(f"{when}: query {q} outside {g} gives {r}") if ok or not isinstance(r, ValueError) else None
    if not ok:
        return bad(f"{when}: query {q} in {g}: {type(r).__name__}: {r}")
    if list(r) != attrs:
        return bad(f"{when}: attributes {list(r)} instead of {attrs}")
    for a, e in zip(attrs, exp):
        if abs(float(r[a]) - e) > 1e-8 * (1 + abs(e)):
            return bad(f"{when}: {a} at {q} in {g}: {r[a]} instead of {e}")
    return None


class Variable:
    "like a variable of netCDF4"

    def __init__(self, name, dims, values, units=""):
        self.name, self.dimensions, self.values, self.units = name, dims, np.ma.array(values), units
        self.ndim, self.shape = self.values.ndim, self.values.shape

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.values, dtype)

    def __str__(self):
        return f"<class 'netCDF4._netCDF4.Variable'>\nfloat32 {self.name}({', '.join(self.dimensions)})\n    units: {self.units}\nunlimited dimensions: "


class Dataset:
    def __init__(self, variables):
        self.variables = {v.name: v for v in variables}

    def __getitem__(self, name):
        return self.variables[name]


def run_nc(case):
    import random
    rng = random.Random(case["seed"])
    g, data, q = case["grid"], np.array(case["data"], float), case["q"]
    names = dict(zip(("datetime", "lat", "lon"), rng.choice((("time", "latitude", "longitude"), ("t", "y", "x")))))
    hours = rng.random() < 0.5
    if hours:
        g = [sorted({t // 900 * 900 for t in g[0]})] + g[1:]
        data = data[: len(g[0])]
        plain = [t / 3600 for t in g[0]]
        if all(p == int(p) for p in plain):
            plain = [int(p) for p in plain]
        base = T0
    else:
        base = T0 if rng.random() < 0.5 else T0.replace(second=0)
        plain = [t + int((T0 - base).total_seconds()) for t in g[0]]
    unit = ("hours" if hours else "seconds") + " since " + base.strftime("%Y-%m-%d %H:%M:%S" if base.second or rng.random() < 0.5 else "%Y-%m-%d %H:%M")
    flip = [False] + [rng.random() < 0.5 and len(a) > 1 for a in g[1:]]
    axes = [plain] + [a[::-1] if f else a for a, f in zip(g[1:], flip[1:])]
    dims = list(names.values())
    variables = [Variable(names["datetime"], (dims[0],), axes[0], unit), Variable(names["lat"], (dims[1],), axes[1]), Variable(names["lon"], (dims[2],), axes[2])]
    extra = rng.random() < 0.4
    attrs, exp = [], []
    for s in range(data.shape[3]):
        d = data[..., s]
        kind = rng.choice(("all", "all", "all", "no time", "extra" if extra else "all"))
        use = [0, 1, 2]
        if kind == "no time":
            use = [1, 2]
            d = np.broadcast_to(d[:1], d.shape)
        exp.append(d)
        v = d[0] if kind == "no time" else d
        v = np.flip(v, [k for k, a in enumerate(use) if flip[a]])
        if kind == "extra":
            use, v = use + [3], np.stack([v + 100, v, v - 100], axis=-1)
        order = list(range(len(use)))
        if rng.random() < 0.6:
            rng.shuffle(order)
        attrs.append(f"w{s}")
        variables.append(Variable(f"w{s}", tuple((dims + ["depth"])[use[k]] for k in order), np.transpose(v, order)))
    if rng.random() < 0.3:
        rng.shuffle(variables)
        order = [v.name for v in variables if v.name in attrs]
        exp, attrs = [exp[attrs.index(a)] for a in order], order
    calls = []

    def opened(path):
        calls.append(path)
        return Dataset(variables)

    keep = getattr(W, "nc", None), W.installed_netcdf
    W.nc, W.installed_netcdf = types.SimpleNamespace(Dataset=opened), True
    try:
        aliases = None if dims[0] == "time" and rng.random() < 0.5 else names
        wm = W.NetCDFWeatherModel("some.nc", aliases, {"depth": 1} if extra else None)
        if calls != ["some.nc"]:
            return bad(f"opens {calls}")
        full = np.stack(exp, axis=-1).tolist()
        what = f"NetCDF file with axes {axes}, {unit}, {[(v.name, v.dimensions) for v in variables]}"
        return check(wm, g, full, attrs, q, what) or check(wm, g, full, attrs, [a[0] for a in g], what)
    finally:
        W.nc, W.installed_netcdf = keep


def run_meteo(case):
    import random
    rng = random.Random(case["seed"])
    g, data, q = case["grid"], np.array(case["data"], float), case["q"]
    keys = [["temp"], ["wdir", "wspd"], ["wspd", "temp", "pres"]][data.shape[3] - 1]
    times = [T0 + dt.timedelta(hours=k) for k in range(len(g[0]))]
    span = (T0, times[-1])
    empty = {(j, k) for j in range(len(g[1])) for k in range(len(g[2])) if rng.random() < 0.2} if rng.random() < 0.3 else set()
    if len(empty) == len(g[1]) * len(g[2]):
        empty = set()

    class Hourly:
        def __init__(self, loc, start, end):
            self.at = (loc[0], loc[1])
            if (start, end) != span:
                raise AssertionError(f"times {start} {end}")

        def fetch(self):
            j, k = list(g[1]).index(self.at[0]), list(g[2]).index(self.at[1])
            d = {key: data[:, j, k, s] for s, key in enumerate(keys)}
            d["other"] = np.zeros(len(times))
            f = pandas.DataFrame(dict(sorted(d.items())), index=pandas.DatetimeIndex(times, name="time"))
            return f.iloc[:0] if (j, k) in empty else f

    keep = getattr(W, "meteostat", None), W.installed_meteostat
    W.meteostat, W.installed_meteostat = types.SimpleNamespace(Point=lambda lat, lon, alt: (lat, lon, alt), Hourly=Hourly), True
    try:
        wm = G.from_meteostat(list(g[1]), list(g[2]), *span, keys)
    finally:
        W.meteostat, W.installed_meteostat = keep
    for j, k in empty:
        data[:, j, k] = 0
    h = [[3600 * k for k in range(len(g[0]))], g[1], g[2]]
    if list(wm.attrs) != keys or [pandas.Timestamp(t).to_pydatetime() for t in wm.grid[0]] != times:
        return bad(f"{wm.attrs} at {wm.grid[0]}")
    what = f"fetched data (none at {sorted(empty)})"
    return check(wm, h, data.tolist(), keys, [rng.uniform(0, h[0][-1]), q[1], q[2]], what) or check(wm, h, data.tolist(), keys, [h[0][-1], g[1][0], g[2][-1]], what)


def run(case):
    if case["source"]:
        return {"nc": run_nc, "meteo": run_meteo}[case["source"]](case)
    g, data, q = case["grid"], case["data"], case["q"]
    attrs = ["TWS", "TWA", "WVHGT"][: len(data[0][0][0])]
    times = [T0 + dt.timedelta(seconds=k) for k in g[0]]
    conv = np.array if case["arrays"] else list
    wm = G(conv(data), times, conv(g[1]), conv(g[2]), attrs)
    r = check(wm, g, data, attrs, q, "model") or check(wm, g, data, attrs, [g[0][-1], g[1][-1], g[2][-1]], "model")
    if r:
        return r
    if case["file"]:
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "w.json")
            wm.to_file(path)
            ok, wm2 = attempt(G.from_file, path)
        if not ok:
            return bad(f"from_file: {type(wm2).__name__}: {wm2}")
        a, b = wm.grid, wm2.grid
        if list(a[0]) != list(b[0]) or any(not np.array_equal(x, y) for x, y in zip(a[1:], b[1:])) or not np.array_equal(wm.data, wm2.data) \
                or list(wm2.attrs) != attrs:
            return bad(f"the model read from its file differs: {a} {b}")
        r = check(wm2, g, data, attrs, q, "model read from its file")
        if r:
            return r
    res = [[ValueError("no"), TypeError("no"), KeyError("no"), NotImplementedError("no")][(case["exc"] + k) % 4] if case["fail"][k]
           else {a: 10 * k + j for j, a in enumerate(case["attrs"][k])} for k in range(3)]
    ok, r = attempt(M(*[Fake(x) for x in res], exception_sensitive=case["sens"]).get_weather, (T0, 0, 0))
    if case["sens"] and any(case["fail"]):
        first = next(x for x in res if isinstance(x, Exception))
        return None if not ok and r is first else bad(f"sensitive combination of {res} gives {r!r}")
    exp = {}
    for x in res:
        if not isinstance(x, Exception):
            exp.update(x)
    return None if ok and r == exp else bad(f"combination of {res} gives {r!r}")
