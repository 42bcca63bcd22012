import types

from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import DT
from pyvc.z3load import z3
from hrosailing.models import weather_model


def open_file(path):
    "stands for netCDF4.Dataset"


class File:
    "a NetCDF file as netCDF4 shows it"

    def __getitem__(self, name):
        return self.values[name]


class Column:
    "a variable of a NetCDF file"

    def __getitem__(self, i):
        return self.values[i]

    def __str__(self):
        return self.text


M = "hrosailing.models.weather_model."
G = M + "GriddedWeatherModel"
weather_model.nc = types.SimpleNamespace(Dataset=open_file) if not weather_model.installed_netcdf else weather_model.nc
weather_model.installed_netcdf = True
N = M + "NetCDFWeatherModel"
FUNS = [G + ".__init__", G + ".get_weather", G + ".grid", G + "._get_data", M + "_recursive_affine_interpolation"]


def model(c):
    "a model over strictly ascending times, latitudes and longitudes, with two attributes"
    ns = [c.int(k, lo=1) for k in ("n", "m", "r")]
    fs = [c.fun(k, INT, REAL) for k in ("time", "lat", "lon")]
    for n, f in zip(ns, fs):
        c.require_pairs(n, lambda i, j: f(i) < f(j))
    data = c.arr("data", (*ns, 2))
    h = data.snap()
    times = c.list_of(ns[0], lambda i: DT(fs[0](zi(i))))
    lats, lons = [c.list_of(n, lambda i, f=f: f(zi(i))) for n, f in zip(ns[1:], fs[1:])]
    wm = c.returns(c.new(G, data, times, lats, lons, c.plist(["TWS", "TWA"])))
    return wm, ns, fs, data, h


def cell(c, on):
    wm, ns, fs, data, h = model(c)
    x = [c.real(k) for k in ("t", "la", "lo")]
    idx, lam = [], []
    for n, f, v, o, nm in zip(ns, fs, x, on, "ijk"):
        i = c.skolem(n, nm)
        if o:
            c.require(f(i) == v)
        else:
            c.require(z3.And(i + 1 < n, f(i) < v, v < f(i + 1)))
        idx.append([(i, zi(1))] if o else [(i, (v - f(i + 1)) / (f(i) - f(i + 1))), (i + 1, 1 - (v - f(i + 1)) / (f(i) - f(i + 1)))])
    res = c.returns(c.method(wm, "get_weather", (DT(x[0]), x[1], x[2])))
    for s, key in enumerate(("TWS", "TWA")):

        def rec(pre, rest):
            if not rest:
                return h((*pre, s))
            if len(rest[0]) == 1:
                return rec(pre + [rest[0][0][0]], rest[1:])
            (i, a), (j, b) = rest[0]
            return a * rec(pre + [i], rest[1:]) + b * rec(pre + [j], rest[1:])

        got = zr(res.d[key])
        at = {0: [i for i, _ in idx[0]], 1: [i for i, _ in idx[1]], 2: [i for i, _ in idx[2]]}

        def cands(e):
            if e.decl().name() == "data":
                return [h((a, b, d, s)) for a in at[0] for b in at[1] for d in at[2]]
            for nm, f, ii in zip(("time", "lat", "lon"), fs, (at[0], at[1], at[2])):
                if e.decl().name() == nm:
                    return [f(i) for i in ii]
            return []

        c.ensure_rewriting(f"{key}: combination of the surrounding grid points", got == rec([], idx), cands,
                           [f(i[0][0]) < f(i[1][0]) for f, i in zip(fs, idx) if len(i) == 2])
    c.unchanged("data not modified", data, h)


@contract("C22", FUNS)
def grid_point(c):
    "at a grid point: the stored attributes"
    cell(c, (True, True, True))


@contract("C22", FUNS)
def time_line(c):
    cell(c, (False, True, True))


@contract("C22", FUNS)
def lat_line(c):
    cell(c, (True, False, True))


@contract("C22", FUNS)
def lon_line(c):
    cell(c, (True, True, False))


@contract("C22", FUNS)
def time_lat(c):
    cell(c, (False, False, True))


@contract("C22", FUNS)
def time_lon(c):
    cell(c, (False, True, False))


@contract("C22", FUNS)
def lat_lon(c):
    cell(c, (True, False, False))


@contract("C22", FUNS, timeout=20)
def inside(c):
    "inside a cell: affine in time, latitude and longitude between its eight corners"
    cell(c, (False, False, False))


@contract("C22", FUNS)
def outside(c):
    "points outside the grid are rejected, never extrapolated"
    wm, ns, fs, data, h = model(c)
    x = [c.real(k) for k in ("t", "la", "lo")]
    c.require(z3.Or(*[z3.Or(v < f(0), v > f(n - 1)) for n, f, v in zip(ns, fs, x)]))
    c.raises(c.method(wm, "get_weather", (DT(x[0]), x[1], x[2])), ValueError)


@contract("C22", [M + "MultiWeatherModel.get_weather", M + "MultiWeatherModel.__init__"])
def multi(c):
    "several models: the union of their attributes, later models first; failing models are skipped unless sensitive"
    vals = [c.real(k) for k in "abcd"]
    fails = [c.bool("fail%d" % k) for k in range(3)]
    dicts = [{"TWS": vals[0], "TWA": vals[1]}, {"TWA": vals[2]}, {"WVHGT": vals[3]}]
    excs = [ValueError, KeyError, NotImplementedError]
    for sens in (False, True):
        models, failed = [], []
        from pyvc.values import PyExc
        for k in range(3):
            def gw(it, args, kw, k=k):
                if failed[k]:
                    raise PyExc(excs[k], ("no data",))
                return c.dict(**dicts[k])

            models.append(c.obj("hrosailing.models.weather_model.GriddedWeatherModel", get_weather=c.opaque_fn("get_weather", gw)))
            failed.append(c.branch(fails[k]))
        m = c.returns(c.new(M + "MultiWeatherModel", *models, exception_sensitive=sens))
        r = c.method(m, "get_weather", (DT(c.real("t")), c.real("la"), c.real("lo")))
        if sens and any(failed):
            c.raises(r, *[e for e, f in zip(excs, failed) if f][:1], what="the first failure is reported")
            continue
        r = c.returns(r)
        exp = {}
        for k in range(3):
            if not failed[k]:
                exp.update(dicts[k])
        c.ensure("attributes", z3.BoolVal(set(r.d) == set(exp)))
        for k in exp:
            c.ensure("value of the last model that has it", zr(r.d[k]) == exp[k])


def netcdf(c, dims, flips, unit):
    """a grid point of a file with the given order of dimensions (3: a further one), axes in ascending or descending order, other time units"""
    names = ("time", "latitude", "longitude", "depth")
    ns = [c.int(k, lo=1) for k in ("n", "m", "r", "e")]
    fs = [c.fun(k, INT, REAL) for k in ("time", "lat", "lon")]
    for n, f, flip in zip(ns, fs, flips):
        c.require_pairs(n, (lambda i, j, f=f: f(i) > f(j)) if flip else lambda i, j, f=f: f(i) < f(j))
    if any(flips):
        c.require(z3.And(*[n >= 2 for n, flip in zip(ns, flips) if flip]))
    axes = [c.arr_of((n,), lambda ix, f=f: f(zi(ix[0]))) for n, f in zip(ns, fs)]
    data = c.arr("data", tuple(ns[k] for k in dims))
    h = data.snap()
    col = lambda v, t="", d=(): c.obj("contracts.c22.Column", values=v, text=t, units=unit + " since 2020-02-28 22:15", dimensions=d)
    wind = col(data, "<class 'netCDF4._netCDF4.Variable'>\nfloat32 wind(" + ", ".join(names[k] for k in dims) + ")\n    units: m s**-1", tuple(names[k] for k in dims))
    values = dict(zip(names, axes), wind=wind)
    variables = dict({k: col(a, "", (k,)) for k, a in zip(names, axes)}, wind=wind)
    file = c.obj("contracts.c22.File", values=c.dict(**values), variables=c.dict(**variables))
    c.external(weather_model.nc.Dataset, "netCDF4.Dataset gives the variables of the file", lambda path: file)
    e = c.skolem(ns[3], "e")
    wm = c.returns(c.new(N, "file.nc", None, c.dict(depth=e) if 3 in dims else None))
    at = [c.skolem(n, k) for n, k in zip(ns, "ijk")]
    scale = 3600 if unit == "hours" else 1
    start = DT(1582928100 + scale * fs[0](at[0]))
    r = c.returns(c.method(wm, "get_weather", (start, fs[1](at[1]), fs[2](at[2]))))
    c.ensure("attributes", zb(list(r.d) == ["wind"]))
    got = zr(r.d["wind"])
    c.ensure("value of the file", got == zr(h(tuple((*at, e)[k] for k in dims))))


NETCDF = [N + ".__init__", N + "._get_data", N + "._get_dimensions"] + FUNS


@contract("C22", NETCDF)
def netcdf_ascending(c):
    "a NetCDF file: at a time, latitude and longitude of the file the value of the file"
    netcdf(c, (0, 1, 2), (False, False, False), "hours")


@contract("C22", NETCDF)
def netcdf_descending(c):
    "latitudes and longitudes from north to south and east to west"
    netcdf(c, (0, 1, 2), (False, True, True), "seconds")


@contract("C22", NETCDF)
def netcdf_north_first(c):
    netcdf(c, (0, 1, 2), (False, True, False), "hours")


@contract("C22", NETCDF)
def netcdf_order(c):
    "the dimensions of the variable in another order, with one that is fixed by further_indices"
    netcdf(c, (2, 3, 0, 1), (False, False, True), "hours")


@contract("C22", NETCDF)
def netcdf_no_time(c):
    "a variable that does not depend on time"
    netcdf(c, (2, 1), (False, True, False), "seconds")
