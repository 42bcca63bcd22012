from datetime import datetime

from hrosailing.processing import DataHandler
from pyvc import ops
from pyvc.harness import contract, resolve
from pyvc.terms import *
from pyvc.values import DT, IndexDict, PyExc, S
from pyvc.z3load import z3
from contracts.common import val
P = "hrosailing.pipeline.pipeline."
W = "hrosailing.core.data.WeightedPoints"
N = ("TWS", "TWA", "BSP")


class Part:
    "any component: what it makes of its argument, and the statistics about it, are arbitrary functions of the argument"

    def __init__(self, run, stat):
        self.run, self.stat, self.last = run, stat, None

    def get_latest_statistics(self):
        return self.stat(self.last)

    def work(self, x):
        self.last = x
        return self.run(x)

    handle = impute = smooth = expand = weigh = filter = inject = process = work


class Off:
    "a component that must not be used"

    def get_latest_statistics(self):
        raise AssertionError("statistics of a component that is switched off")

    def work(self, *x):
        raise AssertionError("a component that is switched off is used")

    handle = impute = smooth = expand = weigh = filter = inject = process = check = work


@contract("C19", [P + "_weigh_and_filter", P + "_filter_data", P + "_collect"])
def weigh_and_filter(c):
    "the weigher gets the points, the filter gets the weights, and exactly the points the filter wants stay, with their weights"
    n = c.int("n", lo=0)
    pts = c.arr("p", (n, 3))
    at = pts.snap()
    wf, ff = c.fun("weight", INT, REAL), c.fun("wanted", REAL, BOOL)
    weighing, filtering = c.bool("weighing"), c.bool("filtering")
    weighing, filtering = c.branch(weighing), c.branch(filtering)

    def weigh(it, args, kw):
        c.ensure("the weigher gets the points", zb(args[0] is pts))
        return c.arr_of((n,), lambda ix: wf(zi(ix[0])))

    def choose(it, args, kw):
        w = args[0].snap()
        return c.arr_of(args[0].shape, lambda ix: ff(zr(w(ix))), "b")

    on = c.branch(n > 0)
    weigher = c.obj("contracts.c19.Part", run=c.opaque_fn("weigh", weigh), stat=c.opaque_fn("ws", lambda it, a, k: ("weigher", a[0])), last=None)
    filter_ = c.obj("contracts.c19.Part", run=c.opaque_fn("filter", choose), stat=c.opaque_fn("fs", lambda it, a, k: ("filter", a[0])), last=None)
    off = c.obj("contracts.c19.Off")
    r = c.returns(c.call(P + "_weigh_and_filter", pts, weigher if weighing and on else off, filter_ if filtering and on else off, weighing, filtering))
    wp, ws, fs = r
    d, w = c.attr(wp, "data"), c.attr(wp, "weights")
    m = zi(d.shape[0])
    c.shape_is("one weight per point", w, (m,))
    if not on:
        c.ensure("no points", m == 0)
        c.ensure("no statistics", zb(not ws.d and not fs.d))
        return
    if weighing:
        c.ensure("weigher statistics", zb(isinstance(ws, tuple) and ws[0] == "weigher" and ws[1] is pts))
    if filtering:
        c.ensure("filter statistics", zb(isinstance(fs, tuple) and fs[0] == "filter"))
    else:
        c.ensure("no filter statistics", zb(not fs.d))
    expected = lambda i: wf(zi(i)) if weighing else z3.RealVal(1)
    keep = lambda i: ff(expected(i)) if filtering else zb(True)
    # the first coordinate stands for the point: it is its number
    c.require_all(n, lambda i: zr(at((i, 0))) == z3.ToReal(zi(i)))
    x = c.skolem(n)
    if conc(m) == 0:
        c.ensure("nothing was wanted", z3.Not(keep(x)))
        return
    i, j = c.skolem(m), c.skolem(m)
    p = lambda t: zr(d.get(t, 0))
    S.touch(p(i))
    old = z3.ToInt(p(i))
    c.ensure("every point is an old one that was wanted", z3.And(p(i) == z3.ToReal(old), old >= 0, old < n, keep(old)))
    for k in (1, 2):
        c.ensure(f"coordinate {k}", zr(d.get(i, k)) == zr(at((old, k))))
    c.ensure("weight", zr(w.get(i)) == expected(old))
    c.ensure("order kept", z3.Implies(i < j, p(i) < p(j)))
    if c.branch(keep(x)):
        c.member("every wanted point is there", m, lambda t: p(t) == z3.ToReal(x), hints=[x], ghosts=True)


@contract("C19", ["hrosailing.processing.injector.ZeroInjector.inject"])
def zero_injector(c):
    "equidistant wind speeds from the least to the greatest, at 0 and at 360 degrees, with speed 0 and weight 1"
    n, nz = c.int("n", lo=0), c.int("nz", lo=2)
    pts = c.arr("p", (n, 3))
    at = pts.snap()
    wp = c.obj(W, data=pts, weights=c.arr("w", (n,)))
    inj = c.returns(c.new("hrosailing.processing.injector.ZeroInjector", nz))
    r = c.method(inj, "inject", wp)
    if not c.branch(n > 0):
        c.raises(r, ValueError, what="no records are rejected")
        return
    r = c.returns(r)
    d, w = c.attr(r, "data"), c.attr(r, "weights")
    c.shape_is("2 n points", d, (2 * nz, 3))
    c.shape_is("one weight per point", w, (2 * nz,))
    c.unchanged("the points", pts, at)
    i, j, k = c.skolem(nz), c.skolem(n), c.skolem(2 * nz)
    first, last = zr(d.get(0, 0)), zr(d.get(nz - 1, 0))
    c.ensure("from the least wind speed", first <= zr(at((j, 0))))
    c.ensure("to the greatest wind speed", zr(at((j, 0))) <= last)
    c.ensure("equidistant", zr(d.get(i, 0)) == first + (last - first) * z3.ToReal(i) / z3.ToReal(nz - 1))
    c.ensure("the same at 360 degrees", zr(d.get(nz + i, 0)) == zr(d.get(i, 0)))
    c.ensure("at 0 and 360 degrees", z3.And(zr(d.get(i, 1)) == 0, zr(d.get(nz + i, 1)) == 360))
    c.ensure("boat speed 0", zr(d.get(k, 2)) == 0)
    c.ensure("weight 1", zr(w.get(k)) == 1)
    c.member("the least wind speed is one of the points", n, lambda t: zr(at((t, 0))) == first, ghosts=True)
    c.member("the greatest wind speed is one of the points", n, lambda t: zr(at((t, 0))) == last, ghosts=True)
    st = c.returns(c.method(inj, "get_latest_statistics"))
    c.ensure("statistics", zi(c.it.getitem(st, "n_injected")) == 2 * nz)


class Handler(Part, DataHandler):
    "a component that is a data handler"


class Influence:
    def __init__(self, run, fitted):
        self.run, self.fitted, self.stats = run, fitted, {}

    def fit(self, data):
        self.fitted, self.stats = data, {"fit": data}

    def remove_influence(self, data):
        self.stats = {"removed": data}
        return self.run(data, self.fitted)

    def get_latest_statistics(self):
        return self.stats


STAGES = ("pre_expander", "pre_influence", "post")


def part(c, name, cls="Part"):
    run, stat = c.fun("run_" + name, REAL, REAL), c.fun("stat_" + name, REAL, REAL)
    o = c.obj("contracts.c19." + cls, run=c.opaque_fn(name, lambda it, a, k: run(zr(a[0]))), stat=c.opaque_fn("stat", lambda it, a, k: stat(zr(a[0]))),
              last=z3.RealVal(0))
    return o, run, stat


@contract("C19", [P + "PolarPipeline._preprocess", P + "PolarPipeline._handle_data", P + "PolarPipeline._map", P + "PolarPipeline._list_statistics",
                  P + "_collector_fun", P + "_collect"])
def preprocess(c):
    """every field of the data runs through the components in the documented order, each gets what the one before made of it, the influence model
    is fitted to (and removes the influence from) all that is left, and all statistics are about the run of their own component; any number of fields"""
    n = c.int("n", lo=1)
    d = c.fun("field", INT, REAL)
    fields = c.list_of(n, lambda i: d(zi(i)))
    o, run, stat = {}, {}, {}
    smoothing, fitting = c.branch(c.bool("smoothing")), c.branch(c.bool("fitting"))
    for k in ("data_handler", "imputator", "smoother", "expander"):
        o[k], run[k], stat[k] = part(c, k, "Handler" if k == "data_handler" else "Part")
    if not smoothing:
        o["smoother"] = c.obj("contracts.c19.Off")
    flags = {f"{s}_{w}": c.bool(f"{s}_{w}") for s in STAGES for w in ("weighing", "filtering")}
    for s in STAGES:
        o[f"{s}_weigher"], o[f"{s}_filter"] = c.obj("contracts.c19.Off"), c.obj("contracts.c19.Off")
        run[s], stat[f"{s}_weigher"], stat[f"{s}_filter"] = (c.fun(f"{x}_{s}", REAL, REAL) for x in ("weighed", "weigher_stat", "filter_stat"))

    def weigh_and_filter(data, weigher, filter_, weighing, filtering):
        s = [s for s in STAGES if o[f"{s}_weigher"] is weigher]
        c.ensure("weigher, filter and switches of one stage", zb(
            len(s) == 1 and o[f"{s[0]}_filter"] is filter_ and same(weighing, flags[f"{s[0]}_weighing"]) and same(filtering, flags[f"{s[0]}_filtering"])))
        if len(s) != 1:
            c.stop()
        x, s = zr(data), s[0]
        return (c.obj(W, data=run[s](x), weights=z3.RealVal(0)), stat[f"{s}_weigher"](x), stat[f"{s}_filter"](x))

    c.by_contract(P + "_weigh_and_filter", weigh_and_filter)
    whole = z3.Real("all_fields")
    rec = {}

    def concatenate(*args):
        rec["parts"] = args[-1]
        return whole

    c.by_contract("hrosailing.core.data.Data.concatenate", concatenate)
    before = c.real("fitted_before")
    infl = c.fun("uninfluenced", REAL, REAL, REAL)
    o["influence_model"] = c.obj("contracts.c19.Influence", run=c.opaque_fn("remove", lambda it, a, k: infl(zr(a[0]), zr(a[1]))), fitted=before, stats=c.dict())
    for k in ("injector", "extension", "quality_assurance"):
        o[k] = c.obj("contracts.c19.Off")
    pipe = c.obj(P + "PolarPipeline", **o, **flags, smoothing=smoothing)
    out, st = c.returns(c.method(pipe, "_preprocess", fields, fitting))
    i = c.skolem(n)
    x = {"data_handler": d(i)}
    x["imputator"] = run["data_handler"](d(i))
    x["smoother"] = run["imputator"](x["imputator"])
    x["pre_expander"] = run["smoother"](x["smoother"]) if smoothing else x["smoother"]
    x["expander"] = run["pre_expander"](x["pre_expander"])
    x["pre_influence"] = run["expander"](x["expander"])
    last = run["pre_influence"](x["pre_influence"])
    c.ensure("all fields are put together", zb("parts" in rec))
    if "parts" not in rec:
        c.stop()
    c.ensure("all fields are put together: number", zi(rec["parts"].length()) == n)
    c.ensure("all fields are put together: contents and order", zr(val(rec["parts"].get(i))) == last)
    clean = infl(whole, whole if fitting else before)
    c.ensure("the influence model is fitted to the training data only", zr(c.attr(o["influence_model"], "fitted")) == (whole if fitting else before))
    c.ensure("what is left after the last filter is handed on", zr(c.attr(out, "data")) == run["post"](clean))
    slots = {"data_handler": "data_handler", "imputator": "imputator", "smoother": "smoother", "expander": "expander",
             "pre_expander_weigher": "pre_expanding_weigher", "pre_expander_filter": "pre_expanding_filter",
             "pre_influence_weigher": "pre_influence_weigher", "pre_influence_filter": "pre_influence_filter"}
    for k, slot in slots.items():
        v = c.attr(st, slot)
        if k == "smoother" and not smoothing:
            c.ensure("no statistics of the smoother", zb(not v.d))
            continue
        c.ensure(f"statistics {slot}: one per field", zb(isinstance(v, IndexDict)))
        if not isinstance(v, IndexDict):
            c.stop()
        c.ensure(f"statistics {slot}: number", zi(v.n) == n)
        c.ensure(f"statistics {slot}", zr(val(v.fn(i))) == stat[k](x[k.replace("_weigher", "").replace("_filter", "")]))
    s = c.attr(st, "influence_model")
    c.ensure("statistics influence_model", zb(set(s.d) == ({"fit", "removed"} if fitting else {"removed"})))
    for v in s.d.values():
        c.ensure("statistics influence_model: data", zr(v) == whole)
    for k in ("weigher", "filter"):
        c.ensure(f"statistics post_{k}", zr(c.attr(st, f"post_{k}")) == stat[f"post_{k}"](clean))
    for k in ("injector", "extension", "quality_assurance"):
        c.ensure(f"no statistics {k}", zb(not c.attr(st, k).d))


class QA:
    def __init__(self, metric):
        self.metric, self.seen = metric, None

    def check(self, polar_diagram, test_data):
        self.seen = (polar_diagram, test_data)
        return {"metric": self.metric}


@contract("C19", [P + "PolarPipeline.execute", P + "PolarPipeline.__call__", P + "PolarPipeline._set_with_default", P + "_is_empty_data", P + "_collect"])
def execute(c):
    """the extension gets the preprocessed training data followed by the injected points, the result is its diagram, the quality is measured on the
    preprocessed test data (if there are any and testing is on), and every statistic is reported under the name of its component"""
    n, k, m = c.int("n", lo=0), c.int("k", lo=0), c.int("m", lo=0)
    injecting, testing, has_test = (c.branch(c.bool(x)) for x in ("injecting", "testing", "has_test"))
    arrs = {x: (c.arr(x, (s, 3)), c.arr(x + "_w", (s,))) for x, s in (("train", n), ("new", k), ("test", m))}
    fns = {x: (a.snap(), w.snap()) for x, (a, w) in arrs.items()}
    raw, raw_test = c.real("raw"), c.real("raw_test")
    fields = c.it.class_attr(resolve(P + "Statistics"), "_fields")
    stats = {x: {f: z3.Real(f"{x}_{f}") for f in fields} for x in ("train", "test")}
    calls = []

    def pre(self, data, influence_fitting):
        calls.append(("train" if same(data, raw) else "test", influence_fitting))
        x = calls[-1][0]
        return (c.obj(W, data=arrs[x][0], weights=arrs[x][1]), c.new(P + "Statistics", *[stats[x][f] for f in fields]))

    c.by_contract(P + "PolarPipeline._preprocess", pre)
    clock = []

    def now(*a):
        clock.append(S.fresh("now"))
        return DT(clock[-1])

    c.external((datetime, "now"), "datetime.now() returns a time", now)
    seen = {}

    def inject(it, a, kw):
        seen["inject"] = (c.attr(a[0], "data"), c.attr(a[0], "weights"))
        return c.obj(W, data=arrs["new"][0], weights=arrs["new"][1])

    def process(it, a, kw):
        seen["process"] = (c.attr(a[0], "data"), c.attr(a[0], "weights"))
        return z3.Real("diagram")

    inj = c.obj("contracts.c19.Part", run=c.opaque_fn("inject", inject), stat=c.opaque_fn("stat", lambda it, a, kw: z3.Real("stat_injector")), last=None)
    ext = c.obj("contracts.c19.Part", run=c.opaque_fn("process", process), stat=c.opaque_fn("stat", lambda it, a, kw: z3.Real("stat_extension")), last=None)
    qa = c.obj("contracts.c19.QA", metric=z3.Real("metric"), seen=None)
    off = c.obj("contracts.c19.Off")
    pipe = c.obj(P + "PolarPipeline", injector=inj if injecting else off, extension=ext, quality_assurance=qa if testing and has_test else off,
                 data_handler=c.obj("contracts.c19.Handler"))
    given = {} if injecting and testing else {"injecting": injecting, "testing": testing}
    r = c.call(pipe, raw, raw_test if has_test else None, **given)
    if not c.branch(n > 0):
        c.raises(r, RuntimeError, what="no records left")
        c.ensure("no diagram is made", zb("process" not in seen))
        return
    r = c.returns(r)
    pd, st, ts = (c.attr(r, x) for x in ("polardiagram", "training_statistics", "test_statistics"))
    d, w = seen["process"]
    total = n + (k if injecting else 0)
    c.shape_is("points for the extension", d, (total, 3))
    c.shape_is("weights for the extension", w, (total,))
    i, j = c.skolem(n), c.skolem(k)
    for q in range(3):
        c.ensure(f"preprocessed data, coordinate {q}", zr(d.get(i, q)) == zr(fns["train"][0]((i, q))))
        if injecting:
            c.ensure(f"injected data, coordinate {q}", zr(d.get(n + j, q)) == zr(fns["new"][0]((j, q))))
    c.ensure("weights of the preprocessed data", zr(w.get(i)) == zr(fns["train"][1]((i,))))
    if injecting:
        c.ensure("weights of the injected data", zr(w.get(n + j)) == zr(fns["new"][1]((j,))))
        c.shape_is("the injector gets the preprocessed data", seen["inject"][0], (n, 3))
        c.ensure("the injector gets the preprocessed data: values", zr(seen["inject"][0].get(i, 1)) == zr(fns["train"][0]((i, 1))))
    c.ensure("the result is the diagram of the extension", zr(pd) == z3.Real("diagram"))
    tested = testing and has_test
    c.ensure("preprocessing fits the influence model to the training data only", zb(calls == [("train", True)] + [("test", False)] * tested))
    q = c.attr(st, "quality_assurance")
    c.ensure("quality metrics", zb(set(q.d) == ({"execution time", "metric"} if tested else {"execution time"})))
    c.ensure("execution time", zr(val(q.d["execution time"])) == clock[-1] - clock[0])
    if tested:
        c.ensure("quality of the diagram", zr(c.attr(qa, "seen")[0]) == z3.Real("diagram"))
        c.ensure("quality measured on the test data", zb(c.attr(qa, "seen")[1] is arrs["test"][0]))
        c.ensure("quality metrics: value", zr(q.d["metric"]) == z3.Real("metric"))
    own = {"injector", "extension", "quality_assurance"}
    for f in fields:
        if f not in own:
            c.ensure(f"training statistics {f}", zr(val(c.attr(st, f))) == stats["train"][f])
        if tested:
            c.ensure(f"test statistics {f}", zr(val(c.attr(ts, f))) == stats["test"][f])
        else:
            c.ensure(f"no test statistics {f}", zb(not c.attr(ts, f).d))
    if injecting:
        c.ensure("training statistics injector", zr(val(c.attr(st, "injector"))) == z3.Real("stat_injector"))
    else:
        c.ensure("no statistics of the injector", zb(not c.attr(st, "injector").d))
    c.ensure("training statistics extension", zr(val(c.attr(st, "extension"))) == z3.Real("stat_extension"))


FLAGS = ["smoothing", "pre_expander_weighing", "pre_expander_filtering", "pre_influence_weighing", "pre_influence_filtering", "post_weighing",
         "post_filtering", "injecting", "testing"]
SHORT = {"pre_influence_weighing": "pre_weighing", "pre_influence_filtering": "pre_filtering", "post_weighing": "weighing", "post_filtering": "filtering"}
PARTS = ["data_handler", "imputator", "smoother", "pre_expander_weigher", "pre_expander_filter", "expander", "pre_influence_weigher",
         "pre_influence_filter", "influence_model", "post_weigher", "post_filter", "injector", "extension", "quality_assurance"]
SHORT_PARTS = {"pre_influence_weigher": "pre_weigher", "pre_influence_filter": "pre_filter", "post_weigher": "weigher", "post_filter": "filter"}
DEFAULTS = ["NMEAFileHandler", "FillLocalImputator", "LazySmoother", "CylindricMeanWeigher", "QuantileFilter", "LazyExpander", "CylindricMeanWeigher",
            "QuantileFilter", "IdentityInfluenceModel", "CylindricMeanWeigher", "QuantileFilter", "ZeroInjector", "TableExtension",
            "MinimalQualityAssurance"]


class SwitchesSeen(Exception):
    pass


@contract("C19", [P + "PolarPipeline.execute", P + "PolarPipeline._set_with_default", P + "PolarPipeline._switch_default"])
def switches(c):
    "every switch that is not given is on, whatever earlier runs were given; the short names stand for the long ones"
    got = {}

    def pre(self, data, fitting):
        got.update({f: c.attr(self, f) for f in FLAGS})
        raise PyExc(SwitchesSeen, ())

    c.by_contract(P + "PolarPipeline._preprocess", pre)
    earlier = c.bool("value_in_an_earlier_run")
    value = c.bool("value")
    for f in FLAGS:
        for name in {f, SHORT.get(f, f)}:
            pipe = c.obj(P + "PolarPipeline", data_handler=c.obj("contracts.c19.Handler"), **{k: earlier for k in FLAGS})
            c.raises(c.call(pipe, c.real("raw"), c.real("raw_test"), **{name: value}), SwitchesSeen, what="preprocessing")
            for k in FLAGS:
                c.ensure(f"{name} given: {k}", zb(got.get(k)) == (value if k == f else zb(True)))


@contract("C19", [P + "PolarPipeline.__init__", P + "PolarPipeline._set_with_default", P + "PolarPipeline._switch_default"])
def components(c):
    "every component that is given is used for its step, the others are the documented defaults; the short names stand for the long ones"
    for p in PARTS:
        for name in {p, SHORT_PARTS.get(p, p)}:
            mine = c.obj("contracts.c19.Off")
            pipe = c.returns(c.new(P + "PolarPipeline", **{name: mine}))
            for k, cls in zip(PARTS, DEFAULTS):
                v = c.attr(pipe, k)
                c.ensure(f"{name} given: {k}", zb(v is mine if k == p else v.cls.__name__ == cls))
