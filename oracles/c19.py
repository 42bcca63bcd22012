"""pipelines of recording components (all maps of rows that do not commute) and of real ones run on random tables with every combination of
switches; an independent reference computes what every component has to receive, and which statistics belong to which component"""
import itertools

from oracles.util import *
import hrosailing.models as mod
import hrosailing.pipeline as pipe
import hrosailing.processing as pc
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.pipeline.expander import Expander, LazyExpander
from hrosailing.pipeline.extensions import PipelineExtension
from hrosailing.pipeline.quality_assurance import QualityAssurance

FLAGS = ["smoothing", "pre_expander_weighing", "pre_expander_filtering", "pre_influence_weighing", "pre_influence_filtering", "post_weighing",
         "post_filtering", "injecting", "testing"]
SHORT = {"pre_influence_weighing": "pre_weighing", "pre_influence_filtering": "pre_filtering", "post_weighing": "weighing", "post_filtering": "filtering"}
PARTS = {"pre_influence_weigher": "pre_weigher", "pre_influence_filter": "pre_filter", "post_weigher": "weigher", "post_filter": "filter"}


def cases(rng, tier):
    def field():
        n = rng.choice((1, 2, 3, 5, 8))
        return [[float(rng.randint(1, 20)), float(rng.randint(0, 359)), float(rng.randint(-6, 12))] for _ in range(n)]

    for _ in range(1500 if tier == "quick" else 10000):
        k = rng.randint(1, 3)
        calls = []
        for _ in range(rng.choice((1, 1, 2))):
            calls.append({"train": [field() for _ in range(k)], "test": rng.choice((None, [field() for _ in range(rng.randint(1, 2))])),
                          "flags": {f: rng.random() < 0.5 for f in FLAGS if rng.random() < 0.6}, "short": rng.random() < 0.4})
        yield {"kind": "flow", "calls": calls, "handlers": rng.choice(("one", "list", "iter")), "short": rng.random() < 0.4,
               "cut": [rng.uniform(-8, 4) for _ in range(3)], "inject": rng.choice((0, 1, 3))}
    for _ in range(60 if tier == "quick" else 400):
        yield {"kind": "real", "train": [[[rng.uniform(2, 20), rng.uniform(0, 360), rng.uniform(0, 9)] for _ in range(rng.randint(5, 30))] for _ in range(rng.randint(1, 3))],
               "flags": {f: rng.random() < 0.5 for f in FLAGS[:-1]}, "q": rng.choice((25, 50, 75)), "r": rng.choice((0.05, 1, 4)), "nz": rng.randint(1, 20)}
    for _ in range(400 if tier == "quick" else 3000):
        n = rng.choice((0, 1, 1, 2, 5, 20))
        yield {"kind": "zeros", "pts": [[num(rng, 0, 30), num(rng, 0, 359), num(rng, 0, 10)] for _ in range(n)], "nz": rng.choice((0, 1, 2, 5, 50)),
               "form": pick(rng, "ok", "ok", "ok", "wide", "list", "flat")}


class Part:
    "records what it gets; its latest statistics name it and the run"

    def __init__(self, name, log):
        self.name, self.log, self.runs = name, log, 0
        super().__init__()

    def note(self, x):
        self.runs += 1
        self.log.append((self.name, [tuple(r) for r in x] if not isinstance(x, str) else x))
        self._statistics = {"who": self.name, "run": self.runs}


def rows_of(d):
    return [tuple(r) for r in zip(d["TWS"], d["TWA"], d["BSP"])] if d.n_rows else []


def table(rows):
    return Data.from_dict({k: [r[j] for r in rows] for j, k in enumerate(("TWS", "TWA", "BSP"))})


def emptied(rows):
    "a table without rows still has its columns"
    if rows:
        return table(rows)
    d = table([(0.0, 0.0, 0.0)])
    d.delete([0])
    return d


MAPS = {"handler": lambda b: b + 0.5, "imputator": lambda b: 2 * b - 1, "smoother": lambda b: -b + 3, "expander": lambda b: 1.5 * b + 0.25}


def mapped(name, rows):
    return [(r[0], r[1], MAPS[name](r[2])) for r in rows]


class Handler(Part, pc.DataHandler):
    def handle(self, data):
        self.note(data)
        return table(mapped("handler", data))


class Imp(Part, pc.imputator.Imputator):
    def impute(self, data):
        self.note(rows_of(data))
        return emptied(mapped("imputator", rows_of(data)))


class Smo(Part, pc.Smoother):
    def smooth(self, data):
        self.note(rows_of(data))
        return emptied(mapped("smoother", rows_of(data)))


class Exp(Part, Expander):
    def expand(self, data):
        self.note(rows_of(data))
        return emptied(mapped("expander", rows_of(data)))


class Wei(Part, pc.Weigher):
    def weigh(self, points):
        x = rows_of(points) if isinstance(points, Data) else [tuple(r) for r in points]
        self.note(x)
        return np.array([weight(self.name, r) for r in x])


def weight(name, r):
    return r[2] + {"pre_expander_weigher": 0.1, "pre_influence_weigher": 0.2, "post_weigher": 0.3}[name] * r[0]


class Fil(Part, pc.Filter):
    def __init__(self, name, log, cut):
        Part.__init__(self, name, log)
        self.cut = cut

    def filter(self, wts):
        self.note([(float(w),) for w in wts])
        return np.array([bool(w >= self.cut) for w in wts], dtype=bool)


class Inf(Part, mod.InfluenceModel):
    def __init__(self, name, log):
        Part.__init__(self, name, log)
        self.n = None

    def fit(self, d):
        self.note(rows_of(d))
        self.log[-1] = ("fit", self.log[-1][1])
        self.n = d.n_rows
        self._statistics = {"fit": self.runs}
        return {}

    def remove_influence(self, d):
        self.note(rows_of(d))
        return np.array([(r[0], r[1], r[2] + 0.01 * self.n) for r in rows_of(d)], dtype=float).reshape(-1, 3)

    def add_influence(self, pd, d):
        return d


class Inj(Part, pc.injector.Injector):
    def __init__(self, name, log, n):
        Part.__init__(self, name, log)
        self.n = n

    def inject(self, wp):
        self.note([tuple(r) + (float(w),) for r, w in zip(wp.data, wp.weights)])
        return WeightedPoints(np.array([(i, i + 1, i + 2) for i in range(self.n)], dtype=float).reshape(-1, 3), np.array([0.25] * self.n))


class Ext(Part, PipelineExtension):
    def process(self, wp):
        self.note([tuple(r) + (float(w),) for r, w in zip(wp.data, wp.weights)])
        assert len(wp.data) == len(wp.weights)
        return ("diagram", self.runs)


class QA(QualityAssurance):
    def __init__(self, log):
        self.log = log

    def check(self, pd, data):
        self.log.append(("quality_assurance", [pd] + [tuple(r) for r in data]))
        return {"who": "qa"}


def reference(call, state, case):
    "the expected calls, and the expected statistics, of one run"
    log, stat = [], {}
    on = {f: call["flags"].get(f, True) for f in FLAGS}
    runs = state["runs"]

    def use(name, x, **extra):
        runs[name] = runs.get(name, 0) + 1
        log.append((name, x))
        return {"who": name, "run": runs[name], **extra}

    def weighted(rows, stage, no, as_fields):
        "(kept rows with weight, weigher statistics, filter statistics)"
        if not rows:
            return [], {}, {}
        if on[f"{stage}_weighing"]:
            ws = use(f"{stage}_weigher", rows)
            w = [weight(f"{stage}_weigher", r) for r in rows]
        else:
            ws, w = None, [1.0] * len(rows)
        if not on[f"{stage}_filtering"]:
            return list(zip(rows, w)), ws, {}
        fs = use(f"{stage}_filter", [(x,) for x in w])
        return [(r, x) for r, x in zip(rows, w) if x >= case["cut"][no]], ws, fs

    def pre(fields, fit):
        st = {}
        hs = []
        for f in fields:
            name = "handler" if case["handlers"] == "one" else f"handler{state['next']}"
            state["next"] += 1
            hs.append(use(name, [tuple(r) for r in f]))
        cur = [mapped("handler", f) for f in fields]
        st["data_handler"] = dict(enumerate(hs))
        st["imputator"] = dict(enumerate([use("imputator", f) for f in cur]))
        cur = [mapped("imputator", f) for f in cur]
        st["smoother"] = {}
        if on["smoothing"]:
            st["smoother"] = dict(enumerate([use("smoother", f) for f in cur]))
            cur = [mapped("smoother", f) for f in cur]
        for stage, no, field in (("pre_expander", 0, "pre_expanding"), ("pre_influence", 1, "pre_influence")):
            if no == 1:
                st["expander"] = dict(enumerate([use("expander", f) for f in cur]))
                cur = [mapped("expander", f) for f in cur]
            out = [weighted(f, stage, no, True) for f in cur]
            cur = [[r for r, _ in o[0]] for o in out]
            st[f"{field}_weigher"] = dict(enumerate(o[1] for o in out))
            st[f"{field}_filter"] = dict(enumerate(o[2] for o in out))
        rows = [r for f in cur for r in f]
        st["influence_model"] = {}
        if fit:
            runs["influence_model"] = runs.get("influence_model", 0) + 1
            log.append(("fit", rows))
            state["n"] = len(rows)
            st["influence_model"] = {"fit": runs["influence_model"]}
        st["influence_model"] = {**use("influence_model", rows), **st["influence_model"]}
        rows = [(r[0], r[1], r[2] + 0.01 * state["n"]) for r in rows]
        kept, st["post_weigher"], st["post_filter"] = weighted(rows, "post", 2, False)
        return kept, st

    kept, train = pre(call["train"], True)
    if not kept:
        return log, None, None, None
    extra = []
    train["injector"] = {}
    if on["injecting"]:
        train["injector"] = use("injector", [r + (w,) for r, w in kept])
        extra = [((float(i), i + 1.0, i + 2.0), 0.25) for i in range(case["inject"])]
    train["extension"] = use("extension", [r + (w,) for r, w in kept + extra])
    diagram = ("diagram", runs["extension"])
    test = None
    train["quality_assurance"] = {}
    if on["testing"] and call["test"] is not None:
        kept2, test = pre(call["test"], False)
        log.append(("quality_assurance", [diagram] + [r for r, _ in kept2]))
        train["quality_assurance"] = {"who": "qa"}
    return log, train, test, diagram


def same_log(a, b):
    if len(a) != len(b):
        return f"{len(a)} calls {[x[0] for x in a]} instead of {len(b)} {[x[0] for x in b]}"
    for (m, x), (n, y) in zip(a, b):
        if m != n:
            return f"{m} is called where {n} is due"
        if len(x) != len(y):
            return f"{m} gets {len(x)} records instead of {len(y)}"
        for p, q in zip(x, y):
            if isinstance(p, tuple) and p and isinstance(p[0], str):
                if p != q:
                    return f"{m} gets {p}"
            elif not close(p, q):
                return f"{m} gets the record {p} instead of {q}"
    return None


def same_stats(a, b, what):
    for f in a._fields:
        x, y = getattr(a, f), (b or {}).get(f, {})
        if f == "quality_assurance":
            x = {k: v for k, v in x.items() if k != "execution time"}
        if f in ("pre_expanding_weigher", "pre_influence_weigher"):
            if set(x) != set(y) or any(y[k] is not None and x[k] != y[k] for k in y):
                return f"{what} statistics of {f}: {x} instead of {y}"
            continue
        if y is None:  # the default weigher
            continue
        if dict(x) != y:
            return f"{what} statistics of {f}: {x} instead of {y}"
    return None


def run(case):
    if case["kind"] == "zeros":
        return zeros(case)
    if case["kind"] == "real":
        return real(case)
    log = []
    names = {"smoother": Smo, "imputator": Imp, "expander": Exp}
    parts = {k: cls(k, log) for k, cls in names.items()}
    total = sum(len(c["train"]) + len(c["test"] or []) for c in case["calls"])
    for no, stage in enumerate(("pre_expander", "pre_influence", "post")):
        parts[f"{stage}_weigher"] = Wei(f"{stage}_weigher", log)
        parts[f"{stage}_filter"] = Fil(f"{stage}_filter", log, case["cut"][no])
    parts["influence_model"] = Inf("influence_model", log)
    parts["injector"] = Inj("injector", log, case["inject"])
    parts["extension"] = Ext("extension", log)
    parts["quality_assurance"] = QA(log)
    one = case["handlers"]
    if one == "one":
        parts["data_handler"] = Handler("handler", log)
    else:
        hs = [Handler(f"handler{i}", log) for i in range(total)]
        parts["data_handler"] = hs if one == "list" else iter(hs)
    if case["short"]:
        parts = {PARTS.get(k, k): v for k, v in parts.items()}
    p = pipe.PolarPipeline(**parts)
    state = {"runs": {}, "next": 0, "n": None}
    for call in case["calls"]:
        log.clear()
        if one == "list":
            state["next"] = 0
        flags = {SHORT.get(k, k) if call["short"] else k: v for k, v in call["flags"].items()}
        want, train, test, diagram = reference(call, state, case)
        ok, out = attempt(p, call["train"], call["test"], **flags)
        if train is None:
            if ok or not isinstance(out, RuntimeError):
                return bad(f"no record survives the filters, but the pipeline gives {out!r}", "empty")
            w = same_log(log, want)
            if w:
                return bad(w, "calls")
            continue
        if not ok:
            return bad(f"the pipeline raises {type(out).__name__}: {out}", "raises")
        w = same_log(log, want)
        if w:
            return bad(w, "calls")
        if out.polardiagram != diagram:
            return bad(f"the result is not the diagram of the extension: {out.polardiagram}", "diagram")
        w = same_stats(out.training_statistics, train, "training") or same_stats(out.test_statistics, test, "test")
        if w:
            return bad(w, "statistics")
    return None


def real(case):
    "the numbers of records in the statistics add up, and the points handed on are records of the input"
    got = {}

    class Last(PipelineExtension):
        def process(self, wp):
            got["wp"] = wp
            return "d"

    class H(pc.DataHandler):
        def handle(self, data):
            d = table(data)
            self.set_statistics(d)
            return d

    p = pipe.PolarPipeline(data_handler=H(), imputator=pc.RemoveOnlyImputator(), extension=Last(), injector=pc.ZeroInjector(case["nz"]),
                           **{f"{s}_filter": pc.QuantileFilter(case["q"]) for s in ("pre_expander", "pre_influence", "post")},
                           **{f"{s}_weigher": pc.CylindricMeanWeigher(radius=case["r"]) for s in ("pre_expander", "pre_influence", "post")})
    ok, out = attempt(p, case["train"], **case["flags"])
    if not ok:
        return bad(f"the pipeline raises {type(out).__name__}: {out}", "raises")
    st, f = out.training_statistics, case["flags"]
    n = [len(x) for x in case["train"]]
    for i, k in enumerate(n):
        if st.imputator[i]["n_rows"] != k:
            return bad(f"imputator statistics of field {i}: {st.imputator[i]}", "statistics")
    cur = n
    for s, name in (("pre_expander", "pre_expanding"), ("pre_influence", "pre_influence")):
        fs = getattr(st, f"{name}_filter")
        if f[f"{s}_filtering"]:
            for i, k in enumerate(cur):
                if fs[i]["n_filtered_points"] + fs[i]["n_rows"] != k:
                    return bad(f"{name}_filter statistics of field {i} with {k} records: {fs[i]}", "statistics")
            cur = [fs[i]["n_rows"] for i in range(len(n))]
        elif any(fs.values()):
            return bad(f"{name}_filter statistics without filtering: {fs}", "statistics")
    total = sum(cur)
    if f["post_filtering"]:
        if st.post_filter["n_filtered_points"] + st.post_filter["n_rows"] != total:
            return bad(f"post_filter statistics with {total} records: {st.post_filter}", "statistics")
        total = st.post_filter["n_rows"]
    wp = got["wp"]
    extra = 2 * case["nz"] if f["injecting"] else 0
    if len(wp.data) != total + extra or len(wp.weights) != len(wp.data):
        return bad(f"{len(wp.data)} points and {len(wp.weights)} weights instead of {total} + {extra}", "count")
    old = {tuple(r) for x in case["train"] for r in x}
    for r in wp.data[:total]:
        if tuple(r) not in old:
            return bad(f"{r} is no record of the input", "rows")
    for r in wp.data[total:]:
        if r[2] != 0 or r[1] not in (0, 360):
            return bad(f"injected {r}", "rows")
    return None


def zeros(case):
    pts = case["pts"]
    n = len(pts)
    a = np.array(pts, dtype=float).reshape(-1, 3)
    form = case["form"]
    a = {"ok": lambda: a, "wide": lambda: np.hstack([a, a]), "list": lambda: a.tolist(), "flat": lambda: a.ravel()}[form]()
    inj = pc.ZeroInjector(case["nz"])
    before = np.array(a)
    ok, out = attempt(inj.inject, WeightedPoints(a, np.ones(len(a))))
    if form != "ok" or n == 0:
        want = TypeError if form == "list" else ValueError
        if ok or not isinstance(out, want):
            return bad(f"points in form {form} with {n} records: {out!r}", "rejects")
        if form == "ok" and "one record" not in str(out):
            return bad(f"no records: {out!r}", "rejects")
        return None
    if not ok:
        return bad(f"inject raises {type(out).__name__}: {out}", "raises")
    nz = case["nz"]
    if not np.array_equal(before, a):
        return bad("the original points were changed", "frame")
    if out.data.shape != (2 * nz, 3) or out.weights.shape != (2 * nz,) or not np.all(out.weights == 1):
        return bad(f"{out.data.shape} points with weights {out.weights}", "shape")
    lo, hi = a[:, 0].min(), a[:, 0].max()
    for i in range(nz):
        w = lo + (hi - lo) * i / (nz - 1) if nz > 1 else lo
        if not close(out.data[i], (w, 0, 0)) or not close(out.data[nz + i], (w, 360, 0)):
            return bad(f"injected {out.data[i]}, {out.data[nz + i]} at wind speed {w}", "points")
    if inj.get_latest_statistics() != {"n_injected": 2 * nz}:
        return bad(f"statistics {inj.get_latest_statistics()}", "statistics")
    return None
