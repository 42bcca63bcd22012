"""diagrams of every kind are written and read again in every format, under file names of many kinds; everything that was written has to
come back: numbers exactly, in their place, names, settings and the predictions of curves"""
import os
import pathlib
import tempfile

from oracles.util import *
import hrosailing.polardiagram as pol
from hrosailing.polardiagram._polardiagramcurve import MODEL_FUNCTIONS
from hrosailing.polardiagram import from_csv

NAMES = ["a.csv", "polar", "x_sail_0.csv", "d.ir/b.csv", "v1.2/run.3/c", "./e.csv", "../up.csv", "äö ü.csv", "sub/f.CSV"]


def number(rng, lo, hi):
    return pick(rng, num(rng, lo, hi), rng.uniform(lo, hi) * 1e-7 + max(lo, 0), float(rng.randint(int(lo), int(hi))), rng.uniform(lo, hi), lo + (hi - lo) / 3)


def a_table(rng):
    n, m = rng.randint(1, 6), rng.randint(1, 6)
    ws = sorted({number(rng, 0, 40) for _ in range(m)})
    wa = sorted({number(rng, 0, 359) for _ in range(n)})
    return {"ws": ws, "wa": wa, "bsp": [[number(rng, -3, 25) for _ in ws] for _ in wa]}


def cases(rng, tier):
    for j in range(700 if tier == "quick" else 8000):
        kind = pick(rng, "table", "table", "cloud", "curve", "sails")
        case = {"kind": kind, "path": rng.choice(NAMES), "type": pick(rng, "str", "str", "path"), "fmt": pick(rng, "hro", "orc", "opencpn", "array"),
                "call": rng.random() < 0.5, "again": rng.random() < 0.2}
        if kind == "table":
            case["tables"] = [a_table(rng)]
        elif kind == "cloud":
            case["points"] = [[number(rng, 0, 40), number(rng, -90, 359), number(rng, -3, 25)] for _ in range(rng.randint(0, 7) if j % 5 else 1)]
        elif kind == "curve":
            case["f"] = rng.randrange(100)
            case["radians"] = rng.random() < 0.5
            case["params"] = [pick(rng, number(rng, -3, 3), rng.randint(-4, 9)) for _ in range(12)]
        else:
            case["tables"] = [a_table(rng) for _ in range(rng.randint(1, 4) if j % 9 else 12)]
            names = ["jib", "spi:1", 'say "hi"', "", "a,b", "Sail 1", "ü", "two words", "1", "1.5", "None"]
            case["names"] = None if rng.random() < 0.3 else rng.sample(names, min(len(names), rng.randint(0, len(case["tables"]))))
        yield case


def build(case):
    if case["kind"] == "table":
        return tables(case)[0]
    if case["kind"] == "sails":
        return pol.PolarDiagramMultiSails(tables(case), *([] if case["names"] is None else [list(case["names"])]))
    if case["kind"] == "cloud":
        return pol.PolarDiagramPointcloud(np.array(case["points"], float).reshape(-1, 3))
    import inspect
    fs = sorted(x for x in MODEL_FUNCTIONS if x[0] != "_")
    f = MODEL_FUNCTIONS[fs[case["f"] % len(fs)]]
    n = [p for p in inspect.signature(f).parameters.values()]
    k = len(n) - 2 if n[-1].kind is not inspect.Parameter.VAR_POSITIONAL else 9
    try:
        return pol.PolarDiagramCurve(f, *case["params"][:k], radians=case["radians"])
    except Exception:  # noqa: BLE001 -- another number of parameters
        return None


def tables(case):
    return [pol.PolarDiagramTable(t["ws"], t["wa"], t["bsp"]) for t in case["tables"]]


def same_table(a, b):
    return np.array_equal(a.wind_speeds, b.wind_speeds) and np.array_equal(a.wind_angles, b.wind_angles) and np.array_equal(a.boat_speeds, b.boat_speeds)


def run(case):
    pd = build(case)
    if pd is None:
        return None
    with tempfile.TemporaryDirectory() as tmp:
        base = os.path.join(tmp, "in.side")
        os.makedirs(base)
        path = os.path.join(base, case["path"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        before = {os.path.join(d, f) for d, _, fs in os.walk(tmp) for f in fs}
        arg = pathlib.Path(path) if case["type"] == "path" else path
        kw = {"fmt": case["fmt"]} if case["kind"] == "table" else {}
        for _ in range(2 if case["again"] else 1):
            ok, r = attempt(pd.to_csv, arg, **kw)
            if not ok:
                return bad(f"to_csv raised {r!r}")
        parent = os.path.realpath(os.path.dirname(path))
        stray = [f for d, _, fs in os.walk(tmp) for f in fs if os.path.realpath(d) != parent]
        if stray:
            return bad(f"writing {case['path']} made files {stray} in another folder")
        ok, back = attempt(from_csv, arg, **kw)
        if not ok:
            return bad(f"from_csv raised {back!r}")
    if type(back) is not type(pd):
        return bad(f"{type(pd).__name__} came back as {type(back).__name__}")
    if case["kind"] == "table":
        if not same_table(pd, back):
            return bad(f"table {case['tables'][0]} came back as {back.wind_speeds}, {back.wind_angles}, {back.boat_speeds}")
    elif case["kind"] == "cloud":
        a, b = np.asarray(pd.points), np.asarray(back.points)
        if a.size != b.size or a.size and not np.array_equal(a, b):
            return bad(f"points {a} came back as {b}")
    elif case["kind"] == "sails":
        if list(pd.sails) != list(back.sails):
            return bad(f"sails {pd.sails} came back as {back.sails}")
        if len(pd.diagrams) != len(back.diagrams) or not all(same_table(a, b) for a, b in zip(pd.diagrams, back.diagrams)):
            return bad("the tables of the sails changed or swapped")
    else:
        if back.curve is not pd.curve or list(back.parameters) != list(pd.parameters) or bool(back.radians) != bool(pd.radians):
            return bad(f"curve {pd.curve.__name__} {pd.parameters} {pd.radians} came back as {back.curve.__name__} {back.parameters} {back.radians}")
        if case["call"]:
            with np.errstate(all="ignore"):
                a, b = (attempt(x, 7.5, 1.2 if case["radians"] else 77.0) for x in (pd, back))
            if a[0] != b[0] or a[0] and not np.array_equal(np.asarray(a[1], float), np.asarray(b[1], float), equal_nan=True):
                return bad(f"predictions changed from {a} to {b}")
    return None
