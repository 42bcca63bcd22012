"""chronological tables go through AffineSmoother; an independent reference finds the stretches of constant measurements and says between
which values every measurement has to be interpolated; times, text, order and the number of rows stay; unordered series are rejected"""
from datetime import datetime, timedelta

from oracles.util import *
from hrosailing.core.data import Data
from hrosailing.processing.smoother import AffineSmoother, LazySmoother

T0 = datetime(2021, 5, 1, 12)


def cases(rng, tier):
    for j in range(3000 if tier == "quick" else 30000):
        n = rng.randint(1, 9) if j % 30 else rng.randint(30, 90)
        if j % 53 == 0:
            n = 0
        t, ts = 0.0, []
        steps = pick(rng, (1.0, 2.0, 0.5), (20.0,), (10.0, 30.0, 60.0, 61.0, 120.0), (0.25, 5.0, 300.0), (0.0, 10.0, 40.0))
        for _ in range(n):
            ts.append(t)
            t += rng.choice(steps)
        cols = {}
        for name in rng.sample(["TWS", "TWA", "BSP", "heel"], rng.randint(0, 3)):
            x, col = num(rng, -10, 30), []
            p = pick(rng, 0.1, 0.4, 0.8, 1.0, 0.0)
            for _ in range(n):
                if rng.random() < p:
                    x = pick(rng, num(rng, -10, 30), num(rng, -10, 30), x + 1, 0.0, col[-2] if len(col) > 1 else 1.0)
                col.append(x)
            cols[name] = col
        yield {"times": ts, "cols": cols, "span": pick(rng, None, None, 0.0, 15.0, 5.0, 1.0, 0.1, 100.0), "text": rng.random() < 0.4,
               "pos": rng.randint(0, len(cols)), "shuffle": rng.choice((0, 0, 0, 0, 1, 2)), "lazy": rng.random() < 0.05,
               "a": rng.random(), "b": rng.random()}


def want(ts, ys, span):
    "value of every row, None where two measurements at the same moment leave it open"
    n, out = len(ys), []
    first = [0]
    for i in range(1, n):
        if ys[i] != ys[i - 1]:
            first.append(i)
    last = [f - 1 for f in first[1:]] + [n - 1]
    r = 0
    for i in range(n):
        while i > last[r]:
            r += 1
        y = ys[i]
        lb = (ts[first[r] - 1] + ts[first[r]]) / 2 if r > 0 else ts[0]
        ub = (ts[last[r]] + ts[last[r] + 1]) / 2 if r < len(first) - 1 else ts[-1]
        y0 = (ys[first[r] - 1] + y) / 2 if r > 0 else y
        y1 = (ys[last[r] + 1] + y) / 2 if r < len(first) - 1 else y
        reach = min(span, (ub - lb) / 2)
        x = ts[i]
        if reach and x < lb + reach:
            y = y0 + (x - lb) / reach * (y - y0)
        elif reach and x > ub - reach:
            y = y1 + (ub - x) / reach * (y - y1)
        out.append(y)
    return out


def run(case):
    ts, cols = case["times"], {k: list(v) for k, v in case["cols"].items()}
    n = len(ts)
    times = [T0 + timedelta(seconds=x) for x in ts]
    if case["shuffle"] and n >= 2:
        i, j = int(case["a"] * n), int(case["b"] * n)
        times[i], times[j] = times[j], times[i]
        ordered = all(x <= y for x, y in zip(times, times[1:]))
    else:
        ordered = True
    items = [(k, list(v)) for k, v in cols.items()]
    items.insert(case["pos"], ("datetime", times))
    if case["text"]:
        items.append(("note", [chr(97 + i % 7) for i in range(n)]))
    d = Data.from_dict(dict(items)) if n else Data.from_dict({k: v or [T0 if k == "datetime" else "a" if k == "note" else 1.0] for k, v in items})
    if not n:
        d = d[[False]]
    if case["lazy"]:
        sm = LazySmoother()
    else:
        sm = AffineSmoother() if case["span"] is None else AffineSmoother(timedelta(seconds=case["span"]))
    ok, r = attempt(sm.smooth, d)
    if not case["lazy"] and not ordered:
        return None if not ok and isinstance(r, ValueError) else bad(f"a series that is not chronological gives {r!r} instead of a ValueError")
    if not ok:
        return bad(f"smooth raised {r!r}")
    if r.keys() != [k for k, _ in items] or r.n_rows != n:
        return bad(f"columns {r.keys()}, {r.n_rows} rows; expected {[k for k, _ in items]} and {n}")
    for k, v in items:
        got = list(r[k])
        if len(got) != n:
            return bad(f"column {k} has {len(got)} entries instead of {n}")
        if case["lazy"] or k in ("datetime", "note"):
            if got != v:
                return bad(f"column {k} changed from {v} to {got}")
            continue
        if n and not all(min(v) - 1e-9 <= x <= max(v) + 1e-9 for x in got):
            return bad(f"{k}: {v} is smoothed to {got}, which leaves the range of the measurements")
        if n and all(b > a for a, b in zip(ts, ts[1:])):
            exp = want(ts, v, 30.0 if case["span"] is None else case["span"])
            if not close(got, exp, 1e-6):
                return bad(f"{k}: at {ts} the measurements {v} are smoothed to {got}, expected {exp}")
    return None
