"""chronological tables with missing numbers, text, times and whole columns go through both imputators; an independent reference decides
which rows and columns stay, which entries are filled, and from which measurements"""
from datetime import datetime, timedelta

from oracles.util import *
from hrosailing.core.data import Data
from hrosailing.processing.imputator import FillLocalImputator, RemoveOnlyImputator

T0 = datetime(2021, 5, 1, 12)


def cases(rng, tier):
    for j in range(2500 if tier == "quick" else 20000):
        n = rng.randint(1, 12) if j % 40 else rng.randint(60, 120)
        pn = pick(rng, 0.1, 0.3, 0.6, 0.85)
        cols = {}
        for name in rng.sample(["TWS", "BSP", "lat", "note", "heel"], rng.randint(0, 4)):
            p = 1.0 if rng.random() < 0.12 else pn
            cols[name] = [None if rng.random() < p else (rng.choice("abc") if name == "note" else pick(rng, float(i), 0.0, num(rng, -5, 5))) for i in range(n)]
        t, ts = 0.0, []
        for i in range(n):
            ts.append(t)
            t += pick(rng, 0, 1, 30, 60, 100, 150, 600) + rng.choice((0, 0, 0.25))
        pt = pick(rng, 0.0, 0.2, 0.6)
        ts = [None if rng.random() < pt else x for x in ts]
        if all(x is None for x in ts):
            ts[rng.randrange(n)] = 5.0
        yield {"cols": cols, "times": ts, "max": pick(rng, 120, 60, 31, 400, 7), "kind": pick(rng, "remove", "fill", "fill", "fill", "default"),
               "pos": rng.randint(0, len(cols)), "again": rng.random() < 0.2}


def table(case):
    items = [(k, list(v)) for k, v in case["cols"].items()]
    items.insert(case["pos"], ("datetime", [None if x is None else T0 + timedelta(seconds=x) for x in case["times"]]))
    return Data.from_dict(dict(items))


def run(case):
    d = table(case)
    cols, names = {k: list(d[k]) for k in d.keys()}, list(d.keys())
    n = d.n_rows
    calls = []

    def before(name, right, mu):
        calls.append(("before", name, right, None, mu))
        return right if isinstance(right, str) else right + 1000.5

    def between(name, left, right, mu):
        calls.append(("between", name, left, right, mu))
        return left if isinstance(left, str) else 2000.0 + left + 7 * right + mu

    def after(name, left, mu):
        calls.append(("after", name, left, None, mu))
        return left if isinstance(left, str) else left + 3000.5 + mu

    # half a millisecond: no time difference equals the bound
    bound = timedelta(seconds=case["max"], microseconds=500)
    if case["kind"] == "remove":
        imp = RemoveOnlyImputator()
    elif case["kind"] == "fill":
        imp = FillLocalImputator(before, between, after, bound)
    else:
        imp = FillLocalImputator(max_time_diff=bound)
    if case["again"]:
        imp.impute(table(case))
        calls.clear()
    ok, r = attempt(imp.impute, d)
    if not ok:
        return bad(f"impute raised {r!r}")
    if case["kind"] == "remove":
        want, filled = {k: list(v) for k, v in cols.items()}, 0
    else:
        want, filled = reference(cols, n, bound, case["kind"], before, between, after, calls)
        if isinstance(want, str):
            return bad(want)
    keep = [i for i in range(n) if all(want[k][i] is not None for k in want)]
    if sorted(r.keys()) != sorted(want):
        return bad(f"columns {sorted(r.keys())}, expected {sorted(want)}")
    for k in want:
        exp = [want[k][i] for i in keep]
        if len(r[k]) != len(exp) or r.n_rows != len(exp):
            return bad(f"{len(r[k])} rows remain in {k}, expected {len(exp)}")
        for x, y in zip(r[k], exp):
            if type(x) is not type(y) or (abs((x - y).total_seconds()) > 1e-3 if isinstance(y, datetime) else
                                          abs(x - y) > 1e-4 if isinstance(y, float) else x != y):
                return bad(f"column {k}: {r[k]}, expected {exp}")
    st = imp.get_latest_statistics()
    exp = {"n_removed_cols": len(cols) - len(want), "n_removed_rows": n - len(keep), "n_filled_fields": filled, "n_rows": len(keep),
           "n_cols": len(want)}
    for k, x in exp.items():
        if st.get(k) != x:
            return bad(f"statistics {k} = {st.get(k)}, expected {x}")


def reference(cols, n, bound, kind, before, between, after, calls):
    mine = list(calls)
    for c in mine:
        if not -1e-9 <= c[4] <= 1 + 1e-9:
            return f"relative position {c[4]} passed to fill_{c[0]}", 0
    calls.clear()
    want = {k: list(v) for k, v in cols.items() if any(x is not None for x in v)}
    t = want["datetime"]
    have = [i for i in range(n) if t[i] is not None]
    for a, b in zip(have, have[1:]):
        if t[b] - t[a] < bound:
            for j in range(a + 1, b):
                t[j] = t[a] + (t[b] - t[a]) * (j - a) / (b - a)
    filled = 0
    for k in want:
        if k == "datetime":
            continue
        orig = list(want[k])
        src = [i for i in range(n) if orig[i] is not None and t[i] is not None]
        for i in range(n):
            if orig[i] is not None or t[i] is None:
                continue
            lo = [j for j in src if j < i and t[i] - t[j] < bound]
            hi = [j for j in src if j > i and t[j] - t[i] < bound]
            if not lo and not hi:
                continue
            filled += 1
            if not lo:
                x = orig[hi[0]]
                mus = [c[4] for c in mine if c[0] == "before" and c[1] == k and c[2] == x]
                if kind == "fill" and not mus:
                    return f"fill_before not used for row {i} of {k}", 0
                want[k][i] = before(k, x, mus[0] if mus else 0) if kind == "fill" else x
            elif not hi or t[hi[0]] - t[lo[-1]] > bound:
                x = orig[lo[-1]]
                want[k][i] = after(k, x, (t[i] - t[lo[-1]]) / bound) if kind == "fill" else x
            else:
                x, y = orig[lo[-1]], orig[hi[0]]
                gap = t[hi[0]] - t[lo[-1]]
                mu = (t[i] - t[lo[-1]]) / gap if gap else None
                if mu is None:
                    mus = [c[4] for c in mine if c[0] == "between" and c[1] == k and c[2] == x and c[3] == y]
                    mu = mus[0] if mus else 0
                want[k][i] = between(k, x, y, mu) if kind == "fill" else x
    return want, filled
