"""random weight vectors (0..25 entries, ties, bounds hit exactly) through both filters; filters applied repeatedly; statistics"""
from oracles.util import *
from hrosailing.processing import filter as F


def cases(rng, tier):
    for _ in range(3000 if tier == "quick" else 30000):
        n = rng.randint(0, 25)
        vals = [num(rng, -1, 2, (0.0, 0.5, 1.0)) for _ in range(rng.randint(1, max(1, n)))]
        yield {"w": [rng.choice(vals) for _ in range(n)], "w0": [num(rng, 0, 1) for _ in range(rng.randint(0, 5))], "p": num(rng, 0, 100, (0.0, 50.0, 100.0, 10.0, 33.3)),
               "lo": num(rng, -1, 2, (0.5,)), "hi": num(rng, -1, 2, (1.0,)), "bad": pick(rng, -1, 100.5, 1000)}


def stats(f, m):
    s = f.get_latest_statistics()
    k = sum(map(bool, m))
    if (s.get("n_filtered_points"), s.get("n_rows")) != (len(m) - k, k):
        return bad(f"statistics {s} for mask {list(m)}")


def run(case):
    w = np.array(case["w"], float)
    keep = w.copy()
    n = len(w)
    if not raises(F.QuantileFilter, case["bad"]):
        return bad(f"percentage {case['bad']} accepted")
    lo, hi = case["lo"], case["hi"]
    if hi < lo:
        if not raises(F.BoundFilter, lo, hi):
            return bad(f"bounds {lo} > {hi} accepted")
    else:
        f = F.BoundFilter(lo, hi)
        f.filter(np.array(case["w0"]))
        m = f.filter(w)
        if [bool(x) for x in m] != [lo <= x <= hi for x in case["w"]]:
            return bad(f"bounds [{lo}, {hi}] on {case['w']}: {m}")
        r = stats(f, m)
        if r:
            return r
    p = case["p"]
    f = F.QuantileFilter(p)
    f.filter(np.array(case["w0"]))
    m = f.filter(w)
    if not np.array_equal(w, keep):
        return bad("weights modified")
    if len(m) != n:
        return bad(f"{len(m)} flags for {n} weights")
    if n == 0:
        return None
    kept, gone = [x for x, k in zip(case["w"], m) if k], [x for x, k in zip(case["w"], m) if not k]
    if not kept:
        return bad("everything removed")
    if gone and max(gone) >= min(kept):
        return bad(f"{p} % of {case['w']}: removed {max(gone)}, kept {min(kept)}")
    if 100 * len(gone) > p * n + 1e-6:
        return bad(f"{p} % of {case['w']}: {len(gone)} of {n} removed")
    more = len(gone) + kept.count(min(kept))
    if more < n and 100 * more < p * n - 1e-6:
        return bad(f"{p} % of {case['w']}: only {len(gone)} removed, {more} allowed")
    return stats(f, m)
