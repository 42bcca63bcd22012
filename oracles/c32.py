"""weighted points (arrays, tables, dictionaries; arrays, lists and scalars as weights) under chains of masks and extensions, against a list of
(point, weight) pairs"""
import copy

from oracles.util import *
from hrosailing.core.data import Data, WeightedPoints


def cases(rng, tier):
    for k in range(1500 if tier == "quick" else 15000):
        big = 80 if k % 100 == 0 else 5
        parts = []
        for _ in range(rng.randint(1, 4)):
            n = rng.randint(0 if parts else 1, big)
            parts.append({"pts": [[num(rng, -9, 9) for _ in range(3)] for _ in range(n)], "w": [num(rng, 0, 1, (0.0, 1.0)) for _ in range(n)],
                          "order": rng.sample(range(3), 3), "mask": [rng.random() < 0.6 for _ in range(n * 8 + 40)]})
        yield {"form": pick(rng, "array", "data", "dict"), "parts": parts, "weights": pick(rng, "array", "list", "scalar", "one", "np"),
               "maskform": pick(rng, "array", "list")}


def make(case, part):
    pts, w = part["pts"], part["w"]
    cols = {("TWS", "TWA", "BSP")[i]: [p[i] for p in pts] for i in part["order"]}
    data = {"array": lambda: np.array(pts, float).reshape(-1, 3), "data": lambda: Data.from_dict(cols), "dict": lambda: cols}[case["form"]]()
    kind = case["weights"]
    if kind in ("scalar", "one", "np"):
        s = {"scalar": w[0] if w else 0.5, "one": 1, "np": np.int64(2)}[kind]
        return WeightedPoints(data, s), [[*p, float(s)] for p in pts]
    return WeightedPoints(data, np.array(w) if kind == "array" else list(w)), [[*p, x] for p, x in zip(pts, w)]


def pairs(wp):
    d = wp.data
    rows = d if isinstance(d, np.ndarray) else list(d.rows(["TWS", "TWA", "BSP"], list)) if isinstance(d, Data) else list(zip(d["TWS"], d["TWA"], d["BSP"]))
    w = np.asarray(wp.weights)
    if w.ndim != 1 or len(w) != len(rows):
        return f"weights of shape {w.shape} for {len(rows)} points"
    return [[*map(float, p), float(x)] for p, x in zip(rows, w)]


def run(case):
    parts = case["parts"]
    wp, ref = make(case, parts[0])
    log = [f"{case['form']}, weights as {case['weights']}: {ref}"]
    for k, part in enumerate(parts[1:] + [None]):
        if pairs(wp) != ref:
            return bad(f"{' ; '.join(log)[-400:]} gives {pairs(wp)}")
        m = parts[k]["mask"][:len(ref)]
        m += [True] * (len(ref) - len(m))
        before = copy.deepcopy(pairs(wp))
        if ref:
            new = wp[np.array(m) if case["maskform"] == "array" else m]
            if pairs(wp) != before:
                return bad(f"{' ; '.join(log)[-400:]}: mask changes the points it was taken from")
            ref = [p for p, f in zip(ref, m) if f]
            wp = new
            log.append(f"mask {m}")
            if pairs(wp) != ref:
                return bad(f"{' ; '.join(log)[-400:]} gives {pairs(wp)}")
        if part is None:
            break
        other, oref = make(case, part)
        wp.extend(other)
        log.append(f"extend {oref}")
        if pairs(other) != oref:
            return bad(f"{' ; '.join(log)[-400:]}: extending changes the appended points to {pairs(other)}")
        ref = ref + oref
        if pairs(wp) != ref:
            return bad(f"{' ; '.join(log)[-400:]} gives {pairs(wp)}")
    return None
