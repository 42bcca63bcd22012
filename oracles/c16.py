"""random fuzzy expressions (depth 0..4, default and given sharpness, item access) against a direct evaluation; De Morgan, double
negation, truth values within [0, 1], monotonicity of comparisons; FuzzyWeigher on arrays and Data"""
import math
from oracles.util import *
from hrosailing.core.data import Data
from hrosailing.processing import weigher as W
KEYS = ["A", "B", "C"]


def tree(rng, d):
    if d == 0 or rng.random() < 0.2:
        return ["cmp", pick(rng, "<", "<=", ">", ">=", "=="), rng.randint(0, 2), num(rng, -2, 2, (0.0, 1.0)),
                pick(rng, None, None, num(rng, 0.5, 8)), pick(rng, "var", "keyed", "expr", "base", "base")]
    op = pick(rng, "&", "|", "~")
    return [op, tree(rng, d - 1)] + ([tree(rng, d - 1)] if op != "~" else [])


def cases(rng, tier):
    for _ in range(2500 if tier == "quick" else 20000):
        yield {"tree": tree(rng, rng.randint(0, 4)), "rows": rows(rng, rng.randint(1, 5), [lambda: num(rng, -2, 2, (0.0, 1.0))] * 3),
               "s": [num(rng, 0.5, 8, (10.0,)) for _ in range(3)], "data": rng.random() < 0.5}


def sig(z):
    return 1 / (1 + math.exp(max(-700, min(700, z))))


def spec(t, row, s):
    if t[0] == "~":
        return 1 - spec(t[1], row, s)
    if t[0] == "&":
        return min(spec(t[1], row, s), spec(t[2], row, s))
    if t[0] == "|":
        return max(spec(t[1], row, s), spec(t[2], row, s))
    _, op, k, a, given, how = t
    sh = given if given is not None else s[0] if how == "base" else s[k]
    lt, gt = sig(sh * (row[k] - a)), sig(-sh * (row[k] - a))
    return {"<": lt, "<=": lt, ">": gt, ">=": gt, "==": min(lt, gt)}[op]


def build(t, xs, keys, s):
    if t[0] == "~":
        return ~build(t[1], xs, keys, s)
    if t[0] == "&":
        return build(t[1], xs, keys, s) & build(t[2], xs, keys, s)
    if t[0] == "|":
        return build(t[1], xs, keys, s) | build(t[2], xs, keys, s)
    _, op, k, a, given, how = t
    if how == "base":
        # one shared variable without key: x(s)[key] < a, x[key](s) < a and x[key] < a mixed in one session
        v = xs[3][keys[k]] if given is None else xs[3](given)[keys[k]] if a > 0 else xs[3][keys[k]](given)
        given = None
    elif how == "var":
        v = xs[k]
    elif how == "keyed":
        v = W.FuzzyVariable(sharpness=s[k])[keys[k]]
    else:
        v = W.FuzzyVariable(sharpness=s[k])
    if given is not None:
        v = v(given)
    b = {"<": lambda: v < a, "<=": lambda: v <= a, ">": lambda: v > a, ">=": lambda: v >= a, "==": lambda: v == a}[op]()
    return b[keys[k]] if how == "expr" else b


def run(case):
    keys = KEYS if case["data"] else [0, 1, 2]
    xs = [W.FuzzyVariable(sharpness=case["s"][k], key=keys[k]) for k in range(3)] + [W.FuzzyVariable(sharpness=case["s"][0])]
    ok, b = attempt(build, case["tree"], xs, keys, case["s"])
    if not ok:
        return bad(f"{case['tree']}: {type(b).__name__}: {b}")
    fw = W.FuzzyWeigher(b)
    pts = Data.from_dict({k: [float(r[j]) for r in case["rows"]] for j, k in enumerate(KEYS)}) if case["data"] else np.array(case["rows"], float)
    keep = None if case["data"] else pts.copy()
    ok, w = attempt(fw.weigh, pts)
    if not ok:
        return bad(f"{case['tree']}: {type(w).__name__}: {w}")
    exp = [spec(case["tree"], r, case["s"]) for r in case["rows"]]
    if np.shape(w) != (len(exp),) or not close(np.asarray(w, float), exp, 1e-9):
        return bad(f"{case['tree']}: {np.asarray(w).tolist()} instead of {exp}")
    if keep is not None and not np.array_equal(keep, pts):
        return bad("data modified")
    if not all(0 <= float(x) <= 1 for x in w):
        return bad(f"truth values {w} outside [0, 1]")
    if wrong := weight_statistics(fw.get_latest_statistics(), w):
        return bad(f"{case['tree']}: statistics: {wrong}")
    inv = W.FuzzyWeigher(~b).weigh(pts)
    if not close(inv, [1 - x for x in exp], 1e-9):
        return bad(f"~{case['tree']}: {inv}")
    if not isinstance(str(b), str):
        return bad("no representation")
