"""random expression trees over weighers, numbers and arrays with every documented operator, evaluated next to the same expression on
the plain weights; leaves are built-in weighers and weighers returning lists; arrays and Data"""
from oracles.util import *
from hrosailing.core.data import Data
from hrosailing.processing import weigher as W


class Leaf(W.Weigher):
    def __init__(self, ws, as_list):
        super().__init__()
        self.ws, self.as_list = ws, as_list

    def weigh(self, points):
        return list(self.ws) if self.as_list else np.array(self.ws)


def tree(rng, d, n):
    if d == 0 or rng.random() < 0.15:
        return ["leaf", [num(rng, 0.1, 3, (1.0,)) for _ in range(n)], rng.random() < 0.5] if rng.random() < 0.8 else ["one"]
    op = pick(rng, "+", "-", "*", "/", "neg", "pow", "+", "*")
    if op == "neg":
        return ["neg", tree(rng, d - 1, n)]
    if op == "pow":
        return ["pow", tree(rng, d - 1, n), rng.randint(0, 3)]
    other = pick(rng, "w", "x", "a")
    if other == "w":
        return [op, tree(rng, d - 1, n), tree(rng, d - 1, n)]
    if other == "x":
        c = ["x", pick(rng, num(rng, 0.5, 3), rng.randint(1, 3))]
    else:
        c = ["a", [num(rng, 0.5, 3) for _ in range(n)]]
    t = tree(rng, d - 1, n)
    if op == "-" or rng.random() < 0.5:
        return [op, t, c]
    return [op, c, t]


def cases(rng, tier):
    for _ in range(2500 if tier == "quick" else 20000):
        n = rng.randint(1, 6)
        yield {"n": n, "tree": tree(rng, rng.randint(1, 4), n), "data": rng.random() < 0.3}


def build(t, n):
    k = t[0]
    if k == "leaf":
        return Leaf(t[1], t[2]), np.array(t[1], float)
    if k == "one":
        return W.AllOneWeigher(), np.ones(n)
    if k == "x":
        return t[1], t[1]
    if k == "a":
        return np.array(t[1], float), np.array(t[1], float)
    a, x = build(t[1], n)
    if k == "neg":
        return -a, -x
    if k == "pow":
        return a ** t[2], x ** t[2]
    b, y = build(t[2], n)
    f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q}[k]
    return f(a, b), f(x, y)


def run(case):
    n = case["n"]
    ok, r = attempt(build, case["tree"], n)
    if not ok:
        return bad(f"{case['tree']}: {type(r).__name__}: {r}")
    wg, exp = r
    if not isinstance(wg, W.Weigher):
        return bad(f"{case['tree']} is a {type(wg).__name__}, not a weigher")
    pts = Data.from_dict({"TWS": [1.0] * n, "TWA": [2.0] * n, "BSP": [3.0] * n}) if case["data"] else np.arange(3.0 * n).reshape(n, 3)
    for _ in range(2):
        with np.errstate(all="ignore"):
            ok, w = attempt(wg.weigh, pts)
        if not ok:
            return bad(f"{case['tree']}: {type(w).__name__}: {w}")
        if not np.all(np.isfinite(exp)) or np.max(np.abs(exp)) > 1e12:
            return None
        if not close(w, exp):
            return bad(f"{case['tree']}: weights {np.asarray(w).tolist()} instead of {exp.tolist()}")
    if case["tree"][0] not in ("leaf", "one"):
        if wrong := weight_statistics(wg.get_latest_statistics(), w):
            return bad(f"{case['tree']}: statistics: {wrong}")
