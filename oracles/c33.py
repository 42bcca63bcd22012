"""both regressors on random models and data: linear models against the normal equations (numpy.linalg.lstsq), other models against nearby parameters and, without
noise, the parameters the data were made with; fits do not depend on earlier fits, other regressors or the order of the data and change nothing"""
from oracles.util import *
from hrosailing.processing import LeastSquareRegressor, ODRegressor
from hrosailing.core import modelfunctions as mf

BASE = [lambda s, a: np.ones_like(s), lambda s, a: s / 10, lambda s, a: a / 100, lambda s, a: s * a / 1000, lambda s, a: np.sin(np.deg2rad(a)),
        lambda s, a: np.cos(np.deg2rad(2 * a)), lambda s, a: s**2 / 100, lambda s, a: np.exp(-s / 10)]
CURVED = {"gauss": (lambda s, a, p, q: p * s * np.exp(-(((a - 180) / (60 + 40 * q)) ** 2)), [(0.3, 1.2), (0.5, 1.5)]),
          "decay": (lambda s, a, p, q: p * 10 * (1 - np.exp(-q * s / 10)) * (1 + np.sin(np.deg2rad(a / 2))), [(0.3, 1.2), (0.5, 1.5)]),
          "power": (lambda s, a, p, q: p * (s + 1) ** q + a / 100, [(0.3, 1.2), (0.5, 0.9)])}


def cases(rng, tier):
    for _ in range(500 if tier == "quick" else 8000):
        yield {"kind": pick(rng, "least", "odr"), "model": pick(rng, "linear", "linear", "linear", *CURVED), "style": pick(rng, "named", "star", "part", "all"),
               "init": rng.random() < 0.6, "noise": rng.random() < 0.7, "seed": rng.randrange(10**6), "int": rng.random() < 0.2, "again": rng.random() < 0.4,
               "other": rng.random() < 0.3, "order": rng.random() < 0.3}


def named(f, k, style):
    "the model with its parameters in another form"
    if style == "star":
        return lambda ws, wa, *p: f(ws, wa, *p[:k])if len(p) <= k and p[k - 1] is not None else 1 / 0
    if style == "all":
        return lambda *x: f(x[0], x[1], *[x[2 + j] for j in range(k)])
    if style == "part":
        return lambda ws, wa, *p: f(ws, wa, *[p[j] for j in range(k)])
    names = ", ".join("abcdefghijk"[:k])
    env = {"f": f}
    exec(f"def model(ws, wa, {names}): return f(ws, wa, {names})", env)
    return env["model"]


def run(case):
    import random
    rng = random.Random(case["seed"])
    linear = case["model"] == "linear"
    if linear:
        funs = rng.sample(BASE, rng.choice((1, 2, 3, 4)))
        k = len(funs)
        true = [rng.uniform(-3, 3) for _ in funs]

        def f(s, a, *p):
            if len(p) != k:
                raise TypeError("wrong number of parameters")
            return sum(x * np.broadcast_to(g(np.asarray(s, float), np.asarray(a, float)), np.shape(s)) for x, g in zip(p, funs))
    else:
        f, ranges = CURVED[case["model"]]
        k = len(ranges)
        true = [rng.uniform(*r) for r in ranges]
    style = case["style"]
    g = named(f, k, style)

    def data(n):
        d = np.array([[num(rng, 0, 30), num(rng, 0, 359.9), 0.0] for _ in range(n)])
        if case["int"]:
            d = np.round(d)
        d[:, 2] = f(d[:, 0], d[:, 1], *true)
        if case["noise"]:
            d[:, 2] += [rng.gauss(0, 0.3) for _ in range(n)]
        return np.round(d).astype(int) if case["int"] else d

    init = [1.0] * k if linear else [t * rng.uniform(0.85, 1.15) for t in true]
    n = rng.choice((k + 2, k + 6, 30, 60))
    d = data(n)

    def new():
        if case["kind"] == "odr":
            return ODRegressor(g, init)
        return LeastSquareRegressor(g, init if case["init"] or not linear else None)

    r = new()
    if r.model_func is not g:
        return bad("model_func is not the given function")
    if r.optimal_params is not None:
        return bad("optimal_params before the fit")
    if case["again"]:
        r.fit(data(k + 8))
    if case["other"]:
        new().fit(data(k + 8))
    before = d.copy()
    r.fit(d)
    if not np.array_equal(before, d) or d.dtype != before.dtype:
        return bad("the data were changed")
    if case["other"]:
        q = new()
        q.fit(data(k + 8))
    if r.model_func is not g:
        return bad("model_func is not the given function after the fit")
    p = np.asarray(r.optimal_params, float)
    if p.shape != (k,):
        return bad(f"{p} for a model with {k} parameters ({case['kind']}, {style}, initial values given: {case['init']})")
    s, a, b = (np.asarray(x, float) for x in d.T)
    sse = lambda p: float(np.sum((b - f(s, a, *p)) ** 2))
    got = sse(p)
    if linear:
        A = np.column_stack([np.broadcast_to(h(s, a), s.shape) for h in funs])
        if np.linalg.matrix_rank(A, 1e-6 * np.linalg.norm(A)) < k or np.linalg.cond(A) > 1e4:
            return None
        want = np.linalg.lstsq(A, b, rcond=None)[0]
        if got > sse(want) * (1 + 1e-5) + 1e-6 or not np.allclose(p, want, rtol=1e-3, atol=1e-3):
            return bad(f"parameters {p} with error {got}; {want} have {sse(want)} ({case['kind']}, {style})")
    else:
        if not case["noise"] and not case["int"] and got > 1e-6 * (1 + float(np.sum(b**2))):
            return bad(f"parameters {p} with error {got} for data made with {true}")
        for j in range(k):
            for e in (-1, 1):
                q = p.copy()
                q[j] += e * 0.01 * (abs(q[j]) + 0.1)
                if sse(q) < got * (1 - 1e-6) - 1e-8:
                    return bad(f"{q} has less error ({sse(q)}) than the result {p} ({got}; {case['kind']}, {case['model']})")
    if case["again"] or case["other"]:
        q = new()
        q.fit(d)
        if not np.allclose(np.asarray(q.optimal_params, float), p, rtol=1e-3, atol=1e-3):
            return bad(f"{r.optimal_params} after other fits, {q.optimal_params} without")
    if case["order"] and linear:
        o = list(range(n))
        rng.shuffle(o)
        q = new()
        q.fit(d[o])
        if not np.allclose(q.optimal_params, p, rtol=1e-3, atol=1e-3):
            return bad(f"{q.optimal_params} for the same data in another order, {p}")
    return None
