"""every model function on random parameters, numbers and arrays (any shape), against the documented formula written out again; curves of
random model functions in degrees and radians, angles far outside the circle, negative wind speeds"""
from oracles.util import *
import hrosailing.core.modelfunctions as F
from hrosailing.core.modelfunctions import _models2d as D
from hrosailing.polardiagram import PolarDiagramCurve
E = np.exp
g = lambda x, a, b, s: a * E(-(x - b) ** 2 / (2 * s))
s = lambda x, a, b, m: m / (1 + E(a - b * x))
TWO = {
    "ws_times_wa": (1, (), lambda x, y, a: a[0] * x * y),
    "ws_concave_dt_wa": (11, (), lambda x, y, a: a[0] + a[1] * x - a[2] * x ** 2 + a[3] * y + a[5] * (y - a[4]) ** 2 + a[6] * x * y + a[7] * (360 - y)
                         + a[9] * (360 - y - a[8]) ** 2 + a[10] * x * (360 - y)),
    "ws_wa_s_dt": (14, (), lambda x, y, a: s(x, *a[:3]) - a[3] * x ** 2 + s(y, *a[4:7]) - a[7] * y ** 2 + a[8] * x * y + s(360 - y, *a[9:12])
                   - a[12] * (360 - y) ** 2 + a[13] * x * (360 - y)),
    "ws_s_dt_wa_gauss": (10, (6, 9), lambda x, y, a: s(x, *a[:3]) - a[3] * x ** 2 + g(y, *a[4:7]) + g(360 - y, *a[7:10])),
    "ws_s_s_dt_wa_gauss_comb": (12, (6, 10), lambda x, y, a: s(x, *a[:3]) - a[3] * x ** 2 + g(y, *a[4:7]) + a[7] * x * y + g(360 - y, *a[8:11])
                                + a[11] * x * (360 - y)),
    "ws_s_wa_gauss": (9, (5, 8), lambda x, y, a: s(x, *a[:3]) + g(y, *a[3:6]) + g(360 - y, *a[6:9])),
    "ws_s_wa_gauss_and_square": (10, (6, 9), lambda x, y, a: (s(x, *a[:3]) - a[3] * x ** 2 + x * (g(y, *a[4:7]) + g(360 - y, *a[7:10]))) * y * (360 - y)),
}
ONE = {
    "polynomial_function": (5, {"deg": 4}, (), lambda x, a: sum(c * x ** k for k, c in enumerate(a))),
    "polynomial_function ": (2, {}, (), lambda x, a: a[0] + a[1] * x),
    "inverted_parabola": (3, {}, (), lambda x, a: a[1] + a[2] * (x - a[0]) ** 2),
    "inverted_shifted_parabola": (3, {}, (), lambda x, a: a[0] * x + a[2] * (x - a[1]) ** 2),
    "concave_function": (3, {}, (), lambda x, a: a[0] + a[1] * x - a[2] * x ** 2),
    "concave_function ": (3, {"downturn": False, "sat_limit": True}, (), lambda x, a: a[2] - a[0] * E(a[1] - x)),
    "concave_function  ": (4, {"sat_limit": True}, (), lambda x, a: a[2] - a[0] * E(a[1] - x) - a[3] * x ** 2),
    "s_shaped": (4, {}, (), lambda x, a: s(x, *a[:3]) - a[3] * x ** 2),
    "s_shaped ": (3, {"downturn": False}, (), lambda x, a: s(x, *a)),
    "gaussian_model": (3, {}, (2,), lambda x, a: g(x, *a)),
    "gaussian_model ": (4, {"offset": True}, (2,), lambda x, a: g(x, *a[:3]) + a[3]),
    "gmm_model": (7, {}, (2, 5), lambda x, a: g(x, *a[:3]) + g(x, *a[3:6]) + a[6]),
}


def cases(rng, tier):
    for _ in range(2000 if tier == "quick" else 20000):
        what = pick(rng, "two", "two", "one", "curve")
        name = rng.choice(sorted(ONE if what == "one" else TWO))
        k = (ONE if what == "one" else TWO)[name][0]
        pos = ONE[name][2] if what == "one" else TWO[name][1]
        a = [num(rng, 0.5, 900) if j in pos else num(rng, -3, 3, (0.0, 1.0)) for j in range(k)]
        if what != "one" and name in ("ws_wa_s_dt",):
            a[5] = a[5] / 50
            a[10] = a[10] / 50
        n = pick(rng, None, 1, 2, 3, 5)
        m = n or 1
        case = {"what": what, "name": name, "a": a, "n": n, "x": [num(rng, 0, 25) for _ in range(m)], "y": [num(rng, 0, 360, ANGLES[:8]) for _ in range(m)]}
        if what == "one" and rng.random() < 0.4:
            case["x"] = [num(rng, -25, 25) for _ in range(m)]
        if what == "curve":
            case.update(rad=rng.random() < 0.5, turns=[rng.randint(-2, 2) for _ in range(m)], neg=rng.random() < 0.1)
        yield case


def ok_eq(got, exp):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    return got.shape == exp.shape and np.allclose(got, exp, rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(exp), initial=0)))


def run(case):
    a, n, name = case["a"], case["n"], case["name"].strip()
    x, y = (case["x"][0], case["y"][0]) if n is None else (np.array(case["x"]), np.array(case["y"]))
    keep = np.array(x), np.array(y)
    with np.errstate(all="ignore"):
        if case["what"] == "one":
            _, kw, _, f = ONE[case["name"]]
            exp = f(np.asarray(x), a)
            ok, r = attempt(getattr(D, name), x, *a, **kw)
            what = f"{name}{kw}({case['x']}, {a})"
        elif case["what"] == "two":
            exp = TWO[name][2](np.asarray(x), np.asarray(y), a)
            ok, r = attempt(getattr(F, name), x, y, *a)
            what = f"{name}({case['x']}, {case['y']}, {a})"
        else:
            full = 2 * np.pi if case["rad"] else 360
            ang = np.asarray(y) / 360 * full
            if not case["rad"]:
                base = np.asarray(y) % 360
            else:
                base = ang
                if np.any(np.asarray(y) >= 360):
                    return None
            arg = ang + full * np.array(case["turns"] if n else case["turns"][0])
            arg = arg if n else float(arg)
            if n and not case["rad"] and np.all(arg == np.round(arg)):
                arg = arg.astype(int)
            exp = TWO[name][2](np.asarray(x), base, a)
            kept = np.array(arg)
            ok, pd = attempt(PolarDiagramCurve, getattr(F, name), *a, radians=case["rad"])
            what = f"curve of {name} {a} radians={case['rad']} at {case['x']}, {np.asarray(arg).tolist()}"
            if not ok:
                return bad(f"{what}: {pd!r}")
            if case["neg"]:
                x2 = -x - 1 if n is None else np.array(list(x[:-1]) + [-0.5])
                return None if raises(pd, x2, arg) else bad(f"{what}: negative wind speed {x2} accepted")
            if case["rad"] and np.any(np.minimum(base, full - base) < 1e-6) or np.any(np.minimum(base, full - base) < 1e-9) and any(case["turns"]):
                return None
            if not raises(PolarDiagramCurve, getattr(F, name), *a[:-1]):
                return bad(f"curve of {name} with {len(a) - 1} parameters accepted")
            ok, r = attempt(pd, x, arg)
            if not np.array_equal(kept, arg):
                return bad(f"{what}: the angles were modified")
            if case["rad"]:
                if ok and np.allclose(np.asarray(r, float), exp, rtol=1e-5, atol=1e-5 * (1 + np.max(np.abs(exp)))):
                    return None
    if not ok:
        return bad(f"{what}: {type(r).__name__}: {r}")
    if not np.array_equal(keep[0], x) or not np.array_equal(keep[1], y):
        return bad(f"{what}: an argument was modified")
    if not np.all(np.isfinite(exp)):
        return None
    if not ok_eq(r, exp):
        return bad(f"{what}: {np.asarray(r).tolist()} instead of {np.asarray(exp).tolist()}")
