"""random tables (1..9 speeds and angles, any order, angles beyond [0,360), list/array/int inputs, step sizes, no matrix), all
cells looked up; malformed resolutions and matrices; non-contiguous, sorted and reverse-sorted inputs"""
from oracles.util import *
from hrosailing.polardiagram import PolarDiagramTable


def cases(rng, tier):
    for k in range(900 if tier == "quick" else 8000):
        m, n = rng.randint(1, 9), rng.randint(1, 9)
        ws, wa = res_ws(rng, m), res_wa(rng, n)
        o = pick(rng, "", "", "sorted", "reversed")
        if o:
            ws.sort(reverse=o == "reversed")
            wa.sort(key=lambda x: x % 360, reverse=o == "reversed")
        yield {"ws": ws, "wa": wa, "bsp": matrix(rng, n, m), "as": pick(rng, "list", "array", "int", "fortran", "tuple")}
        if k % 6 == 0:
            yield {"ws": ws, "wa": wa, "bsp": matrix(rng, n, m), "bad": pick(rng, "rows", "cols", "transpose", "flat", "neg", "nan", "inf", "2d", "empty")}
        if k % 12 == 0:
            yield {"ws": pick(rng, None, ws, num(rng, 1, 20)), "wa": pick(rng, None, wa, num(rng, 1, 90)), "zero": True}


def run(case):
    if "bad" in case:
        return run_bad(case)
    if "zero" in case:
        return run_zero(case)
    ws, wa, b = case["ws"], case["wa"], case["bsp"]
    kind = case["as"]
    if kind == "int":
        ws, wa = [float(int(x)) for x in ws], [float(int(x)) for x in wa]
        if len(set(ws)) < len(ws) or len({x % 360 for x in wa}) < len(wa):
            return None
    conv = {"list": list, "tuple": tuple, "array": np.array, "fortran": np.array, "int": lambda x: np.array(x).astype(int)}[kind]
    aw, aa = conv(ws), conv(wa)
    ab = [list(r) for r in b] if kind in ("list", "tuple") else (np.asfortranarray(b) if kind == "fortran" else np.array(b, float))
    ok, t = attempt(PolarDiagramTable, aw, aa, ab)
    if not ok:
        return bad(f"construction failed: {type(t).__name__}: {t}")
    if list(aw) != ws or list(aa) != wa or not np.array_equal(np.array(ab), np.array(b)):
        return bad("an input of the constructor was modified")
    red = [x % 360 for x in wa]
    if list(t.wind_speeds) != sorted(ws) or list(t.wind_angles) != sorted(red):
        return bad(f"resolutions {t.wind_speeds} {t.wind_angles}")
    if t.boat_speeds.shape != (len(wa), len(ws)):
        return bad(f"shape {t.boat_speeds.shape}")
    W, A = list(t.wind_speeds), list(t.wind_angles)
    for i, x in enumerate(wa):
        for j, s in enumerate(ws):
            v = b[i][j]
            if t.boat_speeds[A.index(red[i]), W.index(s)] != v:
                return bad(f"cell ({s}, {x}) holds {t.boat_speeds[A.index(red[i]), W.index(s)]}, given {v}")
            for f in (lambda: t[s, x], lambda: t(s, x)):
                ok, r = attempt(f)
                if not ok or r != v:
                    return bad(f"lookup ({s}, {x}) gives {r!r}, given {v}")
    if not np.array_equal(t.boat_speeds[[A.index(x) for x in red]][:, [W.index(x) for x in ws]], np.array(b, float)):
        return bad("lookups changed the table")
    miss = next(x for x in (41.25, 42.25) if x not in ws)
    if not raises(lambda: t[miss, wa[0]]) or not raises(lambda: t[ws[0], (red[0] + 0.1234567)]):
        return bad("lookup of a pair that is not in the table did not fail")
    return None


def run_zero(case):
    ok, t = attempt(PolarDiagramTable, case["ws"], case["wa"])
    if not ok:
        return bad(f"{type(t).__name__}: {t}")
    W, A = np.asarray(t.wind_speeds), np.asarray(t.wind_angles)
    if np.any(np.asarray(t.boat_speeds) != 0) or t.boat_speeds.shape != (len(A), len(W)):
        return bad("table without boat speeds is not zero everywhere")
    if np.any(np.diff(W) <= 0) or np.any(np.diff(A) <= 0):
        return bad("resolutions not ascending")
    if isinstance(case["ws"], list) and sorted(case["ws"]) != list(W):
        return bad("wind speeds differ")
    if isinstance(case["wa"], list) and sorted(x % 360 for x in case["wa"]) != list(A):
        return bad("wind angles differ")
    if isinstance(case["ws"], float) and not np.allclose(W, case["ws"] * np.arange(1, len(W) + 1)):
        return bad("step size not respected")
    if raises(lambda: t.change_entries(3.0, W[0], A[0])) or t[W[0], A[0]] != 3.0:
        return bad("entries of a zero table cannot be set and read")
    return None


def run_bad(case):
    ws, wa, b = np.array(case["ws"]), np.array(case["wa"]), np.array(case["bsp"], float)
    k = case["bad"]
    if k == "rows":
        b = np.row_stack([b, b[:1]])
    elif k == "cols":
        b = np.column_stack([b, b[:, :1]])
    elif k == "transpose":
        if b.shape[0] == b.shape[1]:
            return None
        b = b.T
    elif k == "flat":
        b = b.ravel()
    elif k == "neg":
        ws = ws.copy()
        ws[-1] = -0.5
    elif k in ("nan", "inf"):
        b = b.copy()
        b[-1, -1] = float(k)
    elif k == "2d":
        ws = ws.reshape(1, -1)
    elif k == "empty":
        ws, b = [], b[:, :0]
    ok, t = attempt(PolarDiagramTable, ws, wa, b)
    return bad(f"malformed input accepted ({k})") if ok else None
