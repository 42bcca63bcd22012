"""sequences of 1..4 change_entries calls on random tables, selections in any order (scalars, numpy scalars, lists, arrays,
angles beyond 360, none), compared with a dictionary model after every call; wrong shapes and unknown speeds/angles"""
from oracles.util import *
from hrosailing.polardiagram import PolarDiagramTable


def sel(rng, xs, angle):
    k = rng.random()
    if k < 0.2:
        return None
    if k < 0.4:
        r = rng.choice(xs)
        return r + 360 * rng.choice((0, 0, 1, -1)) if angle else r
    r = rng.sample(xs, rng.randint(1, len(xs)))
    if k < 0.6:
        r.sort()
    return [x + 360 * rng.choice((0, 0, 1, -1)) for x in r] if angle else r


def cases(rng, tier):
    for k in range(1200 if tier == "quick" else 10000):
        m, n = rng.randint(1, 6), rng.randint(1, 6)
        ws, wa = res_ws(rng, m), res_wa(rng, n, False)
        ops = []
        for _ in range(rng.randint(1, 4)):
            s, a = sel(rng, ws, False), sel(rng, wa, True)
            ls = m if s is None else (1 if not isinstance(s, list) else len(s))
            la = n if a is None else (1 if not isinstance(a, list) else len(a))
            o = {"ws": s, "wa": a, "new": matrix(rng, la, ls), "as": pick(rng, "list", "array", "np")}
            if rng.random() < 0.25:
                o["bad"] = pick(rng, "shape+", "shape-", "ws", "wa", "T", "neg", "flat", "one")
            ops.append(o)
        yield {"ws": ws, "wa": wa, "bsp": matrix(rng, n, m), "ops": ops}


def conv(x, how):
    if isinstance(x, list):
        return np.array(x) if how == "array" else (tuple(x) if how == "np" else list(x))
    return np.float64(x) if how == "np" and x is not None else x


def run(case):
    ws, wa = case["ws"], case["wa"]
    t = PolarDiagramTable(ws, wa, case["bsp"])
    model = {(s, a): case["bsp"][i][j] for i, a in enumerate(wa) for j, s in enumerate(ws)}
    for o in case["ops"]:
        s, a = o["ws"], o["wa"]
        new = np.array(o["new"], float)
        S = sorted(ws) if s is None else (s if isinstance(s, list) else [s])
        A = sorted(wa) if a is None else ([x % 360 for x in a] if isinstance(a, list) else [a % 360])
        if len(S) == 1 and len(A) == 1:
            arg = float(new[0, 0])
        elif len(S) == 1 or len(A) == 1:
            arg = new.ravel()
        else:
            arg = new
        b = o.get("bad")
        if b:
            if b == "shape+":
                arg = np.append(np.atleast_1d(arg), 1.0) if np.ndim(arg) < 2 else np.row_stack([arg, arg[:1]])
            elif b == "shape-":
                if np.ndim(arg) == 0:
                    continue
                arg = arg[:-1]
            elif b == "T":
                if np.ndim(arg) < 2 or arg.shape[0] == arg.shape[1]:
                    continue
                arg = arg.T
            elif b == "flat":
                if np.ndim(arg) < 2:
                    continue
                arg = arg.ravel()
            elif b == "one":
                if len(S) * len(A) == 1:
                    continue
                arg = 7.0
            elif b == "ws":
                s = (S if isinstance(s, list) else [])[:-1] + [41.75]
                arg = np.ones((len(A), len(s))) if len(s) > 1 and len(A) > 1 else (np.ones(max(len(A), len(s))) if len(s) * len(A) > 1 else 1.0)
            elif b == "wa":
                a = (A if isinstance(a, list) else [])[:-1] + [0.0625]
                if 0.0625 in wa:
                    continue
                arg = np.ones((len(a), len(S))) if len(a) > 1 and len(S) > 1 else (np.ones(max(len(a), len(S))) if len(a) * len(S) > 1 else 1.0)
            elif b == "neg":
                s = -1.0
                arg = np.ones(len(A)) if len(A) > 1 else 1.0
        before = np.array(t.boat_speeds)
        cs, ca = conv(s, o["as"]), conv(a, o["as"])
        keep = (np.array(cs, float) if cs is not None else None, np.array(ca, float) if ca is not None else None, np.array(arg))
        ok, r = attempt(t.change_entries, arg, cs, ca)
        if b:
            if ok:
                return bad(f"change with {b} accepted")
            if not np.array_equal(before, t.boat_speeds):
                return bad(f"rejected change ({b}) modified the table")
            continue
        if not ok:
            return bad(f"change failed: {type(r).__name__}: {r}")
        now = (np.array(cs, float) if cs is not None else None, np.array(ca, float) if ca is not None else None, np.array(arg))
        if any(x is not None and not np.array_equal(x, y) for x, y in zip(keep, now)):
            return bad("an argument was modified")
        for i, y in enumerate(A):
            for j, x in enumerate(S):
                model[x, y] = new[i, j]
        W, G = list(t.wind_speeds), list(t.wind_angles)
        if W != sorted(ws) or G != sorted(wa) or t.boat_speeds.shape != (len(wa), len(ws)):
            return bad("resolutions or shape changed")
        for (x, y), v in model.items():
            got = t.boat_speeds[G.index(y), W.index(x)]
            if got != v:
                return bad(f"after change ws={s} wa={a} new={arg}: cell ({x}, {y}) is {got}, expected {v}")
    return None
