"""influence models on random data (Data, dict of lists, dict of arrays, single values; whole numbers and floats; true or apparent wind; speed
through water and/or over ground), both models, several shifts, before and after fitting; polar diagram: a recording function"""
import copy

from oracles.util import *
from hrosailing.core.computing import convert_apparent_wind_to_true
from hrosailing.core.data import Data
from hrosailing.models import influencemodel as M


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        n = rng.randint(1, 6)
        if rng.random() < 0.04:
            k, turn = rng.randint(1, 8), num(rng, 0, 360)
            yield {"fitted": {"TWA": [float(turn + num(rng, 30, 330)) % rng.choice((360, 720)) for _ in range(k)], "TWS": [rng.choice((0.0, rng.uniform(0, 1.5), num(rng, 1, 20), num(rng, 1, 20), num(rng, 1, 20))) for _ in range(k)]},
                   "size": pick(rng, None, 30, 10, 60.5), "shift": pick(rng, None, 20), "form": pick(rng, "data", "lists"), "again": rng.random() < 0.2}
            continue
        ints = rng.random() < 0.3
        f = (lambda lo, hi: rng.randint(lo, hi)) if ints else (lambda lo, hi: num(rng, lo, hi))
        keys = pick(rng, ["TWS", "TWA"], ["AWS", "AWA"], ["TWS", "TWA", "AWS", "AWA"], ["TWS", "AWA"], ["TWA"], [])
        keys += pick(rng, ["BSP"], ["SOG"], ["BSP", "SOG"], ["SOG", "BSP", "HDT"])
        rng.shuffle(keys)
        lim = {"TWS": (1, 30), "AWS": (25, 40), "TWA": (-400, 800), "AWA": (-400, 800), "BSP": (0, 20), "SOG": (0, 20), "HDT": (0, 360)}
        yield {"cols": {k: [f(*lim[k]) for _ in range(n)] for k in keys}, "form": pick(rng, "data", "lists", "lists", "arrays", "single"),
               "shift": pick(rng, 0, 10, 0.5, -30.25, 400, num(rng, -200, 200)), "fit": rng.random() < 0.02,
               "wind": [[f(0, 30), f(-400, 800)] for _ in range(n)]}


def density(cols, size, at):
    d = (np.asarray(at, float)[:, None] - np.array(cols["TWA"], float)[None] + 180) % 360 - 180
    return np.exp(-((d / size) ** 2)) @ np.array(cols["TWS"], float)


def run_fit(case):
    cols = case["fitted"]
    size = case["size"]
    m = M.WindAngleCorrectingInfluenceModel(**({} if size is None else {"interval_size": size}), **({} if case["shift"] is None else {"wa_shift": case["shift"]}))
    data = Data.from_dict(copy.deepcopy(cols)) if case["form"] == "data" else copy.deepcopy(cols)
    if case["again"]:
        m.fit({"TWA": [10, 200.0], "TWS": [5, 6.0]})
    m.fit(data)
    if any(list(data[k]) != cols[k] for k in cols):
        return bad("fit modifies the data")
    s = m.get_latest_statistics()["wa_shift"]
    if not 0 <= s <= 360:
        return bad(f"shift {s}")
    size = 30 if size is None else size
    at = np.arange(3580) / 10 + 0.5
    grid, got = np.max([density(cols, size, at + e) for e in (-0.1, 0, 0.1)], axis=0), density(cols, size, [s])[0]  # up to a tenth of a degree
    if got > grid.min() * (1 + 1e-6) + 1e-9:
        return bad(f"fitted shift {s} for {cols} (size {size}): density {got}, but {grid.min()} at {at[grid.argmin()]}")
    r = m.remove_influence(dict(cols, BSP=[1.0] * len(cols["TWA"])))
    if max(angdiff(a, b - s) for a, b in zip(r[:, 1], cols["TWA"])) > 1e-6:
        return bad(f"the fitted shift {s} is not the removed one")
    return None


def run(case):
    if "fitted" in case:
        return run_fit(case)
    cols, form = case["cols"], case["form"]
    if form == "single":
        cols = {k: v[:1] for k, v in cols.items()}
    data = {"data": lambda: Data.from_dict(copy.deepcopy(cols)), "lists": lambda: copy.deepcopy(cols),
            "arrays": lambda: {k: np.array(v) for k, v in cols.items()}, "single": lambda: {k: v[0] for k, v in cols.items()}}[form]()
    what = f"{form} {cols}"
    speed = "BSP" if "BSP" in cols else "SOG"
    if "TWS" in cols and "TWA" in cols:
        exp = np.column_stack([np.array(cols[k], float) for k in ("TWS", "TWA", speed)])
    elif "AWS" in cols and "AWA" in cols:
        exp = convert_apparent_wind_to_true(np.column_stack([np.array(cols[k], float) for k in ("AWS", "AWA", speed)]))
    else:
        exp = None
    s = case["shift"]
    wac = M.WindAngleCorrectingInfluenceModel(wa_shift=s)
    if case["fit"] and "TWS" in cols and "TWA" in cols and form in ("data", "lists"):
        wac.fit(data)
        s = wac.get_latest_statistics()["wa_shift"]
    for m, sh in ((M.IdentityInfluenceModel(), None), (wac, s)):
        nm = type(m).__name__ + ("" if sh is None else f" shift {sh}")
        ok, r = attempt(m.remove_influence, data)
        if exp is None:
            if ok:
                return bad(f"{nm}: data without complete wind accepted: {what}")
            continue
        if not ok:
            return bad(f"{nm}.remove_influence {what}: {type(r).__name__}: {r}")
        e = exp.copy()
        if sh is not None:
            e[:, 1] = (e[:, 1] - sh) % 360
        if np.shape(r) != e.shape or not close(r[:, [0, 2]], e[:, [0, 2]]) or max(angdiff(a, b) for a, b in zip(r[:, 1], e[:, 1])) > 1e-6 \
                or (sh is None and not close(r, e)) or (sh is not None and not np.all((r[:, 1] >= 0) & (r[:, 1] <= 360))):
            return bad(f"{nm}.remove_influence {what} gives {np.asarray(r).tolist()} instead of {e.tolist()}")
        if form == "lists" and data != cols or form == "data" and any(data[k] != cols[k] for k in cols):
            return bad(f"{nm}.remove_influence modifies {what}")
        if form == "arrays" and any(not np.array_equal(data[k], cols[k]) for k in cols):
            return bad(f"{nm}.remove_influence modifies {what}")
        # adding
        seen = []

        def pd(ws, wa):
            seen.append((float(ws), float(wa)))
            return 2 * ws + wa

        if form == "single":
            wind = {"TWS": float(r[0, 0]), "TWA": float(r[0, 1])}
        else:
            wind = {"TWS": list(r[:, 0]), "TWA": list(r[:, 1])}
        ok, v = attempt(m.add_influence, pd, wind)
        if not ok:
            return bad(f"{nm}.add_influence {wind}: {type(v).__name__}: {v}")
        back = exp[:1] if form == "single" else exp
        if len(seen) != len(back) or any(abs(a - x) > 1e-6 or angdiff(b, y) > 1e-6 for (a, b), (x, y, _) in zip(seen, back)):
            return bad(f"{nm}: adding after removing asks the polar diagram at {seen} instead of {back[:, :2].tolist()}")
        vs = [v] if form == "single" else v
        if not close(vs, [2 * a + b for a, b in seen]):
            return bad(f"{nm}.add_influence {wind}: {v}")
        # adding to any wind
        seen.clear()
        w = case["wind"][:1] if form == "single" else case["wind"]
        wind = {"TWS": w[0][0], "TWA": w[0][1]} if form == "single" else {"TWS": [x for x, _ in w], "TWA": [y for _, y in w]}
        ok, v = attempt(m.add_influence, pd, wind)
        if not ok:
            return bad(f"{nm}.add_influence {wind}: {type(v).__name__}: {v}")
        if len(seen) != len(w) or any(abs(a - x) > 1e-9 or angdiff(b, y + (sh or 0)) > 1e-6 for (a, b), (x, y) in zip(seen, w)):
            return bad(f"{nm}: adding to wind {w} asks the polar diagram at {seen}")
