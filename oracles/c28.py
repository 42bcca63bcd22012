"""plots of random diagrams on matplotlib figures: the drawn lines, points and colours against the diagram's own slices and points, the hull plots against
the convex hull of the slice found by brute force"""
import math

from oracles.util import *
import matplotlib
matplotlib.use("Agg")
from matplotlib.colors import to_rgba, to_rgb
from matplotlib.figure import Figure
import hrosailing.plotting  # noqa: F401  (registers the projections)
import hrosailing.polardiagram as pol

COLORS = [("green", "red"), "red", ("blue", "orange"), ["red", "green", "orange"], (1, 0, 0), (0.25, 0.5, 0.75), ["black"], "pairs", (1, 0, 0, 0.5), ["#ff0000", "#00ff00"]]


def cases(rng, tier):
    for _ in range(330 if tier == "quick" else 3000):
        yield {"kind": pick(rng, "table", "table", "multi", "multi", "cloud", "curve"), "seed": rng.randrange(10**6), "proj": pick(rng, "hro polar", "hro flat"),
               "hull": rng.random() < 0.4, "scatter": rng.random() < 0.3, "colors": rng.randrange(len(COLORS)), "what": pick(rng, "slices", "slices", "slices", "slices", "slices", "gradient", "3d"),
               "legend": rng.random() < 0.25, "n": rng.randint(1, 5)}


def table(rng, n):
    wa = res_wa(rng, rng.randint(1, 7), False)
    flat = rng.random() < 0.2
    k = rng.choice((1, 2, 3, 5)) if n is None else n
    ws = res_ws(rng, k)
    top = rng.choice((3, 20))
    return pol.PolarDiagramTable(ws, wa, [[4.0 if flat else (float(rng.randint(0, top)) if rng.random() < .5 else rng.uniform(0, top)) for _ in ws] for _ in wa])


def diagram(rng, kind, n):
    if kind == "table":
        return table(rng, n)
    if kind == "multi":
        ts = [table(rng, n)]
        for _ in range(rng.randint(0, 2)):
            t = table(rng, n)
            ts.append(pol.PolarDiagramTable(ts[0].wind_speeds, t.wind_angles, t.boat_speeds))
        return pol.PolarDiagramMultiSails(ts, rng.sample(["Jib", "Spi", "JIB", "Jib 2", "Spi "], len(ts)))
    if kind == "cloud":
        ws = res_ws(rng, n)
        same = rng.random() < 0.2
        return pol.PolarDiagramPointcloud([[w, a, 4.0 if same else rng.uniform(0, 20)] for w in ws for a in res_wa(rng, rng.randint(1, 6), False)])
    a, b = rng.uniform(0.1, 1), rng.randint(1, 3)
    return pol.PolarDiagramCurve(lambda ws, wa, p, q: p * np.asarray(ws) * (1.5 + np.sin(q * np.asarray(wa))), a, b, radians=True)


def curve_kw(pd, case):
    if case["kind"] == "curve":
        return {"ws": [4 + 3 * i for i in range(case["n"])]}
    if case["kind"] in ("table", "multi") and case["seed"] % 3 == 0:
        ws = [float(w) for w in (pd if case["kind"] == "table" else pd.diagrams[0]).wind_speeds]
        return {"ws": ws[::-1] if case["seed"] % 2 else ws[1:] + ws[:1]}
    if case["kind"] == "cloud":
        return {"ws": [float(w) for w in sorted({p[0] for p in pd.points.tolist()})]}
    return {}


def wanted_colors(spec, labels):
    if isinstance(spec, str) or (isinstance(spec, tuple) and not isinstance(spec[0], (str, tuple))):
        return [to_rgba(spec)] * len(labels)
    if isinstance(spec[0], tuple):
        d = {float(w): c for w, c in spec}
        return [to_rgba(d.get(float(w), "blue")) for w in labels]
    if len(spec) == 2 and len(labels) > 2:
        lo, hi = min(labels), max(labels)
        a, b = np.array(to_rgb(spec[0])), np.array(to_rgb(spec[1]))
        return [to_rgba(a + (b - a) * ((w - lo) / (hi - lo) if hi > lo else 0)) for w in labels]
    return [to_rgba(c) for c in (list(spec) + ["blue"] * len(labels))[:len(labels)]]


def groups(xy):
    "the pieces of a line between gaps"
    out, cur = [], []
    for p in xy:
        if np.isnan(p).any():
            out.append(cur)
            cur = []
        else:
            cur.append(tuple(p))
    return out + [cur]


def sorted_by_angle(seq):
    return all(a[0] <= b[0] + 1e-12 for a, b in zip(seq, seq[1:]))


def same_points(a, b, tol=1e-9):
    a, b = sorted(a), sorted(b)
    return len(a) == len(b) and (not a or close(np.array(a), np.array(b), tol))


def xy_of(wa, b):
    r = math.radians(wa)
    return b * math.cos(r), b * math.sin(r)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull_edges(pts):
    "monotone chain"
    ps = sorted(set(pts))
    if len(ps) < 3:
        return None

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 1e-9:
                out.pop()
            out.append(p)
        return out
    h = half(ps)[:-1] + half(ps[::-1])[:-1]
    return h if len(h) > 2 else None


def on_boundary(h, p):
    for a, b in zip(h, h[1:] + h[:1]):
        d = math.dist(a, b)
        if abs(cross(a, b, p)) <= 1e-6 * (d + 1) and -1e-6 <= ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / d**2 <= 1 + 1e-6:
            return True
    return False


def hull_case(case, sl, drawn):
    "what is drawn lies on the boundary of the hull, holds all its corners and is ordered; it spans the circle if the corners do not leave a gap of 180 degrees"
    pts = [(float(a), float(b)) for a, b in zip(sl[1], sl[2])]
    h = hull_edges([xy_of(*p) for p in pts])
    area = 0 if h is None else abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1]))) / 2
    if h is None or area < 1e-3 or any(cross(a, b, (0.0, 0.0)) < -1e-9 for a, b in zip(h, h[1:] + h[:1])):
        return None  # the boat can not reach all directions: the order of the angles is not that of the hull
    if not sorted_by_angle(drawn):
        return "the hull is not drawn in the order of the angles"
    for p in drawn:
        if not on_boundary(h, xy_of(*p)):
            return f"{p} is drawn, which is not on the boundary of the convex hull of the slice"
    for v in h:
        if not any(math.dist(v, xy_of(*p)) < 1e-6 for p in drawn):
            # a corner is only a corner if the hull loses area without it
            rest = hull_edges([q for q in h if q != v])
            if rest is not None and on_boundary(rest, v):
                continue
            return f"the corner {v} of the hull is not drawn"
    real = [p for p in drawn if any(abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9 for q in pts)]
    if len(real) < len(drawn) - 2:
        return "points are drawn which are not of the slice"
    spread = max(p[0] for p in real) - min(p[0] for p in real) if real else 0
    if spread >= 180 + 1e-9 and (abs(drawn[0][0]) > 1e-9 or abs(drawn[-1][0] - 360) > 1e-9):
        return "the hull is not closed at 0 and 360 degrees"
    return None


def bar_case(fig, values, colors, label):
    "the colour bar spans the values, in these colours"
    if len(fig.axes) != 2:
        return f"{len(fig.axes) - 1} colour bars"
    bar = fig.axes[1]._colorbar
    lo, hi = min(values), max(values)
    if hi > lo and not close([bar.vmin, bar.vmax], [lo, hi]):
        return f"the colour bar goes from {bar.vmin} to {bar.vmax} instead of {lo} to {hi}"
    if not close([bar.cmap(0.0)[:3], bar.cmap(1.0)[:3]], [to_rgb(c) for c in colors[:2]], 0.01):
        return "the colour bar has other colours"
    return None if label in (bar.ax.get_ylabel(), bar.ax.get_xlabel()) else "the colour bar has another label"


def legend_case(fig, ax, shown, spec, labels, want):
    leg = ax.get_legend()
    if not shown:
        return None if leg is None and len(fig.axes) == 1 else "a legend is shown"
    one = isinstance(spec, str) or (isinstance(spec, tuple) and not isinstance(spec[0], str))
    if not one and len(spec) == 2 and not isinstance(spec[0], tuple) and len(labels) > 2:
        return "a legend with entries is shown for a gradient" if leg is not None else bar_case(fig, labels, spec, "True Wind Speed")
    if leg is None or len(fig.axes) != 1:
        return "no legend is shown"
    entries = [(t.get_text(), tuple(to_rgba(h.get_color()))[:3]) for t, h in zip(leg.get_texts(), leg.get_lines())]
    exp = {f"TWS {w}": tuple(c[:3]) for w, c in zip(labels, want)}
    for text, color in entries:
        # the wind speed may be written as any number
        w = next((x for x in exp if x == text or abs(float(x[4:]) - float(text[4:])) < 1e-9), None)
        if w is None:
            return f"legend entry {text!r} for wind speeds {labels}"
        if len(set(labels)) == len(labels) and not close(color, exp[w], 1e-6):
            return f"the legend gives {text!r} the colour {color} instead of {exp[w]}"
    k = len(labels) if one else min(len(labels), len(spec))
    return None if len(entries) >= k else f"{len(entries)} legend entries for {labels} with {spec}"


def run(case):
    import random
    rng = random.Random(case["seed"])
    pd = diagram(rng, case["kind"], case["n"])
    fig = Figure()
    kw = curve_kw(pd, case)
    if case["what"] == "gradient":
        ax = fig.add_subplot(projection="hro color gradient")
        if case["kind"] == "curve":
            return None
        c = ("green", "red") if case["seed"] % 2 else ["#102030", "#f0e0d0"]
        (ax.scatter if case["scatter"] else ax.plot)(pd, colors=c, **({"show_legend": True} if case["legend"] else {}))
        pts = np.asarray(pd.get_points(), float)
        got = ax.collections[0]
        off = np.asarray(got.get_offsets(), float)
        if case["legend"] and len(pts) > 2:  # (for two points: a legend)
            if wrong := bar_case(fig, pts[:, 2], c, "Boat Speed"):
                return bad(wrong)
        elif not case["legend"] and len(fig.axes) != 1:
            return bad("a colour bar is shown")
        if not close(off, pts[:, :2]):
            return bad("the coloured points are not the wind of the diagram's points")
        col = np.asarray(got.get_facecolors(), float)
        lo, hi = pts[:, 2].min(), pts[:, 2].max()
        a, b = np.array(to_rgb(c[0])), np.array(to_rgb(c[1]))
        want = np.array([a + (b - a) * ((v - lo) / (hi - lo) if hi > lo else 0) for v in pts[:, 2]])
        if len(col) == 1:
            col = np.repeat(col, len(pts), 0)
        if hi <= lo:
            return None if np.isfinite(col).all() else bad("colours of equal boat speeds are undefined")
        if not close(col[:, :3], want, 1e-6):
            return bad(f"the colours are not those of the boat speeds: {col[:, :3]} instead of {want}")
        return None
    if case["what"] == "3d":
        if case["kind"] == "curve":
            return None
        ax = fig.add_subplot(projection="hro 3d")
        ax.scatter(pd)
        pts = np.asarray(pd.get_points(), float)
        x, y, z = (np.asarray(v, float) for v in ax.collections[0]._offsets3d)
        r = np.deg2rad(pts[:, 1])
        if not (close(x, pts[:, 2] * np.sin(r)) and close(y, pts[:, 2] * np.cos(r)) and close(z, pts[:, 0])):
            return bad("the points in space are not those of the diagram")
        return None
    labels, slices, info = pd.get_slices(kw.get("ws"), full_info=True)
    labels = [float(x) for x in labels]
    before = [np.array(s, float) for s in slices]
    spec = COLORS[case["colors"] % len(COLORS)]
    if spec == "pairs" and len(set(labels)) < len(labels):
        spec = "black"
    if spec == "pairs":
        chosen = [i for i in range(len(labels)) if i % 2 == 0]
        rng.shuffle(chosen)
        spec = [(labels[i], pick(rng, "red", "black", "green")) for i in chosen]
    ax = fig.add_subplot(projection=case["proj"])
    f = ax.scatter if case["scatter"] else ax.plot
    import matplotlib.pyplot as plt
    extra = {}
    if case["legend"]:
        extra["show_legend"] = True
    try:
        f(pd, **kw, colors=spec, use_convex_hull=case["hull"], **extra)
    except Exception as e:
        return bad(f"plotting raised {e!r} (colors={spec})")
    finally:
        plt.close("all")
    lines = [np.asarray(c.get_offsets(), float) for c in ax.collections] if case["scatter"] else [np.asarray(ln.get_xydata(), float) for ln in ax.lines]
    if len(lines) != len(slices):
        return bad(f"{len(lines)} drawn for {len(slices)} slices")
    cols = [tuple(c.get_facecolors()[0]) for c in ax.collections if len(c.get_facecolors())] if case["scatter"] else [to_rgba(ln.get_color()) for ln in ax.lines]
    want = wanted_colors(spec, labels)
    if not close(np.array(cols)[:, :3], np.array(want)[:, :3], 1e-6):
        return bad(f"colours {cols} instead of {want} for wind speeds {labels} with {spec}")
    wrong = legend_case(fig, ax, case["legend"], spec, labels, want)
    if wrong:
        return bad(wrong)
    for i, (xy, sl) in enumerate(zip(lines, before)):
        if case["proj"] == "hro polar":
            xy = xy.copy()
            xy[:, 0] = np.rad2deg(xy[:, 0])
        if case["scatter"]:
            xy = np.ma.filled(np.ma.masked_invalid(xy), np.nan) if np.ma.isMaskedArray(xy) else xy
        if case["hull"]:
            drawn = [tuple(p) for p in xy]
            if np.isnan(xy).any():
                return bad("the hull has gaps")
            r = hull_case(case, sl, drawn)
            if r:
                return bad(f"slice {labels[i]}: {r}")
            continue
        g = groups(xy)
        pts = [(float(a), float(b)) for a, b in zip(sl[1], sl[2])]
        if not same_points([p for x in g for p in x], pts):
            return bad(f"slice {labels[i]}: the points {xy.tolist()} are drawn instead of {pts}")
        tags = None if info is None or info[i] is None else list(info[i])
        if tags is None:
            if len(g) > 1:
                return bad("the line of a slice without info has gaps")
            if not sorted_by_angle(g[0]):
                return bad("the slice is not drawn in the order of its angles")
            continue
        parts = {}
        for p, t in zip(pts, tags):
            parts.setdefault(t, []).append(p)
        for x in g:
            if not sorted_by_angle(x):
                return bad("a part of the slice is not drawn in the order of its angles")
        if not case["scatter"]:
            rest = list(parts.values())
            for x in g:
                m = next((k for k, y in enumerate(rest) if same_points(x, y)), None)
                if m is None:
                    return bad(f"slice {labels[i]}: {x} are joined, the sails are {parts}")
                rest.pop(m)
    return None
