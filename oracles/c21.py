"""point sets in general position (two or three columns; all sizes, scales and offsets) are sampled; the hull is an independent monotone chain"""
from oracles.util import *
from hrosailing.processing import sampler as P


def cases(rng, tier):
    for j in range(400 if tier == "quick" else 4000):
        n = rng.randint(3, 14) if j % 20 else rng.randint(100, 300)
        sx, sy = rng.choice(((30, 360), (1, 1), (0.3, 20), (20, 5)))
        ox, oy = rng.choice(((0, 0), (10, 100), (-5, -50)))
        pts = [[ox + sx * rng.random(), oy + sy * rng.random()] for _ in range(n)]
        if rng.random() < 0.2:  # a few corners that are not in general position
            pts += [[ox, oy], [ox + sx, oy]]
        if rng.random() < 0.2:
            pts += [list(rng.choice(pts))]
        yield {"pts": pts, "third": rng.random() < 0.5, "n": pick(rng, 1, 2, 5, 17, 60), "kind": pick(rng, "UniformRandom", "Fibonacci", "Archimedean"),
               "seed": rng.randint(0, 10 ** 6), "twice": rng.random() < 0.2}


def hull(pts):
    pts = sorted(set(map(tuple, pts)))

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    return half(pts) + half(pts[::-1])


def run(case):
    pts = [p + [100.0 + k] if case["third"] else p for k, p in enumerate(case["pts"])]
    h = hull(case["pts"])
    area = sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1])) / 2
    w = max(p[0] for p in h) - min(p[0] for p in h)
    v = max(p[1] for p in h) - min(p[1] for p in h)
    if len(h) < 3 or area < 0.02 * w * v:
        return None  # a sliver: the samplers look for very long
    if case["kind"] != "UniformRandom" and area < 0.02 * max(w, v) ** 2:
        return None
    s = getattr(P, case["kind"] + "Sampler")(case["n"])
    np.random.seed(case["seed"])
    a = np.array(pts, float)
    for _ in range(2 if case["twice"] else 1):
        before = a.copy()
        ok, r = attempt(s.sample, a)
        if not ok:
            return bad(f"sampling raised {r!r}")
        if not np.array_equal(a, before):
            return bad("the given points were modified")
        if not isinstance(r, np.ndarray) or r.shape != (case["n"], 2):
            return bad(f"sample has shape {np.shape(r)}, expected {(case['n'], 2)}")
        for x, y in r:
            for (x0, y0), (x1, y1) in zip(h, h[1:] + h[:1]):
                if ((x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)) < -1e-7 * (w * v + abs(x1) * v + abs(y1) * w):
                    return bad(f"sample point {(x, y)} outside the convex hull of the given points")
    if case["twice"] and case["kind"] == "UniformRandom" and case["n"] > 1 and len({tuple(x) for x in r}) < case["n"]:
        return bad("repeated random sample points")
