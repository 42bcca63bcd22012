"""both quality checks on random diagrams and test data, against a direct evaluation of the definitions of every metric"""
from oracles.util import *
import hrosailing.pipeline.quality_assurance as qa


class Plain:
    "a diagram given by a formula"

    def __init__(self, a, b, k):
        self.a, self.b, self.k, self.asked = a, b, k, []

    def __call__(self, ws, wa):
        self.asked.append((ws, wa))
        return self.a * ws + self.b * abs((wa - 180) / 180) ** self.k - 1 + self.a * wa / 100


def cases(rng, tier):
    for _ in range(4000 if tier == "quick" else 30000):
        n = rng.choice((1, 1, 2, 3, 5, 12, 40))
        near = rng.random() < 0.4
        pts = [[num(rng, 0, 4 if near else 30), num(rng, 0, 6 if near else 359), num(rng, 0, 15)] for _ in range(n)]
        if rng.random() < 0.5:  # close to 0, 180 and 360 degrees, close to others
            for p in pts:
                p[1] = rng.choice((0, 0, 360, 360, 180)) + rng.choice((0.2, 0.4, 0.6, -0.2, -0.4, -0.6, 0.5, 1.5, 0))
                p[1] = min(max(p[1], 0), 360)
                p[0] = rng.choice((4, 4, 5, 5.5, p[0]))
        yield {"pts": pts, "a": rng.uniform(-1, 1), "b": rng.uniform(-3, 3), "k": rng.choice((1, 2)), "kind": pick(rng, "minimal", "conforming"), "array": rng.random() < 0.7}


def near(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def run(case):
    pd = Plain(case["a"], case["b"], case["k"])
    pts = np.array(case["pts"]) if case["array"] else [list(p) for p in case["pts"]]
    check = (qa.MinimalQualityAssurance if case["kind"] == "minimal" else qa.ComformingQualityAssurance)()
    ok, r = attempt(check.check, pd, pts)
    if not ok:
        return bad(f"{case['kind']} check of {case['pts']} raised {r!r}")
    diffs = [abs(b - pd(w, a)) for w, a, b in case["pts"]]
    want = {"max_error": max(diffs), "min_error": min(diffs), "average_error": sum(diffs) / len(diffs), "average_quadratic_error": sum(d * d for d in diffs) / len(diffs)}
    if case["kind"] != "minimal":
        zero = [abs(pd(20 * i / 19, wa)) for i in range(20) for wa in (0, 360)]
        cells = {}
        for w, a, b in case["pts"]:
            cells.setdefault((round(w), round(a)), []).append(b)
        want.update(max_zero_val=max(zero), min_zero_val=min(zero), average_zero_val=sum(zero) / 40, average_quadratic_zero_val=sum(z * z for z in zero) / 40,
                    test_covering=len(cells), average_local_test_data_difference=sum(max(v) - min(v) for v in cells.values()) / len(cells))
    if set(r) != set(want):
        return bad(f"metrics {sorted(r)}")
    for k, v in want.items():
        if r[k] is None or not near(float(r[k]), float(v)):
            return bad(f"{k} = {r[k]} instead of {v} for {case['pts']}, diagram {case['a']} {case['b']} {case['k']}")
    if [list(map(float, p)) for p in pts] != [list(map(float, p)) for p in case["pts"]]:
        return bad("the test data were changed")
