"""The engine's models of numpy, builtins and Python statements against CPython: every function of contracts/snippets.py is interpreted by
the engine on random small inputs, given (a) as concrete arrays and (b) as arrays of symbolic length whose length and entries are then
fixed by preconditions (so the models for arbitrary sizes are used), and the result is compared with that of CPython.
crosscheck.py [names] [--seeds N]     exit 1 if a model is wrong; 'unsupported'/'undecided' are reported only"""
import inspect, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")
sys.setrecursionlimit(20000)
import warnings
warnings.filterwarnings("ignore")
from fractions import Fraction
import numpy as np
from pyvc import harness, npmodel, ops
from pyvc.terms import *
from pyvc.values import *
from pyvc.z3load import z3
import contracts.snippets as sn

args = [a for a in sys.argv[1:] if not a.startswith("--") and not a.isdigit()]
SEEDS = int(sys.argv[sys.argv.index("--seeds") + 1]) if "--seeds" in sys.argv else 2


def inputs(rng):
    n = rng.choice((2, 3, 4))
    v = lambda: rng.choice((rng.randint(-3, 4), rng.randint(-6, 8) / 2))
    return n, [v() for _ in range(n)], [v() for _ in range(n)], [[v() for _ in range(3)] for _ in range(n)], rng.sample([-2, -1, 0, 0.5, 1.5, 2.75, 3, 8], n), [v() for _ in range(n)]


def build(c, data, symbolic):
    n, x, y, m, k, l = data
    if not symbolic:
        fl = lambda a: [float(t) for t in a]
        return c.carr(fl(x)), c.carr(fl(y)), c.carr([fl(r) for r in m]), c.carr(fl(k)), c.plist([q(t) for t in l])
    N = c.int("n")
    c.require(N == n)
    out = []
    for nm, a in (("x", x), ("y", y), ("k", k), ("l", l)):
        f = c.fun(nm, INT, REAL)
        for i, t in enumerate(a):
            c.require(f(i) == z3.RealVal(str(Fraction(t))))
        out.append((lambda f: c.list_of(N, lambda i: f(zi(i))))(f) if nm == "l" else (lambda f: c.arr_of((N,), lambda idx: f(zi(idx[0]))))(f))
    g = c.fun("m", INT, INT, REAL)
    for i, r in enumerate(m):
        for j, t in enumerate(r):
            c.require(g(i, j) == z3.RealVal(str(Fraction(t))))
    return out[0], out[1], c.arr_of((N, 3), lambda idx: g(zi(idx[0]), zi(idx[1]))), out[2], out[3]


def q(t):
    return int(t) if t == int(t) and isinstance(t, int) else Fraction(t)


def goals(c, got, want, path=""):
    "list of (path, goal): got (engine) equals want (CPython)"
    if isinstance(want, np.ndarray):
        if hasattr(got, "shape"):
            if len(got.shape) != want.ndim:
                return [(path + " rank", z3.BoolVal(False))]
            out = [(f"{path} shape{d}", zi(s) == w) for d, (s, w) in enumerate(zip(got.shape, want.shape))]
            for idx in np.ndindex(*want.shape):
                out += goals(c, got.get(*idx), want[idx], f"{path}{list(idx)}")
            return out
        return goals(c, got, want.tolist(), path)
    if isinstance(want, (list, tuple)):
        n, fn, items = c.it.seq(got)
        out = [(path + " length", zi(n) == len(want))]
        if items is not None and len(items) != len(want):
            return out
        for i, w in enumerate(want):
            out += goals(c, items[i] if items is not None else fn(i), w, f"{path}[{i}]")
        return out
    if isinstance(want, str) or want is None:
        return [(path, z3.BoolVal(got == want))]
    if isinstance(want, (bool, np.bool_)):
        return [(path, zb(got) == bool(want) if not isinstance(got, (int, Fraction)) or isinstance(got, bool) else z3.BoolVal(bool(got) == bool(want)))]
    if isinstance(want, (int, float, np.integer, np.floating)):
        e = Fraction(float(want))
        g = zr(force(got) if not hasattr(got, "shape") else got.get())
        tol = z3.RealVal(str(Fraction(1, 10**9)))
        return [(path, z3.And(g - z3.RealVal(str(e)) <= tol, z3.RealVal(str(e)) - g <= tol))]
    raise Unsupported(f"comparison with {type(want)}")


wrong, counts = 0, {}
for name, f in [(k, v) for k, v in vars(sn).items() if inspect.isfunction(v)]:
    if args and name not in args:
        continue
    for s in range(SEEDS):
        rng = random.Random(f"{name}{s}")
        data = inputs(rng)
        n, x, y, m, k, l = data
        want = f(np.array(x, float), np.array(y, float), np.array(m, float), np.array(k, float), list(l))
        for symbolic in (False, True):
            if name.endswith("_") and False:
                continue
            status, why = None, ""
            for negate in (False, True):
                def fn(c):
                    r = c.returns(c.call("contracts.snippets." + name, *build(c, data, symbolic)))
                    gs = goals(c, r, want, "")
                    if negate:
                        c.ensure("negation", z3.Not(z3.And(*[g for _, g in gs])))
                    else:
                        for p, g in gs:
                            c.ensure("result" + p, g)
                ct = harness.Contract("X", [name], fn, name, None, 6.0, False)
                r = harness.run_contract(ct, 60)
                if r["status"] == "proved":
                    status = "WRONG" if negate else "ok"
                    break
                if r["status"] in ("unsupported", "error"):
                    status, why = "unsupported", r.get("reason", "")
                    break
                why = "; ".join(o["name"] + " " + str(o.get("goal", ""))[:100] for o in r["obligations"] if o["result"] != "proved")[:200]
                if any(o["kind"] == "no-exception" for o in r["obligations"] if o["result"] == "failed"):
                    status = "WRONG"
                    break
            status = status or "undecided"
            counts[status] = counts.get(status, 0) + 1
            wrong += status == "WRONG"
            if status != "ok":
                print(status, name, "symbolic" if symbolic else "concrete", s, data if status == "WRONG" else "", why[:250], flush=True)
print(counts)
sys.exit(1 if wrong else 0)
