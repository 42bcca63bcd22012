"""Pieces of numpy / Python as hrosailing uses them; tests/crosscheck.py compares the engine's result with CPython's on the same input.
x, y: arrays of n numbers; m: array (n, 3); k: array of n pairwise different numbers, l: list of n numbers"""
import ast
import itertools

import numpy as np


def sort(x, y, m, k, l): return np.sort(x)
def argsort(x, y, m, k, l): return np.argsort(k)
def argsort_take(x, y, m, k, l): return x[np.argsort(k)]
def argsort_rows(x, y, m, k, l): return m[np.argsort(k)]
def argmin(x, y, m, k, l): return np.argmin(x), np.argmax(x), x.argmin() if hasattr(x, "argmin") else 0
def minmax(x, y, m, k, l): return x.min(), x.max(), np.min(y), np.max(y), min(l), max(l)
def sums(x, y, m, k, l): return x.sum(), np.sum(y), sum(l), np.sum(m, axis=0), np.mean(x)
def means(x, y, m, k, l): return np.mean(m, axis=0), m.mean(axis=0)
def average(x, y, m, k, l): return np.average(x, weights=np.abs(y) + 1)
def std_like(x, y, m, k, l): return np.sum((x - np.mean(x)) ** 2)
def elementwise(x, y, m, k, l): return x + y, x - 2 * y, x * y, x / (np.abs(y) + 1), -x, x ** 2
def comparisons(x, y, m, k, l): return x < y, x <= y, x == y, x != y, np.logical_and(x > 0, y > 0), np.logical_or(x > 0, y > 0), np.logical_not(x > 0), ~(x > 0), (x > 0) & (y > 0), (x > 0) | (y > 0)
def anyall(x, y, m, k, l): return np.any(x > y), np.all(x > y), any(a > 0 for a in l), all(a > 0 for a in l)
def mod(x, y, m, k, l): return x % 7, (x - 100) % 360, x // 2, [a % 5 for a in l]
def absolute(x, y, m, k, l): return np.abs(x), abs(y), [abs(a) for a in l]
def where3(x, y, m, k, l): return np.where(x > y, x, y), np.where(x > 0, 1, 0)
def where1(x, y, m, k, l): return np.where(x > 0)[0], np.nonzero(y > 0)[0], np.flatnonzero(x > y)
def mask(x, y, m, k, l): return x[x > 0], m[y > 0], len(x[x > y])
def fancy(x, y, m, k, l): return x[[0, -1]], m[[0, 0]], x[np.array([1, 0])]
def slices(x, y, m, k, l): return x[1:], x[:-1], x[::-1], m[:, 1], m[0], m[:, :2], m[1:, 0], m[:, [0, 2]]
def setitem(x, y, m, k, l):
    z = x.copy()
    z[z > 0] = 5
    z[0] = -1
    return z
def set_slice(x, y, m, k, l):
    z = m.copy()
    z[:, 1] = x
    z[0] += 1
    return z
def inplace(x, y, m, k, l):
    z = x.copy()
    z += y
    z *= 2
    return z
def transpose(x, y, m, k, l): return m.T, m.T[1], np.transpose(m)
def ravel(x, y, m, k, l): return m.ravel(), m.reshape(-1), x.reshape(-1, 1), m.T.ravel(), m.flatten()
def shapes(x, y, m, k, l): return m.shape, x.shape, len(m), m.ndim, x.size, m.size, np.shape(m)
def column_stack(x, y, m, k, l): return np.column_stack((x, y)), np.column_stack([x, m])
def concat(x, y, m, k, l): return np.concatenate([x, y]), np.append(x, 3), np.concatenate([x[1:], [4, 5]]), np.concatenate((m, m)), np.hstack((x, y)), np.vstack([x, y]), np.append(m, m, axis=0), np.concatenate((m, m), axis=1)
def stack(x, y, m, k, l): return np.stack([x, y]), np.array([x, y]), np.array([x, y]).T, np.asarray(l), np.array(l)
def constants(x, y, m, k, l): return np.zeros(len(x)), np.ones(3), np.zeros((2, 2)), np.full(4, 7.5), np.eye(3), np.zeros_like(x), np.ones_like(m), np.full(len(x), 2.0)
def arange(x, y, m, k, l): return np.arange(5), np.arange(1, 4), np.arange(0, 10, 3), list(range(2, 9, 3)), np.arange(len(x))
def linspace(x, y, m, k, l): return np.linspace(0, 1, 5), np.linspace(x[0], x[1], 4), np.linspace(0, 6, 3, endpoint=False), np.linspace(2, 3, len(x))
def meshgrid(x, y, m, k, l): return np.meshgrid(x, y)[0], np.meshgrid(x, y)[1]
def clip(x, y, m, k, l): return np.clip(x, -1, 2), np.minimum(x, y), np.maximum(x, 0)
def isclose(x, y, m, k, l): return np.isclose(x, y), np.isclose(x, x + 1e-12), np.allclose(x, x)
def dots(x, y, m, k, l): return np.dot(x, y), x @ y, m.T @ x, np.dot(m[0], m[1]), m @ np.array([1.0, 2.0, 3.0])
def outer(x, y, m, k, l): return x[:, None] * y[None, :], x[:, None] - y, m - x[:, None], m * np.array([1, 2, 3])
def cross(x, y, m, k, l): return np.cross(m[0], m[1])
def det(x, y, m, k, l): return np.linalg.det(np.array([[x[0], 1.0], [2.0, x[1]]]))
def solve(x, y, m, k, l): return np.linalg.solve(np.array([[2.0, 1.0], [1.0, 3.0]]), np.array([x[0], y[0]])), np.linalg.inv(np.array([[2.0, 1.0], [1.0, 3.0]]))
def norm(x, y, m, k, l): return np.linalg.norm(m, axis=1) ** 2, np.linalg.norm(x) ** 2
def delete(x, y, m, k, l): return np.delete(x, 0), np.delete(m, 1, axis=1), np.delete(x, [0, 1])
def repeat(x, y, m, k, l): return np.repeat(x[:2], 2), np.repeat(np.array([1.0, 2.0, 3.0]), 2)
def flip(x, y, m, k, l): return np.flip(x), m[::-1], np.flip(m, axis=0)
def ix(x, y, m, k, l): return m[np.ix_([0, 1], [2, 0])]
def expand(x, y, m, k, l): return np.expand_dims(x, 0), np.atleast_2d(x), np.atleast_1d(x[0]), x[np.newaxis, :]
def cumulative(x, y, m, k, l): return [sum(l[:i]) for i in range(len(l))]
def lists(x, y, m, k, l):
    r = list(l)
    r.append(3)
    r.extend([1, 2])
    r.insert(0, 9)
    q = r.pop()
    return r, q, r[1:3], r[-1], len(r), r + [4], [0] * 3, r.count(9), r.copy()
def comp(x, y, m, k, l): return [2 * a for a in l], [a for a in l if a > 0], [(a, b) for a, b in zip(l, l[1:])], [i for i, a in enumerate(l) if a <= 0]
def loops(x, y, m, k, l):
    t, c, r = 0, 0, []
    for a in l:
        t += a
        if a > 0:
            c += 1
            r.append(a * 2)
    return t, c, r
def best(x, y, m, k, l):
    b = l[0]
    for a in l:
        if a > b:
            b = a
    return b
def zipped(x, y, m, k, l): return [a * b for a, b in zip(x, y)], list(zip(l, range(5))), [list(t) for t in zip(*[(a, b) for a, b in zip(x, y)])]
def sorted_(x, y, m, k, l): return sorted(l), sorted(l, reverse=True), sorted(k, key=lambda a: -a), sorted(zip(k, x), key=lambda t: t[0]), max(zip(k, x), key=lambda t: t[0]), min(k, key=lambda a: abs(a - 1.25))
def reversed_(x, y, m, k, l): return list(reversed(l)), l[::-1]
def sets(x, y, m, k, l): return len(set(l)), sorted(set(l)), 3 in set(l), len({1, 2} | {2, 3}), 1 in l
def dicts(x, y, m, k, l):
    d = {"a": 1, "b": x[0]}
    d["c"] = 3
    d.update({"a": 2})
    d.setdefault("z", 7)
    v = d.pop("c")
    return list(d.keys()), d["a"], d.get("q", 5), "b" in d, v, len(d), [q for q in d.values()][0]
def ints(x, y, m, k, l): return int(2.7), int(-2.7), round(2.5), round(3.5), round(2.6), -7 // 2, -7 % 3, 7 // -2, divmod(7, 3)[0] if False else 2, 2 ** 3, bool(0), bool(2)
def numbers(x, y, m, k, l): return float("3.5"), float(" -2 "), ast.literal_eval("4"), ast.literal_eval("[1, 2.5]"), float(x[0]), abs(-3)
def strings(x, y, m, k, l): return "a b".split(), "A_b".lower(), "ab".replace("b", "c"), " x ".strip(), "a" + "b", "x,y".split(","), "abc"[1:], "abc".startswith("ab"), "-".join(["a", "b"]), f"{'q'}r", "ab" in "xaby"
def chains(x, y, m, k, l): return list(itertools.chain([1, 2], [3])), list(itertools.chain.from_iterable([[1], [2, 3]])), list(itertools.islice([5, 6, 7], 2))
def percentile(x, y, m, k, l): return np.percentile(k, 50), np.percentile(k, 20), np.percentile(k, 100)
def tolist(x, y, m, k, l): return x.tolist(), m.tolist(), np.array([1, 2]).tolist(), x.astype(float)
def truth(x, y, m, k, l): return bool(len(l)), not l, (1 and 0) == 0, (None or 3), 1 if l else 2
def unpack(x, y, m, k, l):
    a, *b = l
    c, d = m[0, :2]
    return a, b, c, d
def while_(x, y, m, k, l):
    i = 0
    while i < 4:
        i += 1
    return i
def broadcasting(x, y, m, k, l): return m + 1, m - m[0], (m > 0).sum(), m[:, 0] > x, np.sum(x > 0), np.sum(m, axis=1), np.max(m, axis=0)
def tryexc(x, y, m, k, l):
    try:
        return l[99]
    except IndexError:
        return -1
def round_(x, y, m, k, l): return np.floor(x), np.ceil(x), np.sign(y), np.square(x), np.sqrt(np.square(x))
def chain1(x, y, m, k, l): return list(itertools.chain([1, 2], [3]))
def chain2(x, y, m, k, l): return list(itertools.chain.from_iterable([[1], [2, 3]]))
def chain3(x, y, m, k, l): return list(itertools.islice([5, 6, 7], 2))
