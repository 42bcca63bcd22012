import numpy as np

from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
Q = "hrosailing.pipeline.quality_assurance."


def world(c):
    n = c.int("n", lo=1)
    pts = c.arr("p", (n, 3))
    at = pts.snap()
    speed = c.fun("speed", REAL, REAL, REAL)
    pd = c.opaque_fn("diagram", lambda it, a, k: speed(zr(a[0]), zr(a[1])))

    def err(i):
        d = zr(at((i, 2))) - speed(zr(at((i, 0))), zr(at((i, 1))))
        return z3.If(d >= 0, d, -d)

    return n, pts, at, speed, pd, err


def sums(c, n, err):
    return [zr(c.returns(c.call(np.sum, c.arr_of((n,), f)))) for f in (lambda ix: err(ix[0]), lambda ix: err(ix[0]) * err(ix[0]))]


def errors(c, s, n, err, total, squares):
    i = c.skolem(n)
    c.ensure("max_error: nothing is worse", err(i) <= zr(s["max_error"]))
    c.ensure("min_error: nothing is better", err(i) >= zr(s["min_error"]))
    c.member("max_error is an error", n, lambda t: err(t) == zr(s["max_error"]), ghosts=True)
    c.member("min_error is an error", n, lambda t: err(t) == zr(s["min_error"]), ghosts=True)
    c.ensure("average_error", zr(s["average_error"]) * n == total)
    c.ensure("average_quadratic_error", zr(s["average_quadratic_error"]) * n == squares)


@contract("C29", [Q + "MinimalQualityAssurance.check"])
def minimal(c):
    n, pts, at, speed, pd, err = world(c)
    qa = c.returns(c.new(Q + "MinimalQualityAssurance"))
    r = c.returns(c.method(qa, "check", pd, pts))
    s = r.d
    c.ensure("metrics", zb(set(s) == {"max_error", "min_error", "average_error", "average_quadratic_error"}))
    total, squares = sums(c, n, err)
    errors(c, s, n, err, total, squares)
    c.unchanged("test data", pts, at)


class Cells:
    "a dictionary whose keys are pairs of numbers that are not known one by one"

    def __init__(self, has, get, put, size, all_):
        self.has, self.get, self.put, self.size, self.all = has, get, put, size, all_

    def __contains__(self, k):
        return self.has(k)

    def __getitem__(self, k):
        return self.get(k)

    def __setitem__(self, k, v):
        self.put(k, v)

    def __len__(self):
        return self.size()

    def values(self):
        return self.all()


@contract("C29", [Q + "ComformingQualityAssurance.check", "hrosailing.core.computing.safe_operation"])
def conforming(c):
    """errors as in the minimal check, values at 0 and 360 degrees for 20 wind speeds from 0 to 20; whatever happens to be kept for the cells
    of the test data has no influence on them (the loop over the test data is judged by the trivial invariant)"""
    n, pts, at, speed, pd, err = world(c)
    size = c.int("size", lo=1)

    def make(v, i):
        a, b = S.fresh_fun("least", 1, REAL), S.fresh_fun("greatest", 1, REAL)
        fs = {"has": lambda it, x, k: S.fresh("has", BOOL), "get": lambda it, x, k: (S.fresh("least_of"), S.fresh("greatest_of")), "put": lambda it, x, k: None,
              "size": lambda it, x, k: size, "all_": lambda it, x, k: c.list_of(size, lambda t: (a(zi(t)), b(zi(t))))}
        v.tested_tuples = c.returns(c.new("contracts.c29.Cells", **{k: c.opaque_fn(k, f) for k, f in fs.items()}))

    c.invariant(Q + "ComformingQualityAssurance.check", 0, make, lambda v, i: [("trivial", zb(True))])
    qa = c.returns(c.new(Q + "ComformingQualityAssurance"))
    r = c.returns(c.method(qa, "check", pd, pts))
    s = r.d
    total, squares = sums(c, n, err)
    errors(c, s, n, err, total, squares)
    zero = []
    for k in range(20):
        for wa in (0, 360):
            x = speed(z3.Q(20 * k, 19), z3.RealVal(wa))
            zero.append(z3.If(x >= 0, x, -x))
    c.ensure("average_zero_val", zr(s["average_zero_val"]) * 40 == z3.Sum(zero))
    c.ensure("average_quadratic_zero_val", zr(s["average_quadratic_zero_val"]) * 40 == z3.Sum([x * x for x in zero]))
    c.ensure("max_zero_val", z3.And(*[zr(s["max_zero_val"]) >= x for x in zero]))
    c.ensure("max_zero_val is a value", z3.Or(*[zr(s["max_zero_val"]) == x for x in zero]))
    c.ensure("min_zero_val", z3.And(*[zr(s["min_zero_val"]) <= x for x in zero]))
    c.ensure("min_zero_val is a value", z3.Or(*[zr(s["min_zero_val"]) == x for x in zero]))
    c.ensure("test_covering", zi(s["test_covering"]) == size)
    c.unchanged("test data", pts, at)
