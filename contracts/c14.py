from datetime import datetime

from contracts.common import noted_statistics, statistics_of
from pyvc.harness import contract
from pyvc.values import S, filter_seq
from pyvc.terms import *
from pyvc.z3load import z3
W = "hrosailing.processing.weigher."


def points(c, d=3):
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, d))
    return n, pts, pts.snap()


def quick_statistics(c):
    noted_statistics(c)


def unit(c, w, n, wg=None):
    if wg is not None:
        statistics_of(c, wg, w, n)
    c.shape_is("one weight per point", w, (n,))
    i = c.skolem(n)
    c.unit_interval("weight between 0 and 1", w.get(i))
    return i


@contract("C14", [W + "CylindricMeanWeigher.weigh", W + "CylindricMeanWeigher._calculate_weight", W + "_normalize"])
def cylindric_mean(c):
    "n weights in [0, 1], the largest deviation gets 0; points not modified; weighing again gives the same"
    quick_statistics(c)
    n, pts, f = points(c)
    norm = c.norm_fn()
    r = c.real("radius")
    wg = c.new(W + "CylindricMeanWeigher", r, norm)
    if c.branch(r <= 0):
        c.raises(wg, ValueError, what="non-positive radius rejected")
        return
    # a point lies within its own cylinder
    c.require(norm.spec(0, 0) == 0)
    wg = c.returns(wg)
    w = c.returns(c.method(wg, "weigh", pts))
    i = unit(c, w, n, wg)
    c.unchanged("points not modified", pts, f)


@contract("C14", [W + "CylindricMemberWeigher.weigh", W + "CylindricMemberWeigher._count_points_in_cylinder", W + "_normalize"])
def cylindric_member(c):
    "n weights in [0, 1]; points not modified"
    quick_statistics(c)
    n, pts, f = points(c)
    norm = c.norm_fn()
    c.require(norm.spec(0, 0) == 0)
    r, h = c.real("radius"), c.real("length")
    wg = c.new(W + "CylindricMemberWeigher", r, h, norm)
    if c.branch(z3.Or(r <= 0, h < 0)):
        c.raises(wg, ValueError, what="invalid radius or length rejected")
        return
    w = c.returns(c.method(c.returns(wg), "weigh", pts))
    unit(c, w, n, wg)
    c.unchanged("points not modified", pts, f)


@contract("C14", W + "AllOneWeigher.weigh")
def all_one(c):
    n, pts, f = points(c)
    w = c.returns(c.method(c.returns(c.new(W + "AllOneWeigher")), "weigh", pts))
    c.shape_is("one weight per point", w, (n,))
    c.forall("one", n, lambda i: w.get(i) == 1)


@contract("C14", [W + "Weigher.set_statistics"])
def statistics(c):
    "statistics of at least one weight: never an exception, the weights are not modified; average, least and greatest weight, percentages per tenth"
    n = c.int("n", lo=1)
    w = c.arr("w", (n,))
    f = w.snap()
    wg = c.returns(c.new(W + "AllOneWeigher"))
    c.returns(c.method(wg, "set_statistics", w))
    c.unchanged("weights not modified", w, f)
    st = c.returns(c.method(wg, "get_latest_statistics"))
    lo, hi = zr(c.it.getitem(st, "minimal_weight")), zr(c.it.getitem(st, "maximal_weight"))
    i = c.skolem(n)
    c.ensure("bounds", z3.And(lo <= f((i,)), f((i,)) <= hi))
    c.ensure("average", zr(c.it.getitem(st, "average_weight")) == zr(c.sum(n, lambda i: f((i,)))) / z3.ToReal(n))
    q = c.it.getitem(st, "quantiles")
    c.ensure("ten tenths", zb(zi(q.length()) == 10))
    S.match_filters = "quick"
    for i in (0, 6, 9):
        m = filter_seq(n, lambda k: z3.And(lo + (hi - lo) * (i + 1) / 10 >= f((zi(k),)), f((zi(k),)) >= lo + (hi - lo) * i / 10), lambda k: k)[0]
        c.ensure(f"percentage of the weights in tenth {i + 1}", zr(c.it.getitem(q, i)) == zr(c.it.call(round, [z3.ToReal(100 * zi(m)) / z3.ToReal(n), 2], {})))


@contract("C14", [W + "FluctuationWeigher.weigh", W + "_set_points_from_data"])
def fluctuation(c):
    "one weight per point in [0, 1]; the data is not modified"
    quick_statistics(c)
    n = c.int("n", lo=1)
    t, a, b = c.list("time", n), c.list("A", n), c.list("B", n)
    c.require_pairs(n, lambda i, j: t.fn(i) <= t.fn(j))
    before, after, u, v = c.real("before"), c.real("after"), c.real("bound_A"), c.real("bound_B")
    c.require(z3.And(before >= 0, after >= 0, u > 0, v > 0))
    data = c.data(n, datetime=t, B=b, A=a, types={"datetime": datetime})
    wg = c.returns(c.new(W + "FluctuationWeigher", c.plist(["A", "B"]), (before, after), c.plist([u, v])))
    w = c.returns(c.method(wg, "weigh", data))
    unit(c, w, n, wg)
