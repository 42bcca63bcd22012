from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3
F = "hrosailing.processing.filter."


def counts(c, f, mask, n):
    st = c.attr(f, "_statistics")
    a, b = c.it.getitem(st, "n_filtered_points"), c.it.getitem(st, "n_rows")
    c.ensure("statistics count every point once", zi(a) + zi(b) == n)
    return a


@contract("C17", [F + "BoundFilter.filter", F + "BoundFilter._determine_points_within_bound", F + "Filter.set_statistics"])
def bound(c):
    "kept iff the weight lies within the closed interval"
    n = c.int("n", lo=0)
    w = c.arr("w", (n,))
    g = w.snap()
    lo, hi = c.real("lower"), c.real("upper")
    f = c.new(F + "BoundFilter", lo, hi)
    if c.branch(hi < lo):
        c.raises(f, ValueError, what="empty interval rejected")
        return
    f = c.returns(f)
    m = c.returns(c.method(f, "filter", w))
    c.shape_is("one flag per point", m, (n,))
    c.forall("membership", n, lambda i: zb(m.get(i)) == z3.And(lo <= g((i,)), g((i,)) <= hi))
    c.unchanged("weights not modified", w, g)
    counts(c, f, m, n)


@contract("C17", [F + "QuantileFilter.filter", F + "QuantileFilter._calculate_quantile"])
def quantile(c):
    "only lowest weights are removed: at most the percentage, and as many as possible"
    n = c.int("n", lo=1)
    w = c.arr("w", (n,))
    g = w.snap()
    p = c.real("percent")
    f = c.new(F + "QuantileFilter", p)
    if c.branch(z3.Or(p < 0, p > 100)):
        c.raises(f, ValueError, what="percentage out of range rejected")
        return
    f = c.returns(f)
    m = c.returns(c.method(f, "filter", w))
    c.shape_is("one flag per point", m, (n,))
    i, j = c.skolem(n), c.skolem(n)
    c.ensure("every removed weight is smaller than every kept one", z3.Implies(z3.And(z3.Not(zb(m.get(i))), zb(m.get(j))), g((i,)) < g((j,))))
    c.unchanged("weights not modified", w, g)
    counts(c, f, m, n)
    sel, rank = c.ranks(n, lambda k: g((k,)))
    # pigeonhole: removed points have pairwise different ranks, all of them below percent/100 * n
    c.ensure("rank of a removed point", z3.Implies(z3.Not(zb(m.get(i))), z3.And(rank(i) >= 0, 100 * (z3.ToReal(rank(i)) + 1) <= p * zr(n))))
    c.ensure("ranks differ", z3.Implies(i != j, rank(i) != rank(j)))
    r = c.skolem(n, "r")
    c.ensure("as many as possible: a kept weight reaches every rank within the percentage",
             z3.Implies(z3.And(zb(m.get(j)), 100 * z3.ToReal(r) <= p * zr(n)), g((sel(r),)) <= g((j,))))
