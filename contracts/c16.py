from contracts.common import noted_statistics, statistics_of
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.z3load import z3
W = "hrosailing.processing.weigher."
FB, FV = W + "FuzzyBool", W + "FuzzyVariable"


def truth(c, name):
    "an arbitrary truth function with values in [0, 1]"
    f = c.fun(name, REAL, REAL)

    def m(it, args, kwargs):
        v = f(zr(args[0]))
        c.require(z3.And(v >= 0, v <= 1))
        return v

    return c.returns(c.new(FB, c.opaque_fn(name, m))), f


def var(c, key=None):
    s = c.real("sharpness")
    c.require(s > 0)
    return c.returns(c.new(FV, s, key)), s


def val(c, b, x):
    return zr(c.returns(c.method(b, "__call__", x)))


def mn(a, b):
    return z3.If(a <= b, a, b)


@contract("C16", [FB + ".fuzzy_and", FB + ".fuzzy_or", FB + ".fuzzy_not", FB + ".__and__", FB + ".__or__", FB + ".__invert__", FB + "._concat_repr"])
def connectives(c):
    "and = minimum, or = maximum, not = 1 - truth; values stay in [0, 1]; De Morgan; operands unchanged"
    (a, f), (b, g) = truth(c, "a"), truth(c, "b")
    x = c.real("x")
    A, B = f(x), g(x)
    conj, disj, neg = c.method(a, "__and__", b), c.method(a, "__or__", b), c.method(a, "__invert__")
    c.ensure("minimum", val(c, conj, x) == mn(A, B))
    c.ensure("maximum", val(c, disj, x) == z3.If(A >= B, A, B))
    c.ensure("negation", val(c, neg, x) == 1 - A)
    for n, v in (("and", conj), ("or", disj), ("not", neg)):
        c.ensure(f"{n}: truth value", z3.And(val(c, v, x) >= 0, val(c, v, x) <= 1))
    dm = c.method(c.method(a, "__invert__"), "__or__", c.method(b, "__invert__"))
    c.ensure("De Morgan", val(c, c.method(conj, "__invert__"), x) == val(c, dm, x))
    c.ensure("left operand unchanged", val(c, a, x) == A)
    c.ensure("right operand unchanged", val(c, b, x) == B)


@contract("C16", [FB + ".sigmoid", FV + "._truth", FV + ".__gt__", FV + ".__lt__", FV + ".__ge__", FV + ".__le__", FV + ".sharpness"])
def comparisons(c):
    "x > a, x >= a, x < a, x <= a: strictly between 0 and 1, one half at a, above one half exactly when true, monotone"
    v, s = var(c)
    a, x, y = c.real("a"), c.real("x"), c.real("y")
    for op, up in (("__gt__", True), ("__ge__", True), ("__lt__", False), ("__le__", False)):
        b = c.returns(c.method(v, op, a))
        t, u, h = val(c, b, x), val(c, b, y), val(c, b, a)
        c.ensure(op + ": truth value", z3.And(t > 0, t < 1))
        c.ensure(op + ": one half at the bound", h == z3.RealVal("1/2"))
        c.ensure(op + ": more true than false exactly when true", (t > z3.RealVal("1/2")) == (x > a if up else x < a))
        c.ensure(op + ": monotone", z3.Implies(x < y, t < u if up else u < t))


@contract("C16", [FV + ".__eq__", FV + ".__call__", FV + ".sharpness"])
def equality(c):
    "x(s) == a: truth one half at a, less elsewhere, symmetric about a"
    v, s0 = var(c)
    s = c.real("s")
    c.require(s > 0)
    a, d = c.real("a"), c.real("d")
    c.require(d > 0)
    b = c.returns(c.method(c.returns(c.method(v, "__call__", s)), "__eq__", a))
    c.ensure("one half at the bound", val(c, b, a) == z3.RealVal("1/2"))
    c.ensure("less elsewhere", z3.And(val(c, b, a + d) < z3.RealVal("1/2"), val(c, b, a - d) < z3.RealVal("1/2")))
    c.ensure("symmetric", val(c, b, a + d) == val(c, b, a - d))


@contract("C16", [FV + ".sharpness", FV + ".__call__"])
def sharpness(c):
    "a sharpness given by call applies to the next comparison only"
    v, s0 = var(c)
    w, _ = var(c)
    s, a, x = c.real("s"), c.real("a"), c.real("x")
    for op in ("__lt__", "__gt__", "__eq__"):
        one = c.returns(c.method(c.returns(c.method(v, "__call__", s)), op, a))
        two = c.returns(c.method(v, op, a))
        fresh = c.returns(c.method(w, op, a))
        direct = c.returns(c.method(c.returns(c.new(FV, s)), op, a))
        c.ensure(op + ": given sharpness used", val(c, one, x) == val(c, direct, x))
        c.ensure(op + ": default afterwards", val(c, two, x) == val(c, fresh, x))


@contract("C16", [FV + ".sharpness", FV + ".__call__", FV + ".__getitem__"])
def sharpness_item(c):
    "a sharpness given by call also applies to an item taken next, and only to that"
    v, s0 = var(c)
    w, s1 = var(c)
    c.require(s0 == s1)
    s, a = c.real("s"), c.real("a")
    row = c.arr("row", (4,))
    it = c.returns(c.method(c.returns(c.method(v, "__call__", s)), "__getitem__", 1))
    direct = c.returns(c.method(c.returns(c.new(FV, s)), "__lt__", a))
    c.ensure("given sharpness used by the item", val(c, c.returns(c.method(it, "__lt__", a)), row) == val(c, direct, row.get(1)))
    again = c.returns(c.method(c.returns(c.method(v, "__getitem__", 2)), "__lt__", a))
    fresh = c.returns(c.method(w, "__lt__", a))
    c.ensure("default for the next item", val(c, again, row) == val(c, fresh, row.get(2)))
    c.ensure("default for the next comparison", val(c, c.returns(c.method(v, "__lt__", a)), row.get(3)) == val(c, fresh, row.get(3)))


@contract("C16", [FB + ".__getitem__", FV + ".__getitem__"])
def items(c):
    "indexing a variable or a truth function applies it to that item of the input"
    v, s = var(c)
    a = c.real("a")
    row = c.arr("row", (4,))
    plain = c.returns(c.method(v, "__lt__", a))
    keyed = c.returns(c.method(c.returns(c.method(v, "__getitem__", 2)), "__lt__", a))
    c.ensure("variable", val(c, keyed, row) == val(c, plain, row.get(2)))
    c.ensure("truth function", val(c, c.returns(c.method(plain, "__getitem__", 3)), row) == val(c, plain, row.get(3)))


@contract("C16", W + "FuzzyWeigher.weigh")
def weigher(c):
    "one weight per row, the truth value of that row; the data is not modified"
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, 3))
    f = pts.snap()
    v, s = var(c)
    a, b = c.real("a"), c.real("b")
    lo = c.returns(c.method(c.returns(c.method(v, "__getitem__", 0)), "__gt__", a))
    hi = c.returns(c.method(c.returns(c.method(v, "__getitem__", 2)), "__lt__", b))
    fz = c.returns(c.method(lo, "__and__", hi))
    noted_statistics(c)
    wg = c.returns(c.new(W + "FuzzyWeigher", fz))
    w = c.returns(c.method(wg, "weigh", pts))
    c.shape_is("one weight per row", w, (n,))
    statistics_of(c, wg, w, n)
    i = c.skolem(n)
    c.ensure("truth value of the row", w.get(i) == mn(val(c, lo, c.carr([f((i, 0)), f((i, 1)), f((i, 2))])), val(c, hi, c.carr([f((i, 0)), f((i, 1)), f((i, 2))]))))
    c.unchanged("data not modified", pts, f)
