from contracts.common import noted_statistics, statistics_of
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import PyExc
from pyvc.z3load import z3
W = "hrosailing.processing.weigher."
OPS = {"+": ("__add__", lambda a, b: a + b), "-": ("__sub__", lambda a, b: a - b),
       "*": ("__mul__", lambda a, b: a * b), "/": ("__truediv__", lambda a, b: a / b)}


def setup(c, as_list=False):
    noted_statistics(c)
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, 3))
    return n, pts, pts.snap()


def weigher(c, n, name, kind="array", pts=None):
    "an arbitrary weigher: the weight of a point is an unknown function of the point; returned as array or as list"
    f = c.fun(name, REAL, REAL, REAL, REAL)
    row = lambda p, i: f(*[zr(p((i, j))) for j in range(3)])

    def m(it, args, kwargs):
        p = (args[0] if args else kwargs["points"]).snap()
        return c.list_of(n, lambda i: row(p, i)) if kind == "list" else c.arr_of((n,), lambda ix: row(p, ix[0]))

    w = c.returns(c.new(W + "AllOneWeigher"))
    w.attrs["weigh"] = c.opaque_fn(name, m)
    return w, lambda i: row(pts.snap() if pts is not None else None, zi(i))


def check(c, wg, pts, n, spec, what, f0, composed=True):
    w = c.returns(c.method(wg, "weigh", pts))
    c.shape_is(f"{what}: one weight per point", w, (n,))
    c.forall(f"{what}: pointwise", n, lambda i: zr(w.get(i)) == spec(i))
    if composed:
        statistics_of(c, wg, w, n, f"{what}: ")
    c.unchanged("points not modified", pts, f0)


def binary(c, op, kinds):
    n, pts, f0 = setup(c)
    (a, f), (b, g) = weigher(c, n, "w1", kinds[0], pts), weigher(c, n, "w2", kinds[1], pts)
    if op == "/":
        c.require_all(n, lambda i: g(i) != 0)
    name, fn = OPS[op]
    check(c, c.returns(c.binop(op, a, b)), pts, n, lambda i: fn(f(zi(i)), g(zi(i))), f"w1 {op} w2", f0)


@contract("C15", [W + "Weigher.__add__", W + "_BinaryMapWeigher.weigh"])
def add(c):
    "weigher + weigher, weigher + number, number + weigher"
    binary(c, "+", ("array", "list"))


@contract("C15", [W + "Weigher.__sub__", W + "_BinaryMapWeigher.weigh"])
def sub(c):
    binary(c, "-", ("list", "array"))


@contract("C15", [W + "Weigher.__mul__", W + "_BinaryMapWeigher.weigh"])
def mul(c):
    binary(c, "*", ("array", "array"))


@contract("C15", [W + "Weigher.__truediv__", W + "_BinaryMapWeigher.weigh"])
def div(c):
    binary(c, "/", ("array", "array"))


@contract("C15", [W + "Weigher.__add__", W + "Weigher.__radd__", W + "Weigher.__mul__", W + "Weigher.__rmul__", W + "Weigher.__sub__",
                  W + "Weigher.__truediv__", W + "Weigher.__rtruediv__", W + "Weigher.__neg__", W + "_UnaryMapWeigher.weigh"])
def with_number(c):
    "every documented operator between a weigher and a number acts on each weight"
    n, pts, f0 = setup(c)
    w, f = weigher(c, n, "w", "list", pts)
    x = c.real("x")
    W_ = lambda i: f(zi(i))
    for op, (name, fn) in OPS.items():
        if op == "/":
            c.require(x != 0)
        check(c, c.returns(c.binop(op, w, x)), pts, n, lambda i: fn(W_(i), x), f"w {op} x", f0)
    for op in "+*":
        check(c, c.returns(c.binop(op, x, w)), pts, n, lambda i: OPS[op][1](x, W_(i)), f"x {op} w", f0)
    c.require_all(n, lambda i: f(i) != 0)
    check(c, c.returns(c.binop("/", x, w)), pts, n, lambda i: x / W_(i), "x / w", f0)
    check(c, c.returns(c.method(w, "__neg__")), pts, n, lambda i: -W_(i), "-w", f0)


@contract("C15", [W + "Weigher.__add__", W + "Weigher.__mul__", W + "Weigher.__sub__", W + "Weigher.__truediv__", W + "_UnaryMapWeigher.weigh"])
def with_array(c):
    "the same with one number per point"
    n, pts, f0 = setup(c)
    w, f = weigher(c, n, "w", "array", pts)
    x = c.arr("x", (n,))
    g = x.snap()
    c.require_all(n, lambda i: z3.And(f(i) != 0, g((i,)) != 0))
    for op, (name, fn) in OPS.items():
        check(c, c.returns(c.binop(op, w, x)), pts, n, lambda i: fn(f(zi(i)), g((i,))), f"w {op} array", f0)
    for op in "+*/":
        check(c, c.returns(c.binop(op, x, w)), pts, n, lambda i: OPS[op][1](g((i,)), f(zi(i))), f"array {op} w", f0)
    c.unchanged("operand not modified", x, g)


@contract("C15", [W + "Weigher.__pow__", W + "_UnaryMapWeigher.weigh"])
def power(c):
    n, pts, f0 = setup(c)
    w, f = weigher(c, n, "w", "array", pts)
    for k in (0, 1, 2, 3):
        check(c, c.returns(c.method(w, "__pow__", k)), pts, n, lambda i: z3.simplify(z3.Product(*[f(zi(i))] * k) if k else z3.RealVal(1)), f"w ** {k}", f0)


@contract("C15", [W + "Weigher.__add__", W + "Weigher.__mul__"])
def nested(c):
    "results are weighers again: (w1 + x) * w2 - w1"
    n, pts, f0 = setup(c)
    (a, f), (b, g) = weigher(c, n, "w1", "array", pts), weigher(c, n, "w2", "list", pts)
    x = c.real("x")
    t = c.returns(c.binop("-", c.returns(c.binop("*", c.returns(c.binop("+", a, x)), b)), a))
    check(c, t, pts, n, lambda i: (f(zi(i)) + x) * g(zi(i)) - f(zi(i)), "(w1 + x) * w2 - w1", f0)
    check(c, a, pts, n, lambda i: f(zi(i)), "operand still usable", f0, composed=False)


@contract("C15", [W + "Weigher.__add__", W + "Weigher.__mul__", W + "Weigher.__sub__", W + "Weigher.__truediv__"])
def rejects(c):
    "operands that are neither weighers, numbers nor arrays are rejected"
    n, pts, f0 = setup(c)
    w, f = weigher(c, n, "w")
    for op in OPS:
        for v in ("text", None):
            c.raises(c.binop(op, w, v), TypeError, what=f"w {op} {v!r} rejected")
