from pyvc.harness import contract
from pyvc.terms import *
from pyvc import ops
from pyvc.z3load import z3
from pyvc.values import S
N = "hrosailing.processing.neighbourhood."


@contract("C18", N + "Ball.is_contained_in")
def ball(c):
    """mask[i] iff norm(row i) <= radius"""
    n = c.int("n", lo=0)
    pts = c.arr("pts", (n, 2))
    orig = pts.snap()
    r = c.real("radius")
    norm = c.norm_fn()
    ball = c.new(N + "Ball", radius=r, norm=norm)
    if c.branch(r <= 0):
        c.raises(ball, ValueError, what="non-positive radius rejected")
        return
    ball = c.returns(ball)
    m = c.returns(c.method(ball, "is_contained_in", pts))
    c.shape_is("one flag per point", m, (n,))
    c.forall("membership", n, lambda i: zb(m.get(i)) == (norm.spec(orig((i, 0)), orig((i, 1))) <= r))
    c.unchanged("points not modified", pts, orig)


@contract("C18", N + "ScalingBall.is_contained_in")
def scaling_ball(c):
    """at least min_pts points, closed under smaller norm"""
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, 2))
    k = c.int("k", lo=1)
    norm = c.norm_fn()
    c.require(k <= n)
    ball = c.returns(c.new(N + "ScalingBall", k, norm=norm))
    m = c.returns(c.method(ball, "is_contained_in", pts))
    c.shape_is("one flag per point", m, (n,))
    nr = lambda i: norm.spec(pts.get(i, 0), pts.get(i, 1))
    i, j = c.skolem(n), c.skolem(n)
    c.ensure("down-closed", z3.Implies(z3.And(zb(m.get(i)), nr(j) <= nr(i)), zb(m.get(j))))


@contract("C18", N + "Ellipsoid.is_contained_in")
def ellipsoid(c):
    n = c.int("n", lo=1)
    pts = c.arr("pts", (n, 2))
    T = c.arr("T", (2, 2))
    norm = c.norm_fn()
    r = c.real("radius")
    c.require(r > 0)
    e = c.new(N + "Ellipsoid", T, norm, r)
    det = T.get(0, 0) * T.get(1, 1) - T.get(0, 1) * T.get(1, 0)
    if c.branch(det == 0):
        c.raises(e, ValueError)
        return
    e = c.returns(e)
    m = c.returns(c.method(e, "is_contained_in", pts))
    c.shape_is("one flag per point", m, (n,))
    i = c.skolem(n)
    x, y = pts.get(i, 0), pts.get(i, 1)
    u = (T.get(1, 1) * x - T.get(0, 1) * y) / det
    v = (-T.get(1, 0) * x + T.get(0, 0) * y) / det
    c.ensure("membership", zb(m.get(i)) == (norm.spec(u, v) <= r))


@contract("C18", N + "Cuboid.is_contained_in")
def cuboid(c):
    n = c.int("n", lo=0)
    pts = c.arr("pts", (n, 2))
    a, b = c.real("a"), c.real("b")
    cu = c.returns(c.new(N + "Cuboid", dimensions=(a, b)))
    m = c.returns(c.method(cu, "is_contained_in", pts))
    c.shape_is("one flag per point", m, (n,))
    i = c.skolem(n)
    x, y = pts.get(i, 0), pts.get(i, 1)
    ab = lambda t: z3.If(t >= 0, t, -t)
    c.ensure("membership", zb(m.get(i)) == z3.And(ab(x) <= a, ab(y) <= b))


@contract("C18", N + "Polytope.is_contained_in")
def polytope(c):
    n, k = c.int("n", lo=1), c.int("k", lo=1)
    pts = c.arr("pts", (n, 2))
    A, b = c.arr("A", (k, 2)), c.arr("b", (k,))
    p = c.returns(c.new(N + "Polytope", A, b))
    m = c.returns(c.method(p, "is_contained_in", pts))
    c.shape_is("one flag per point", m, (n,))
    i = c.skolem(n)
    j = c.skolem(k)
    ineq = lambda q: A.get(q, 0) * pts.get(i, 0) + A.get(q, 1) * pts.get(i, 1) <= b.get(q)
    c.ensure("inside implies every inequality", z3.Implies(zb(m.get(i)), ineq(j)))
    ok = c.bool("all")
    c.require_all(k, lambda q: z3.Implies(ok, ineq(q)))
    c.ensure("every inequality implies inside", z3.Implies(ok, zb(m.get(i))))
