import numpy as np
from scipy.spatial import ConvexHull

from pyvc.harness import contract
from pyvc.npmodel import build
from pyvc.terms import *
from pyvc.values import PList, S, mk_arr
from pyvc.z3load import z3
M = "hrosailing.processing.sampler."


def hull(c):
    """ConvexHull of points: an unknown number of half planes normal . x + offset <= 0 (that they bound the hull of the points is assumed of
    scipy); returns the half plane test for one arbitrary of them"""
    m = c.int("edges", lo=3)
    a, b, o = (c.fun("edge_" + x, INT, REAL) for x in "xyo")
    vol = c.real("volume")
    c.require(vol > 0)

    def model(pts, *args, **kw):
        c.shape_is("hull of points in the plane", pts, (pts.shape[0], 2))
        k = {0: a, 1: b, 2: o}
        eq = mk_arr((m, 3), lambda idx: k[conc(idx[1])](zi(idx[0])) if isinstance(conc(idx[1]), int) else
                    z3.If(zi(idx[1]) == 0, a(zi(idx[0])), z3.If(zi(idx[1]) == 1, b(zi(idx[0])), o(zi(idx[0])))), "f")
        return c.obj(Hull, equations=eq, volume=vol)

    c.external(ConvexHull, "scipy.spatial.ConvexHull: equations are half planes whose intersection is the convex hull", model)
    e = c.skolem(m)
    return lambda x, y: a(e) * x + b(e) * y <= -o(e)


class Hull:
    pass


class Rng:
    pass


def points(c):
    n = c.int("n", lo=3)
    d = 3
    p = c.arr("pts", (n, d))
    return n, p, p.snap()


@contract("C21", [M + "UniformRandomSampler.sample", M + "_create_bounds"])
def uniform(c):
    "exactly the requested number of points, all in the hull; the given points are not modified (loop invariant)"
    n, p, f = points(c)
    inside = hull(c)
    N = c.int("n_samples")
    s = c.new(M + "UniformRandomSampler", N)
    if c.branch(N <= 0):
        c.raises(s, ValueError, what="non-positive number rejected")
        return
    s = c.returns(s)

    def uniform(lo, hi, size):
        u = S.fresh_fun("uniform", 1, REAL)
        return build((size,), lambda idx: u(zi(idx[0])), "f")

    c.external(np.random.default_rng, "random numbers are arbitrary numbers", lambda: c.obj(Rng, uniform=c.opaque_fn("uniform", lambda it, a, k: uniform(*a))))

    def make(v, i):
        u = S.fresh_fun("sample", 2, REAL)
        v.samples.assign(n=S.fresh("len", INT), fn=lambda k: mk_arr((2,), lambda idx: u(zi(k), zi(idx[0])), "f"))

    def inv(v, i):
        yield "number", z3.And(zi(v.samples.length()) >= 0, zi(v.samples.length()) <= N)
        if v.samples.items is None:
            yield "in the hull", v.samples.length(), lambda k: inside(*[zr(v.samples.get(k).get(j)) for j in (0, 1)])

    c.invariant(M + "UniformRandomSampler.sample", 0, make, inv)
    r = c.returns(c.method(s, "sample", p))
    c.shape_is("shape", r, (N, 2))
    c.forall("in the hull", N, lambda k: inside(zr(r.get(k, 0)), zr(r.get(k, 1))))
    c.unchanged("points not modified", p, f)


@contract("C21", [M + "_sample_generator"])
def spiral(c):
    "the scaled and moved spiral points that lie in the hull"
    m, k = c.int("edges", lo=1), c.int("k", lo=1)
    eq, base, mid, t = c.arr("eq", (m, 3)), c.arr("base", (2, k)), c.arr("mid", (2,)), c.real("t")
    f, b, g = eq.snap(), base.snap(), mid.snap()
    gen = c.returns(c.call(M + "_sample_generator", base, mid, eq))
    r = c.returns(c.call(gen, t))
    e = c.skolem(m)
    N = r.shape[0]
    c.shape_is("shape", r, (N, 2))
    i = c.skolem(N)
    c.ensure("in the hull", f((e, 0)) * r.get(i, 0) + f((e, 1)) * r.get(i, 1) <= -f((e, 2)))


@contract("C21", [M + "_binary_rescale"])
def rescale(c):
    "whenever the search ends, it has found a sample of the requested size made by the generator (loop invariant)"
    N = c.int("n_samples", lo=1)
    size = c.fun("size", REAL, INT)
    x = c.fun("x", REAL, INT, REAL)
    made = c.fun("made_at", INT, REAL)

    def generate(it, args, kw):
        t = zr(args[0])
        S.assume(size(t) >= 0)
        return build((size(t),), lambda idx: x(t, zi(idx[0])), "f")

    start = c.real("start")
    gen = c.opaque_fn("generate_sample", generate)
    state = {}

    def make(v, i):
        t = S.fresh("t")
        v.t, v.lb = t, S.fresh("lb")
        from pyvc.values import Choice
        v.ub = Choice([(S.fresh("no_upper", BOOL), None), (True, S.fresh("ub"))])
        v.sample = generate(None, [t], {})

    def inv(v, i):
        yield "size", zi(v.sample.shape[0]) == size(zr(v.t))
        yield "entries", v.sample.shape[0], lambda k: v.sample.get(k) == x(zr(v.t), k)
        state["t"] = zr(v.t)

    c.invariant(M + "_binary_rescale", 0, make, inv)
    r = c.returns(c.call(M + "_binary_rescale", N, gen, start))
    c.ensure("size", zi(r.shape[0]) == N)
    c.forall("made by the generator", N, lambda k: r.get(k) == x(state["t"], k))


def spiral_sampler(c, name):
    n, p, f = points(c)
    inside = hull(c)
    N = c.int("n_samples")
    s = c.new(M + name, N)
    if c.branch(N <= 0):
        c.raises(s, ValueError, what="non-positive number rejected")
        return
    s = c.returns(s)
    mid, r = c.arr("mid", (2,)), c.real("radius")
    c.require(r >= 0)

    def circle(pts, *args):
        c.shape_is("circle around points in the plane", pts, (n, 2))
        return mid, r

    def rescaled(n_samples, generate, start):  # contract `rescale`
        c.ensure("requested number", zi(n_samples) == N)
        x = c.it.call(generate, [S.fresh("t")])
        S.conds.append(zi(x.shape[0]) == N)
        return x

    c.by_contract(M + "_make_circle", circle)
    c.by_contract(M + "_binary_rescale", rescaled)
    x = c.returns(c.method(s, "sample", p))
    c.shape_is("shape", x, (N, 2))
    c.forall("in the hull", N, lambda k: inside(zr(x.get(k, 0)), zr(x.get(k, 1))))
    c.unchanged("points not modified", p, f)


@contract("C21", [M + "FibonacciSampler.sample"])
def fibonacci(c):
    "exactly the requested number of points, all in the hull (the search by the contract rescale)"
    spiral_sampler(c, "FibonacciSampler")


@contract("C21", [M + "ArchimedeanSampler.sample"])
def archimedean(c):
    "exactly the requested number of points, all in the hull (the search by the contract rescale; loop invariant)"

    def make(v, i):
        u = S.fresh_fun("beta", 1, REAL)
        v.beta.assign(n=S.fresh("len", INT), fn=lambda k: u(zi(k)))

    def inv(v, i):
        yield "number of angles", zi(v.beta.length()) == zi(i) + 1
        yield "angles", v.beta.length(), lambda k: zr(v.beta.get(k)) >= 0

    c.invariant(M + "ArchimedeanSampler.sample", 0, make, inv)
    spiral_sampler(c, "ArchimedeanSampler")
