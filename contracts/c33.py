import inspect

import numpy as np
import scipy.odr.odrpack as odrpack
from scipy.optimize import curve_fit

from pyvc.harness import contract
from pyvc.terms import *
from pyvc.values import PDict, S
from pyvc.z3load import z3
R = "hrosailing.processing.regressor."


class Thing:
    pass


def signature(c, names, star):
    P = inspect.Parameter

    def model(f):
        params = PDict({n: c.obj("contracts.c33.Thing", name=n, kind=P.POSITIONAL_OR_KEYWORD) for n in names})
        if star:
            params.d["params"] = c.obj("contracts.c33.Thing", name="params", kind=P.VAR_POSITIONAL)
        return c.obj("contracts.c33.Thing", parameters=params)

    c.external(inspect.signature, "inspect.signature gives the parameters of the function", model)


class Fit:
    "one fit: checks what the solver is asked to minimize"

    def __init__(self, c, k, like=None):
        self.c, self.k = c, k
        t = "" if like is None else "2"
        self.n = c.int("n" + t, lo=1)
        self.data = c.arr("data" + t, (self.n, 3))
        self.at = self.data.snap()
        self.speed = like.speed if like else c.fun("model", *[REAL] * (2 + k), REAL)
        self.model = like.model if like else c.opaque_fn("model_func", self.evaluate)
        self.best = [c.real(f"best{j}{t}") for j in range(k)]

    def evaluate(self, it, args, kw):
        c = self.c
        ws, wa, *p = args
        c.ensure("number of parameters", zb(len(p) == self.k))
        return c.arr_of((it.seq(ws)[0],), lambda ix: self.speed(zr(it.seq(ws)[1](ix[0])), zr(it.seq(wa)[1](ix[0])), *[zr(x) for x in p]))

    def parameters(self):
        return [self.c.real(f"p{j}") for j in range(self.k)]

    def judged(self, value, p, y, m, i):
        "value and y are the model and the boat speed of the row"
        c, at, it = self.c, self.at, self.c.it
        c.ensure("model at the wind of the row", z3.And(zi(it.seq(value)[0]) == self.n, zr(it.seq(value)[1](i)) == self.speed(zr(at((i, 0))), zr(at((i, 1))), *p)))
        c.ensure("boat speed of the row", z3.And(zi(it.seq(y)[0]) == self.n, zr(it.seq(y)[1](i)) == zr(at((i, 2)))))

    def result(self):
        return self.c.arr_of((self.k,), lambda ix: pick(self.best, ix[0]))

    def check(self, r):
        c = self.c
        p = c.returns(c.it.getattr(r, "optimal_params"))
        c.shape_is("parameters", p, (self.k,))
        for j, b in enumerate(self.best):
            c.ensure("parameters of the solver", zr(p.get(j)) == b)
        c.ensure("the given function", zb(c.it.getattr(r, "model_func") is self.model))
        c.unchanged("data", self.data, self.at)


def pick(xs, i):
    r = xs[-1]
    for j in reversed(range(len(xs) - 1)):
        r = z3.If(zi(i) == j, xs[j], r)
    return r


def least(c, names, star, given, k):
    signature(c, names, star)
    first = Fit(c, k)
    fits = [first, Fit(c, k, first)]
    done = []
    init = tuple(c.real(f"init{j}") for j in range(k)) if given else None

    def solver(f, X, y, p0=None):
        fit = fits[len(done)]
        start = c.it.seq(p0)[2]
        c.ensure("number of initial values", zb(len(start) == k))
        for j, x in enumerate(start):
            c.ensure("initial values", zr(x) == (zr(init[j]) if given else 1))
        p = fit.parameters()
        i = c.skolem(fit.n)
        fit.judged(c.returns(c.it.call(f, [X, *p], {})), p, y, fit.n, i)
        return fit.result(), c.arr("covariance", (k, k))

    c.external(curve_fit, "scipy.optimize.curve_fit(f, X, y, p0) gives the parameters p with the least sum of squares of f(X, *p) - y", solver)
    r = c.returns(c.new(R + "LeastSquareRegressor", first.model, init))
    c.ensure("no parameters before the fit", zb(c.it.getattr(r, "optimal_params") is None))
    for fit in fits:
        c.returns(c.method(r, "fit", fit.data))
        fit.check(r)
        done.append(fit)


LEAST = [R + "LeastSquareRegressor.__init__", R + "LeastSquareRegressor.fit", R + "LeastSquareRegressor._get_optimal_parameters"]


@contract("C33", LEAST)
def least_squares(c):
    "the solver minimizes the squares of model - boat speed over the rows from the given initial values; its parameters are the result, in a second fit too (1 to 4 parameters)"
    k = next(j for j in range(1, 5) if j == 4 or c.branch(c.bool(f"k{j}")))
    least(c, ["ws", "wa", *"abcd"[:k]], False, True, k)


@contract("C33", LEAST)
def least_squares_default(c):
    "without initial values: 1 for every parameter of the model (1 to 4 named parameters)"
    k = next(j for j in range(1, 5) if j == 4 or c.branch(c.bool(f"k{j}")))
    least(c, ["ws", "wa", *"abcd"[:k]], False, False, k)


@contract("C33", [R + "ODRegressor.__init__", R + "ODRegressor.fit"])
def orthogonal(c):
    "the least squares job of the solver for the rows from the initial values; its parameters are the result, in a second fit too; data of other shapes are rejected"
    k = next(j for j in range(1, 5) if j == 4 or c.branch(c.bool(f"k{j}")))
    first = Fit(c, k)
    fits = [first, Fit(c, k, first)]
    done = []
    init, most = tuple(c.real(f"init{j}") for j in range(k)), c.int("max_it")
    state = {}
    c.external(odrpack.Model, "scipy.odr.Model(f) is the model f(p, x)", lambda f: c.obj("contracts.c33.Thing", f=f))
    c.external(odrpack.Data, "scipy.odr.Data(x, y) are the data", lambda x, y: c.obj("contracts.c33.Thing", x=x, y=y))

    def odr(data, model, beta0=None, maxit=None):
        def run(it, args, kw):
            fit = fits[len(done)]
            c.ensure("least squares", zb(state.get("job") == 2))
            p = fit.parameters()
            i = c.skolem(fit.n)
            x, y = c.attr(data, "x"), c.attr(data, "y")
            x = c.returns(c.it.call(np.array, [x], {}))
            c.shape_is("two inputs", x, (2, fit.n))
            value = c.returns(c.it.call(c.attr(model, "f"), [c.arr_of((k,), lambda ix: pick(p, ix[0])), x], {}))
            fit.judged(value, p, y, fit.n, i)
            return c.obj("contracts.c33.Thing", beta=fit.result())

        c.ensure("initial values", zb(beta0 is init or all(a is b for a, b in zip(c.it.seq(beta0)[2], init))))
        c.ensure("iterations", zi(maxit) == most)
        return c.obj("contracts.c33.Thing", set_job=c.opaque_fn("set_job", lambda it, args, kw: state.update(job=kw["fit_type"])), run=c.opaque_fn("run", run))

    c.external(odrpack.ODR, "scipy.odr.ODR with fit_type 2 gives the parameters p with the least sum of squares of f(p, x) - y", odr)
    r = c.returns(c.new(R + "ODRegressor", first.model, init, most))
    c.ensure("no parameters before the fit", zb(c.it.getattr(r, "optimal_params") is None))
    if c.branch(c.bool("wrong")):
        n, m = c.int("rows", lo=0), c.int("columns", lo=1)
        c.require(z3.Or(n == 0, m != 3))
        c.raises(c.method(r, "fit", c.arr("other", (n, m))), ValueError, what="other shapes rejected")
        c.stop()
    for fit in fits:
        c.returns(c.method(r, "fit", fit.data))
        fit.check(r)
        done.append(fit)
