import numpy as np

from pyvc import ops
from pyvc.harness import contract
from pyvc.terms import *
from pyvc.npmodel import seq_sum
from pyvc.z3load import z3
M = "hrosailing.models.influencemodel."
CONV = "hrosailing.core.computing.convert_apparent_wind_to_true"
REMOVE = [M + "_get_true_wind_data", "hrosailing.core.computing.data_dict_to_numpy"]


def cols(c, names, n, sort=REAL):
    ls = {k: c.list(k, n, sort) for k in names}
    return ls, {k: l.snap() if hasattr(l, "snap") else (lambda i, l=l: l.fn(i)) for k, l in ls.items()}


def models(c):
    shift = c.real("shift")
    return ((c.returns(c.new(M + "IdentityInfluenceModel")), lambda x: x),
            (c.returns(c.new(M + "WindAngleCorrectingInfluenceModel", wa_shift=shift)), lambda x: ops.mod(x - shift, 360)))


def frozen(c, ls, fs, n):
    for k, l in ls.items():
        c.ensure(f"length of column {k} unchanged", zi(l.n) == zi(n))
        c.forall(f"column {k} unchanged", n, lambda i: zr(l.fn(i)) == zr(fs[k](i)))


def removal(c, names, speed, spec, sort=REAL, as_data=True, n=None):
    n = c.int("n", lo=1) if n is None else n
    ls, fs = cols(c, names, n, sort)
    if "TWS" not in names:
        a = lambda i: F_COS(ops.deg2rad(ops.mod(zr(fs["AWA"](i)), 360)))
        w, b = (lambda i: zr(fs["AWS"](i))), (lambda i: zr(fs["BSP"](i)))
        c.require_all(n, lambda i: z3.And(w(i) >= 0, w(i) * w(i) + b(i) * b(i) - 2 * w(i) * b(i) * a(i) > 0))
    data = c.data(n, **ls) if as_data else c.dict(**ls)
    for k, (m, f) in enumerate(models(c)):
        r = c.returns(c.method(m, "remove_influence", data))
        what = ("identity", "angle correcting")[k]
        c.shape_is(f"{what}: one row of three per record", r, (n, 3))
        ws, wa = spec(n, fs)
        c.forall(f"{what}: wind speed", n, lambda i: zr(r.get(i, 0)) == zr(ws(i)))
        c.forall(f"{what}: wind angle", n, lambda i: zr(r.get(i, 1)) == f(zr(wa(i))))
        c.forall(f"{what}: boat speed", n, lambda i: zr(r.get(i, 2)) == zr(fs[speed](i)))
        frozen(c, ls, fs, n)


true = lambda n, fs: (fs["TWS"], fs["TWA"])


@contract("C24", [M + "IdentityInfluenceModel.remove_influence", M + "WindAngleCorrectingInfluenceModel.remove_influence"] + REMOVE)
def remove_true(c):
    "true wind and speed through water given (speed over ground and apparent wind also there, and ignored)"
    removal(c, ("SOG", "AWA", "AWS", "BSP", "TWA", "TWS"), "BSP", true)


@contract("C24", [M + "IdentityInfluenceModel.remove_influence", M + "WindAngleCorrectingInfluenceModel.remove_influence"] + REMOVE)
def remove_sog(c):
    "dictionary of lists without speed through water: speed over ground"
    removal(c, ("TWA", "SOG", "TWS"), "SOG", true, as_data=False)


@contract("C24", [M + "IdentityInfluenceModel.remove_influence", M + "WindAngleCorrectingInfluenceModel.remove_influence"] + REMOVE)
def remove_whole_numbers(c):
    "columns of whole numbers give the same as columns of floats"
    removal(c, ("TWS", "TWA", "BSP"), "BSP", true, sort=INT)


@contract("C24", [M + "IdentityInfluenceModel.remove_influence", M + "WindAngleCorrectingInfluenceModel.remove_influence"] + REMOVE)
def remove_apparent(c):
    "only apparent wind given: converted to true wind (contract of the conversion: C01)"
    def spec(n, fs):
        w = c.arr_of((n, 3), lambda ix: ite_col(ix[1], fs["AWS"](ix[0]), fs["AWA"](ix[0]), fs["BSP"](ix[0])))
        t = c.returns(c.call(CONV, w))
        return (lambda i: t.get(i, 0)), (lambda i: t.get(i, 1))
    removal(c, ("AWS", "AWA", "BSP"), "BSP", spec)


def ite_col(j, a, b, d):
    j = zi(j)
    return z3.If(j == 0, zr(a), z3.If(j == 1, zr(b), zr(d)))


@contract("C24", [M + "_get_true_wind_data"])
def remove_rejects(c):
    "neither complete true wind nor complete apparent wind: rejected"
    n = c.int("n", lo=1)
    for names in (("TWS", "AWA", "BSP"), ("TWA", "AWS", "SOG"), ("BSP",)):
        ls, fs = cols(c, names, n)
        for m, f in models(c):
            c.raises(c.method(m, "remove_influence", c.data(n, **ls)), ValueError, what=f"{names}: rejected")


@contract("C24", [M + "IdentityInfluenceModel.add_influence", M + "WindAngleCorrectingInfluenceModel.add_influence"])
def add(c):
    "boat speed the polar diagram gives for the wind (angle corrected), record by record or for a single wind"
    n = c.int("n", lo=0)
    f = c.fun("pd", REAL, REAL, REAL)
    pd = c.opaque_fn("pd", lambda it, args, kw: f(zr(args[0]), zr(args[1])))
    shift = c.real("shift")
    ls, fs = cols(c, ("TWS", "TWA"), n)
    ws, wa = c.real("ws"), c.real("wa")
    for m, g in ((c.returns(c.new(M + "IdentityInfluenceModel")), lambda x: x),
                 (c.returns(c.new(M + "WindAngleCorrectingInfluenceModel", wa_shift=shift)), lambda x: ops.mod(x + shift, 360))):
        r = c.returns(c.method(m, "add_influence", pd, c.dict(**ls)))
        k = c.it.call(len, [r], {})
        c.ensure("one speed per wind", zi(k) == n)
        if is_term(k) or k != 0:
            c.forall("speed of that wind", n, lambda i: zr(c.it.getitem(r, i)) == f(zr(fs["TWS"](i)), g(zr(fs["TWA"](i)))))
        v = c.returns(c.method(m, "add_influence", pd, c.dict(TWS=ws, TWA=wa)))
        c.ensure("speed of a single wind", zr(v) == f(ws, g(wa)))
        frozen(c, ls, fs, n)


@contract("C24", [M + "WindAngleCorrectingInfluenceModel.remove_influence", M + "WindAngleCorrectingInfluenceModel.add_influence"])
def inverse(c):
    "adding undoes removing: the polar diagram is asked at the measured angle (modulo 360)"
    n = c.int("n", lo=1)
    ls, fs = cols(c, ("TWS", "TWA", "BSP"), n)
    m = c.returns(c.new(M + "WindAngleCorrectingInfluenceModel", wa_shift=c.real("shift")))
    r = c.returns(c.method(m, "remove_influence", c.data(n, **ls)))
    seen = []
    i = c.skolem(n)
    pd = c.opaque_fn("pd", lambda it, args, kw: seen.append(args) or zr(0))
    c.returns(c.method(m, "add_influence", pd, c.dict(TWS=r.get(i, 0), TWA=r.get(i, 1))))
    ws, wa = seen[-1]
    c.ensure("same wind speed", zr(ws) == zr(fs["TWS"](i)))
    c.ensure("same wind angle modulo 360", zr(wa) == ops.mod(zr(fs["TWA"](i)), 360))


def indices(t, f):
    "the indices of f in a term"
    return ([t.arg(0)] if z3.is_app(t) and t.decl().eq(f) else []) + [x for y in t.children() for x in indices(y, f)]


@contract("C24", [M + "WindAngleCorrectingInfluenceModel.fit", M + "WindAngleCorrectingInfluenceModel.remove_influence"])
def fitted(c):
    "the fitted shift is a sample angle with the least density of wind angles: for every other sample angle, the sum over all records of speed * exp(-(d / size)^2), d the turn between them, is at least as great"
    n = c.int("n", lo=1)
    ls, fs = cols(c, ["TWS", "TWA"], n)
    data = c.data(n, **ls)
    m_ = c.int("samples", lo=1)
    at = c.fun("sample", INT, REAL)
    c.external(np.linspace, "sample angles", lambda a, b, k: c.arr_of((m_,), lambda ix: at(zi(ix[0]))))
    size = c.real("size")
    c.require(size > 0)
    m = c.returns(c.new(M + "WindAngleCorrectingInfluenceModel", interval_size=size))
    c.returns(c.method(m, "fit", data))
    shift = zr(c.returns(c.method(m, "get_latest_statistics")).d["wa_shift"])

    def density(x):
        def term(j):
            d = ops.sub(ops.mod(ops.add(ops.sub(x, fs["TWA"](j)), 180), 360), 180)
            return ops.mul(fs["TWS"](j), ops.trig("exp")(ops.neg(ops.power(ops.div(d, size), 2))))
        return seq_sum(n, term)

    k = c.skolem(m_)
    a, b = zr(density(shift)), zr(density(at(k)))
    c.equal_sums(k, *indices(shift, at))
    c.ensure("density", a <= b)
