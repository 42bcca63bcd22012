"""Scalar arithmetic of the interpreted language (mathematical integers and reals)."""
import math
from fractions import Fraction

from .terms import (F_ACOS, F_ASIN, F_ASINH, F_SINH, F_ATAN, F_ATAN2, F_COS, F_EXP, F_LOG, F_POW, F_SIN, F_SQRT,
                    F_TAN, F_TANH, F_RMOD, F_D2R, F_R2D, INT, PI, REAL, PI_FLOATS, pi_multiple, Unsupported, conc, frac, is_bool, is_int, is_num,
                    is_real, is_scalar, is_term, lift, same, simp, zb, zi, zr)
from .values import PyExc, S, ite
from .z3load import z3

INF = float("inf")


def norm(v):
    """Concrete floats become exact fractions (inf and nan stay floats)."""
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            return v
        if v in PI_FLOATS:
            return pi_multiple(v)
        return Fraction(repr(v))
    return conc(v) if is_term(v) else v


def cnum(v):
    return is_num(v)


def isinf(v):
    return isinstance(v, float) and v in (INF, -INF)


def add(a, b):
    a, b = norm(a), norm(b)
    if cnum(a) and cnum(b):
        return a + b
    if isinf(a) or isinf(b):
        return a if isinf(a) else b
    if cnum(a) and a == 0 and not (is_bool(b)):
        return b if not isinstance(a, Fraction) or is_real(b) else zr(b)
    if cnum(b) and b == 0 and not (is_bool(a)):
        return a if not isinstance(b, Fraction) or is_real(a) else zr(a)
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        return zi(a) + zi(b)
    return zr(a) + zr(b)


def sub(a, b):
    a, b = norm(a), norm(b)
    if cnum(a) and cnum(b):
        return a - b
    if isinf(a):
        return a
    if isinf(b):
        return -b
    if cnum(b) and b == 0 and not is_bool(a):
        return a
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        return simp(zi(a) - zi(b))
    return zr(a) - zr(b)


def neg(a):
    a = norm(a)
    if cnum(a):
        return -a
    if is_int(a) or is_bool(a):
        return -zi(a)
    return -zr(a)


def mul(a, b):
    a, b = norm(a), norm(b)
    if cnum(a) and cnum(b):
        return a * b
    if isinf(a) or isinf(b):
        raise Unsupported("arithmetic with infinity")
    for x, y in ((a, b), (b, a)):
        if cnum(x):
            if x == 1 and not is_bool(y):
                return y if not isinstance(x, Fraction) or is_real(y) else zr(y)
            if x == 0:
                return 0 if is_int(y) and is_int(x) else Fraction(0)
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        return zi(a) * zi(b)
    return zr(a) * zr(b)


def div(a, b, python=False):
    a, b = norm(a), norm(b)
    if isinf(b) and not isinf(a):
        return Fraction(0)
    if cnum(b):
        if b == 0:
            if python:
                raise PyExc(ZeroDivisionError)
            S.div_checks.append((list(S.conds), b))
            return S.fresh("div0", REAL)
        if cnum(a):
            return Fraction(frac(a)) / frac(b)
        if b == 1:
            return zr(a)
        return zr(a) / zr(b)
    if python and S.branch(zr(b) == 0):
        raise PyExc(ZeroDivisionError)
    if not python:
        S.oblige("no division by zero", zr(b) != 0, kind="safety-div")
    if cnum(a) and a == 0:
        return Fraction(0)
    return zr(a) / zr(b)


def mod(a, b, python=False):
    a, b = norm(a), norm(b)
    if cnum(a) and cnum(b):
        if b == 0:
            raise PyExc(ZeroDivisionError)
        return a % b
    if cnum(b) and b > 0:
        if is_int(a) and is_int(b):
            return zi(a) % zi(b)
        return rmod(a, b)
    if is_int(a) and is_int(b):
        return zi(a) % zi(b)
    S.oblige("modulus is positive", zr(b) > 0, kind="safety-div")
    return rmod(a, b)


def rmod(a, b):
    """real remainder (b > 0): uninterpreted, see axioms_for"""
    t, m = z3.simplify(zr(a)), zr(b)
    if z3.simplify(m == 2 * PI).eq(z3.BoolVal(True)):
        return deg2rad(rmod(rad2deg(t), 360))
    if z3.is_app(t) and t.decl().eq(F_RMOD) and t.arg(1).eq(m):
        return t
    if z3.is_add(t) and z3.is_rational_value(m) and m.as_fraction() > 0:
        # (u % m + s) % m == (u + s) % m, and whole multiples of m drop out
        out = []
        for x in t.children():
            k, y = 1, x
            if z3.is_mul(x) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)):
                k, y = x.arg(0).as_fraction(), x.arg(1)
            if z3.is_app(y) and y.decl().eq(F_RMOD) and y.arg(1).eq(m) and Fraction(k).denominator == 1:
                x = z3.RealVal(k) * y.arg(0)
            elif z3.is_rational_value(x):
                x = z3.RealVal(x.as_fraction() % m.as_fraction())
            out.append(x)
        t = z3.simplify(z3.Sum(*out))
    return F_RMOD(t, m)


def floordiv(a, b):
    a, b = norm(a), norm(b)
    if cnum(a) and cnum(b):
        if b == 0:
            raise PyExc(ZeroDivisionError)
        return a // b
    if is_int(a) and is_int(b):
        if cnum(b) and b > 0:
            return zi(a) / zi(b)
    q = S.fresh("floor", INT)
    S.oblige("no division by zero", zr(b) > 0, kind="safety-div")
    S.assume(z3.Implies(zr(b) > 0, z3.And(zr(b) * z3.ToReal(q) <= zr(a), zr(a) < zr(b) * (z3.ToReal(q) + 1))))
    return q if (is_int(a) and is_int(b)) else z3.ToReal(q)


def power(a, b):
    a, b = norm(a), norm(b)
    if cnum(b):
        if cnum(a) and isinstance(b, int):
            if b < 0:
                return Fraction(1) / (Fraction(a) ** (-b))
            return a ** b
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
            a = zr(a) if not cnum(a) else a
        if isinstance(b, int) and 0 <= b <= 8:
            if b == 0:
                return 1
            r = a
            for _ in range(b - 1):
                r = mul(r, a)
            return r
        if isinstance(b, int) and b < 0:
            return div(1, power(a, -b))
        if b == Fraction(1, 2):
            return sqrt(a)
    return F_POW(zr(a), zr(b))


def sqrt(a):
    a = norm(a)
    if cnum(a):
        f = frac(a)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
    return F_SQRT(z3.simplify(zr(a), som=True))


def absolute(a):
    a = norm(a)
    if cnum(a):
        return abs(a)
    t = lift(a)
    return z3.If(t >= 0, t, -t)


def trig(name):
    table = {"sin": (F_SIN, {0: 0}), "cos": (F_COS, {0: 1}), "tan": (F_TAN, {0: 0}),
             "exp": (F_EXP, {0: 1}), "log": (F_LOG, {1: 0}), "tanh": (F_TANH, {0: 0}),
             "arcsinh": (F_ASINH, {0: 0}), "sinh": (F_SINH, {0: 0}), "arctan": (F_ATAN, {0: 0}),
             "arccos": (F_ACOS, {1: 0}), "arcsin": (F_ASIN, {0: 0})}
    f, special = table[name]

    def g(a):
        a = norm(a)
        if cnum(a) and a in special:
            return Fraction(special[a])
        if name in ("sin", "cos", "tan") and not cnum(a):
            ms = [m for m in monomials(canon_rad(zr(a))) if m[0] != 0]
            if not ms:
                return Fraction(special[0])
            if len(ms) == 1 and ms[0][1:] == ([], 1) and (2 * ms[0][0]).denominator == 1 and name != "tan":
                return Fraction((0, 1, 0, -1)[(int(2 * ms[0][0]) + (name == "cos")) % 4])  # a multiple of pi/2
            return push_ite(lambda t: f(canon_rad(t)), a)
        return f(zr(a))

    return g


def arctan2(y, x):
    return F_ATAN2(zr(y), zr(x))


def monomials(t):
    """sum-of-monomials view of a real term: list of (coefficient Fraction, [factors], exponent of PI)"""
    t = z3.simplify(t, som=True)
    out = []
    for m in (t.children() if z3.is_add(t) else [t]):
        co, fs, e = Fraction(1), [], 0
        stack = [(m, 1)]
        while stack:
            x, p = stack.pop()
            if z3.is_rational_value(x) or z3.is_int_value(x):
                co *= frac(conc(x)) ** p
            elif z3.is_mul(x):
                stack.extend((y, p) for y in x.children())
            elif z3.is_div(x):
                stack.append((x.arg(0), p))
                stack.append((x.arg(1), -p))
            elif x.eq(PI):
                e += p
            else:
                fs.append((x, p))
        out.append((co, fs, e))
    return out


def _rebuild(co, fs):
    t = zr(co)
    for x, p in fs:
        t = t * x if p > 0 else t / x
    return t


def _sum(ts):
    return z3.simplify(z3.Sum(ts), som=True) if ts else zr(0)


def push_ite(f, a, depth=4):
    """f(If(c, x, y)) -> If(c, f(x), f(y))"""
    a = zr(a)
    if depth and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        x, y = push_ite(f, a.arg(1), depth - 1), push_ite(f, a.arg(2), depth - 1)
        return z3.If(a.arg(0), zr(x), zr(y))
    if depth:
        # an If one level inside a linear expression
        for ch in _ite_below(a):
            x = z3.substitute(a, (ch, ch.arg(1)))
            y = z3.substitute(a, (ch, ch.arg(2)))
            return z3.If(ch.arg(0), zr(push_ite(f, x, depth - 1)), zr(push_ite(f, y, depth - 1)))
    return f(a)


def _ite_below(a):
    if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
        for ch in a.children():
            if z3.is_app(ch) and ch.decl().kind() == z3.Z3_OP_ITE:
                return [ch]
            r = _ite_below(ch)
            if r:
                return r
    return []


def whole_turns(a):
    """sine and cosine of the angle a (degrees) are those of the angle before it was reduced modulo 360 (facts)"""
    full, changed = [], False
    for co, fs, e in monomials(zr(a)):
        if e == 0 and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].decl().eq(F_RMOD) and co.denominator == 1:
            m = fs[0][0].arg(1)
            if z3.is_rational_value(m) and m.as_fraction() > 0 and (m.as_fraction() / 360).denominator == 1:
                full.append(zr(co) * fs[0][0].arg(0))
                changed = True
                continue
        t = _rebuild(co, fs)
        for _ in range(abs(e)):
            t = t * PI if e > 0 else t / PI
        full.append(t)
    if not changed:
        return []
    b = _sum(full)
    more = whole_turns(b)
    x, y = deg2rad(zr(a)), deg2rad(b)
    return more + [e for f in ("sin", "cos") for e in (zr(trig(f)(x)) == zr(trig(f)(y)), zr(trig(f)(y)) == -zr(trig(f)(canon_rad(zr(y)) - PI)))]


def canon_rad(a):
    """canonical form of an angle in radians: radians + D2R(degrees)"""
    deg, rad = [], []
    for co, fs, e in monomials(zr(a)):
        if not fs and e == 0 and co == 0:
            continue
        if e == 1:
            r2d = [k for k, (x, p) in enumerate(fs) if p == 1 and x.decl().eq(F_R2D)]
            if len(fs) == 1 and r2d:
                rad.append(zr(180 * co) * fs[0][0].arg(0))
            else:
                deg.append(_rebuild(180 * co, fs))
        elif e == 0 and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].decl().eq(F_D2R):
            deg.append(zr(co) * fs[0][0].arg(0))
        else:
            t = _rebuild(co, fs)
            for _ in range(abs(e)):
                t = t * PI if e > 0 else t / PI
            rad.append(t)
    r = _sum(rad)
    if not deg:
        return r
    # linear parts of the degrees that are R2D(y) come back as y
    d = _sum(deg)
    keep = []
    for co, fs, e in monomials(d):
        if e == 0 and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].decl().eq(F_R2D):
            r = r + zr(co) * fs[0][0].arg(0)
        elif e == -1:
            r = r + _rebuild(co / 180, fs)
        else:
            t = _rebuild(co, fs)
            for _ in range(abs(e)):
                t = t * PI if e > 0 else t / PI
            keep.append(t)
    d = _sum(keep)
    c = conc(d)
    if cnum(c):
        return z3.simplify(r + zr(Fraction(c) / 180) * PI, som=True)
    # a pure constant offset inside the degrees is moved out: D2R(x + c) = D2R(x) + c*PI/180
    off = [m for m in monomials(d) if not m[1] and m[2] == 0]
    if off:
        k = off[0][0]
        d = z3.simplify(d - zr(k), som=True)
        r = r + zr(k / 180) * PI
    return z3.simplify(r + F_D2R(d), som=True)


def deg2rad(a):
    a = norm(a)
    if cnum(a):
        return zr(frac(a) / 180) * PI if a != 0 else Fraction(0)
    return push_ite(lambda t: canon_rad(t * PI / 180), a)


def rad2deg(a):
    a = norm(a)
    if cnum(a) and a == 0:
        return Fraction(0)

    def f(t):
        out, rest = [], []
        for co, fs, e in monomials(canon_rad(t)):
            if e == 1 and not fs:
                out.append(zr(180 * co))
            elif e == 0 and len(fs) == 1 and fs[0][1] == 1 and fs[0][0].decl().eq(F_D2R):
                out.append(zr(co) * fs[0][0].arg(0))
            elif e == 0 and not fs and co == 0:
                pass
            else:
                x = _rebuild(co, fs)
                for _ in range(abs(e)):
                    x = x * PI if e > 0 else x / PI
                rest.append(x)
        if len(rest) == 1:
            ms = monomials(rest[0])
            if len(ms) == 1 and ms[0][2] == 0 and ms[0][0] != 0:
                out.append(zr(ms[0][0]) * F_R2D(z3.simplify(_rebuild(Fraction(1), ms[0][1]), som=True)))
                return _sum(out)
        if rest:
            out.append(F_R2D(_sum(rest)))
        return _sum(out)

    return push_ite(f, a)


def cmp(op, a, b):
    a, b = norm(a), norm(b)
    if isinf(a) or isinf(b):
        fa = a if isinf(a) else 0.0
        fb = b if isinf(b) else 0.0
        return {"<": fa < fb, "<=": fa <= fb, ">": fa > fb, ">=": fa >= fb, "==": fa == fb, "!=": fa != fb}[op]
    if cnum(a) and cnum(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if is_bool(a) and is_bool(b):
        x, y = zb(a), zb(b)
        if op == "==":
            return simp(x == y)
        if op == "!=":
            return simp(x != y)
        x, y = zi(a), zi(b)
    elif (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        x, y = zi(a), zi(b)
    else:
        x, y = zr(a), zr(b)
    if x.eq(y):
        return op in ("<=", ">=", "==")
    r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
         "==": lambda: x == y, "!=": lambda: x != y}[op]()
    return r if not (z3.is_true(r) or z3.is_false(r)) else conc(r)


def land(a, b):
    a, b = conc(a), conc(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(zb(a), zb(b))


def lor(a, b):
    a, b = conc(a), conc(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(zb(a), zb(b))


def lnot(a):
    a = conc(a)
    return (not a) if isinstance(a, bool) else z3.Not(zb(a))


def smax(a, b):
    if cnum(norm(a)) and cnum(norm(b)):
        return max(norm(a), norm(b))
    if isinf(a) or isinf(b):
        return ite(cmp(">=", a, b), a, b)
    return ite(cmp(">=", a, b), a, b)


def smin(a, b):
    if cnum(norm(a)) and cnum(norm(b)):
        return min(norm(a), norm(b))
    return ite(cmp("<=", a, b), a, b)
