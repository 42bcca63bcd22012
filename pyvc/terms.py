"""Terms, quantified facts, and the prover (z3 first, nlsat and cvc5 as further back ends)."""
import hashlib
import itertools
import math
import os
import subprocess
import tempfile
import time
from fractions import Fraction

from .z3load import z3


class Unsupported(Exception):
    """The construct is outside the engine's subset: nothing is decided."""


def is_term(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (bool, int, float, Fraction))


REAL, INT, BOOL = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def is_bool(v):
    return isinstance(v, bool) or (is_term(v) and z3.is_bool(v))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (
        is_term(v) and v.sort() == INT
    )


def is_real(v):
    return isinstance(v, (float, Fraction)) or (is_term(v) and v.sort() == REAL)


def is_scalar(v):
    return is_bool(v) or is_int(v) or is_real(v)


def frac(v):
    """Exact decimal reading of a Python float."""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite constant {v} in arithmetic")
        return Fraction(repr(v))
    raise Unsupported(f"not a number: {v!r}")


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_term(v) and z3.is_bool(v):
        return v
    if is_num(v):
        return z3.BoolVal(v != 0)
    if is_term(v):
        return v != 0
    raise Unsupported(f"not a boolean: {v!r}")


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (Fraction, float)):
        f = frac(v)
        if f.denominator == 1:
            return z3.IntVal(f.numerator)
    if is_term(v):
        if v.sort() == INT:
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an integer: {v!r}")


def pi_multiple(v):
    """A float that is the nearest double of a simple multiple of pi is read as that multiple (None otherwise)."""
    k = PI_FLOATS.get(v)
    if k is None:
        return None
    return k() if callable(k) else z3.RealVal(str(k)) * PI


def zr(v):
    if isinstance(v, float) and v in PI_FLOATS:
        return pi_multiple(v)
    if isinstance(v, (bool, int, float, Fraction)):
        f = frac(v)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if is_term(v):
        if v.sort() == REAL:
            return v
        if v.sort() == INT:
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(v)
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"not a real number: {v!r}")


def lift(v):
    """Smallest natural z3 term for a scalar."""
    if is_bool(v):
        return zb(v)
    if is_int(v):
        return zi(v)
    return zr(v)


def conc(v):
    """Concrete Python value of a z3 literal, otherwise the value itself."""
    if is_term(v):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return v


def simp(v):
    return conc(z3.simplify(v)) if is_term(v) else v


def same(a, b):
    """Syntactic equality after simplification (sound, incomplete)."""
    if is_term(a) or is_term(b):
        try:
            la, lb = lift(a), lift(b)
        except Unsupported:
            return False
        if la.sort() != lb.sort():
            if BOOL in (la.sort(), lb.sort()):
                return False
            la, lb = zr(la), zr(lb)
        if la.eq(lb):
            return True
        return z3.is_true(z3.simplify(la == lb))
    return type(a) == type(b) and a == b or (is_num(a) and is_num(b) and a == b)


def subst(v, pairs):
    """Substitute constants in a term."""
    if is_term(v):
        return z3.substitute(v, *pairs)
    return v


class Node:
    """cached view of a z3 term (keeps the term alive, so its id stays valid)"""

    __slots__ = ("e", "id", "kids", "did", "const", "_consts", "_off", "sort")

    def __init__(self, e, k):
        self.e, self.id = e, k
        self._consts = self._off = None
        self.did, self.const = None, False
        if z3.is_app(e):
            n = e.num_args()
            self.kids = [node(e.arg(i)) for i in range(n)]
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if n:
                    self.did = d.get_id()
                else:
                    self.const = True
        else:
            self.kids = []
        self.sort = e.sort_kind() if z3.is_expr(e) else None

    @property
    def consts(self):
        if self._consts is None:
            if self.const:
                self._consts = frozenset((self.id,))
            elif not self.kids:
                self._consts = frozenset()
            elif len(self.kids) == 1:
                self._consts = self.kids[0].consts
            else:
                self._consts = frozenset().union(*[k.consts for k in self.kids])
        return self._consts

    @property
    def off(self):
        """(node of v, rest, sign) triples with self == sign*v + rest, v a constant that does not occur in rest"""
        if self._off is None:
            r = []
            if self.sort == z3.Z3_INT_SORT and len(self.kids) >= 2 and (z3.is_add(self.e) or z3.is_sub(self.e)):
                sign = [1] + [-1 if z3.is_sub(self.e) else 1] * (len(self.kids) - 1)
                for i, x in enumerate(self.kids):
                    s, v = sign[i], x
                    if z3.is_mul(x.e) and len(x.kids) == 2 and z3.is_int_value(x.kids[0].e) and x.kids[0].e.as_long() == -1:
                        s, v = -s, x.kids[1]
                    if not v.const:
                        continue
                    rest = z3.IntVal(0)
                    for j, y in enumerate(self.kids):
                        if j != i:
                            rest = rest + y.e if sign[j] > 0 else rest - y.e
                    rest = node(z3.simplify(rest))
                    if v.id not in rest.consts:
                        r.append((v, rest, s))
            self._off = r
        return self._off


_NODES = {}


def node(x):
    k = x.get_id()
    n = _NODES.get(k)
    if n is None:
        n = _NODES[k] = Node(x, k)
    return n


def consts_of(t):
    """ids -> constants occurring in t"""
    return {k: _NODES[k].e for k in node(t).consts}


def mentions(t, consts):
    if not is_term(t):
        return False
    c = node(t).consts
    return any(x.get_id() in c for x in consts)


def is_uapp(x):
    return node(x).did is not None


def app_nodes(n, seen, out):
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.did is not None:
            out.append(x)
        stack.extend(x.kids)


def apps_of(t, seen, out):
    """All uninterpreted applications below t."""
    ns = []
    app_nodes(node(t), seen, ns)
    out.extend(n.e for n in ns)


def fast_subst(t, pairs):
    """z3.substitute without the binding's checks"""
    num = len(pairs)
    f, g = (z3.Ast * num)(), (z3.Ast * num)()
    for i, (x, y) in enumerate(pairs):
        f[i], g[i] = x.as_ast(), y.as_ast()
    return z3.z3._to_expr_ref(z3.Z3_substitute(t.ctx.ref(), t.as_ast(), num, f, g), t.ctx)


class Fact:
    """forall vars. body, instantiated by matching patterns against ground terms."""

    __slots__ = ("vars", "body", "pats", "name", "ids", "idset", "npats")

    def __init__(self, vars, body, pats=None, name=""):
        self.vars = list(vars)
        self.body = body
        self.name = name
        self.ids = [v.get_id() for v in self.vars]
        self.pats = pats if pats is not None else auto_patterns(self.vars, body)
        for x in self.vars:
            node(x)
        self.idset = set(self.ids)
        self.npats = [[node(x) for x in p] for p in self.pats]


def _offset_match(p, ids):
    """(v, simple) for p == +-v + rest with v a bound variable and none in the rest (Int); simple: v + literal"""
    for v, rest, sign in node(p).off:
        if v.id in ids and not rest.consts & ids.keys():
            return ids[v.id], sign == 1 and z3.is_int_value(rest.e)
    return None


def auto_patterns(vars, body):
    ids = {v.get_id(): v for v in vars}
    apps = []
    apps_of(body, set(), apps)
    cand, weak = [], []
    for a in apps:
        cov = set()
        ok = simple = True
        for ch in a.children():
            if ch.get_id() in ids:
                cov.add(ch.get_id())
            elif _offset_match(ch, ids) is not None:
                v, plain = _offset_match(ch, ids)
                cov.add(v.get_id())
                simple = simple and plain
            elif any(k in ids for k in consts_of(ch)):
                # nested application containing the variable: acceptable if it is an app pattern
                if is_uapp(ch):
                    cov |= {k for k in consts_of(ch) if k in ids}
                else:
                    ok = False
        if ok and cov:
            (cand if simple else weak).append((a, cov))
    if not any(len(c) == len(ids) for a, c in cand):
        cand += weak
    full = [[a] for a, c in cand if len(c) == len(ids)]
    if full:
        return full[:8]
    # combine greedily: one multi pattern per covering pair
    pats = []
    for (a, ca), (b, cb) in itertools.combinations(cand, 2):
        if len(ca | cb) == len(ids):
            pats.append([a, b])
            if len(pats) >= 6:
                break
    if not pats and len(ids) == 3:
        for x, y, w in itertools.combinations(cand, 3):
            if len(x[1] | y[1] | w[1]) == 3:
                pats.append([x[0], y[0], w[0]])
                break
    return pats


def complete_pats(vars, body, pats):
    """extend patterns that leave some variables unbound by applications mentioning those"""
    ids = [v.get_id() for v in vars]
    apps = []
    apps_of(body, set(), apps)
    cov = [(a, {k for k in consts_of(a) if k in ids}) for a in apps]
    cov.sort(key=lambda x: len(x[0].sexpr()))
    out = []
    for p in pats:
        have = set()
        for a in p:
            have |= {k for k in consts_of(a) if k in ids}
        miss = [k for k in ids if k not in have]
        if not miss:
            out.append(p)
            continue
        hits = [a for a, c in cov if set(miss) <= c and len(c) <= len(miss)][:2] or [a for a, c in cov if set(miss) <= c][:2]
        if hits:
            out += [list(p) + [a] for a in hits]
        else:
            out.append(p)
    return out


def _match(p, t, ids, sub):
    """pattern node against term node; sub: variable id -> node"""
    k = p.id
    if k in ids:
        if p.sort != t.sort:
            return None
        if k in sub:
            return sub if sub[k] is t else None
        s = dict(sub)
        s[k] = t
        return s
    if p is t:
        return sub
    for v, rest, sign in p.off:
        if v.id in ids and not rest.consts & ids:
            if p.sort != t.sort:
                return None
            val = node(z3.simplify(t.e - rest.e if sign == 1 else rest.e - t.e))
            if v.id in sub:
                return sub if sub[v.id] is val else None
            s = dict(sub)
            s[v.id] = val
            return s
    if p.did is not None and p.did == t.did:
        for pc, tc in zip(p.kids, t.kids):
            sub = _match(pc, tc, ids, sub)
            if sub is None:
                return None
        return sub
    return None


MAX_INST = int(os.environ.get("PYVC_MAX_INST", "2500"))


def instantiate(facts, ground, rounds, extra=()):
    """E-matching rounds. Returns the list of ground instances."""
    apps, seen = [], set()
    for g in ground:
        app_nodes(node(g), seen, apps)
    idx = {}

    def add(xs):
        for a in xs:
            idx.setdefault(a.did, []).append(a)

    add(apps)
    extra = [node(t) for t in extra]
    done = set()
    insts = []
    order = sorted(enumerate(facts), key=lambda x: max([len(p) for p in x[1].pats] + [1]))
    for rnd in range(rounds):
        new = []
        for fi, f in order:
            subs = []
            ids = f.idset
            for pat in f.npats:
                cur = [{}]
                for p in pat:
                    nxt = []
                    for t in idx.get(p.did, ()):
                        for s in cur:
                            m = _match(p, t, ids, s)
                            if m is not None:
                                nxt.append(m)
                    cur = nxt
                    if len(cur) > 400:
                        cur = cur[:400]
                subs.extend(cur)
            if extra and len(f.vars) == 1 and f.vars[0].sort() == INT:
                for t in extra:
                    subs.append({f.ids[0]: t})
            for s in subs:
                if len(s) < len(f.ids):
                    if extra and len(s) == len(f.ids) - 1:
                        miss = next(v for v in f.vars if v.get_id() not in s)
                        if miss.sort() == INT:
                            subs.extend({**s, miss.get_id(): t} for t in extra)
                    continue
                key = (fi, tuple(s[k].id for k in f.ids))
                if key in done:
                    continue
                done.add(key)
                new.append(fast_subst(f.body, [(v, s[k].e) for v, k in zip(f.vars, f.ids)]))
                if len(done) > MAX_INST:
                    break
            if len(done) > MAX_INST:
                break
        if not new:
            break
        insts.extend(new)
        if len(done) > MAX_INST or rnd == rounds - 1:
            break
        fresh = []
        for g in new:
            app_nodes(node(g), seen, fresh)
        add(fresh)
    return insts


# ---------------------------------------------------------------------------------------------
# transcendental functions: uninterpreted, with ground axioms per occurrence
F_SQRT = z3.Function("sqrt", REAL, REAL)
F_SIN = z3.Function("sin", REAL, REAL)
F_COS = z3.Function("cos", REAL, REAL)
F_TAN = z3.Function("tan", REAL, REAL)
F_ACOS = z3.Function("arccos", REAL, REAL)
F_ASIN = z3.Function("arcsin", REAL, REAL)
F_ATAN = z3.Function("arctan", REAL, REAL)
F_ATAN2 = z3.Function("arctan2", REAL, REAL, REAL)
F_EXP = z3.Function("exp", REAL, REAL)
F_LOG = z3.Function("log", REAL, REAL)
F_TANH = z3.Function("tanh", REAL, REAL)
F_POW = z3.Function("pow", REAL, REAL, REAL)
F_ASINH = z3.Function("arcsinh", REAL, REAL)
F_SINH = z3.Function("sinh", REAL, REAL)
F_RMOD = z3.Function("rmod", REAL, REAL, REAL)
F_RQUOT = z3.Function("rquot", REAL, REAL, INT)
F_D2R = z3.Function("d2r", REAL, REAL)
F_R2D = z3.Function("r2d", REAL, REAL)
PI = z3.Real("pi")
PI_FLOATS = {float(k) * math.pi: k for k in (Fraction(1), Fraction(2), Fraction(4), Fraction(1, 2), Fraction(1, 4), Fraction(3, 2), Fraction(3, 4))}
PI_FLOATS.update({-x: -k for x, k in list(PI_FLOATS.items())})
PI_FLOATS[math.pi / 180] = Fraction(1, 180)
PI_FLOATS[180 / math.pi] = lambda: z3.RealVal(180) / PI
R0, R1 = z3.RealVal(0), z3.RealVal(1)
R360 = z3.RealVal(360)


def axioms_for(apps):
    """Ground axioms for the transcendental functions occurring in `apps`."""
    out = [PI > z3.RealVal("31415/10000"), PI < z3.RealVal("31416/10000")]
    by = {}
    for a in apps:
        by.setdefault(a.decl().name(), []).append(a)
    for a in by.get("rmod", ()):
        x, m = a.arg(0), a.arg(1)
        out.append(z3.Implies(m > 0, z3.And(a >= 0, a < m, x == a + m * z3.ToReal(F_RQUOT(x, m)))))
        out.append(z3.Implies(z3.And(x >= 0, x < m), a == x))
    for a, b in itertools.combinations(by.get("rmod", [])[:8], 2):
        m = a.arg(1)
        if not m.eq(b.arg(1)) or not z3.is_rational_value(m):
            continue
        m = m.as_fraction()
        for sgn in (1, -1):
            d = z3.simplify(a.arg(0) + sgn * b.arg(0), som=True)
            if m > 0 and z3.is_rational_value(d):  # x + y or x - y is a number
                e = z3.RealVal(str(d.as_fraction() % m)) - sgn * b
                out.append(a == z3.If(e < 0, e + a.arg(1), z3.If(e >= a.arg(1), e - a.arg(1), e)))
    for nm, half, ohalf in (("d2r", z3.RealVal(180), PI), ("r2d", PI, z3.RealVal(180))):
        for a in by.get(nm, ()):
            x = a.arg(0)
            for k in (-2, -1, 0, 1, 2) + ((z3.Q(1, 2), z3.Q(3, 2), z3.Q(-1, 2)) if nm == "d2r" else (z3.Q(1, 2), z3.Q(-1, 2))):
                out.append((x <= k * half) == (a <= k * ohalf))
                out.append((x >= k * half) == (a >= k * ohalf))
        for a, b in itertools.combinations(by.get(nm, [])[:6], 2):
            x, y = a.arg(0), b.arg(0)
            out.append((x <= y) == (a <= b))
            out.append((x >= y) == (a >= b))
            for k in (-2, 0, 2, 1):
                out.append((x + y == k * half) == (a + b == k * ohalf))
            for k in (-2, 2, 1, -1):
                out.append((x - y == k * half) == (a - b == k * ohalf))
    for a in by.get("r2d", ()):
        for b in by.get("d2r", ()):
            out.append((a.arg(0) == b) == (a == b.arg(0)))
    trig = {}
    for n in ("sin", "cos"):
        for a in by.get(n, ()):
            trig[a.arg(0).get_id()] = a.arg(0)
    for n in ("arcsin", "arctan2", "arctan"):
        for a in by.get(n, ()):
            trig.setdefault(a.get_id(), a)
    for x in trig.values():
        s, c = F_SIN(x), F_COS(x)
        out.append(s * s + c * c == 1)
        out += [s <= 1, s >= -1, c <= 1, c >= -1]
        out.append(z3.Implies(z3.And(x >= 0, x <= PI), s >= 0))
        out.append(z3.Implies(z3.And(x >= PI, x <= 2 * PI), s <= 0))
        out.append(z3.Implies(z3.And(x > 0, x < PI), s > 0))
        out.append(z3.Implies(z3.And(x > PI, x < 2 * PI), s < 0))
        out.append(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
        out.append(z3.Implies(x == PI, z3.And(s == 0, c == -1)))
        out.append(z3.Implies(x == 2 * PI, z3.And(s == 0, c == 1)))
        out.append(z3.Implies(z3.And(x >= -PI / 2, x <= PI / 2), c >= 0))
        out.append(z3.Implies(z3.And(x > -PI / 2, x < PI / 2), c > 0))
    for x, y in itertools.combinations(list(trig.values())[:8], 2):
        # injectivity of cos on [0, pi], and reflection / period
        out.append(
            z3.Implies(
                z3.And(x >= 0, x <= PI, y >= 0, y <= PI, F_COS(x) == F_COS(y)), x == y
            )
        )
        out.append(z3.Implies(z3.And(x >= -PI / 2, x <= PI / 2, y >= -PI / 2, y <= PI / 2, F_SIN(x) == F_SIN(y)), x == y))
        half = z3.And(F_COS(x) == F_COS(y), F_SIN(x) == F_SIN(y), x >= -PI, x <= PI, y >= -PI, y <= PI)
        out.append(z3.Implies(half, z3.Or(x == y, z3.And(x == -PI, y == PI), z3.And(x == PI, y == -PI))))
        same_cs = z3.And(F_COS(x) == F_COS(y), F_SIN(x) == F_SIN(y), x >= 0, x <= 2 * PI, y >= 0, y <= 2 * PI)
        out.append(z3.Implies(same_cs, z3.Or(x == y, z3.And(x == 0, y == 2 * PI), z3.And(x == 2 * PI, y == 0))))
        out.append(z3.Implies(x + y == 2 * PI, z3.And(F_COS(x) == F_COS(y), F_SIN(x) == -F_SIN(y))))
        out.append(z3.Implies(x + y == 0, z3.And(F_COS(x) == F_COS(y), F_SIN(x) == -F_SIN(y))))
        out.append(z3.Implies(x - y == 2 * PI, z3.And(F_COS(x) == F_COS(y), F_SIN(x) == F_SIN(y))))
        out.append(z3.Implies(y - x == 2 * PI, z3.And(F_COS(x) == F_COS(y), F_SIN(x) == F_SIN(y))))
        out.append(z3.Implies(x + y == PI, z3.And(F_COS(x) == -F_COS(y), F_SIN(x) == F_SIN(y))))
    for a in by.get("sqrt", ()):
        x = a.arg(0)
        out.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
        out.append(z3.Implies(x > 0, a > 0))
    for a in by.get("arccos", ()):
        x = a.arg(0)
        out.append(
            z3.Implies(z3.And(x >= -1, x <= 1), z3.And(a >= 0, a <= PI, F_COS(a) == x, F_SIN(a) >= 0))
        )
    for a in by.get("arcsin", ()):
        x = a.arg(0)
        out.append(
            z3.Implies(z3.And(x >= -1, x <= 1),
                       z3.And(a >= -PI / 2, a <= PI / 2, F_SIN(a) == x, F_COS(a) >= 0))
        )
    for a in by.get("arctan2", ()):
        y, x = a.arg(0), a.arg(1)
        r = F_SQRT(x * x + y * y)
        out.append(z3.And(a > -PI, a <= PI, r >= 0, r * r == x * x + y * y,
                          r * F_COS(a) == x, r * F_SIN(a) == y))
    for a in by.get("arctan", ()):
        x = a.arg(0)
        out.append(z3.And(a > -PI / 2, a < PI / 2, F_COS(a) > 0, F_SIN(a) == x * F_COS(a)))
        for b in by.get("tan", ()):
            y = b.arg(0)
            out.append(z3.Implies(z3.And(x == b, y > -PI / 2, y < PI / 2), a == y))
    for a in by.get("sinh", ()):
        out.append((a.arg(0) > 0) == (a > 0))
        out.append((a.arg(0) < 0) == (a < 0))
        for b in by.get("arcsinh", ()):
            out.append((a.arg(0) == b) == (a == b.arg(0)))
    for a in by.get("exp", ()):
        x = a.arg(0)
        out.append(a > 0)
        out.append(z3.Implies(x <= 0, a <= 1))
        out.append(z3.Implies(x >= 0, a >= 1))
        out.append(z3.Implies(x == 0, a == 1))
        out.append(z3.Implies(x < 0, a < 1))
    for a, b in itertools.combinations(by.get("exp", [])[:8], 2):
        out.append(z3.Implies(a.arg(0) == b.arg(0), a == b))
        out.append(z3.Implies(a.arg(0) < b.arg(0), a < b))
        out.append(z3.Implies(a.arg(0) > b.arg(0), a > b))
    for a in by.get("pow", ()):
        x, y = a.arg(0), a.arg(1)
        out.append(z3.Implies(x > 0, a > 0))
        out.append(z3.Implies(x >= 0, a >= 0))
        out.append(z3.Implies(y == 0, a == 1))
        out.append(z3.Implies(y == 1, a == x))
        out.append(z3.Implies(z3.And(x == 0, y > 0), a == 0))
        out.append(z3.Implies(y == 2, a == x * x))
    for a, b in itertools.combinations(by.get("pow", [])[:6], 2):
        out.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) >= 0, a.arg(0) >= 0, a.arg(0) <= b.arg(0)), a <= b))
        out.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) >= 0, b.arg(0) >= 0, b.arg(0) <= a.arg(0)), b <= a))
    for a in by.get("tanh", ()):
        out += [a > -1, a < 1]
        for b in by.get("arcsinh", ()):
            t = b.arg(0)
            r = F_SQRT(1 + t * t)
            out.append(z3.And(r >= 1, r * r == 1 + t * t, z3.Implies(a.arg(0) == b, a * r == t)))
    for a in by.get("tan", ()):
        x = a.arg(0)
        out.append(a * F_COS(x) == F_SIN(x))
    for a in by.get("log", ()):
        out.append(z3.Implies(a.arg(0) == 1, a == 0))
        out.append(z3.Implies(a.arg(0) > 0, F_EXP(a) == a.arg(0)))
    return out


# ---------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.time = {}
        self.count = {}
        self.queries = 0

    def add(self, backend, dt, hit=True):
        self.time[backend] = self.time.get(backend, 0.0) + dt
        if hit:
            self.count[backend] = self.count.get(backend, 0) + 1


STATS = Stats()


def _purify(fs):
    """Replace uninterpreted applications by constants with pairwise congruence (for nlsat)."""
    apps, seen = [], set()
    for f in fs:
        apps_of(f, seen, apps)
    apps = sorted({a.get_id(): a for a in apps}.values(), key=lambda a: len(a.sexpr()))
    pairs, cong = [], []
    rep = {}
    for i, a in enumerate(apps):
        args = [z3.substitute(c, *pairs) if pairs else c for c in a.children()]
        v = z3.Const(f"pur!{i}", a.sort())
        for args2, v2 in rep.get(a.decl().get_id(), []):
            cong.append(z3.Implies(z3.And(*[x == y for x, y in zip(args, args2)]), v == v2))
        rep.setdefault(a.decl().get_id(), []).append((args, v))
        pairs.append((a, v))
    out = [z3.substitute(f, *pairs) if pairs else f for f in fs]
    return out + cong


def _cvc5(fs, timeout):
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
    try:
        r = subprocess.run(
            ["/usr/bin/cvc5", f"--tlimit={int(timeout * 1000)}", "--nl-ext-tplanes", fh.name],
            capture_output=True, text=True, timeout=timeout + 5,
        )
        out = r.stdout.strip().splitlines()
        return out[-1] if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(fh.name)


def has_quant(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def check_sat(fs, timeout=4.0, deep=True):
    """Satisfiability of ground formulas: returns (result string, backend, model or None)."""
    fs = [f for f in fs if not z3.is_true(f)]
    apps, seen = [], set()
    for f in fs:
        apps_of(f, seen, apps)
    ax = axioms_for(apps)
    more, n0 = [], len(apps)
    for f in ax:
        apps_of(f, seen, more)
    if more:
        ax = axioms_for(apps + more)
    allf = fs + ax
    STATS.queries += 1
    pf = None
    sched = [timeout] if not deep or timeout <= 2 else [min(1.5, timeout), timeout]
    answer = None
    for k, tmo in enumerate(sched):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(tmo * 1000))
        s.set("random_seed", 1 + k)
        s.add(*allf)
        r = s.check()
        STATS.add("z3", time.time() - t0, False)
        if r == z3.unsat:
            return "unsat", "z3", None
        if r == z3.sat:
            return "sat", "z3", s.model()
        if not deep:
            return "unknown", "z3", None
        t0 = time.time()
        try:
            if len(apps) > 400:
                raise z3.Z3Exception("too large for nlsat")
            if pf is None:
                pf = _purify(allf)
            g = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "qfnra-nlsat")
            s2 = z3.TryFor(z3.OrElse(g, z3.Tactic("smt")), int(tmo * 1000)).solver()
            s2.add(*pf)
            r = s2.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS.add("z3-nlsat", time.time() - t0, False)
        if r == z3.unsat:
            return "unsat", "z3-nlsat", None
        if r == z3.sat:
            answer = "z3-nlsat"
            break
        t0 = time.time()
        r = _cvc5(allf, tmo * 1.5)
        STATS.add("cvc5", time.time() - t0, False)
        if r == "unsat":
            return "unsat", "cvc5", None
        if r == "sat":
            answer = "cvc5"
            break
    if answer:
        return "sat?", answer, None
    return "unknown", "all", None


_memo = {}


def confirm(hyps, facts, goal, timeout=6.0, size=3, limit=12000):
    """Is there a counterexample with all integer constants at most `size`, the quantified facts holding at ALL small indices?
    -> "refuted" | "not small" | "unknown": a satisfiable set of some instances alone need not extend to a model."""
    neg = z3.Not(zb(goal))
    ground = list(hyps) + [neg]
    apps = {}
    st, seen = list(ground), set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == INT:
            apps[x.get_id()] = x
        st.extend(x.children())
    bounds = [z3.And(x >= -size, x <= size) for x in apps.values()]
    vals = [z3.IntVal(v) for v in range(-1, size + 1)]
    inst = list(instantiate(facts, ground, 3))
    for f in facts:
        if all(v.sort() == INT for v in f.vars) and len(f.vars) <= 3:
            if len(inst) > limit:
                return "unknown"
            for t in itertools.product(vals, repeat=len(f.vars)):
                inst.append(fast_subst(f.body, list(zip(f.vars, t))))
    # what the new instances mention
    inst += instantiate(facts, inst[-2000:], 1)
    r = check_sat(ground + bounds + inst, timeout, deep=False)[0]
    return {"sat": "refuted", "unsat": "not small"}.get(r, "unknown")


def prove(hyps, facts, goal, rounds=3, timeout=4.0, extra=(), deep=True):
    """Is `goal` valid under hyps and facts?  -> ("proved"|"failed"|"unknown", backend, model)"""
    goal = zb(goal)
    if z3.is_true(goal) or z3.is_true(z3.simplify(goal)):
        return "proved", "simplifier", None
    neg = z3.Not(goal)
    ground = [h for h in hyps] + [neg]
    res = None
    # escalate: no instances, then rounds
    last = ("unknown", "", None)
    for k in sorted({0, 1, 2, rounds}) if facts else [0]:
        if k > rounds:
            continue
        inst = instantiate(facts, ground, k, extra) if k else []
        final = k == rounds or not facts
        last = check_sat(ground + inst, timeout if final else min(timeout, 2.0), deep and (final or k == 0 and not facts))
        if last[0] == "unsat":
            return "proved", last[1], None
    if last[0] == "sat":
        return "failed", last[1], last[2]
    if last[0] == "sat?":
        return "failed", last[1], None
    return "unknown", last[1], None


# ---------------------------------------------------------------------------------------------
class Text(str):
    """A string whose characters are not tracked (it depends on symbolic values); only fit for messages."""

    def __new__(cls, *a):
        return str.__new__(cls, "<text>")

    def __add__(self, o):
        return Text()

    __radd__ = __mod__ = __rmod__ = __mul__ = format = __add__

    def __repr__(self):
        return "<text>"


def _opaque(name):
    def f(self, *a, **k):
        raise Unsupported(f"str.{name} of a text that depends on symbolic values")

    return f


for _n in dir(str):
    if _n not in Text.__dict__ and _n not in ("__class__", "__doc__", "__getattribute__", "__init__", "__init_subclass__", "__setattr__",
                                              "__delattr__", "__dir__", "__reduce__", "__reduce_ex__", "__sizeof__", "__subclasshook__",
                                              "__str__", "__format__", "__getnewargs__", "__getstate__"):
        setattr(Text, _n, _opaque(_n))
Text.__hash__ = _opaque("__hash__")
Text.__eq__ = _opaque("__eq__")
