"""Runtime values of the symbolic interpreter, the path state, and nested exploration."""
import itertools
from fractions import Fraction

from .terms import (complete_pats, BOOL, INT, REAL, Fact, Unsupported, axioms_for, conc, consts_of, instantiate,
                    is_bool, is_int, is_num, is_real, is_scalar, is_term, lift, mentions, prove,
                    same, simp, check_sat, zb, zi, zr)
from .z3load import z3


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, args=(), node=None):
        super().__init__(f"{getattr(cls, '__name__', cls)}")
        self.cls = cls
        self.args_ = args
        self.node = node


class Infeasible(Exception):
    pass


class Heap:
    """Base of mutable values: stamp tells whether the object predates a nested exploration."""

    __slots__ = ("stamp",)

    def __init__(self):
        S.clock += 1
        self.stamp = S.clock


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class Explorer:
    def __init__(self, prefix):
        self.prefix = prefix
        self.log = []

    def next_prefix(self):
        log = list(self.log)
        while log:
            choice, forced = log.pop()
            if not forced and choice is True:
                return log + [(False, True)]
        return None


class State:
    def __init__(self):
        self.reset()
        self.memo = {}
        self.keep = []

    def reset(self):
        self.clock = 0
        self.fresh_n = {}
        self.conds = []      # branch conditions and index guards (stack)
        self.ground = []     # definitional facts, ground
        self.facts = []      # quantified facts
        self.exists_seen = []
        self.match_filters = False  # compare selections by what they mean (costs solver calls)
        self.local_ranks = []  # positions in selections made inside generic bodies: (indices, rank)
        self.ambient = []    # generic index constants (stack)
        self.ex = Explorer([])
        self.journal = None  # list when inside nested exploration
        self.nest_start = -1
        self.obls = []
        self.depth = 0
        self.lifted = {}
        self.assumed = set()
        self.inlined = set()
        self.used = set()
        self.notes = set()
        self.div_checks = []
        self.sumreg = {}
        self.filters = {}
        self.wits = []
        self.steps = 0
        self.skolems = []    # constants of the contract standing for any index
        self.files = {}

    # -- fresh symbols ---------------------------------------------------------------------
    def name(self, base):
        k = self.fresh_n.get(base, 0)
        self.fresh_n[base] = k + 1
        return f"{base}!{k}"

    def fresh(self, base, sort=REAL):
        nm = self.name(base)
        if self.ambient:
            f = z3.Function(nm, *([INT] * len(self.ambient)), sort)
            return f(*self.ambient)
        return z3.Const(nm, sort)

    def fresh_fun(self, base, arity, sort=REAL):
        """Uninterpreted function of `arity` integer arguments (plus the ambient indices)."""
        nm = self.name(base)
        amb = list(self.ambient)
        f = z3.Function(nm, *([INT] * (len(amb) + arity)), sort)
        return lambda *idx: f(*amb, *[zi(x) for x in idx])

    def bound(self, base="k"):
        return z3.Int(self.name(base))

    # -- facts -----------------------------------------------------------------------------
    def assume(self, cond):
        """Definitional fact about fresh symbols."""
        cond = zb(cond)
        if z3.is_true(cond):
            return
        if self.ambient:
            hyp = self.amb_conds()
            self.facts.append(Fact(list(self.ambient), z3.Implies(z3.And(*hyp), cond) if hyp else cond))
        else:
            self.ground.append(cond)

    def amb_conds(self):
        return [c for c in self.conds if mentions(c, self.ambient)]

    def touch(self, x):
        """make the ground term x available to the instantiation of quantified facts"""
        if is_term(x) and not z3.is_bool(x):
            self.assume(z3.Function("touch_" + str(x.sort()), x.sort(), BOOL)(x))

    def forall(self, vars, body, pats=None, name=""):
        """Quantified definitional fact; `vars` are z3 Int constants obtained by bound()."""
        body = zb(body)
        if self.ambient:
            hyp = self.amb_conds()
            if hyp:
                body = z3.Implies(z3.And(*hyp), body)
        amb = [a for a in self.ambient if mentions(body, [a])]
        if pats is not None and amb:
            pats = complete_pats(amb + list(vars), body, pats)
        self.facts.append(Fact(amb + list(vars), body, pats, name))

    # -- path conditions -------------------------------------------------------------------
    def hyps(self):
        return list(self.ground) + list(self.conds)

    def entails(self, goal, timeout=1.0, rounds=1):
        goal = zb(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        key = (tuple(h.get_id() for h in self.hyps()), len(self.facts), g.get_id(), rounds)
        if key in self.memo:
            return self.memo[key]
        r = prove(self.hyps(), self.facts, g, rounds=rounds, timeout=timeout, extra=tuple(self.ambient), deep=False)
        ok = r[0] == "proved"
        self.memo[key] = ok
        self.keep.append((self.hyps(), g))
        return ok

    def branch(self, cond):
        """Decide a symbolic condition; returns the Python bool taken on this path."""
        c = simp(zb(cond))
        if isinstance(c, bool):
            return c
        ex = self.ex
        pos = len(ex.log)
        if pos < len(ex.prefix):
            choice, forced = ex.prefix[pos]
        else:
            if self.entails(z3.Not(c)):
                choice, forced = False, True
            elif self.entails(c):
                choice, forced = True, True
            else:
                choice, forced = True, False
        ex.log.append((choice, forced))
        self.conds.append(c if choice else z3.Not(c))
        return choice

    # -- obligations -----------------------------------------------------------------------
    def oblige(self, name, goal, kind="ensures", info=None):
        goal = zb(goal)
        self.obls.append({"name": name, "hyps": self.hyps(), "facts": list(self.facts), "goal": goal,
                          "kind": kind, "extra": list(self.ambient), "info": info})

    def oblige_raw(self, name, hyps, goal, kind="ensures"):
        """obligation under explicitly listed hypotheses only"""
        self.obls.append({"name": name, "hyps": list(hyps), "facts": [], "goal": zb(goal), "kind": kind, "extra": [], "info": None})


S = State()


# --------------------------------------------------------------------------------------------
class Choice:
    """One of several values, selected by mutually exclusive conditions; the last is default."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class Prefix:
    "element of a list as it is at the beginning of some iteration of a loop that writes to the list"

    def __init__(self, tag, k):
        self.tag, self.k = tag, k


def force(v):
    if isinstance(v, Prefix):
        raise Unsupported("a list written in the loop is read")
    while isinstance(v, Choice):
        for c, x in v.alts[:-1]:
            if S.branch(c):
                v = x
                break
        else:
            v = v.alts[-1][1]
    return v


class Store(Heap):
    __slots__ = ("fn", "shape", "dtype")

    def __init__(self, shape, fn, dtype):
        super().__init__()
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = dtype

    def set_fn(self, fn):
        old = self.fn
        journal(self, ("store", id(self)), lambda: setattr(self, "fn", old), self)
        self.fn = fn


def journal(obj, key, undo, payload):
    if S.journal is not None and obj.stamp < S.nest_start:
        S.journal.append((key, undo, payload))


class Arr:
    """numpy.ndarray: a view onto a store.

    spec: per store axis ("f", index) or ("a", view axis, start, step); None is the identity view."""

    __slots__ = ("store", "shape", "spec", "mask")

    def __init__(self, store, shape=None, spec=None, mask=None):
        self.store = store
        self.shape = tuple(store.shape if shape is None else shape)
        self.spec = spec
        self.mask = mask  # Selection of a boolean-mask result, see npmodel

    @property
    def dtype(self):
        return self.store.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def full_spec(self):
        if self.spec is not None:
            return self.spec
        return tuple(("a", k, 0, 1) for k in range(len(self.store.shape)))

    def smap(self, idx):
        if self.spec is None:
            return tuple(idx)
        return _smap(self.spec, idx)

    def get(self, *idx):
        return self.store.fn(self.smap(idx))

    def snap(self):
        """Closure over the current contents."""
        fn, spec = self.store.fn, self.spec
        if spec is None:
            return lambda idx: fn(tuple(idx))
        return lambda idx: fn(_smap(spec, idx))


def _lin(start, step, i):
    if isinstance(start, int) and start == 0 and isinstance(step, int) and step == 1:
        return i
    if isinstance(start, int) and isinstance(step, int) and isinstance(i, int):
        return start + step * i
    r = zi(i)
    if not (isinstance(step, int) and step == 1):
        r = zi(step) * r
    return conc(z3.simplify(zi(start) + r))


def _smap(spec, idx):
    return tuple(sp[1] if sp[0] == "f" else _lin(sp[2], sp[3], idx[sp[1]]) for sp in spec)


def mk_arr(shape, fn, dtype="f", mask=None):
    return Arr(Store(shape, memo_fn(fn), dtype), mask=mask)


def memo_fn(fn):
    """Cache closure results per index (ids of terms, kept alive)."""
    cache = {}

    def g(idx):
        key = tuple(x.get_id() if is_term(x) else ("c", x) for x in idx)
        hit = cache.get(key)
        if hit is not None:
            return hit[0]
        v = fn(idx)
        cache[key] = (v, idx)
        return v

    return g


class PList(Heap):
    """Python list: concrete items, or symbolic length with an element closure."""

    __slots__ = ("items", "n", "fn", "sel")

    def __init__(self, items=None, n=None, fn=None):
        super().__init__()
        self.items = list(items) if items is not None else None
        self.n = n
        self.fn = fn
        self.sel = None

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def _save(self):
        it = list(self.items) if self.items is not None else None
        n, fn = self.n, self.fn

        def undo():
            self.items, self.n, self.fn = it, n, fn

        journal(self, ("list", id(self)), undo, self)

    def assign(self, items=None, n=None, fn=None):
        self._save()
        self.items = list(items) if items is not None else None
        self.n, self.fn = n, fn

    def get(self, i):
        if self.items is not None:
            i = conc(i)
            if isinstance(i, int):
                return self.items[i]
            return pick(self.items, i)
        return self.fn(i)

    def append(self, v):
        self._save()
        if self.items is not None:
            self.items.append(v)
        else:
            n, fn = self.n, self.fn
            self.n = simp(zi(n) + 1)
            self.fn = lambda i: merge([(zi(i) == zi(n), v)], lambda: fn(i))

    def pure(self):
        """(n, closure) snapshot"""
        if self.items is not None:
            items = list(self.items)
            return len(items), lambda i: items[i] if isinstance(conc(i), int) else pick(items, i)
        return self.n, self.fn


def pick(items, i):
    if not items:
        return UNDEF
    alts = [(zi(i) == k, x) for k, x in enumerate(items[:-1])]
    return merge(alts, lambda: items[-1])


class Seq:
    """Immutable sequence / iterable (tuple-like views: range, zip, enumerate, dict views...)."""

    __slots__ = ("n", "fn", "items")

    def __init__(self, n=None, fn=None, items=None):
        self.items = list(items) if items is not None else None
        self.n = len(self.items) if items is not None else n
        self.fn = fn

    def get(self, i):
        if self.items is not None:
            i = conc(i)
            return self.items[i] if isinstance(i, int) else pick(self.items, i)
        return self.fn(i)


class PDict(Heap):
    __slots__ = ("d",)

    def __init__(self, d=None):
        super().__init__()
        self.d = dict(d or {})

    def _save(self):
        old = dict(self.d)
        journal(self, ("dict", id(self)), lambda: setattr(self, "d", old), self)

    def set(self, k, v):
        self._save()
        self.d[k] = v

    def delete(self, k):
        self._save()
        del self.d[k]


class IndexDict(Heap):
    "dictionary with the keys 0, ..., n-1 (read-only)"
    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        super().__init__()
        self.n, self.fn = n, fn


class PSet(Heap):
    __slots__ = ("s",)

    def __init__(self, s=()):
        super().__init__()
        self.s = set(s)


class SSet:
    """Set (or insertion-ordered dict keys) over a sequence with symbolic members; immutable."""

    __slots__ = ("n", "fn", "items", "ordered", "_len", "_dist", "_enum")

    def __init__(self, n, fn, items=None, ordered=False):
        self.n, self.fn, self.items, self.ordered = n, fn, items, ordered
        self._len = self._dist = self._enum = None

    def enumeration(self, eq):
        """(number of members, k -> k-th member): the members in some unknown order, each once"""
        if self._enum is None:
            if S.ambient:
                raise Unsupported("iteration over a set that depends on an element of a sequence")
            d = self.length(eq)
            src, pos = S.fresh_fun("set_at", 1, INT), S.fresh_fun("set_pos", 1, INT)
            i, j = S.bound("i"), S.bound("j")
            S.forall([i], z3.Implies(z3.And(i >= 0, i < zi(d)), z3.And(src(i) >= 0, src(i) < zi(self.n))), pats=[[src(i)]], name="set")
            S.forall([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zi(d)), z3.Not(zb(eq(self.fn(src(i)), self.fn(src(j)))))),
                     pats=[[src(i), src(j)]], name="set")
            S.forall([i], z3.Implies(z3.And(i >= 0, i < zi(self.n)),
                                     z3.And(pos(i) >= 0, pos(i) < zi(d), zb(eq(self.fn(src(pos(i))), self.fn(i))))), name="set")
            self._enum = (d, lambda k: self.fn(src(zi(k))))
        return self._enum

    def has(self, x, eq):
        if self.items is not None:
            r = False
            for y in self.items:
                e = eq(y, x)
                r = True if r is True or e is True else (zb(e) if r is False else z3.Or(zb(r), zb(e))) if e is not False else r
            return r
        return exists_bool(self.n, lambda i: eq(self.fn(i), x), "in")

    def distinct(self, eq):
        """all members of the underlying sequence pairwise different, as a condition"""
        if self._dist is None:
            if self.items is not None:
                cs = [z3.Not(zb(eq(a, b))) for a, b in itertools.combinations(self.items, 2)]
                self._dist = conc(z3.simplify(z3.And(*cs))) if cs else True
            else:
                b = S.fresh("distinct", BOOL)
                i, j = S.fresh("dup_i", INT), S.fresh("dup_j", INT)
                S.assume(z3.Or(b, z3.And(i >= 0, i < j, j < zi(self.n), zb(eq(self.fn(i), self.fn(j))))))
                k, l = S.bound("k"), S.bound("l")
                S.forall([k, l], z3.Implies(z3.And(b, k >= 0, k < l, l < zi(self.n)), z3.Not(zb(eq(self.fn(k), self.fn(l))))),
                         name="distinct")
                self._dist = b
        return self._dist

    def length(self, eq):
        if self._len is None:
            n = conc(self.n)
            if isinstance(n, int) and n <= 1:
                self._len = n
            elif self.items is not None:
                t = zi(1)
                for k in range(1, len(self.items)):
                    t = t + z3.If(z3.Or(*[zb(eq(self.items[j], self.items[k])) for j in range(k)]), 0, 1)
                self._len = conc(z3.simplify(t))
            else:
                d = S.fresh("setlen", INT)
                S.assume(z3.And(d >= 0, d <= zi(n), z3.Implies(zi(n) > 0, d >= 1), (d == zi(n)) == zb(self.distinct(eq))))
                self._len = d
        return self._len


class PObj(Heap):
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, attrs=None, tag=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.tag = tag

    def set(self, k, v):
        old = dict(self.attrs)
        journal(self, ("obj", id(self)), lambda: setattr(self, "attrs", old), self)
        self.attrs[k] = v


class Opaque:
    """A value only known by its identity (uninterpreted)."""

    def __init__(self, name, truthy=None, types=()):
        self.name = name
        self.truthy = truthy
        self.types = types

    def __repr__(self):
        return f"<{self.name}>"


class OpaqueFn:
    """An arbitrary (deterministic) caller-supplied function: model(interp, args, kwargs)."""

    def __init__(self, name, model):
        self.name = name
        self.model = model


class DT:
    """datetime as a real number of seconds"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class TD:
    """timedelta as a real number of seconds"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class NumText:
    """the text of a number, which reads back as that number"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Frame(Heap):
    __slots__ = ("vars", "globs", "parent", "func", "nonlocals", "globals_")

    def __init__(self, globs, parent=None, func=None):
        super().__init__()
        self.vars = {}
        self.globs = globs
        self.parent = parent
        self.func = func
        self.nonlocals = set()

    def set(self, k, v):
        if k in self.nonlocals and self.parent is not None:
            f = self.parent
            while f is not None:
                if k in f.vars:
                    f.set(k, v)
                    return
                f = f.parent
        old = self.vars.get(k, UNDEF)

        def undo():
            if old is UNDEF:
                self.vars.pop(k, None)
            else:
                self.vars[k] = old

        journal(self, ("var", id(self), k), undo, self)
        self.vars[k] = v


# --------------------------------------------------------------------------------------------
def ite(c, a, b):
    c = simp(zb(c))
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    la, lb = lift(a), lift(b)
    if la.sort() != lb.sort():
        if BOOL in (la.sort(), lb.sort()):
            la, lb = (zi(a), zi(b)) if INT in (la.sort(), lb.sort()) else (zr(a), zr(b))
        else:
            la, lb = zr(a), zr(b)
    return z3.If(c, la, lb)


def identical(a, b):
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b):
        return is_bool(a) == is_bool(b) and same(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, (DT, TD, NumText)) and type(a) is type(b):
        return same(a.t, b.t)
    return False


def merge(alts, default):
    """ite over alternatives: alts = [(cond, value)], default = thunk or value."""
    d = default() if callable(default) and not isinstance(default, (Heap,)) else default
    live = []
    for c, v in alts:
        c = simp(zb(c))
        if c is False:
            continue
        live.append((c, v))
        if c is True:
            break
    if live and live[-1][0] is True:
        d = live.pop()[1]
    return merge_list(live, d)


def merge_list(live, d):
    if not live:
        return d
    if all(identical(v, d) for _, v in live):
        return d
    vals = [v for _, v in live] + [d]
    if any(v is UNDEF for v in vals):
        # undefined alternatives are unreachable by construction
        rest = [(c, v) for c, v in live if v is not UNDEF]
        if d is UNDEF:
            if not rest:
                return UNDEF
            d = rest.pop()[1]
        return merge_list(rest, d)
    if all(is_scalar(v) for v in vals):
        kinds = {("b" if is_bool(v) else "n") for v in vals}
        if len(kinds) == 1:
            r = d
            for c, v in reversed(live):
                r = ite(c, v, r)
            return r
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(
            merge_list([(c, v[k]) for c, v in live], d[k]) for k in range(len(d))
        )
    if all(isinstance(v, DT) for v in vals):
        return DT(merge_list([(c, v.t) for c, v in live], d.t))
    if all(isinstance(v, TD) for v in vals):
        return TD(merge_list([(c, v.t) for c, v in live], d.t))
    if all(isinstance(v, NumText) for v in vals):
        return NumText(merge_list([(c, v.t) for c, v in live], d.t))
    if all(isinstance(v, Arr) for v in vals) and len({v.ndim for v in vals}) == 1:
        shapes_ok = all(
            all(same(x, y) for x, y in zip(v.shape, d.shape)) for v in vals
        )
        if shapes_ok:
            fns = [(c, v.snap()) for c, v in live]
            dfn = d.snap()
            dt = d.dtype if all(v.dtype == d.dtype for v in vals) else "f"
            return mk_arr(d.shape, lambda idx: merge_list([(c, f(idx)) for c, f in fns], dfn(idx)), dt)
    if all(isinstance(v, PList) for v in vals):
        if all(v.items is not None for v in vals) and len({len(v.items) for v in vals}) == 1:
            return PList([merge_list([(c, v.items[k]) for c, v in live], d.items[k])
                          for k in range(len(d.items))])
        pures = [(c, v.pure()) for c, v in live]
        dn, dfn = d.pure()
        n = merge_list([(c, p[0]) for c, p in pures], dn)

        def fn(i):
            out = []
            for c, p in pures:
                out.append((c, UNDEF if isinstance(p[0], int) and p[0] == 0 else p[1](i)))
            return merge_list([(c, v) for c, v in out if v is not UNDEF],
                              dfn(i) if not (isinstance(dn, int) and dn == 0) else UNDEF)

        return PList(n=n, fn=fn)
    if all(isinstance(v, PDict) for v in vals) and all(set(v.d) == set(d.d) for v in vals):
        return PDict({k: merge_list([(c, v.d[k]) for c, v in live], d.d[k]) for k in d.d})
    if all(isinstance(v, PObj) for v in vals) and all(
        v.cls is d.cls and set(v.attrs) == set(d.attrs) for v in vals
    ) and not all(v is d for v in vals):
        return PObj(d.cls, {k: merge_list([(c, v.attrs[k]) for c, v in live], d.attrs[k]) for k in d.attrs})
    alts = []
    for c, v in live:
        if isinstance(v, Choice):
            for c2, v2 in v.alts[:-1]:
                alts.append((z3.And(c, zb(c2)), v2))
            alts.append((c, v.alts[-1][1]))
        else:
            alts.append((c, v))
    if isinstance(d, Choice):
        alts += d.alts
    else:
        alts.append((True, d))
    return Choice(alts)


def subst_val(v, pairs, start):
    """Substitute generic indices inside a value created after `start`."""
    if is_term(v):
        return conc(z3.substitute(v, *pairs))
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs, start) for x in v)
    if isinstance(v, Choice):
        return Choice([(subst_val(c, pairs, start) if is_term(c) else c, subst_val(x, pairs, start)) for c, x in v.alts])
    if isinstance(v, DT):
        return DT(subst_val(v.t, pairs, start))
    if isinstance(v, (TD, NumText)):
        return type(v)(subst_val(v.t, pairs, start))
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq(items=[subst_val(x, pairs, start) for x in v.items])
        fn = v.fn
        return Seq(n=subst_val(v.n, pairs, start), fn=lambda i: subst_idx(fn, (i,), pairs, start, single=True))
    if isinstance(v, Arr):
        if v.store.stamp < start:
            if v.spec is None and not any(is_term(s) and mentions(s, [p[0] for p in pairs]) for s in v.shape):
                return v
        fn = v.snap()
        return mk_arr(tuple(subst_val(s, pairs, start) for s in v.shape),
                      lambda idx: subst_idx(fn, idx, pairs, start), v.dtype)
    if isinstance(v, Heap) and v.stamp < start:
        return v
    if isinstance(v, PList):
        if v.items is not None:
            return PList([subst_val(x, pairs, start) for x in v.items])
        fn = v.fn
        return PList(n=subst_val(v.n, pairs, start), fn=lambda i: subst_idx(fn, (i,), pairs, start, single=True))
    if isinstance(v, PDict):
        return PDict({k: subst_val(x, pairs, start) for k, x in v.d.items()})
    if isinstance(v, IndexDict):
        fn = v.fn
        return IndexDict(subst_val(v.n, pairs, start), lambda i: subst_idx(fn, (i,), pairs, start, single=True))
    if isinstance(v, PObj):
        return PObj(v.cls, {k: subst_val(x, pairs, start) for k, x in v.attrs.items()}, v.tag)
    return v


def subst_idx(fn, idx, pairs, start, single=False):
    """fn evaluated at idx, with pairs substituted, without capturing idx terms that mention the generic index."""
    ph, back = [], []
    for x in idx:
        if is_term(x) and mentions(x, [p[0] for p in pairs]):
            c = z3.Const(S.name("ph"), x.sort())
            ph.append(c)
            back.append((c, x))
        else:
            ph.append(x)
    r = fn(ph[0]) if single else fn(tuple(ph))
    r = subst_val(r, pairs, start)
    if back:
        r = subst_val(r, back, start)
    return r


class Generic:
    """Result of evaluating a body once for a generic index."""

    def __init__(self, i, n, paths, start):
        self.i, self.n, self.paths, self.start = i, n, paths, start


def generic(n, body, base="i"):
    """Explore body(i) for a fresh 0 <= i < n.  paths: [(conds, kind, value, effects)]"""
    i = S.bound(base)
    guard = z3.And(i >= 0, i < zi(n))
    outer_ex, outer_journal, outer_start = S.ex, S.journal, S.nest_start
    nconds = len(S.conds)
    S.clock += 1
    start = S.clock
    paths, prefix, every = [], [], []
    S.ambient.append(i)
    try:
        while True:
            S.ex = Explorer(prefix)
            S.journal, S.nest_start = [], start
            del S.conds[nconds:]
            S.conds.append(guard)
            kind, val = None, None
            try:
                val = body(i)
                kind = "val"
            except PyExc as e:
                kind, val = "exc", e
            except Infeasible:
                kind = None
            except ControlFlow as e:
                kind, val = e.kind, e.value
            eff = {}
            for key, undo, payload in S.journal:
                eff[key] = payload
            finals = {key: snapshot_loc(key, p) for key, p in eff.items()}
            for key, undo, payload in reversed(S.journal):
                undo()
            every.append(list(S.conds[nconds + 1:]))
            if kind is not None:
                paths.append((list(S.conds[nconds + 1:]), kind, val, finals))
            prefix = S.ex.next_prefix()
            if prefix is None:
                break
            if len(paths) > 200:
                raise Unsupported("too many paths in a generic body")
        if len(every) > 1 and len(paths) > 1:
            # one of the paths is taken
            del S.conds[nconds:]
            S.conds.append(guard)
            S.assume(z3.Or(*[conj(p) for p in every]))
    finally:
        S.ex, S.journal, S.nest_start = outer_ex, outer_journal, outer_start
        del S.conds[nconds:]
        S.ambient.pop()
    return Generic(i, n, paths, start)


class ControlFlow(Exception):
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


def snapshot_loc(key, payload):
    if key[0] == "var":
        return payload, payload.vars.get(key[2], UNDEF)
    if key[0] == "store":
        return payload, payload.fn
    if key[0] == "list":
        return payload, (list(payload.items) if payload.items is not None else None, payload.n, payload.fn)
    if key[0] == "dict":
        return payload, dict(payload.d)
    if key[0] == "obj":
        return payload, dict(payload.attrs)
    raise Unsupported(f"effect {key[0]}")


def conj(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs:
        return z3.BoolVal(True)
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def settle_exceptions(g):
    """Fork on whether some index raises; returns the non-raising paths."""
    excs = [p for p in g.paths if p[1] == "exc"]
    if not excs:
        return g.paths
    i = g.i
    cond = z3.Or(*[conj(p[0]) for p in excs])
    rng = z3.And(i >= 0, i < zi(g.n))
    b = S.fresh("raises", BOOL)
    w = S.fresh("exc_at", INT)
    body = z3.And(rng, cond)
    S.assume(z3.Implies(b, z3.substitute(body, (i, w))))
    kv = S.bound("q")
    S.forall([kv], z3.Implies(z3.substitute(body, (i, kv)), b))
    if S.branch(b):
        for p in excs:
            c = z3.substitute(conj(p[0]), (i, w))
            if p is excs[-1] or S.branch(c):
                e = p[2]
                raise PyExc(e.cls, e.args_, e.node)
    return [p for p in g.paths if p[1] != "exc"]


def merged_value(g, paths):
    if not paths:
        return UNDEF
    live = [(conj(c), v) for c, k, v, e in paths]
    return merge_list(live[:-1], live[-1][1])


def closure_of(g, v):
    i, start = g.i, g.start
    cache = {}

    def fn(t):
        t = conc(t) if not isinstance(t, int) else t
        key = t.get_id() if is_term(t) else ("c", t)
        if key in cache:
            return cache[key][0]
        r = subst_val(v, [(i, zi(t))], start)
        cache[key] = (r, t)
        return r

    return fn


def map_seq(n, body):
    """[body(i) for i in range(n)] with symbolic n -> (n, closure)."""
    g = generic(n, body)
    paths = settle_exceptions(g)
    if any(p[3] for p in paths):
        raise Unsupported("side effect inside a comprehension over a symbolic sequence")
    return closure_of(g, merged_value(g, paths))


def filter_seq(n, maskf, valf):
    """Elements valf(i) for which maskf(i), in order. -> (m, closure, sel, rank)"""
    if not S.ambient and not isinstance(conc(n), int):
        x = z3.Int(S.name("all"))
        S.conds.append(z3.And(x >= 0, x < zi(n)))
        every = S.entails(zb(maskf(x)), timeout=0.7, rounds=2)
        S.conds.pop()
        if every:  # nothing is filtered out
            return n, valf, (lambda t: zi(t)), (lambda t: zi(t))
    key = None
    if not S.ambient:
        # the same filter again: the same positions
        x = z3.Int("filter!x")
        kn, km = z3.simplify(zi(n)), z3.simplify(zb(maskf(x)))
        if z3.is_app(kn) and kn.decl().kind() == z3.Z3_OP_ITE:
            for alt in (kn.arg(1), kn.arg(2)):
                if not z3.is_int_value(alt) and S.entails(kn == alt, timeout=0.5):
                    kn = z3.simplify(alt)
                    break
        true, false = z3.BoolVal(True), z3.BoolVal(False)

        def inside(m, n):  # what the range says needs not be said again
            return z3.simplify(z3.substitute(m, (x >= 0, true), (z3.simplify(x >= 0), true), (x < n, true), (z3.simplify(x < n), true),
                                             (n <= x, false), (n > x, true)))

        km = inside(km, kn)
        for f in list(S.filters.values()):
            # the same range under another name
            if f[5].eq(kn) or z3.is_int_value(f[5]):
                continue
            k2 = inside(km, f[5])
            if (not k2.eq(km) or f[6].eq(km) or f[6].eq(z3.simplify(z3.Not(km)))) and S.entails(f[5] == kn, timeout=0.5):
                kn, km = f[5], k2
                break
        if S.match_filters and (kn.get_id(), km.get_id()) not in S.filters:
            for f in list(S.filters.values()):
                if f[5].eq(kn) and _same_ground(f[6], km):
                    km = f[6]
                    break
        if S.match_filters is True and (kn.get_id(), km.get_id()) not in S.filters:
            for f in list(S.filters.values()):
                # the same selection in other words
                S.conds.append(z3.And(x >= 0, x < kn))
                try:
                    if (f[5].eq(kn) or S.entails(f[5] == kn, timeout=0.5)) and S.entails(f[6] == km, timeout=2.0, rounds=3):
                        kn, km = f[5], f[6]
                        break
                finally:
                    S.conds.pop()
        key = (kn.get_id(), km.get_id())
        hit = S.filters.get(key)
        if hit and hit[0] < len(S.facts) and S.facts[hit[0]] is hit[1]:
            m, sel, rank = hit[2:5]
            return m, (lambda t: valf(sel(t))), sel, rank
    r = _new_filter(n, maskf, valf)
    if S.ambient:
        S.local_ranks.append((tuple(a.get_id() for a in S.ambient), r[3]))
        S.keep.append(list(S.ambient))
    if key is not None:
        S.filters[key] = (r[4], S.facts[r[4]], r[0], r[2], r[3], kn, km)
        S.keep.append(S.filters[key])
        other = S.filters.get((kn.get_id(), z3.simplify(z3.Not(km)).get_id()))
        if S.match_filters:
            k = S.bound("k")
            S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n), zi(r[0]) == zi(n)), r[2](k) == k), pats=[[r[2](k)]], name="sel-all")
            for f in list(S.filters.values()) if not other and S.match_filters is True else []:
                S.conds.append(z3.And(x >= 0, x < kn))
                try:
                    if f[5].eq(kn) and S.entails(f[6] == z3.Not(km), timeout=2.0, rounds=3):
                        other = f
                        break
                finally:
                    S.conds.pop()
        if other:  # a row is either kept or dropped
            S.assume(zi(r[0]) + zi(other[2]) == zi(n))
    return r[:4]


def _same_ground(a, b):
    "two conditions that are equal for themselves"
    s = z3.Solver()
    s.set("timeout", 200)
    s.add(a != b)
    return s.check() == z3.unsat


def _new_filter(n, maskf, valf):
    m = S.fresh("cnt", INT)
    sel = S.fresh_fun("sel", 1, INT)
    rank = S.fresh_fun("rank", 1, INT)
    k, k2, i = S.bound("k"), S.bound("k"), S.bound("i")
    S.assume(z3.And(m >= 0, m <= zi(n)))
    at = len(S.facts)
    S.forall([k], z3.Implies(z3.And(k >= 0, k < m),
                             z3.And(sel(k) >= 0, sel(k) < zi(n), zb(maskf(sel(k))), rank(sel(k)) == k)),
             pats=[[sel(k)]], name="sel")
    S.forall([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < m), sel(k) < sel(k2)),
             pats=[[sel(k), sel(k2)]], name="sel-mono")
    mi = zb(maskf(i))
    body = z3.Implies(z3.And(i >= 0, i < zi(n), mi), z3.And(rank(i) >= 0, rank(i) < m, sel(rank(i)) == i))
    from .terms import auto_patterns
    pats = [[rank(i)]] + [p for p in auto_patterns([i], z3.And(mi, i == i)) if p][:4]
    S.forall([i], body, pats=pats, name="rank")
    for a in S.ambient[-2:]:
        # the instance at the enclosing index (the element itself, where a filter runs inside a loop)
        S.assume(z3.Implies(z3.And(a >= 0, a < zi(n), zb(maskf(a))), z3.And(rank(a) >= 0, rank(a) < m, sel(rank(a)) == a)))
    if _has_equality(mi):
        # at most one hit (two distinct hits are contradictory), then existence
        x, y = S.fresh("hit", INT), S.fresh("hit", INT)
        two = z3.And(x >= 0, x < y, y < zi(n), zb(maskf(x)), zb(maskf(y)))
        if S.entails(z3.Not(two), timeout=1.5, rounds=1):
            S.assume(m <= 1)
            S.assume(z3.Implies(m == 1, sel(zi(0)) >= 0))
            if S.entails(m >= 1, timeout=1.5, rounds=2):
                S.assume(m == 1)
                m = 1
    return m, (lambda t: valf(sel(t))), sel, rank, at


def _has_equality(t):
    if z3.is_and(t):
        return any(_has_equality(x) for x in t.children())
    return z3.is_eq(t) and not z3.is_bool(t.arg(0)) and is_term(t.arg(0))


def exists_bool(n, f, base="any"):
    """Boolean: some 0<=i<n has f(i)."""
    if isinstance(n, int) and n <= 64:
        r = [simp(zb(f(i))) for i in range(n)]
        if any(x is True for x in r):
            return True
        r = [x for x in r if x is not False]
        return False if not r else conc(z3.simplify(z3.Or(*[zb(x) for x in r])))
    every = simp(zb(f(z3.Int("exists!x"))))
    if every is False:
        return False
    if every is True:
        return conc(z3.simplify(zi(n) > 0))
    key = None
    if S.ambient and is_term(every):
        # the same question about an element of the same range has the same answer
        pairs = [(v, z3.Const(f"exists!{t}", v.sort())) for t, v in enumerate(S.ambient)]
        under = z3.And(*S.amb_conds())
        key = (len(pairs), z3.substitute(z3.And(every, zi(n) == 0), *pairs), z3.substitute(under, *pairs))
        for k0, at, fact, decl in S.exists_seen:
            if k0[0] == key[0] and k0[1].eq(key[1]) and at < len(S.facts) and S.facts[at] is fact:
                if k0[2].eq(key[2]) or S.entails(z3.substitute(k0[2], *[(b, a) for a, b in pairs]), timeout=0.5):
                    return decl(*S.ambient)
    b = S.fresh(base, BOOL)
    w = S.fresh(base + "_at", INT)
    if not S.ambient:
        S.wits.append(w)
    S.assume(z3.Implies(b, z3.And(w >= 0, w < zi(n), zb(f(w)))))
    k = S.bound("k")
    S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n), zb(f(k))), b), name=base)
    if key is not None and b.num_args() == len(S.ambient):
        S.exists_seen.append((key, len(S.facts) - 1, S.facts[-1], b.decl()))
    return b


def forall_bool(n, f, base="all"):
    r = exists_bool(n, lambda i: z3.Not(zb(f(i))), base)
    return (not r) if isinstance(r, bool) else z3.Not(r)
