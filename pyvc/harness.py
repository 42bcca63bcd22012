"""Contracts: symbolic inputs, the call of the real function, obligations, and their discharge."""
import importlib
import inspect
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import ops, terms
from .interp import CONTRACTS, INTERP, MODELS, Bound, Func, Interp, is_repo_module
from .terms import (BOOL, INT, REAL, STATS, Unsupported, check_sat, conc, confirm, instantiate, is_bool, is_int, is_scalar, is_term, lift, prove,
                    same, simp, zb, zi, zr)
from .values import (DT, TD, Arr, Choice, Explorer, Infeasible, Opaque, OpaqueFn, PDict, PList, PObj, PyExc, S, Seq,
                     exists_bool, force, merge, mk_arr)
from . import npmodel  # noqa: F401
from .z3load import z3

REGISTRY = []   # contracts in definition order


class Contract:
    def __init__(self, prop, target, fn, title, bounded, timeout, lemma):
        self.prop, self.target, self.fn, self.title = prop, target, fn, title
        self.bounded, self.timeout, self.lemma = bounded, timeout, lemma
        self.id = f"{prop}:{fn.__name__}"


def contract(prop, target, title=None, bounded=None, timeout=8.0, lemma=False):
    """Register a contract: fn(c) builds the inputs, calls the target(s) and states the postconditions."""

    def deco(fn):
        REGISTRY.append(Contract(prop, target if isinstance(target, (list, tuple)) else [target], fn,
                                 title or (fn.__doc__ or "").strip(), bounded, timeout, lemma))
        return fn

    return deco


EXTERNAL = {}


def forget_external():
    for k, old in EXTERNAL.items():
        if old is None:
            MODELS.pop(k, None)
        else:
            MODELS[k] = old
    EXTERNAL.clear()


class Raised:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def is_a(self, *cls):
        return isinstance(self.cls, type) and issubclass(self.cls, cls)

    def __repr__(self):
        return f"Raised({getattr(self.cls, '__name__', self.cls)})"


def resolve(qual):
    """'pkg.mod.Class.attr' -> real object"""
    parts = qual.split(".")
    for k in range(len(parts), 0, -1):
        try:
            m = importlib.import_module(".".join(parts[:k]))
        except ModuleNotFoundError as e:
            if e.name and ".".join(parts[:k]).startswith(e.name):
                continue
            raise
        o = m
        try:
            for p in parts[k:]:
                o = inspect.getattr_static(o, p) if isinstance(o, type) else getattr(o, p)
        except AttributeError:
            raise Unsupported(f"{qual} does not exist in this tree")
        return o
    raise Unsupported(f"{qual} does not exist in this tree")


class Ctx:
    """What a contract sees on one path."""

    def __init__(self):
        self.inputs = {}
        self.it = INTERP

    # inputs
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            S.conds.append(v >= lo)
        if hi is not None:
            S.conds.append(v <= hi)
        self.inputs[name] = v
        return v

    def real(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return v

    def arr(self, name, shape, dtype="f"):
        shape = shape if isinstance(shape, tuple) else (shape,)
        f = z3.Function(name, *([INT] * len(shape)), {"f": REAL, "i": INT, "b": BOOL}[dtype])
        a = mk_arr(shape, lambda idx: f(*[zi(x) for x in idx]), dtype)
        self.inputs[name] = a
        a_fn = f
        return a

    def carr(self, values, dtype="f"):
        """array of given (symbolic) values, concrete shape"""
        def pl(v):
            return PList([pl(x) for x in v]) if isinstance(v, (list, tuple)) else v

        return npmodel.to_arr(self.it, pl(values))

    def arr_of(self, shape, fn, dtype="f"):
        return npmodel.build(shape, fn, dtype)

    def list(self, name, n, sort=REAL):
        f = z3.Function(name, INT, sort)
        v = PList(n=n, fn=lambda i: f(zi(i)))
        self.inputs[name] = v
        return v

    def list_of(self, n, fn):
        return PList(n=n, fn=fn)

    def plist(self, items):
        return PList(items)

    def dict(self, **kw):
        return PDict(kw)

    def data(self, n, types=None, **cols):
        """a hrosailing Data table with n rows and the given columns (lists)"""
        types = {k: (types or {}).get(k, float) for k in cols}
        return self.obj("hrosailing.core.data.Data", _data=PDict(cols), _types=PDict(types), _max_len=n)

    def fun(self, name, *sorts):
        return z3.Function(name, *sorts)

    def obj(self, cls, **attrs):
        if isinstance(cls, str):
            cls = resolve(cls)
        return PObj(cls, attrs)

    def opaque_fn(self, name, model):
        return OpaqueFn(name, model)

    def norm_fn(self, name="norm", rows=True):
        """An arbitrary norm applied to the rows of an (n, d) array: non-negative, row-wise, otherwise unknown."""
        fs = {}

        def m(it, args, kwargs):
            a = npmodel.to_arr(it, args[0])
            if a.ndim == 1:
                d = 1 if rows == "scalar" else conc(a.shape[0])
                if rows == "scalar":
                    f = fs.setdefault(1, z3.Function(f"{name}1", REAL, REAL))
                    g = a.snap()

                    def e1(idx):
                        v = f(zr(g(idx)))
                        S.assume(v >= 0)
                        return v

                    return npmodel.build(a.shape, e1, "f")
                raise PyExc(IndexError, ())
            d = conc(a.shape[1])
            f = fs.setdefault(d, z3.Function(f"{name}{d}", *([REAL] * d), REAL))
            g = a.snap()

            def e(idx):
                v = f(*[zr(g((idx[0], j))) for j in range(d)])
                S.assume(v >= 0)
                return v

            return npmodel.build((a.shape[0],), e, "f")

        o = OpaqueFn(name, m)
        o.spec = lambda *xs: fs.setdefault(len(xs), z3.Function(f"{name}{len(xs)}", *([REAL] * len(xs)), REAL))(*[zr(x) for x in xs])
        return o

    # execution
    def require(self, cond):
        cond = zb(cond)
        S.conds.append(cond)

    def require_all(self, n, f, names=None):
        """precondition on every element (quantified fact)"""
        k = S.bound("r")
        S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n)), zb(f(k))), name="requires")

    def require_all2(self, n, m, f):
        k, j = S.bound("r"), S.bound("r")
        S.forall([k, j], z3.Implies(z3.And(k >= 0, k < zi(n), j >= 0, j < zi(m)), zb(f(k, j))), name="requires")

    def require_pairs(self, n, f):
        """precondition on pairs i < j"""
        k, j = S.bound("r"), S.bound("r")
        S.forall([k, j], z3.Implies(z3.And(k >= 0, k < j, j < zi(n)), zb(f(k, j))), name="requires")

    def call(self, target, *args, **kwargs):
        fv = resolve(target) if isinstance(target, str) else target
        if isinstance(fv, staticmethod):
            fv = fv.__func__
        if isinstance(fv, classmethod):
            fv = fv.__func__
        if isinstance(fv, property):
            fv = fv.fget
        fv = self.it.lift(fv)
        try:
            return self.it.call(fv, list(args), kwargs)
        except PyExc as e:
            return Raised(e.cls, e.args_)

    def method(self, obj, name, *args, **kwargs):
        try:
            return self.it.call(self.it.getattr(obj, name), list(args), kwargs)
        except PyExc as e:
            return Raised(e.cls, e.args_)

    def binop(self, op, a, b):
        try:
            return self.it.binop({"+": "Add", "-": "Sub", "*": "Mult", "/": "Div", "**": "Pow", "%": "Mod"}[op], a, b)
        except PyExc as e:
            return Raised(e.cls, e.args_)

    def new(self, cls, *args, **kwargs):
        if isinstance(cls, str):
            cls = resolve(cls)
        return self.call(cls, *args, **kwargs)

    def attr(self, obj, name):
        return self.it.getattr(obj, name)

    def by_contract(self, qual, summary):
        """Calls of the function are judged by its contract (proved elsewhere), not by its body: summary(*args) gives the
        result; `qual` names the function."""
        o = resolve(qual)
        f = o.__func__ if isinstance(o, (staticmethod, classmethod)) else o

        def summ(it, fv, args, kwargs):
            S.assumed.add(f"call judged by the contract of {qual}")
            return summary(*args, **kwargs)

        CONTRACTS[f"{f.__module__}.{f.__qualname__}"] = summ

    def external(self, o, what, model):
        """A function or class of a library is judged by an assumed contract: model(*args) gives the result; `what` states it."""
        def m(it, args, kwargs):
            S.assumed.add(what)
            return model(*args, **kwargs)

        key = o if isinstance(o, tuple) else id(o)  # (class, name) for a class method of a library
        EXTERNAL.setdefault(key, MODELS.get(key))
        MODELS[key] = m

    def invariant(self, qual, k, make, inv):
        """The k-th loop (in source order) of the function carries an invariant; see loops.invariant_loop."""
        from .loops import invariant_loop

        o = resolve(qual)
        f = o.__func__ if isinstance(o, (staticmethod, classmethod)) else o
        name = f"{f.__module__}.{f.__qualname__}"
        self.it.loop_specs[name, k] = invariant_loop(f"{f.__qualname__}", make, inv)

    # obligations
    def ensure(self, name, goal):
        S.oblige(name, goal if is_bool(goal) else self.it.truth(goal))

    def returns(self, r, what="returns normally"):
        """Obligation: no exception; stops the path otherwise."""
        if isinstance(r, Raised):
            S.oblige(f"{what} (raised {getattr(r.cls, '__name__', r.cls)})", z3.BoolVal(False), kind="no-exception")
            raise Infeasible()
        return force(r)

    def raises(self, r, *cls, what="is rejected"):
        ok = isinstance(r, Raised) and r.is_a(*(cls or (Exception,)))
        S.oblige(what, z3.BoolVal(bool(ok)), kind="raises")

    def stop(self):
        raise Infeasible()

    def prune(self, rounds=4, timeout=3.0):
        "ends the path if it is found contradictory"
        if S.entails(S.fresh("absurd", BOOL), rounds=rounds, timeout=timeout):
            raise Infeasible()

    def branch(self, cond):
        return S.branch(cond)

    def skolem(self, n, name="i"):
        i = z3.Int(S.name(name))
        S.conds.append(z3.And(i >= 0, i < zi(n)))
        S.skolems.append(i)
        return i

    def forall(self, name, n, f, label="i"):
        """obligation for every index below n"""
        i = z3.Int(S.name("sk_" + label))
        S.conds.append(z3.And(i >= 0, i < zi(n)))
        try:
            S.oblige(name, f(i))
        finally:
            S.conds.pop()

    def member(self, name, n, pred, hints=(), ghosts=False, given=True):
        """obligation: pred holds for some index below n (witness candidates: the hints and their images under every
        sorting permutation in use)"""
        cands = [zi(h) for h in hints]
        if ghosts:  # witnesses of searches and positions in selections made so far
            cands += [zi(f[k](h)) for f in S.filters.values() for h in cands[:len(hints)] for k in (4, 3)]
            here = tuple(a.get_id() for a in S.ambient)
            cands += [zi(r(h)) for ids, r in S.local_ranks[-6:] if ids == here[:len(ids)] for h in cands[:len(hints)]]
            cands += S.wits[:8] + [zi(f[3](w)) for f in S.filters.values() for w in S.wits[:8]]
        for p, q in S.sumreg.get("perms", []):
            cands += [f(x) for x in cands[:len(hints) * 4] for f in (p, q)]
        S.oblige(name, z3.Implies(zb(given), z3.Or(*[z3.And(x >= 0, x < zi(n), zb(pred(x))) for x in cands])))

    def ranks(self, n, f):
        """ghost: a sorting permutation of range(n) by f (ascending) and its inverse, the rank of each index"""
        return npmodel.sort_perm(n, f, npmodel.key_leq(self.it))

    def exists_hint(self, name, goal):
        S.oblige(name, goal)

    def ensure_from(self, name, hyps, goal, abstract=(), then=False):
        """Proof step: each hypothesis is an obligation of its own; the goal then follows from those alone, with the
        terms in `abstract` generalised to fresh variables."""
        for k, h in enumerate(hyps):
            if not any(zb(h).eq(x) for x in S.conds):
                S.oblige(f"{name}: premise {k + 1}", h, kind="lemma")
        goal = zb(goal)
        # two-step substitution, largest terms first
        pairs = []
        for t in sorted(abstract, key=lambda t: -len(t.sexpr())):
            t = z3.substitute(t, *pairs) if pairs else t
            pairs.append((t, z3.FreshConst(t.sort(), "abs")))

        def gen(f):
            for p in pairs:
                f = z3.substitute(f, p)
            return f

        S.oblige_raw(name, [gen(zb(h)) for h in hyps], gen(goal))
        if then:
            S.conds.append(goal)

    def ensure_rewriting(self, name, goal, cands, hyps=()):
        """Proof step: every array read or function value in the goal that provably equals one of `cands` is replaced by
        it (each replacement is an obligation); the rest follows from `hyps` (obligations too) alone."""
        goal = zb(goal)
        ns = []
        terms.app_nodes(terms.node(goal), set(), ns)
        pairs = []
        for x in sorted(ns, key=lambda x: -len(x.e.sexpr())):
            if (not callable(cands) and any(x.e.eq(y) for y in cands)) or x.e.sort() != REAL:
                continue
            for y in (cands(x.e) if callable(cands) else cands):
                t0 = time.time()
                ok = S.entails(x.e == y, timeout=2.0, rounds=3)
                if os.environ.get("PYVC_RW"):
                    print("rewrite?", str(x.e)[:90], "->", y, ok, round(time.time() - t0, 2))
                if ok:
                    S.oblige(f"{name}: rewriting", x.e == y, kind="lemma")
                    pairs.append((x.e, y))
                    break
        for t, y in pairs:
            goal = z3.substitute(goal, (t, y))
        self.ensure_from(name, list(hyps), goal)

    def assert_(self, name, goal):
        """obligation, then available as a hypothesis (a lemma step)"""
        S.oblige(name, goal, kind="lemma")
        S.conds.append(zb(goal))

    def assert_all(self, name, n, f):
        self.forall(name, n, f)
        k = S.bound("r")
        S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n)), zb(f(k))), name=name)

    def induct(self, name, n, f):
        "proof by induction: f(0), and f(k) implies f(k+1), so f holds below n"
        n = zi(n)
        S.oblige(name + " (first)", z3.Implies(n > 0, zb(f(zi(0)))), kind="lemma")
        k = self.skolem(n, "step")
        S.oblige(name + " (step)", z3.Implies(z3.And(k + 1 < n, zb(f(k))), zb(f(k + 1))), kind="lemma")
        x = S.bound("k")
        S.forall([x], z3.Implies(z3.And(x >= 0, x < n), zb(f(x))))

    def shape_is(self, name, a, shape):
        if not isinstance(a, Arr) or len(a.shape) != len(shape):
            S.oblige(name, z3.BoolVal(False))
            raise Infeasible()
        for x, y in zip(a.shape, shape):
            S.oblige(name, zi(x) == zi(y))

    def unchanged(self, name, a, orig, n=None):
        """frame condition: an array's contents equal its initial contents"""
        idx = []
        mark = len(S.conds)
        for s in a.shape:
            if isinstance(s, int) and s <= 12:
                idx.append(range(s))
            else:
                i = z3.Int(S.name("sk_f"))
                S.conds.append(z3.And(i >= 0, i < zi(s)))
                idx.append([i])
        import itertools

        for t in itertools.product(*idx):
            x, y = a.get(*t), orig(t)
            S.oblige(name, ops.cmp("==", x, y), kind="frame")
        del S.conds[mark:]

    # sums (lemmas about finite sums)
    def sum(self, n, f):
        return npmodel.seq_sum(n, f)

    def sum_mono(self, name, n, f, g):
        """lemma: f <= g pointwise gives sum f <= sum g (pointwise part is an obligation)"""
        self.forall(name, n, lambda i: zr(f(i)) <= zr(g(i)))
        a, b = self.sum(n, f), self.sum(n, g)
        S.conds.append(zr(a) <= zr(b))
        S.assumed.add("lemma: monotonicity of finite sums")

    def equal_sums(self, *points):
        "lemma: sums of the same length with equal terms are equal. For every sum in use that depends on one generic index (at the given points) and every other sum"
        recs = list(S.sumreg.get("all-sums", []))
        seen = []
        for r in recs:
            seen += [(r.sym, r.core, r.n, None)] if not r.sym.num_args() else []
            if r.sym.num_args() == 1:
                seen += [tuple(z3.substitute(zz, (r.sym.arg(0), zi(x))) for zz in (r.sym, r.core, zi(r.n))) + (r,) for x in points]
        for j, (s1, c1, n1, r1) in enumerate(seen):
            for s2, c2, n2, r2 in seen[:j]:
                if s1.eq(s2) or r1 is r2 is not None or not same(conc(n1), conc(n2)):
                    continue
                k = z3.Int(S.name("eqs"))
                S.conds.append(z3.And(k >= 0, k < zi(n1)))
                ok = S.entails(z3.substitute(c1, (npmodel.CANON, k)) == z3.substitute(c2, (npmodel.CANON, k)), timeout=1.0, rounds=2)
                S.conds.pop()
                if ok:
                    S.assume(s1 == s2)
                    S.assumed.add("lemma: finite sums with equal terms are equal")

    def unit_interval(self, name, t):
        """obligation 0 <= t <= 1; branch by branch, and factor by factor where each factor lies in [0, 1] by itself"""
        t = zr(t)
        unit = lambda x: z3.And(x >= 0, x <= 1)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            for c, x in ((t.arg(0), t.arg(1)), (z3.Not(t.arg(0)), t.arg(2))):
                S.conds.append(c)
                try:
                    if not S.entails(z3.BoolVal(False), timeout=0.3):
                        self.unit_interval(name, x)
                finally:
                    S.conds.pop()
            return
        fs, todo = [], [z3.simplify(t)]
        while todo:
            x = todo.pop()
            if z3.is_mul(x):
                todo += x.children()
            elif z3.is_div(x) and z3.is_mul(x.arg(0)):
                k = x.arg(0).children()
                todo += k[:-1] + [k[-1] / x.arg(1)]
            else:
                fs.append(x)
        if len(fs) > 1 and all(S.entails(unit(x), timeout=2.0, rounds=2) for x in fs):
            for x in fs:
                S.oblige(name, unit(x))
            return
        S.oblige(name, unit(t))

    def weighted_bounds(self, lo, hi):
        """For every pair of sums (sum w*b, sum w) in use: m<=b<=M pointwise bounds the weighted sum."""
        recs = S.sumreg.get("all-sums", [])
        one = z3.RealVal(1)
        for a in recs:
            const = npmodel.SumRec(z3.ToReal(zi(a.n)), a.n, one)
            for b in recs + [const]:
                if a is b or not same(a.n, b.n):
                    continue
                k = z3.Int(S.name("wb"))
                S.conds.append(z3.And(k >= 0, k < zi(a.n)))
                okl = S.entails(zr(lo) * b.at(k) <= a.at(k), timeout=2.0, rounds=2)
                okh = S.entails(a.at(k) <= zr(hi) * b.at(k), timeout=2.0, rounds=2)
                S.conds.pop()
                if okl:
                    S.assume(zr(lo) * b.sym <= a.sym)
                if okh:
                    S.assume(a.sym <= zr(hi) * b.sym)
                if okl or okh:
                    S.assumed.add("lemma: monotonicity of finite sums")


def all_paths(fn):
    """Explore fn(ctx) over all paths; obligations of every path."""
    S.memo = {}
    S.keep = []
    prefix = []
    obls, npaths, reach = [], 0, []
    inl, used, assumed, notes = set(), set(), set(), set()
    t0 = time.time()
    while True:
        S.reset()
        CONTRACTS.clear()
        INTERP.loop_specs.clear()
        forget_external()
        S.ex = Explorer(prefix)
        c = Ctx()
        try:
            fn(c)
            done = True
        except Infeasible:
            done = False
        npaths += 1
        if done:
            reach.append((S.hyps(), list(S.facts)))
        obls.extend(S.obls)
        for o in S.obls:
            o["ctx"] = c
        inl |= S.inlined
        used |= S.used
        assumed |= S.assumed
        notes |= S.notes
        prefix = S.ex.next_prefix()
        if prefix is None:
            break
        if npaths > 400:
            raise Unsupported("too many paths")
    return {"obls": obls, "paths": npaths, "reach": reach, "inlined": inl, "used": used, "assumed": assumed, "notes": notes}


class TimeUp(Exception):
    pass


def run_contract(ct, timeout_total=120, quiet=True):
    """-> dict with status: proved | failed | unsupported | error, obligations, times"""
    t0 = time.time()
    STATS.__init__()
    res = {"id": ct.id, "target": ct.target, "title": ct.title, "bounded": ct.bounded, "obligations": [], "status": None}

    def on_alarm(sig, frm):
        raise TimeUp()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(timeout_total))
    try:
        ex = all_paths(ct.fn)
        res.update(paths=ex["paths"], inlined=sorted(ex["inlined"]), assumed=sorted(map(str, ex["assumed"])), notes=sorted(ex["notes"]))
        seen = set()
        for o in ex["obls"]:
            key = (o["name"], o["goal"].get_id(), tuple(h.get_id() for h in o["hyps"]), len(o["facts"]))
            if key in seen:
                continue
            seen.add(key)
            t1 = time.time()
            r, backend, mdl = prove(o["hyps"], o["facts"], o["goal"], rounds=3, timeout=ct.timeout, extra=tuple(o["extra"]))
            if r != "proved" and S.skolems and o["facts"]:
                r2, b2, _ = prove(o["hyps"], o["facts"], o["goal"], rounds=3, timeout=ct.timeout, extra=tuple(o["extra"]) + tuple(S.skolems))
                if r2 == "proved":
                    r, backend = r2, b2
            if r == "failed" and o["facts"]:
                small = confirm(o["hyps"], o["facts"], o["goal"], size=2)
                if small == "not small":
                    small = confirm(o["hyps"], o["facts"], o["goal"], size=3)
                    small = "refuted" if small == "refuted" else "not small"
                if small == "not small":
                    r = "unknown"
            if r == "proved":
                STATS.add(backend, 0.0)
            ent = {"name": o["name"], "kind": o["kind"], "result": r, "backend": backend, "time": round(time.time() - t1, 3)}
            if r != "proved":
                ent["goal"] = str(z3.simplify(o["goal"]))[:400]
                ent["path"] = [str(h)[:160] for h in o["hyps"][-8:]]
                if mdl is not None:
                    ent["model"] = model_text(mdl)
            res["obligations"].append(ent)
            if r != "proved" and len([x for x in res["obligations"] if x["result"] != "proved"]) >= 3:
                break
        # vacuity: some completed path must be satisfiable
        sat = False
        for hyps, facts in ex["reach"]:
            inst = instantiate(facts, hyps, 2)
            r = check_sat(hyps + inst, timeout=3.0, deep=False)[0]
            if r != "unsat":
                sat = True
                break
        res["reachable"] = sat
        bad = [o for o in res["obligations"] if o["result"] != "proved"]
        if not res["obligations"]:
            res["status"] = "error"
            res["reason"] = "zero obligations"
        elif bad:
            res["status"] = "failed"
        elif not sat:
            res["status"] = "error"
            res["reason"] = "preconditions are contradictory (vacuous)"
        else:
            res["status"] = "proved"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["reason"] = str(e)
        if not quiet:
            traceback.print_exc()
    except TimeUp:
        res["status"] = "unsupported"
        res["reason"] = f"verifier exceeded {timeout_total} s"
    except RecursionError:
        res["status"] = "unsupported"
        res["reason"] = "recursion limit of the verifier"
    except Exception as e:  # engine defect: never an alarm
        res["status"] = "unsupported"
        res["reason"] = f"engine: {type(e).__name__}: {e}"
        if not quiet:
            traceback.print_exc()
    finally:
        forget_external()
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res["backends"] = dict(STATS.count)
    res["solver_time"] = {k: round(v, 2) for k, v in STATS.time.items()}
    res["queries"] = STATS.queries
    res["wall"] = round(time.time() - t0, 2)
    return res


def model_text(m):
    out = []
    for d in m.decls()[:40]:
        if "!" in d.name():
            continue
        out.append(f"{d.name()} = {str(m[d])[:120]}")
    return out
