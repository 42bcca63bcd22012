"""Summaries of for-loops over symbolic sequences.

The body is executed once for a generic index with every location it writes replaced by an unknown;
the result is matched against inductive schemes (last write, sum, conjunction, disjunction, maximum,
append, element-wise array update, first exit).  Anything else is Unsupported, never approximated.
"""
from . import ops
from .terms import BOOL, INT, auto_patterns, REAL, Unsupported, conc, is_bool, is_int, is_scalar, is_term, lift, mentions, same, simp, zb, zi, zr
from .values import (UNDEF, Arr, Choice, ControlFlow, Frame, Infeasible, PDict, PList, PObj, Prefix, PyExc, S, Seq, Store, closure_of, conj, exists_bool,
                     filter_seq, force, forall_bool, generic, identical, ite, map_seq, merge, merge_list, mk_arr, settle_exceptions, subst_val)
from .z3load import z3


def symbolic_for(it, s, fr, n, fn):
    from .interp import BreakSig, ContinueSig, ReturnSig

    state = {}

    def body(i):
        it.assign(s.target, fn(i), fr)
        try:
            it.block(s.body, fr)
        except ContinueSig:
            pass
        return None

    # 1. which locations does the body write?
    if not S.branch(ops.cmp(">", n, 0)):
        it.block(s.orelse, fr)
        return
    probe = generic(n, body)
    locs = {}
    for p in probe.paths:
        for key, (payload, final) in p[3].items():
            locs[key] = payload
    targets = target_names(s.target)
    carried = dict(locs)
    objs = {}
    written_attrs(probe, objs)
    # 2. run again with the carried locations unknown, until no further location is written
    while True:
        havoc, inits = {}, {}
        for key, payload in carried.items():
            init = read_loc(key, payload)
            inits[key] = init
            if key[0] == "var" and (payload is fr and key[2] in targets or init is UNDEF):
                continue  # plain per-iteration variable
            havoc[key] = init
        auto = automaton(n, body, carried, havoc) if any(is_atom(k, havoc[k]) for k in havoc) else None
        if auto:
            for key in auto.keys:
                del havoc[key]

        def body2(i):
            ph = {}
            if auto:
                auto.enter(i)
            for key, init in havoc.items():
                ph[key] = placeholder(key, carried[key], init, state.setdefault("names", {}), objs.get(key, ()))
            state["ph"] = ph
            return body(i)

        g = generic(n, body2)
        more = {key: payload for p in g.paths for key, (payload, final) in p[3].items() if key not in carried}
        more_attrs = written_attrs(g, objs)
        if not more and not more_attrs:
            break
        carried.update(more)
    if auto:
        auto.facts(g)
    kinds = {p[1] for p in g.paths}
    exits = [p for p in g.paths if p[1] in ("break", "return")]
    ph = state["ph"]
    known = [p[1] >= 0 for p in ph.values() if p[0] == "list"]
    marks = [x for p in ph.values() for x in p[1:] if is_term(x) or isinstance(x, z3.FuncDeclRef)]
    for p in g.paths:
        if p[1] == "exc" and any(depends(x, marks) and not any(x.eq(y) for y in known) for x in p[0]):
            raise Unsupported("whether the loop raises depends on what it has computed so far")
    try:
        paths = settle_exceptions(g)
    except PyExc:
        for key, init in havoc.items():  # unknown from here on
            placeholder(key, carried[key], init, {}, objs.get(key, ()))
        for key, payload in carried.items():
            if key[0] == "var" and (key not in havoc or not is_scalar(havoc[key]) and not isinstance(havoc[key], Arr)):
                payload.set(key[2], Prefix("after an exception", 0))
        raise
    if exits:
        if objs:
            raise Unsupported("early exit from a loop that writes attributes")
        return first_exit(it, s, fr, n, g, paths, exits, carried, havoc, inits, targets, auto, state["ph"])
    finals = {}
    if auto:
        auto.leave()
    for key in carried:
        if auto and key in auto.keys:
            continue
        live = []
        for c, k, v, eff in paths:
            live.append((conj(c), eff[key][1] if key in eff else ("unchanged",)))
        finals[key] = live
    for key, payload in carried.items():
        if auto and key in auto.keys:
            continue
        summarise(it, key, payload, finals[key], havoc.get(key, UNDEF), state["ph"].get(key), g, n, fr, targets)
    it.block(s.orelse, fr)


def written_attrs(g, objs):
    "the attributes written by the body of the loop; True if there are new ones"
    new = False
    for p in g.paths:
        for key, (payload, final) in p[3].items():
            if key[0] != "obj":
                continue
            known = objs.setdefault(key, set())
            for a in set(final) | set(payload.attrs):
                if a not in known and final.get(a, UNDEF) is not payload.attrs.get(a, UNDEF):
                    known.add(a)
                    new = True
    return new


def is_atom(key, v):
    return key[0] == "var" and (v is None or isinstance(v, (type, str)))


class automaton:
    """Variables that only ever hold constants (None, types, strings): their joint values are the states of a finite automaton
    whose run is a ghost function state(i) of the iteration; its transitions are read off the loop body (exactly)."""

    def __init__(self, n, body, carried, havoc):
        self.n = n
        self.keys = [k for k in havoc if is_atom(k, havoc[k])]
        self.carried = carried
        self.lists = {}
        init = tuple(havoc[k] for k in self.keys)
        self.states, self.image = [init], []
        todo = [init]
        names = {}
        while todo:
            st = todo.pop()

            def run(i):
                for key in havoc:
                    if key not in self.keys:
                        placeholder(key, carried[key], havoc[key], names)
                for key, v in zip(self.keys, st):
                    carried[key].set(key[2], self.thaw(v))
                return body(i)

            for v in st:
                self.thaw(v)
            for p in generic(n, run).paths:
                if p[1] != "val":
                    continue
                nxt = self.next(p, st)
                if nxt not in self.image:
                    self.image.append(nxt)
                if nxt not in self.states:
                    self.states.append(nxt)
                    todo.append(nxt)
                    if len(self.states) > 6:
                        raise Unsupported("loop state is not finite")
        self.f = S.fresh_fun("state", 1, INT)

    def next(self, p, st):
        out = []
        for key, v in zip(self.keys, st):
            if key not in p[3]:
                out.append(v)
                continue
            w = p[3][key][1]
            if isinstance(w, (PList, Seq)) and w.items is not None and all(x is None or isinstance(x, (type, str)) for x in w.items):
                w = (type(w), *w.items)
            elif not is_atom(key, w):
                raise Unsupported("loop variable changes between a constant and other values")
            out.append(w)
        if any(("list", id(x)) in p[3] for x in self.lists.values()):
            raise Unsupported("a list kept as a constant of the loop is changed")
        return tuple(out)

    def thaw(self, v):
        "the object of a state: one list for every list of constants, so that changing it is noticed"
        if not isinstance(v, tuple):
            return v
        if v not in self.lists:
            self.lists[v] = v[0](items=v[1:])
        return self.lists[v]

    def enter(self, i):
        at = 0
        while at < len(self.states) - 1 and not S.branch(self.f(i) == at):
            at += 1
        for key, v in zip(self.keys, self.states[at]):
            self.carried[key].set(key[2], self.thaw(v))
        self.at = at

    def facts(self, g):
        f, n = self.f, zi(self.n)
        S.assume(f(0) == 0)
        k = S.bound("k")
        exits = any(p[1] != "val" for p in g.paths)  # the ghost run goes on after an exit, in the same state
        if not exits:
            S.forall([k], z3.Implies(z3.And(k >= 1, k <= n), z3.Or(*[f(k) == self.states.index(x) for x in self.image])), pats=[[f(k)]])
        S.forall([k], z3.Implies(z3.And(k >= 0, k <= n), z3.And(f(k) >= 0, f(k) < len(self.states))), pats=[[f(k)]])
        if len(self.image) == 1 and not exits or not self.image:
            return
        fresh, stay = set(range(len(self.states))), set(range(len(self.states)))
        for p in g.paths:
            if p[1] != "val":
                continue
            for at, st in enumerate(self.states):
                c = closure_of(g, z3.simplify(z3.And(conj(p[0]), f(g.i) == at)))
                if z3.is_false(z3.simplify(z3.substitute(conj(p[0]), (f(g.i), z3.IntVal(at))))):
                    continue
                nxt = self.states.index(self.next(p, st))
                cond = zb(c(k))
                S.forall([k], z3.Implies(z3.And(k >= 0, k < n, cond), f(k + 1) == nxt), pats=[[f(k)]] + [p for p in auto_patterns([k], z3.And(cond, k == k)) if p][:3])
                if at == nxt:
                    continue
                stay.discard(at)
                fresh.discard(nxt)
        # by induction: a state other than the first was entered at some step
        ent = S.fresh_fun("entered", 1, INT)
        S.forall([k], z3.Implies(z3.And(k >= 0, k <= n, f(k) != 0),
                                 z3.And(ent(k) >= 0, ent(k) < k, f(ent(k)) != f(k), f(ent(k) + 1) == f(k))), pats=[[f(k)]])
        # states that are never entered from others, and states that are never left
        for x in fresh:
            S.forall([k], z3.Implies(z3.And(k >= 0, k <= n, f(n) == x), f(k) == x), pats=[[f(k)]])
        for x in stay:
            k2 = S.bound("k")
            S.forall([k, k2], z3.Implies(z3.And(k >= 0, k <= k2, k2 <= n, f(k) == x), f(k2) == x), pats=[[f(k), f(k2)]])

    def leave(self):
        live = [self.states.index(x) for x in self.image] or [0]
        while len(live) > 1 and not S.branch(self.f(zi(self.n)) == live[0]):
            live.pop(0)
        for key, v in zip(self.keys, self.states[live[0]]):
            self.carried[key].set(key[2], self.thaw(v))


def target_names(t):
    import ast

    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def read_loc(key, payload):
    if key[0] == "var":
        return payload.vars.get(key[2], UNDEF)
    return payload


class Holder:
    pass


def placeholder(key, payload, init, names, attrs=()):
    """Install an unknown in the location and return a description of it."""
    def name(base):
        # the same unknown on every path through the body
        if (key, base) not in names:
            names[key, base] = S.name(base)
        return names[key, base]

    if key[0] == "var":
        if is_scalar(init):
            sort = BOOL if is_bool(init) else (INT if is_int(init) else REAL)
            c = z3.Const(name("carry"), sort)
            payload.set(key[2], c)
            return ("scalar", c)
        if isinstance(init, Arr):
            f = z3.Function(name("carry"), *([INT] * init.ndim), {"b": BOOL, "i": INT}.get(init.dtype, REAL))
            a = mk_arr(init.shape, lambda idx: f(*[zi(x) for x in idx]), init.dtype)
            payload.set(key[2], a)
            return ("arr", f, a)
        if isinstance(init, PList):
            lst = PList(init.items) if init.items is not None else PList(n=init.n, fn=init.fn)
            return ("keep", None)
        return ("keep", None)
    if key[0] == "list":
        new = (key, "len") not in names
        m = z3.Int(name("len"))
        tag = name("prefix")
        payload.assign(n=m, fn=lambda k: Prefix(tag, k))
        if new:
            S.ground.append(m >= 0)
        return ("list", m, tag)
    if key[0] == "store":
        f = z3.Function(name("carry"), *([INT] * len(payload.shape)), {"b": BOOL, "i": INT}.get(payload.dtype, REAL))
        payload.set_fn(lambda idx: f(*[zi(x) for x in idx]))
        return ("store", f)
    if key[0] == "obj":
        # an attribute may be written and then read in one iteration, but not carried from one to the next
        for a in sorted(attrs):
            payload.set(a, Prefix(name("attr " + a), 0))
        return ("obj", set(attrs))
    raise Unsupported(f"loop writes a {key[0]}")


def depends(v, marks):
    if is_term(v):
        from .terms import apps_of

        if mentions(v, [m for m in marks if not isinstance(m, z3.FuncDeclRef)]):
            return True
        apps = []
        apps_of(v, set(), apps)
        ds = {m.get_id() for m in marks if isinstance(m, z3.FuncDeclRef)}
        return any(a.decl().get_id() in ds for a in apps)
    return False


def summarise(it, key, payload, live, init, ph, g, n, fr, targets):
    unchanged = [x for x in live if isinstance(x[1], tuple) and x[1] == ("unchanged",)]
    if len(unchanged) == len(live):
        return
    n_z = zi(n)
    last = simp(n_z - 1)
    if key[0] == "var":
        vals = [(c, (ph[1] if ph and ph[0] == "scalar" else (ph[2] if ph and ph[0] == "arr" else init)) if isinstance(v, tuple) and v == ("unchanged",) else v)
                for c, v in live]
        v = merge_list(vals[:-1], vals[-1][1])
        if ph is None or ph[0] == "keep":
            if ph is not None and unchanged:
                raise Unsupported("conditionally assigned loop variable")
            if unchanged and not (payload is fr and key[2] in targets):
                # defined on some paths only: usable after the loop only if not read
                payload.set(key[2], UNDEF)
                return
            payload.set(key[2], closure_of(g, v)(last))
            return
        if ph[0] == "scalar":
            payload.set(key[2], fold_scalar(init, ph[1], v, g, n))
            return
        if ph[0] == "arr":
            f, a = ph[1], ph[2]
            if not isinstance(v, Arr) or len(v.shape) != len(init.shape):
                raise Unsupported("loop-carried array changes shape")
            payload.set(key[2], fold_array(init, f, v.snap(), v.shape, init.snap(), g, n, v.dtype))
            return
    if key[0] == "list":
        return fold_list(payload, live, ph, g, n)
    if key[0] == "obj":
        for a in sorted(ph[1]):
            vals = [(c, UNDEF if isinstance(v, tuple) else v.get(a, UNDEF)) for c, v in live]
            if any(v is UNDEF or isinstance(v, Prefix) for _, v in vals):
                payload.set(a, Prefix("written in some iterations", 0))
                continue
            payload.set(a, closure_of(g, merge_list(vals[:-1], vals[-1][1]))(last))
        return
    if key[0] == "store":
        f = ph[1]
        fns = [(c, (lambda idx: f(*[zi(x) for x in idx])) if isinstance(v, tuple) and v == ("unchanged",) else v) for c, v in live]

        def at(idx):
            vals = [(c, fn(idx)) for c, fn in fns]
            return merge_list(vals[:-1], vals[-1][1])

        r = fold_array(Arr(payload), f, at, payload.shape, payload.fn, g, n, payload.dtype)
        payload.set_fn(r.snap())
        return
    raise Unsupported(f"loop effect on {key[0]}")


def fold_scalar(init, c, v, g, n):
    if not depends(v, [c]):
        return closure_of(g, v)(simp(zi(n) - 1))
    if is_bool(v):
        v = z3.simplify(zb(v))
        t = z3.simplify(z3.substitute(v, (c, z3.BoolVal(True))))
        f = z3.simplify(z3.substitute(v, (c, z3.BoolVal(False))))
        if z3.is_false(f):
            cf = closure_of(g, t)
            return ops.land(init, forall_bool(n, cf))
        if z3.is_true(t):
            cf = closure_of(g, f)
            return ops.lor(init, exists_bool(n, cf))
        raise Unsupported("boolean loop accumulator")
    from .npmodel import seq_sum

    d = z3.simplify(lift(v) - c)
    if not depends(d, [c]):
        cf = closure_of(g, d)
        return ops.add(init, seq_sum(n, cf))
    d2 = push_ite(lift(v), c)
    if d2 is not None and not depends(d2, [c]):
        cf = closure_of(g, z3.simplify(d2))
        return ops.add(init, seq_sum(n, cf))
    mx = match_max(lift(v), c)
    if mx is not None:
        largest, e = mx
        from .npmodel import seq_extreme

        val, _ = seq_extreme(n, closure_of(g, conc(e)), largest)
        return ops.smax(init, val) if largest else ops.smin(init, val)
    raise Unsupported("loop accumulator")


def push_ite(v, c):
    """v - c with conditionals distributed"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = push_ite(v.arg(1), c), push_ite(v.arg(2), c)
        if a is None or b is None or mentions(v.arg(0), [c]):
            return None
        return z3.If(v.arg(0), a, b)
    d = z3.simplify(v - c)
    return None if mentions(d, [c]) else d


def match_max(v, c):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        cond, a, b = v.children()
        if b.eq(c) and not mentions(a, [c]):
            e = a
            keep_new = True
        elif a.eq(c) and not mentions(b, [c]):
            e = b
            keep_new = False
        else:
            return None
        for largest in (True, False):
            s = z3.Solver()
            s.set("timeout", 500)
            new_if = (e > c) if largest else (e < c)
            # cond chooses the new value iff it improves (ties irrelevant)
            ch = cond if keep_new else z3.Not(cond)
            s.add(z3.Or(z3.And(ch, (e < c) if largest else (e > c)), z3.And(z3.Not(ch), new_if)))
            if s.check() == z3.unsat:
                return largest, e
    return None


def same_cell(v, f, idx):
    """f(t) read where the branch condition says t is the cell itself (idx) becomes f(idx)"""
    if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE):
        return v
    c, a, b = v.children()
    eqs = {}
    todo = [c]
    while todo:
        x = todo.pop()
        if z3.is_and(x):
            todo += x.children()
        elif z3.is_eq(x):
            for p, q in (x.children(), x.children()[::-1]):
                for k in idx:
                    if p.eq(k):
                        eqs.setdefault(k.get_id(), []).append(q)
    a, b = same_cell(a, f, idx), same_cell(b, f, idx)
    if eqs:
        import itertools

        alts = itertools.product(*[[k] + eqs.get(k.get_id(), []) for k in idx])
        a = z3.substitute(a, *[(f(*t), f(*idx)) for t in alts])
        a = same_cell(a, f, idx)
    return z3.If(c, a, b)


def fold_array(init, f, vf, shape, initf, g, n, dtype):
    """carried array: f(idx) before, vf(idx) after one iteration g.i"""
    idx = tuple(S.bound("e") for _ in shape)
    carry = f(*idx)
    v = vf(idx)
    if not is_scalar(v):
        raise Unsupported("loop-carried array of objects")
    if is_term(v):
        v = same_cell(v, f, idx)
    others = []
    from .terms import apps_of

    if is_term(v):
        apps = []
        apps_of(v, set(), apps)
        others = [a for a in apps if a.decl().eq(f) and not a.eq(carry)]
    if others:
        raise Unsupported("loop-carried array read at another index")
    i = g.i
    c = z3.Const(S.name("cell"), carry.sort())
    if is_term(v):
        v = z3.substitute(v, (carry, c))

    def final(ix):
        back = [(a, zi(b)) for a, b in zip(idx, ix)]
        return subst_fold(ix, back)

    # evaluate generically over the cell index
    from .npmodel import build

    def cell(ix):
        back = [(a, zi(b)) for a, b in zip(idx, ix)]
        vv = z3.substitute(lift(v), *back)
        st, g2 = g.start, g
        # a store a[e] = val at e == k(i): last write
        return fold_cell(conc(z3.simplify(lift(initf(ix)))), c, conc(z3.simplify(vv)), g2, n)

    return build(shape, cell, dtype)


def write_tree(v, c):
    """value of a cell after one iteration -> (write condition, value written) or None"""
    if is_term(v):
        if v.eq(c):
            return False, None
        if not mentions(v, [c]):
            return True, v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and not mentions(v.arg(0), [c]):
            x, y = write_tree(v.arg(1), c), write_tree(v.arg(2), c)
            if x is None or y is None:
                return None
            cond = z3.simplify(z3.If(v.arg(0), zb(x[0]), zb(y[0])))
            val = y[1] if x[1] is None else (x[1] if y[1] is None else z3.If(v.arg(0), x[1], y[1]))
            return cond, val
        return None
    return True, v


def touch_tree(v, c):
    """value of a cell after one iteration -> (condition under which the iteration touches it, value then, which may mention
    the value found)"""
    if v.eq(c):
        return z3.BoolVal(False), None
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and not mentions(v.arg(0), [c]):
        x, y = touch_tree(v.arg(1), c), touch_tree(v.arg(2), c)
        cond = z3.simplify(z3.If(v.arg(0), x[0], y[0]))
        val = y[1] if x[1] is None else (x[1] if y[1] is None else z3.If(v.arg(0), x[1], y[1]))
        return cond, val
    return z3.BoolVal(True), v


def fold_cell(init, c, v, g, n):
    t = write_tree(v, c)
    if t is None and is_term(v):
        # in-place update: where one iteration only touches the cell, the value it finds there is the initial one
        u = touch_tree(v, c)
        at = forced_index(u[0], g.i) if u is not None and is_term(u[0]) else None
        if at is not None:
            val = z3.substitute(u[1], (c, lift(init) if lift(init).sort() == c.sort() else zr(init)))
            cf, vf = closure_of(g, conc(z3.simplify(zb(u[0])))), closure_of(g, conc(val))
            return merge([(conc(z3.simplify(z3.And(at >= 0, at < zi(n), zb(cf(at))))), vf(at))], init)
    if t is not None and t[1] is not None:
        cond, val = t
        at = forced_index(cond, g.i) if is_term(cond) else None
        cf, vf = closure_of(g, conc(z3.simplify(zb(cond)))), closure_of(g, conc(val))
        if at is not None:
            # the iteration that writes this cell is determined by the cell
            inside = z3.And(at >= 0, at < zi(n))
            return merge([(conc(z3.simplify(z3.And(inside, zb(cf(at))))), vf(at))], init)
        return last_write(init, cf, vf, n)
    return fold_scalar(init, c, v, g, n)


def forced_index(cond, i):
    """t with cond => i == t, syntactically"""
    if z3.is_and(cond):
        for x in cond.children():
            r = forced_index(x, i)
            if r is not None:
                return r
    if z3.is_or(cond):
        rs = [forced_index(x, i) for x in cond.children()]
        if all(r is not None for r in rs) and all(r.eq(rs[0]) for r in rs):
            return rs[0]
    if z3.is_app(cond) and cond.decl().kind() == z3.Z3_OP_ITE:
        # if-then-else of booleans: If(a, b, c) implies the index when (a and b) and c both do
        r1 = forced_index(z3.And(cond.arg(0), cond.arg(1)), i)
        r2 = forced_index(cond.arg(2), i) if not z3.is_false(cond.arg(2)) else r1
        if r1 is not None and r2 is not None and r1.eq(r2):
            return r1
    if z3.is_eq(cond) and cond.arg(0).sort() == INT:
        a, b = cond.children()
        if a.eq(i) and not mentions(b, [i]):
            return b
        if b.eq(i) and not mentions(a, [i]):
            return a
    return None


def last_write(init, cf, vf, n):
    """value of the last iteration k with cf(k), else init"""
    hit = exists_bool(n, cf, "written")
    w = S.fresh("lastw", INT)
    k = S.bound("k")
    S.assume(z3.Implies(zb(hit), z3.And(w >= 0, w < zi(n), zb(cf(w)))))
    S.forall([k], z3.Implies(z3.And(k > w, k < zi(n), zb(hit)), z3.Not(zb(cf(k)))))
    S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n), zb(cf(k))), z3.And(zb(hit), w >= k)))
    return merge([(hit, vf(w))], init)


def fold_list(payload, live, ph, g, n):
    m, tag = ph[1], ph[2]
    n0, f0 = payload.pure()
    rows = []
    for c, v in live:
        if isinstance(v, tuple) and v == ("unchanged",):
            rows.append((c, []))
            continue
        items, n1, fn1 = v
        if items is not None:
            raise Unsupported("list rebuilt inside a loop")
        d = simp(zi(n1) - m)
        if not isinstance(d, int) or d < 0:
            raise Unsupported("list changed by a symbolic amount inside a loop")
        first = fn1(0) if d == 0 else fn1(z3.Int("canon!pre"))
        new = [simplify_new(fn1(simp(m + k)), m) for k in range(d)]
        rows.append((c, new))
    ds = {len(r[1]) for r in rows}
    if ds == {1}:
        f = closure_of(g, merge_list([(c, r[0]) for c, r in rows[:-1]], rows[-1][1][0]))
        ext = (n, f)
    elif ds <= {0, 1}:
        keep = [(c, r[0]) for c, r in rows if r]
        cond = z3.Or(*[c for c, _ in keep])
        maskf = closure_of(g, z3.simplify(cond))
        valf = closure_of(g, merge_list(keep[:-1], keep[-1][1]))
        mm, f, sel, rank = filter_seq(n, maskf, valf)
        ext = (mm, f)
    elif len(ds) == 1:
        k = ds.pop()
        fs = [closure_of(g, merge_list([(c, r[j]) for c, r in rows[:-1]], rows[-1][1][j])) for j in range(k)]

        def f(i):
            q, r = zi(i) / k, zi(i) % k
            return merge([(r == j, fs[j](q)) for j in range(k - 1)], lambda: fs[k - 1](q))

        ext = (simp(zi(n) * k), f)
    else:
        raise Unsupported("loop appends a varying number of items")
    if isinstance(n0, int) and n0 == 0:
        payload.assign(n=ext[0], fn=ext[1])
    else:
        payload.assign(n=simp(zi(n0) + zi(ext[0])),
                       fn=lambda i: merge([(zi(i) < zi(n0), f0(i))], lambda: ext[1](simp(zi(i) - zi(n0)))))


def simplify_new(v, m):
    """element appended: must not mention the unknown prefix"""
    if isinstance(v, Prefix):
        raise Unsupported("list prefix read in a loop")
    if isinstance(v, Choice):
        # merge() over the unresolved prefix: the alternatives for the new cell
        keep = []
        for c, x in v.alts:
            r = simp(c) if is_term(c) else c
            if r is False:
                continue
            if isinstance(x, Prefix):
                raise Unsupported("appended element depends on the list")
            keep.append((True if r is True else c, x))
            if r is True:
                break
        return keep[0][1] if len(keep) == 1 and keep[0][0] is True else Choice(keep)
    return v


def first_exit(it, s, fr, n, g, paths, exits, carried, havoc, inits, targets, auto=None, phs=None):
    from .interp import ReturnSig

    # state carried through a loop that may be left early: only if what leaves does not depend on it
    state = set()
    for key in carried:
        for c, k, v, eff in paths:
            if key in eff and (key in havoc or key[0] != "var"):
                if key[0] == "var" and k in ("break", "return"):
                    continue
                state.add(key)
    if auto:
        state -= set(auto.keys)
    if state:
        ph = phs or {}
        marks = [x for key in state if key in ph for x in ph[key][1:] if is_term(x) or isinstance(x, z3.FuncDeclRef)]
        sizes = [p[1] >= 0 for p in ph.values() if p[0] == "list"]  # known of every list: no condition of the code
        trim = lambda c: [x for x in c if not any(is_term(x) and x.eq(y) for y in sizes)]
        exits = [(trim(c), k, v, eff) for c, k, v, eff in exits]
        for c, k, v, eff in exits:
            vs = v if isinstance(v, tuple) else (v,)
            if k != "return" or any(is_term(x) and depends(x, marks) for x in vs) or any(isinstance(x, (tuple, dict, Choice)) for x in vs) \
                    or any(depends(x, marks) for x in c):
                raise Unsupported("early exit from a loop that carries state")
    cond = z3.Or(*[conj(p[0]) for p in exits])
    cf = closure_of(g, z3.simplify(cond))
    at_once = not S.ambient and S.entails(zb(cf(0)), timeout=0.5)
    found = True if at_once else exists_bool(n, cf, "exit")
    if S.branch(found):
        w = zi(0) if at_once else S.fresh("exit_at", INT)
        k = S.bound("k")
        S.assume(z3.And(w >= 0, w < zi(n), zb(cf(w))))
        S.forall([k], z3.Implies(z3.And(k >= 0, k < w), z3.Not(zb(cf(k)))))
        for key in state:
            placeholder(key, carried[key], inits[key], {})  # unknown from here on
        for p in exits:
            c = closure_of(g, conj(p[0]))(w)
            if p is exits[-1] or S.branch(c):
                for key, (payload, final) in p[3].items():
                    if key[0] == "var":
                        payload.set(key[2], closure_of(g, final)(w))
                if p[1] == "return":
                    raise ReturnSig(closure_of(g, p[2])(w))
                return
    norm = [p for p in paths if p[1] == "val"]
    if auto:
        auto.leave()
    for key, payload in carried.items():
        if auto and key in auto.keys:
            continue
        if key in state:
            live = [(conj(c), eff[key][1] if key in eff else ("unchanged",)) for c, k, v, eff in norm]
            summarise(it, key, payload, live, havoc.get(key, UNDEF), phs.get(key), g, n, fr, targets)
            continue
        if key[0] == "var":
            vals = [(conj(p[0]), p[3][key][1]) for p in norm if key in p[3]]
            if len(vals) == len(norm) and vals:
                payload.set(key[2], closure_of(g, merge_list(vals[:-1], vals[-1][1]))(simp(zi(n) - 1)))
            elif vals:
                payload.set(key[2], UNDEF)
    it.block(s.orelse, fr)


class View:
    "local variables of the function whose loop carries an invariant"

    def __init__(self, fr):
        object.__setattr__(self, "_fr", fr)

    def __getattr__(self, name):
        v = self._fr.vars.get(name, UNDEF)
        if v is UNDEF:
            raise Unsupported(f"the loop has no variable {name}")
        return v

    def __setattr__(self, name, v):
        if name not in self._fr.vars:
            raise Unsupported(f"the loop has no variable {name}")
        self._fr.set(name, v)


def assigned_names(body):
    import ast

    out, todo = set(), list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if hasattr(x, "name"):
                out.add(x.name)
            if any(isinstance(y, ast.Nonlocal) for y in ast.walk(x)):
                raise Unsupported("nonlocal in a loop with an invariant")
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo += [y.value for y in ast.walk(x) if isinstance(y, ast.NamedExpr)]
            continue
        todo += list(ast.iter_child_nodes(x))
    return out


class invariant_loop:
    """A loop with a stated invariant: make(v, i) replaces everything the body changes by unknowns, inv(v, i) lists what holds before
    iteration i, as (name, formula) or (name, n, f) for all k < n.  Holds at the start, is preserved by an arbitrary iteration (which may not
    change anything make does not replace), and is all that is known afterwards.  Termination is not proved."""

    def __init__(self, qual, make, inv):
        self.qual, self.make, self.inv = qual, make, inv

    def oblige(self, v, i, what):
        for name, *f in self.inv(v, i):
            name = f"invariant of {self.qual}, {what}: {name}"
            if len(f) == 1:
                S.oblige(name, zb(f[0]), kind="invariant")
            else:
                k = z3.Int(S.name("sk_inv"))
                S.conds.append(z3.And(k >= 0, k < zi(f[0])))
                S.skolems.append(k)
                try:
                    S.oblige(name, zb(f[1](k)), kind="invariant")
                finally:
                    S.conds.pop()

    def suppose(self, v, i):
        for name, *f in self.inv(v, i):
            if len(f) == 1:
                S.conds.append(zb(f[0]))
            else:
                k = S.bound("r")
                S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(f[0])), zb(f[1](k))), name=name)

    def havoc(self, s, fr, v, i):
        for name in assigned_names(s.body):
            old = fr.vars.get(name, UNDEF)
            if old is UNDEF:
                continue
            if is_scalar(old) and not is_int(old):
                fr.set(name, z3.Const(S.name(name), BOOL if is_bool(old) else REAL))
            elif isinstance(old, Arr) and all(conc(x) is not None for x in old.shape):
                f = S.fresh_fun(name, old.ndim, {"b": BOOL, "i": INT}.get(old.dtype, REAL))
                fr.set(name, mk_arr(old.shape, lambda idx, f=f: f(*[zi(x) for x in idx]), old.dtype))
            else:
                fr.vars[name] = UNDEF
        self.make(v, i)

    def run(self, it, s, fr, n=None, fn=None):
        from .interp import BreakSig, ContinueSig

        if S.ambient:
            raise Unsupported("loop with an invariant inside a quantified body")
        S.assumed.add("loops with a stated invariant terminate")
        v = View(fr)
        self.oblige(v, 0, "start")
        arbitrary = S.branch(S.fresh("arbitrary_iteration", BOOL))
        S.clock += 1
        outer, start0, start = S.journal, S.nest_start, S.clock
        S.journal, S.nest_start = [], start
        try:
            i = S.fresh("it", INT) if arbitrary or n is None else zi(n)
            if n is None or arbitrary:
                S.conds.append(i >= 0)
                S.skolems.append(i)
            if arbitrary and n is not None:
                S.conds.append(i < zi(n))
            self.havoc(s, fr, v, i)
            covered = {key for key, undo, payload in S.journal}
            self.suppose(v, i)
            if n is None:
                go = S.branch(it.truth(it.eval(s.test, fr)))
                if go != arbitrary:
                    raise Infeasible()
            if arbitrary:
                if n is not None:
                    it.assign(s.target, fn(i), fr)
                try:
                    it.block(s.body, fr)
                except ContinueSig:
                    pass
                except BreakSig:
                    return
                for key, undo, payload in S.journal:
                    if key not in covered and not (key[0] == "var" and payload is fr):
                        raise Unsupported("the loop changes something its invariant does not cover")
                self.oblige(v, simp(i + 1), "preserved")
                raise Infeasible()
        finally:
            inner = S.journal
            S.journal, S.nest_start = outer, start0
            if outer is not None:
                outer += inner
        it.block(s.orelse, fr)


def counting_while(it, s, fr):
    """A while loop whose body only adds constants to numbers: after k iterations each of them is its initial value plus k times
    its increment; the number T of iterations is a ghost value (the test holds at every k < T and fails at T).  Returns False
    if the loop is not of this form.  Termination is assumed, not proved."""
    if S.ambient:
        return False
    first = generic(1, lambda i: it.truth(it.eval(s.test, fr))).paths
    if len(first) == 1 and first[0][1] == "val" and isinstance(conc(first[0][2]), bool):
        return False  # concrete so far: unrolled
    nbig = S.fresh("iters", INT)
    S.assume(nbig >= 0)
    names = {}

    def step(i):
        it.block(s.body, fr)

    try:
        probe = generic(nbig, step)
    except Unsupported:
        return False
    keys = {}
    for p in probe.paths:
        for key, (payload, final) in p[3].items():
            keys[key] = payload
    if not keys or any(p[1] not in ("val", "exc") for p in probe.paths):
        return False
    inits = {}
    for key, payload in keys.items():
        if key[0] != "var" or not is_scalar(read_loc(key, payload)) or is_bool(read_loc(key, payload)):
            return False
        inits[key] = read_loc(key, payload)
    state = {}

    def step2(i):
        state["ph"] = {key: placeholder(key, keys[key], inits[key], names) for key in keys}
        it.block(s.body, fr)

    g = generic(nbig, step2)
    inc = {}
    for p in g.paths:
        if p[1] != "val":
            continue
        for key in keys:
            d = conc(z3.simplify(lift(p[3][key][1]) - state["ph"][key][1])) if key in p[3] else 0
            if is_term(d) or inc.setdefault(key, d) != d:
                return False
    if not inc:
        return False

    def at(k):
        for key, payload in keys.items():
            payload.set(key[2], ops.add(inits[key], ops.mul(inc[key], k)))

    T = S.fresh("iters", INT)
    S.assume(T >= 0)

    def test(k):
        at(k)
        return it.truth(it.eval(s.test, fr))

    tg = generic(simp(T + 1), test)
    paths = settle_exceptions(tg)
    if any(q[0] != "var" or q not in keys for p in paths for q in p[3]):
        raise Unsupported("loop test with effects")
    live = [(conj(p[0]), p[2]) for p in paths]
    tf = closure_of(tg, merge_list(live[:-1], live[-1][1]))
    k = S.bound("k")
    S.forall([k], z3.Implies(z3.And(k >= 0, k < T), zb(tf(k))), name="loop-test")
    S.assume(z3.Not(zb(tf(T))))
    S.assume(z3.Implies(T > 0, zb(tf(simp(T - 1)))))
    if S.branch(T > 0):
        bg = generic(T, lambda i: (at(i), it.block(s.body, fr))[1])
        settle_exceptions(bg)
    at(T)
    S.assumed.add("termination of while loops")
    it.block(s.orelse, fr)
    return True
