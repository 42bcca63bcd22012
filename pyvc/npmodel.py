"""Trusted contracts of numpy, of Python built-ins and of the standard library.

Every model here is an assumed contract on a dependency; tests/crosscheck.py compares them with
CPython and numpy on concrete inputs.
"""
import ast
import builtins
import datetime as _dt
import itertools
import math
from fractions import Fraction

import numpy as np

from . import ops, terms
from .interp import (INTERP, MODELS, Bound, Func, Interp, MethodOf, SliceV, StarSeq, kind_of, method, model, row_view)
from .terms import (BOOL, INT, REAL, PI, Fact, Unsupported, auto_patterns, conc, consts_of, frac, is_bool, is_int, is_num,
                    is_real, is_scalar, is_term, lift, mentions, same, simp, zb, zi, zr)
from .values import (DT, TD, NumText, UNDEF, Arr, Choice, Frame, Heap, IndexDict, Opaque, OpaqueFn, PDict, PList, PObj, PSet, SSet, PyExc, S,
                     Seq, Store, exists_bool, filter_seq, force, forall_bool, generic, identical, ite, map_seq, merge,
                     merge_list, mk_arr, pick, subst_val)
from .z3load import z3


def arg(args, kwargs, pos, name, default=None):
    if len(args) > pos:
        return args[pos]
    return kwargs.get(name, default)


def dtype_of(v):
    if isinstance(v, bool) or is_bool(v):
        return "b"
    if is_int(v):
        return "i"
    if is_real(v) or isinstance(v, float):
        return "f"
    return "O"


def join_dtype(*ds):
    if "O" in ds:
        return "O"
    if "f" in ds:
        return "f"
    if "i" in ds:
        return "i"
    return "b"


SMALL = 48


def build(shape, f, dtype=None, mask=None):
    """Array with elements f(idx), evaluated once per concrete combination and generically otherwise."""
    shape = tuple(conc(s) for s in shape)
    types = set()

    def rec(k, prefix):
        if k == len(shape):
            v = f(tuple(prefix))
            v = force(v) if isinstance(v, Choice) else v
            types.add(dtype_of(v))
            return v
        d = shape[k]
        if isinstance(d, int) and d <= SMALL:
            return PList([rec(k + 1, prefix + [j]) for j in range(d)])
        g = map_seq(d, lambda i: rec(k + 1, prefix + [i]))
        return PList(n=d, fn=g)

    root = rec(0, [])

    def fn(idx):
        v = root
        for i in idx:
            v = force(v) if isinstance(v, Choice) else v
            v = v.get(i)
        return v

    if dtype is None:
        dtype = join_dtype(*types) if types else "f"
    if dtype == "f" and "i" in types or dtype == "f" and "b" in types:
        fn0 = fn
        fn = lambda idx: _real(fn0(idx))
    return mk_arr(shape, fn, dtype, mask)


def _real(v):
    if is_num(v) and not isinstance(v, float):
        return Fraction(v) if not isinstance(v, bool) else Fraction(int(v))
    return zr(v) if is_term(v) else v


def arr0(v):
    return mk_arr((), lambda idx: v, dtype_of(v))


def to_arr(it, v):
    """np.asarray"""
    v = force(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, (bool, int, float, Fraction)) or is_scalar(v):
        return arr0(v)
    if isinstance(v, (DT, TD, str)) or v is None:
        return mk_arr((), lambda idx: v, "O")
    if isinstance(v, PObj):
        m = it.class_attr(v.cls, "__array__")
        if m is not None:
            return it.call(Bound(v, m), [])
        # numpy falls back on the sequence protocol, or a 0-d object array
        if it.class_attr(v.cls, "__len__") is None or it.class_attr(v.cls, "__getitem__") is None:
            return mk_arr((), lambda idx: v, "O")
        raise Unsupported("array conversion of an object")
    if isinstance(v, (PDict, PSet)):
        return mk_arr((), lambda idx: v, "O")
    if isinstance(v, Opaque):
        raise Unsupported("array conversion of an opaque value")
    n, fn, items = it.seq(v)
    n = conc(n)
    if items is not None:
        if not items:
            return mk_arr((0,), lambda idx: UNDEF, "f")
        subs = [to_arr(it, x) for x in items]
        nd = {a.ndim for a in subs}
        if len(nd) != 1:
            raise PyExc(ValueError, ("inhomogeneous shape",))
        sh = subs[0].shape
        for a in subs[1:]:
            for x, y in zip(sh, a.shape):
                if not same_dim(x, y):
                    raise PyExc(ValueError, ("inhomogeneous shape",))
        snaps = [a.snap() for a in subs]
        dt = join_dtype(*[a.dtype for a in subs])
        if sh == ():
            vals = [s(()) for s in snaps]
            return mk_arr((len(items),), lambda idx: _cast(pick_num(vals, idx[0]), dt), dt)
        return mk_arr((len(items),) + sh,
                      lambda idx: _cast(merge_pick([(lambda s=s: s(tuple(idx[1:]))) for s in snaps], idx[0]), dt), dt)
    # symbolic number of rows: all rows have the shape of a generic row
    probe = {}

    def body(i):
        a = to_arr(it, fn(i))
        probe["shape"], probe["dtype"] = a.shape, a.dtype
        s = a.snap()
        out = {}
        if not all(isinstance(d, int) for d in a.shape):
            if any(mentions(zi(d), [i]) for d in a.shape) or probe.get("sym", a.shape) != a.shape:
                raise Unsupported("rows of varying symbolic length in an array conversion")
            probe["sym"] = a.shape
            return PDict(out)
        for idx in itertools.product(*[range(d) for d in _cdims(a.shape)]):
            out[idx] = s(idx)
        return PDict(out)

    g = generic(n, body)
    from .values import closure_of, merged_value, settle_exceptions

    paths = settle_exceptions(g)
    f = closure_of(g, merged_value(g, paths))
    sh, dt = probe.get("shape", ()), probe.get("dtype", "f")
    if "sym" in probe:
        return build((n,) + tuple(sh), lambda idx: _cast(to_arr(it, fn(idx[0])).snap()(tuple(idx[1:])), dt), dt)
    return mk_arr((n,) + sh, lambda idx: _cast(_pickd(force(f(idx[0])), idx[1:]), dt), dt)


def _cdims(shape):
    for s in shape:
        if not isinstance(s, int):
            raise Unsupported("symbolic inner dimension in an array conversion")
    return shape


def _pickd(d, idx):
    idx = tuple(conc(i) for i in idx)
    if all(isinstance(i, int) for i in idx):
        return d.d[idx]
    alts = [(z3.And(*[zi(a) == b for a, b in zip(idx, k)]), v) for k, v in d.d.items()]
    return merge(alts[:-1], alts[-1][1])


def _cast(v, dt):
    if dt == "f":
        return _real(v)
    return v


def pick_num(vals, i):
    i = conc(i)
    return vals[i] if isinstance(i, int) else pick(vals, i)


def merge_pick(thunks, i):
    i = conc(i)
    if isinstance(i, int):
        return thunks[i]()
    return pick([t() for t in thunks], i)


def same_dim(x, y):
    if same(x, y):
        return True
    if isinstance(x, int) and isinstance(y, int):
        return False
    return S.branch(ops.cmp("==", x, y))


# ---------------------------------------------------------------------------------------------
# broadcasting and elementwise maps


def broadcast_shape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        dims = [s[k - nd + len(s)] for s in shapes if k - nd + len(s) >= 0]
        cur = 1
        for d in dims:
            d = conc(d)
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif isinstance(d, int) and d == 1:
                pass
            elif same(cur, d):
                pass
            elif isinstance(cur, int) and isinstance(d, int):
                raise PyExc(ValueError, ("operands could not be broadcast",))
            elif S.branch(ops.cmp("==", cur, d)):
                cur = d if isinstance(d, int) else cur
            elif S.branch(ops.cmp("==", d, 1)):
                pass
            elif S.branch(ops.cmp("==", cur, 1)):
                cur = d
            else:
                raise PyExc(ValueError, ("operands could not be broadcast",))
        out.append(cur)
    return tuple(out)


def bget(snap, shape, out_shape):
    off = len(out_shape) - len(shape)

    def g(idx):
        ii = []
        for k, d in enumerate(shape):
            x = idx[k + off]
            if isinstance(d, int) and d == 1 and not (isinstance(out_shape[k + off], int) and out_shape[k + off] == 1):
                x = 0
            ii.append(x)
        return snap(tuple(ii))

    return g


def map_arr(it, arrs, f, dtype=None):
    """Elementwise f over broadcast arrays / scalars."""
    arrs = [a if isinstance(a, Arr) else arr0(a) for a in arrs]
    masked = [a for a in arrs if a.mask is not None]
    if masked:
        sel = masked[0].mask["sel"]
        full = masked[0].mask["shape"]
        ok = all(
            (a.mask is not None and a.mask["sel"] is sel and len(a.mask["shape"]) == len(full)) or a.ndim == 0 for a in arrs
        )
        if ok:
            us = [a.mask["unsel"] if a.mask is not None else (lambda idx, s=a.snap(): s(())) for a in arrs]
            return masked_build(sel, full, lambda idx: f(*[u(idx) for u in us]), dtype)
    out = broadcast_shape([a.shape for a in arrs])
    gets = [bget(a.snap(), a.shape, out) for a in arrs]
    if out == ():
        v = f(*[g(()) for g in gets])
        return v
    return build(out, lambda idx: f(*[g(idx) for g in gets]), dtype)


class Sel:
    """A boolean mask over the leading axes: which indices are selected, in order."""

    def __init__(self, maskf, mshape, m, sel, key):
        self.maskf, self.mshape, self.m, self.sel, self.key = maskf, mshape, m, sel, key


def mask_sel(mask):
    """Selection for a boolean array (memoised on the mask term)."""
    f = mask.snap()
    shape = tuple(conc(s) for s in mask.shape)
    canon = [z3.Int(f"canon!{k}") for k in range(len(shape))]
    if len(shape) == 1:
        t = f((canon[0],)) if not (isinstance(shape[0], int) and shape[0] <= 12) else None
        if t is None:
            key = ("mask", shape[0], tuple(lift(f((k,))).get_id() for k in range(shape[0])))
        else:
            key = ("mask", str(shape[0]), lift(t).get_id())
        if key in S.sumreg:
            return S.sumreg[key][0]
        m, fn, sel, rank = filter_seq(shape[0], lambda i: f((i,)), lambda i: i)
        r = Sel(lambda idx: f((idx[0],)), shape, m, lambda k: (sel(k),), key)
        r.rank = rank
        S.sumreg[key] = (r, t, [lift(f((k,))) for k in range(shape[0])] if t is None else None)
        return r
    if len(shape) == 2 and isinstance(shape[1], int) and shape[1] == 1:
        t = f((canon[0], 0))
        key = ("mask2", str(shape[0]), lift(t).get_id())
        if key in S.sumreg:
            return S.sumreg[key][0]
        m, fn, sel, rank = filter_seq(shape[0], lambda i: f((i, 0)), lambda i: i)
        r = Sel(lambda idx: f((idx[0], 0)), shape, m, lambda k: (sel(k), 0), key)
        r.rank = rank
        S.sumreg[key] = (r, t)
        return r
    if len(shape) == 2:
        t = f((canon[0], canon[1]))
        key = ("mask2g", str(shape), lift(t).get_id())
        if key in S.sumreg:
            return S.sumreg[key][0]
        m = S.fresh("cnt", INT)
        s0, s1 = S.fresh_fun("sel0", 1, INT), S.fresh_fun("sel1", 1, INT)
        rk = S.fresh_fun("rank", 2, INT)
        k, i, j = S.bound("k"), S.bound("i"), S.bound("j")
        S.assume(m >= 0)
        S.forall([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(
            s0(k) >= 0, s0(k) < zi(shape[0]), s1(k) >= 0, s1(k) < zi(shape[1]), zb(f((s0(k), s1(k)))))),
            pats=[[s0(k)], [s1(k)]])
        S.forall([i, j], z3.Implies(z3.And(i >= 0, i < zi(shape[0]), j >= 0, j < zi(shape[1]), zb(f((i, j)))),
                                    z3.And(rk(i, j) >= 0, rk(i, j) < m, s0(rk(i, j)) == i, s1(rk(i, j)) == j)))
        r = Sel(f, shape, m, lambda k: (s0(k), s1(k)), key)
        S.sumreg[key] = (r, t)
        return r
    raise Unsupported("boolean mask of this rank")


def masked_build(sel, full, f, dtype=None):
    """1-d (plus trailing axes) array of f(idx) over the selected idx; f evaluated under the mask."""
    nm = len(sel.mshape)
    types = set()

    def rec(k, prefix):
        if k == nm and prefix is not None and not isinstance(prefix, list):
            raise AssertionError
        if k == len(full):
            v = f(tuple(prefix))
            types.add(dtype_of(v))
            return v
        d = conc(full[k])
        if isinstance(d, int) and d <= SMALL:
            return PList([rec2(k, prefix + [j]) for j in range(d)])
        return PList(n=d, fn=map_seq(d, lambda i: rec2(k, prefix + [i])))

    def rec2(k, prefix):
        if k + 1 == nm:
            c = simp(zb(sel.maskf(tuple(prefix))))
            if c is False:
                return PList([]) if len(full) > nm else UNDEF
            if c is True:
                return rec(k + 1, prefix)
            S.conds.append(c)
            try:
                return rec(k + 1, prefix)
            finally:
                S.conds.remove(c)
        return rec(k + 1, prefix)

    root = rec(0, [])

    def unsel(idx):
        v = root
        for i in idx:
            v = v.get(i)
        return v

    if dtype is None:
        dtype = join_dtype(*types) if types else "f"
    shape = (sel.m,) + tuple(full[nm:])
    return mk_arr(shape, lambda idx: unsel(sel.sel(idx[0]) + tuple(idx[1:])), dtype,
                  mask={"sel": sel, "shape": full, "unsel": unsel})


ARITH = {"Add": ops.add, "Sub": ops.sub, "Mult": ops.mul, "Div": lambda a, b: ops.div(a, b),
         "Mod": lambda a, b: ops.mod(a, b), "Pow": ops.power, "FloorDiv": ops.floordiv}


def as_operand(it, v):
    v = force(v)
    if isinstance(v, Arr) or is_scalar(v) or isinstance(v, (DT, TD)):
        return v
    if isinstance(v, (PList, tuple, Seq)):
        return to_arr(it, v)
    if v is None:
        raise PyExc(TypeError, ("unsupported operand type None",))
    if isinstance(v, str):
        raise PyExc(TypeError, ("unsupported operand type str",))
    raise Unsupported(f"array operand {type(v).__name__}")


def arr_binop(it, op, a, b):
    a, b = as_operand(it, a), as_operand(it, b)
    da = a.dtype if isinstance(a, Arr) else dtype_of(a)
    db = b.dtype if isinstance(b, Arr) else dtype_of(b)
    if op == "MatMult":
        return matmul(it, to_arr(it, a), to_arr(it, b))
    if op in ("BitAnd", "BitOr", "BitXor"):
        if da == "b" and db == "b":
            f = {"BitAnd": ops.land, "BitOr": ops.lor, "BitXor": lambda x, y: ops.cmp("!=", x, y)}[op]
            return map_arr(it, [a, b], f, "b")
        raise PyExc(TypeError, ("ufunc bitwise not supported",))
    if da == "O" or db == "O":
        return map_arr(it, [a, b], lambda x, y: it.binop(op, x, y), None)
    if op == "Sub" and da == "b" and db == "b":
        raise PyExc(TypeError, ("numpy boolean subtract",))
    f = ARITH[op]
    dt = "f" if op == "Div" else join_dtype(da, db)
    if dt == "b":
        if op == "Mult":
            return map_arr(it, [a, b], ops.land, "b")
        if op == "Add":
            return map_arr(it, [a, b], ops.lor, "b")
        dt = "i"
    return map_arr(it, [a, b], f, dt)


def arr_compare(it, sym, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if sym in ("==", "!="):
            x = a if isinstance(a, Arr) else b
            return map_arr(it, [x], lambda v: it.equals(v, b if x is a else a) if sym == "==" else
                           ops.lnot(it.equals(v, b if x is a else a)), "b")
        raise PyExc(TypeError, ("unorderable",))
    a, b = as_operand(it, a), as_operand(it, b)
    ao = a.dtype == "O" if isinstance(a, Arr) else dtype_of(a) == "O"
    bo = b.dtype == "O" if isinstance(b, Arr) else dtype_of(b) == "O"
    if ao or bo:
        nm = {"<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE", "==": "Eq", "!=": "NotEq"}[sym]
        return map_arr(it, [a, b], lambda x, y: it.compare(nm, x, y), "b")
    if sym in ("==", "!=") and isinstance(a, Arr) and isinstance(b, Arr):
        try:
            return map_arr(it, [a, b], lambda x, y: ops.cmp(sym, x, y), "b")
        except PyExc:
            raise
    return map_arr(it, [a, b], lambda x, y: ops.cmp(sym, x, y), "b")


def matmul(it, a, b):
    if a.ndim == 1 and b.ndim == 1:
        if not same_dim(a.shape[0], b.shape[0]):
            raise PyExc(ValueError, ("matmul",))
        fa, fb = a.snap(), b.snap()
        return seq_sum(a.shape[0], lambda i: ops.mul(fa((i,)), fb((i,))))
    if a.ndim == 2 and b.ndim == 1:
        if not same_dim(a.shape[1], b.shape[0]):
            raise PyExc(ValueError, ("matmul",))
        fa, fb = a.snap(), b.snap()
        return build((a.shape[0],), lambda idx: seq_sum(a.shape[1], lambda j: ops.mul(fa((idx[0], j)), fb((j,)))))
    if a.ndim == 1 and b.ndim == 2:
        if not same_dim(a.shape[0], b.shape[0]):
            raise PyExc(ValueError, ("matmul",))
        fa, fb = a.snap(), b.snap()
        return build((b.shape[1],), lambda idx: seq_sum(a.shape[0], lambda j: ops.mul(fa((j,)), fb((j, idx[0])))))
    if a.ndim == 2 and b.ndim == 2:
        if not same_dim(a.shape[1], b.shape[0]):
            raise PyExc(ValueError, ("matmul",))
        fa, fb = a.snap(), b.snap()
        return build((a.shape[0], b.shape[1]),
                     lambda idx: seq_sum(a.shape[1], lambda j: ops.mul(fa((idx[0], j)), fb((j, idx[1])))))
    if a.ndim == 2 and b.ndim == 3 or a.ndim == 3 and b.ndim == 3 and same_dim(a.shape[0], b.shape[0]):
        if not same_dim(a.shape[-1], b.shape[1]):
            raise PyExc(ValueError, ("matmul",))
        fa, fb = a.snap(), b.snap()
        return build((b.shape[0], a.shape[-2], b.shape[2]),
                     lambda idx: seq_sum(b.shape[1], lambda j: ops.mul(fa((*idx[:a.ndim - 2], idx[1], j)), fb((idx[0], j, idx[2])))))
    raise Unsupported("matmul of this rank")


# ---------------------------------------------------------------------------------------------
# indexing


def arr_getitem(it, a, i):
    if isinstance(i, Choice):
        i = force(i)
    idx = list(i) if isinstance(i, tuple) else [i]
    idx = [force(x) for x in idx]
    # boolean masks
    if len(idx) == 1 and isinstance(idx[0], (PList, Seq)):
        idx = [to_arr(it, idx[0])]
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == "b":
        return mask_get(it, a, idx[0])
    if len(idx) == 1 and is_bool(idx[0]):
        raise Unsupported("boolean scalar index")
    if idx and isinstance(idx[0], Arr) and idx[0].dtype == "b" and idx[0].ndim == 1 and all(isinstance(x, SliceV) or is_int(x) for x in idx[1:]):
        rest = [SliceV(None, None, None)] + idx[1:]
        sub = arr_getitem(it, a, tuple(rest))
        return mask_get(it, sub, idx[0])
    if any(isinstance(x, (Arr, PList)) for x in idx):
        return fancy_get(it, a, idx)
    return basic_view(it, a, idx)


def basic_view(it, a, idx):
    n_real = len([x for x in idx if x is not None and x is not Ellipsis])
    if Ellipsis in [x for x in idx if x is Ellipsis]:
        k = next(j for j, x in enumerate(idx) if x is Ellipsis)
        idx = idx[:k] + [SliceV(None, None, None)] * (a.ndim - n_real) + idx[k + 1:]
    while len([x for x in idx if x is not None]) < a.ndim:
        idx = idx + [SliceV(None, None, None)]
    if len([x for x in idx if x is not None]) > a.ndim:
        raise PyExc(IndexError, ("too many indices",))
    shape, amap, axis = [], {}, 0
    for x in idx:
        if x is None:
            shape.append(1)
            continue
        n = a.shape[axis]
        if isinstance(x, SliceV):
            st, ln, step = it.slice_bounds(x, n)
            amap[axis] = ("a", len(shape), st, step)
            shape.append(ln)
        elif is_int(x) or is_bool(x) or isinstance(x, Fraction):
            amap[axis] = ("f", it.norm_index(x, n))
        elif isinstance(x, str):
            raise PyExc(IndexError, ("only integers...",))
        else:
            raise Unsupported("array index")
        axis += 1
    spec = []
    from .values import _lin

    for sp in a.full_spec():
        if sp[0] == "f":
            spec.append(sp)
            continue
        _, ax, st, step = sp
        m = amap[ax]
        if m[0] == "f":
            spec.append(("f", _lin(st, step, m[1])))
        else:
            spec.append(("a", m[1], _lin(st, step, m[2]), step * m[3] if isinstance(step, int) and isinstance(m[3], int)
                         else simp(ops.mul(step, m[3]))))
    if not shape:
        return Arr(a.store, (), tuple(spec)).get()
    return Arr(a.store, tuple(shape), tuple(spec))


def mask_get(it, a, mask):
    if mask.ndim > a.ndim:
        raise PyExc(IndexError, ("too many indices",))
    for x, y in zip(mask.shape, a.shape):
        if not same_dim(x, y):
            raise PyExc(IndexError, ("boolean index did not match",))
    if all(isinstance(d, int) and d <= 12 for d in mask.shape):
        cs = {idx: mask.get(*idx) for idx in itertools.product(*[range(d) for d in mask.shape])}
        if all(isinstance(conc(simp(c)) if is_term(c) else c, bool) for c in cs.values()):
            keep = [k for k, c in cs.items() if (conc(simp(c)) if is_term(c) else c)]
            f = a.snap()
            rest = a.shape[mask.ndim:]
            return mk_arr((len(keep),) + tuple(rest),
                          lambda idx: merge_pick([(lambda k=k: f(k + tuple(idx[1:]))) for k in keep], idx[0]), a.dtype)
    sel = mask_sel(mask)
    f = a.snap()
    return masked_build(sel, a.shape, f, a.dtype)


def fancy_get(it, a, idx):
    arrs = []
    for x in idx:
        if isinstance(x, (Arr, PList)):
            x = to_arr(it, x)
            if x.dtype == "b":
                if x.ndim != 1:
                    raise Unsupported("mask inside a fancy index")
                x = nonzero(it, x)[0]
            if x.dtype == "f" and not (isinstance(x.shape[0], int) and x.shape[0] == 0):
                raise PyExc(IndexError, ("arrays used as indices must be of integer type",))
        arrs.append(x)
    adv = [k for k, x in enumerate(arrs) if isinstance(x, Arr)]
    if len(arrs) == 1:
        ia = arrs[0]
        fi, f = ia.snap(), a.snap()
        n0 = a.shape[0]
        checked = build(ia.shape, lambda idx: it.norm_index(fi(idx), n0), "i")
        ci = checked.snap()
        nd = ia.ndim
        return mk_arr(ia.shape + a.shape[1:], lambda idx: f((ci(tuple(idx[:nd])),) + tuple(idx[nd:])), a.dtype)
    if len(adv) == 1:
        k = adv[0]
        ia = arrs[k]
        if ia.ndim != 1:
            raise Unsupported("fancy index of this rank")
        sub_idx = [SliceV(None, None, None) if j == k else x for j, x in enumerate(arrs)]
        # scalar integers before/after combine with the advanced index in numpy, only slices are supported
        if any(is_int(x) for x in sub_idx):
            pos = [j for j, x in enumerate(sub_idx) if is_int(x)]
            if any(j > k for j in pos) and any(isinstance(x, SliceV) for x in sub_idx[:k]):
                raise Unsupported("mixed fancy index")
        sub = basic_view(it, a, sub_idx)
        ax = len([x for x in sub_idx[:k] if isinstance(x, SliceV)])
        fi, f = ia.snap(), sub.snap()
        n0 = sub.shape[ax]
        ci = build(ia.shape, lambda idx: it.norm_index(fi(idx), n0), "i").snap()
        shape = sub.shape[:ax] + ia.shape + sub.shape[ax + 1:]
        return mk_arr(shape, lambda idx: f(tuple(idx[:ax]) + (ci((idx[ax],)),) + tuple(idx[ax + 1:])), a.dtype)
    if len(adv) == 2 and len(arrs) == 2:
        x, y = arrs
        out = broadcast_shape([x.shape, y.shape])
        gx, gy = bget(x.snap(), x.shape, out), bget(y.snap(), y.shape, out)
        n0, n1 = a.shape[0], a.shape[1]
        cx = build(out, lambda idx: it.norm_index(gx(idx), n0), "i").snap()
        cy = build(out, lambda idx: it.norm_index(gy(idx), n1), "i").snap()
        f = a.snap()
        nd = len(out)
        return mk_arr(out + a.shape[2:], lambda idx: f((cx(tuple(idx[:nd])), cy(tuple(idx[:nd]))) + tuple(idx[nd:])), a.dtype)
    raise Unsupported("fancy index")


def store_val(store, v):
    """Value as stored in an array of the store's dtype."""
    if store.dtype == "f":
        if v is None:
            raise Unsupported("None stored in a float array (becomes NaN)")
        if not is_scalar(v):
            raise PyExc(TypeError, ("float() argument",))
        return _real(v)
    if store.dtype == "i" and (is_real(v)):
        v = conc(v)
        if isinstance(v, Fraction):
            return int(v)
        t = z3.ToInt(zr(v))
        return z3.If(zr(v) >= 0, t, -z3.ToInt(-zr(v)))
    if store.dtype == "b" and not is_bool(v):
        return ops.cmp("!=", v, 0)
    return v


def arr_assign(it, a, v):
    """a[...] = v"""
    st = a.store
    old = st.fn
    if a.mask is not None:
        raise Unsupported("assignment into a selection copy")
    if isinstance(v, Arr):
        shp = broadcast_shape([a.shape, v.shape])
        if len(shp) != a.ndim:
            raise PyExc(ValueError, ("could not broadcast",))
        g = bget(v.snap(), v.shape, a.shape)
    else:
        g = lambda idx: v
    spec = a.full_spec()
    shape = a.shape

    def fn(sidx):
        conds, view = [], [0] * len(shape)
        for k, sp in enumerate(spec):
            x = sidx[k]
            if sp[0] == "f":
                conds.append(ops.cmp("==", x, sp[1]))
                continue
            _, ax, start, step = sp
            if isinstance(step, int) and step == 1:
                vi = simp(ops.sub(x, start))
            elif isinstance(step, int) and step == -1:
                vi = simp(ops.sub(start, x))
            else:
                d = ops.sub(x, start)
                conds.append(ops.cmp("==", ops.mod(d, step), 0))
                vi = ops.floordiv(d, step)
            view[ax] = vi
            if not (same(start, 0) and same(shape[ax], st.shape[k])):
                conds.append(ops.cmp(">=", vi, 0))
                conds.append(ops.cmp("<", vi, shape[ax]))
        c = True
        for x in conds:
            c = ops.land(c, x)
        if c is False:
            return old(sidx)
        nv = store_val(st, g(tuple(view)))
        if c is True:
            return nv
        return merge([(c, nv)], lambda: old(sidx))

    from .values import memo_fn

    st.set_fn(memo_fn(fn))


def arr_setitem(it, a, i, v):
    v = force(v)
    i = force(i)
    if isinstance(v, (PList, tuple, Seq)):
        v = to_arr(it, v)
    if isinstance(i, (PList, Seq)):
        i = to_arr(it, i)
    if isinstance(i, Arr) and i.dtype == "b":
        return mask_set(it, a, i, v)
    idx = list(i) if isinstance(i, tuple) else [i]
    idx = [force(x) for x in idx]
    if isinstance(idx[0], Arr) and idx[0].dtype == "b" and idx[0].ndim == 1 and len(idx) > 1 and all(isinstance(x, SliceV) or is_int(x) for x in idx[1:]):
        return mask_set(it, basic_view_ref(it, a, [SliceV(None, None, None)] + idx[1:]), idx[0], v)
    if any(isinstance(x, (Arr, PList)) for x in idx):
        return fancy_set(it, a, idx, v)
    if not isinstance(v, Arr) and all(is_int(x) for x in idx) and len(idx) == a.ndim:
        tgt = basic_ref(it, a, idx)
        return arr_assign(it, tgt, v)
    tgt = basic_view_ref(it, a, idx)
    return arr_assign(it, tgt, v)


def basic_view_ref(it, a, idx):
    """view even when all indices are integers"""
    full = idx + [SliceV(None, None, None)] * (a.ndim - len([x for x in idx if x is not None]))
    if all(is_int(x) for x in full):
        return basic_ref(it, a, full)
    return basic_view(it, a, full)


def basic_ref(it, a, idx):
    from .values import _lin

    pos = [it.norm_index(x, n) for x, n in zip(idx, a.shape)]
    spec = tuple(sp if sp[0] == "f" else ("f", _lin(sp[2], sp[3], pos[sp[1]])) for sp in a.full_spec())
    return Arr(a.store, (), spec)


def mask_set(it, a, mask, v):
    for x, y in zip(mask.shape, a.shape):
        if not same_dim(x, y):
            raise PyExc(IndexError, ("boolean index did not match",))
    mf = mask.snap()
    nm = mask.ndim
    f = a.snap()
    if isinstance(v, Arr) and v.ndim > 0:
        if v.mask is not None:
            sel = mask_sel(mask)
            if v.mask["sel"] is not sel:
                raise Unsupported("assignment of a selection under another mask")
            u = v.mask["unsel"]
            src = lambda idx: u(idx)
        elif all(isinstance(d, int) and d <= 12 for d in mask.shape):
            raise Unsupported("array assigned through a mask")
        elif v.ndim == 1 and a.ndim == 1:
            sel = mask_sel(mask)
            if not S.branch(ops.cmp("==", v.shape[0], sel.m)):
                raise PyExc(ValueError, ("NumPy boolean array indexing assignment cannot assign",))
            vf = v.snap()
            src = lambda idx: vf((sel.rank(idx[0]),))
        else:
            raise Unsupported("array assigned through a mask")
    else:
        vv = v.get() if isinstance(v, Arr) else v
        src = lambda idx: vv
    st = a.store
    new = build(a.shape, lambda idx: merge([(mf(tuple(idx[:nm])), _guarded(mf, nm, idx, st, src))], lambda: f(idx)), a.dtype)
    arr_assign(it, a, new)


def _guarded(mf, nm, idx, st, src):
    c = simp(zb(mf(tuple(idx[:nm]))))
    if c is False:
        return UNDEF
    return store_val(st, src(idx))


def fancy_set(it, a, idx, v):
    arrs = []
    for x in idx:
        if isinstance(x, (Arr, PList)):
            x = to_arr(it, x)
            if x.dtype == "b" and x.ndim == 1:
                x = nonzero(it, x)[0]
        arrs.append(x)
    nd = a.ndim
    adv = [k for k, x in enumerate(arrs) if isinstance(x, Arr)]
    while len(arrs) < nd:
        arrs.append(SliceV(None, None, None))
    outer = len(adv) == 1 and arrs[adv[0]].ndim == 1
    if len(adv) == 2 and len(arrs) == 2:
        x, y = arrs
        outer = x.ndim == y.ndim == 2 and same(conc(x.shape[1]), 1) and same(conc(y.shape[0]), 1)
    if not outer or not all(isinstance(x, Arr) or (isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None)
                            for x in arrs):
        return scatter_general(it, a, arrs, v)
    hits, vshape = [], []
    for k, x in enumerate(arrs):
        if isinstance(x, Arr):
            if x.ndim == 2:
                d, fi = (x.shape[0], (lambda j, s=x.snap(): s((j, 0)))) if k == 0 else (x.shape[1], (lambda j, s=x.snap(): s((0, j))))
            else:
                d, fi = x.shape[0], (lambda j, s=x.snap(): s((j,)))
            if x.dtype == "f":
                raise PyExc(IndexError, ("arrays used as indices must be of integer type",))
            hits.append(scatter_axis(it, a.shape[k], d, fi))
            vshape.append(d)
        else:
            hits.append(None)
            vshape.append(a.shape[k])
    vshape = tuple(vshape)
    if isinstance(v, Arr):
        shp = broadcast_shape([vshape, v.shape])
        if len(shp) != len(vshape):
            raise PyExc(ValueError, ("shape mismatch",))
        g = bget(v.snap(), v.shape, vshape)
    else:
        g = lambda ix: v
    f = a.snap()

    def elem(ix):
        cond, src = True, []
        for k, h in enumerate(hits):
            if h is None:
                src.append(ix[k])
            else:
                c, at = h(ix[k])
                cond = ops.land(cond, c)
                src.append(at)
        if cond is False:
            return f(ix)
        return merge([(cond, store_val(a.store, g(tuple(src))))], lambda: f(ix))

    arr_assign(it, a, build(a.shape, elem, a.dtype))


def scatter_axis(it, n0, k_n, fi):
    """x -> (is x among fi(0..k_n-1), position of its last occurrence)"""
    k_n = conc(k_n)
    ci = build((k_n,), lambda ix: it.norm_index(fi(ix[0]), n0), "i").snap()
    if isinstance(k_n, int):
        def h(x):
            cond, at = False, 0
            for j in range(k_n):
                e = ops.cmp("==", x, ci((j,)))
                cond = ops.lor(cond, e)
                at = j if e is True else (at if e is False else z3.If(zb(e), zi(j), zi(at)))
            return cond, at

        return h
    hit = S.fresh_fun("hit", 1, BOOL)
    at = S.fresh_fun("at", 1, INT)
    p, j = S.bound("p"), S.bound("j")
    S.forall([p], z3.Implies(hit(p), z3.And(at(p) >= 0, at(p) < zi(k_n), zi(ci((at(p),))) == p)), pats=[[hit(p)], [at(p)]])
    S.forall([j], z3.Implies(z3.And(j >= 0, j < zi(k_n)), z3.And(hit(zi(ci((j,)))), at(zi(ci((j,)))) >= j)))
    return lambda x: (hit(zi(x)), at(zi(x)))


def scatter_general(it, a, arrs, v):
    raise Unsupported("fancy assignment")


@model(np.ix_)
def _ix(it, args, kwargs):
    out = []
    for k, x in enumerate(args):
        x = force(x)
        if not isinstance(x, (Arr, PList, tuple)):
            n, fn, items = it.seq(x)
            x = PList(items) if items is not None else PList(n=n, fn=fn)
        x = to_arr(it, x)
        if x.ndim != 1:
            raise PyExc(ValueError, ("Cross index must be 1 dimensional",))
        if x.dtype == "b":
            x = nonzero(it, x)[0]
        s = x.snap()
        shape = tuple(x.shape[0] if j == k else 1 for j in range(len(args)))
        out.append(mk_arr(shape, lambda ix, s=s, k=k: s((ix[k],)), x.dtype if x.dtype != "f" else "i"))
    return tuple(out)


def _unused():
    raise Unsupported("fancy assignment")


def arr_exists(a, f, base="any"):
    """some element satisfies f"""
    g = a.snap()
    shape = tuple(conc(s) for s in a.shape)

    def rec(k, prefix):
        if k == len(shape):
            return f(g(tuple(prefix)))
        return exists_bool(shape[k], lambda i: rec(k + 1, prefix + [i]), base)

    sym = [k for k, s in enumerate(shape) if not isinstance(s, int) or s > SMALL]
    if len(sym) <= 1:
        # put the symbolic axis outermost
        if not sym:
            return rec(0, [])
        ax = sym[0]
        rest = [range(s) for k, s in enumerate(shape) if k != ax]

        def at(i):
            r = False
            for c in itertools.product(*rest):
                idx = list(c)
                idx.insert(ax, i)
                r = ops.lor(r, f(g(tuple(idx))))
            return r

        return exists_bool(shape[ax], at, base)
    if len(sym) == 2 and len(shape) == 2:
        b = S.fresh(base, BOOL)
        w0, w1 = S.fresh(base + "_at", INT), S.fresh(base + "_at", INT)
        n0, n1 = zi(shape[0]), zi(shape[1])
        S.assume(z3.Implies(b, z3.And(w0 >= 0, w0 < n0, w1 >= 0, w1 < n1, zb(f(g((w0, w1)))))))
        k0, k1 = S.bound("k"), S.bound("k")
        S.forall([k0, k1], z3.Implies(z3.And(k0 >= 0, k0 < n0, k1 >= 0, k1 < n1, zb(f(g((k0, k1))))), b))
        return b
    raise Unsupported("existential over this rank")


# ---------------------------------------------------------------------------------------------
# reductions

CANON = z3.Int("canon!sum")


def _split_sum(t):
    """[(coefficient, core)] with coefficients free of the summation index."""
    t = z3.simplify(t)
    if not mentions(t, [CANON]):
        return [(t, None)]
    if z3.is_add(t):
        return [x for c in t.children() for x in _split_sum(c)]
    if z3.is_sub(t):
        ch = t.children()
        out = list(_split_sum(ch[0]))
        for c in ch[1:]:
            out += [(-k, core) for k, core in _split_sum(c)]
        return out
    if z3.is_mul(t):
        free = [c for c in t.children() if not mentions(c, [CANON])]
        dep = [c for c in t.children() if mentions(c, [CANON])]
        if free or len(dep) == 1:
            k = free[0] if free else z3.RealVal(1)
            for c in free[1:]:
                k = k * c
            if len(dep) == 1:
                return [(k * kk, core) for kk, core in _split_sum(dep[0])]
            d = dep[0]
            for c in dep[1:]:
                d = d * c
            inner = _split_div(d)
            return [(k * inner[0], inner[1])]
        return [_split_div(t)]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
        num, den = t.children()
        if not mentions(den, [CANON]):
            return [(k / den, core if core is not None else None) for k, core in _split_sum(num)]
        return [(z3.RealVal(1), t)]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return [(-k, core) for k, core in _split_sum(t.arg(0))]
    return [(z3.RealVal(1), t)]


def _split_div(t):
    """pull index-free denominators out of products a/d * b"""
    if z3.is_mul(t):
        k = z3.RealVal(1)
        parts = []
        for c in t.children():
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DIV and not mentions(c.arg(1), [CANON]):
                k = k / c.arg(1)
                parts.append(c.arg(0))
            else:
                parts.append(c)
        parts = sorted(parts, key=lambda x: x.sexpr())
        d = parts[0]
        for c in parts[1:]:
            d = d * c
        return (k, d)
    return (z3.RealVal(1), t)


def seq_sum(n, f):
    n = conc(n)
    if isinstance(n, int) and n <= 64:
        r = 0
        for i in range(n):
            r = ops.add(r, f(i))
        return r
    t = f(CANON)
    if is_bool(t):
        t = z3.If(zb(t), z3.IntVal(1), z3.IntVal(0))
    integer = is_int(t)
    if is_num(t):
        return ops.mul(t, n)
    total = None
    for k, core in _split_sum(zr(t)):
        if core is None:
            term = k * z3.ToReal(zi(n))
        else:
            term = k * sum_symbol(n, core)
        total = term if total is None else total + term
    total = z3.simplify(total)
    return total


class SumRec:
    def __init__(self, sym, n, core):
        self.sym, self.n, self.core = sym, n, core

    def at(self, i):
        return z3.substitute(self.core, (CANON, zi(i)))


def sum_symbol(n, core):
    key = ("sum", lift(n).get_id(), core.get_id())
    hit = S.sumreg.get(key)
    if hit is not None:
        return hit[0].sym
    sym = S.fresh("sum", REAL)
    rec = SumRec(sym, n, core)
    S.sumreg[key] = (rec, lift(n), core)
    S.sumreg.setdefault("all-sums", []).append(rec)
    S.assume(z3.Implies(zi(n) <= 0, sym == 0))
    k = S.bound("k")
    rng = z3.And(k >= 0, k < zi(n))
    at = rec.at(k)
    S.conds.append(rng)
    try:
        nonneg = S.entails(at >= 0, rounds=2)
        pos = nonneg and S.entails(at > 0, rounds=2)
    finally:
        S.conds.pop()
    if nonneg:
        S.assume(sym >= 0)
        S.forall([k], z3.Implies(rng, at <= sym), name="term<=sum")
        if pos:
            S.assume(z3.Implies(zi(n) >= 1, sym > 0))
        else:
            # sum of non-negative terms is zero only if every term is
            S.forall([k], z3.Implies(z3.And(rng, at > 0), sym > 0), name="pos-term")
            w = S.fresh("posat", INT)
            S.assume(z3.Implies(sym > 0, z3.And(w >= 0, w < zi(n), rec.at(w) > 0)))
    S.assume(z3.Implies(zi(n) == 1, sym == rec.at(0)))
    return sym


def seq_extreme(n, f, largest, what="max"):
    """(value, index of its first occurrence)"""
    n = conc(n)
    if isinstance(n, int) and n == 0:
        raise PyExc(ValueError, ("empty sequence",))
    if not isinstance(n, int) and not S.branch(zi(n) >= 1):
        raise PyExc(ValueError, ("empty sequence",))
    if isinstance(n, int) and n <= 6:
        best, at = f(0), 0
        for i in range(1, n):
            c = ops.cmp(">" if largest else "<", f(i), best)
            best, at = ite(c, f(i), best), ite(c, i, at)
        return best, at
    probe = f(z3.Int("canon!probe"))
    if isinstance(probe, (DT, TD)):
        cls = type(probe)
        v, at = seq_extreme(n, lambda i: f(i).t, largest, what)
        return cls(v), at
    key = ("ext", largest, lift(n).get_id(), lift(probe).get_id())
    if key in S.sumreg and not S.ambient:
        return S.sumreg[key][0]
    sort = INT if is_int(probe) else REAL
    v = S.fresh(what, sort)
    at = S.fresh("arg" + what, INT)
    if not S.ambient:
        S.wits.append(at)
    k = S.bound("k")
    fv = lift(f(at))
    S.assume(z3.And(at >= 0, at < zi(n), v == fv))
    fk = lift(f(k))
    S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n)), fk <= v if largest else fk >= v), name=what)
    S.forall([k], z3.Implies(z3.And(k >= 0, k < at), fk < v if largest else fk > v), name=what + "-first")
    S.sumreg[key] = ((v, at), lift(probe))
    return v, at


def sort_perm(n, key, leq, stable=False):
    """Sorting permutation p of range(n) and its inverse (one per sequence and order)."""
    n = conc(n)
    memo = None
    if not S.ambient:
        x, y = z3.Int("canon!probe"), z3.Int("canon!probe2")
        kx, ky = key(x), key(y)
        if is_scalar(kx):
            lxy = lift(leq(kx, ky))
            memo = ("perm", str(n), lift(kx).get_id(), lxy.get_id(), stable)
            if memo in S.sumreg:
                return S.sumreg[memo][0]
    if not S.ambient and not isinstance(n, int):
        x, y = z3.Int(S.name("asc")), z3.Int(S.name("asc"))
        mark = len(S.conds)
        S.conds.append(z3.And(x >= 0, x < y, y < zi(n)))
        asc = S.entails(z3.And(zb(leq(key(x), key(y))), z3.BoolVal(True) if stable else z3.Not(zb(leq(key(y), key(x))))), timeout=1.0, rounds=2)
        del S.conds[mark:]
        if asc:  # already in strictly ascending order
            S.assumed.add("lemma: sorting an ascending sequence changes nothing")
            ident = (lambda k: zi(k)), (lambda k: zi(k))
            if memo is not None:
                S.sumreg[memo] = (ident, lift(kx), lxy)
            return ident
    p = S.fresh_fun("perm", 1, INT)
    q = S.fresh_fun("iperm", 1, INT)
    i, j = S.bound("i"), S.bound("j")
    S.forall([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(p(i) >= 0, p(i) < zi(n), q(p(i)) == i)), pats=[[p(i)]])
    S.forall([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(q(i) >= 0, q(i) < zi(n), p(q(i)) == i)), pats=[[q(i)]])
    S.forall([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zi(n)), zb(leq(key(p(i)), key(p(j))))),
             pats=[[p(i), p(j)]], name="sorted")
    if stable:
        S.forall([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zi(n), zb(leq(key(p(j)), key(p(i))))), p(i) < p(j)),
                 pats=[[p(i), p(j)]], name="stable")
    S.sumreg.setdefault("perms", []).append((p, q))
    if memo is not None:
        S.sumreg[memo] = ((p, q), lift(kx), lxy)
    return p, q


def key_leq(it):
    def leq(a, b):
        if isinstance(a, tuple):
            return it.lex("<=", a, b)
        if isinstance(a, (DT, TD)):
            return ops.cmp("<=", a.t, b.t)
        return ops.cmp("<=", a, b)

    return leq


def flat_elems(a):
    """(n, f) over the elements of an array in row-major order"""
    f = a.snap()
    shape = tuple(conc(s) for s in a.shape)
    if len(shape) == 0:
        return 1, lambda i: f(())
    if len(shape) == 1:
        return shape[0], lambda i: f((i,))
    if len(shape) == 2:
        if isinstance(shape[1], int) and shape[1] == 1:
            return shape[0], lambda i: f((i, 0))
        if isinstance(shape[0], int) and shape[0] == 1:
            return shape[1], lambda i: f((0, i))
        n = simp(ops.mul(shape[0], shape[1]))
        d = shape[1]

        def g(i):
            i = conc(i)
            if isinstance(i, int) and isinstance(d, int):
                return f((i // d, i % d))
            return f((zi(i) / zi(d), zi(i) % zi(d)))

        return n, g
    if all(isinstance(s, int) for s in shape):
        idxs = list(itertools.product(*[range(s) for s in shape]))
        return len(idxs), lambda i: pick([f(x) for x in idxs], i) if not isinstance(conc(i), int) else f(idxs[conc(i)])
    raise Unsupported("flattening of this rank")


def reduce_axis(it, a, axis, red):
    """apply red(n, f) along an axis, or over everything"""
    a = to_arr(it, a)
    if axis is None:
        if a.ndim == 2 and isinstance(a.shape[1], int) and a.shape[1] > 1 and not isinstance(a.shape[0], int) and red in (R_SUM,):
            f = a.snap()
            return seq_sum(a.shape[0], lambda i: _addall([f((i, j)) for j in range(a.shape[1])]))
        n, f = flat_elems(a)
        return red(n, f)
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    axis = conc(axis)
    if axis < 0:
        axis += a.ndim
    if axis >= a.ndim:
        raise PyExc(np.exceptions.AxisError, ("axis",))
    f = a.snap()
    if a.ndim == 1:
        return red(a.shape[0], lambda i: f((i,)))
    rest = a.shape[:axis] + a.shape[axis + 1:]
    return build(rest, lambda idx: red(a.shape[axis], lambda i: f(tuple(idx[:axis]) + (i,) + tuple(idx[axis:]))))


def _addall(xs):
    r = 0
    for x in xs:
        r = ops.add(r, x)
    return r


def R_SUM(n, f):
    return seq_sum(n, f)


def R_MEAN(n, f):
    S.oblige("mean of a non-empty sequence", zi(n) >= 1, kind="safety-div")
    return ops.div(seq_sum(n, f), n) if isinstance(conc(n), int) else ops.div(seq_sum(n, f), z3.ToReal(zi(n)))


def R_MAX(n, f):
    return seq_extreme(n, f, True, "max")[0]


def R_MIN(n, f):
    return seq_extreme(n, f, False, "min")[0]


def R_STD(n, f):
    if not isinstance(conc(n), int):
        # non-negative, zero exactly for equal entries, at most the span (half of it, in fact); otherwise unknown
        S.oblige("std of a non-empty sequence", zi(n) >= 1, kind="safety-div")
        core = zr(f(CANON))
        key = ("std", lift(n).get_id(), core.get_id())
        hit = S.sumreg.get(key)
        if hit is not None:
            return hit[0]
        sym = S.fresh("std", REAL)
        S.sumreg[key] = (sym, lift(n), core)
        S.assume(sym >= 0)
        w = S.fresh("differs", INT)
        k = S.bound("k")
        f0 = zr(f(0))
        S.assume(z3.Implies(sym > 0, z3.And(w >= 0, w < zi(n), zr(f(w)) != f0)))
        S.forall([k], z3.Implies(z3.And(k >= 0, k < zi(n), zr(f(k)) != f0), sym > 0), name="std>0")
        return sym
    m = R_MEAN(n, f)
    s = seq_sum(n, lambda i: ops.power(ops.sub(f(i), m), 2))
    v = ops.div(s, n if isinstance(conc(n), int) else z3.ToReal(zi(n)))
    return ops.sqrt(v)


def R_ANY(n, f):
    return exists_bool(n, lambda i: INTERP.truth(f(i)))


def R_ALL(n, f):
    return forall_bool(n, lambda i: INTERP.truth(f(i)))


def reducer(red):
    def m(it, args, kwargs):
        a = arg(args, kwargs, 0, "a")
        return reduce_axis(it, a, arg(args, kwargs, 1, "axis"), red)

    return m


def red_method(red):
    def m(it, self, args, kwargs):
        return reduce_axis(it, self, arg(args, kwargs, 0, "axis"), red)

    return m


for _n, _r in (("sum", R_SUM), ("mean", R_MEAN), ("max", R_MAX), ("min", R_MIN), ("std", R_STD), ("any", R_ANY), ("all", R_ALL)):
    model(getattr(np, _n))(reducer(_r))
    method("ndarray", _n)(red_method(_r))
model(np.amax)(reducer(R_MAX))
model(np.amin)(reducer(R_MIN))


@model(np.percentile)
def _percentile(it, args, kwargs):
    a, q = to_arr(it, args[0]), force(args[1])
    n, f = flat_elems(a)
    n = conc(n)
    p, _ = sort_perm(n, f, key_leq(it))
    g = lambda i: f(p(zi(i)))
    pos = ops.mul(ops.div(q, 100), ops.sub(n, 1))
    lo = S.fresh("plo", INT)
    S.assume(z3.And(z3.ToReal(lo) <= zr(pos), zr(pos) < z3.ToReal(lo) + 1))
    hi = z3.If(lo + 1 < zi(n), lo + 1, lo)
    frac_ = zr(pos) - z3.ToReal(lo)
    gl, gh = zr(g(lo)), zr(g(hi))
    return gl + frac_ * (gh - gl)


@model(np.argmin)
def _argmin(it, args, kwargs):
    n, f = flat_elems(to_arr(it, args[0]))
    return seq_extreme(n, f, False, "min")[1]


@model(np.argmax)
def _argmax(it, args, kwargs):
    n, f = flat_elems(to_arr(it, args[0]))
    return seq_extreme(n, f, True, "max")[1]


def _argsort(it, a):
    if a.ndim != 1:
        raise Unsupported("argsort of this rank")
    f = a.snap()
    p, q = sort_perm(a.shape[0], lambda i: f((i,)), key_leq(it))
    return mk_arr(a.shape, lambda idx: p(zi(idx[0])), "i")


def _sort(it, a):
    if a.ndim != 1:
        raise Unsupported("sort of this rank")
    f = a.snap()
    p, q = sort_perm(a.shape[0], lambda i: f((i,)), key_leq(it))
    return mk_arr(a.shape, lambda idx: f((p(zi(idx[0])),)), a.dtype)


@model(np.sort)
def _np_sort(it, args, kwargs):
    return _sort(it, to_arr(it, args[0]))


@method("ndarray", "sort")
def _m_sort(it, self, args, kwargs):
    r = _sort(it, self).snap()
    self.assign_all(r) if hasattr(self, "assign_all") else it.setitem(self, slice(None), mk_arr(self.shape, r, self.dtype))


@model(np.argsort)
def _np_argsort(it, args, kwargs):
    return _argsort(it, to_arr(it, args[0]))


@method("ndarray", "argsort")
def _m_argsort(it, self, args, kwargs):
    return _argsort(it, self)


@model(np.average)
def _average(it, args, kwargs):
    a = to_arr(it, args[0])
    w = arg(args, kwargs, 2, "weights")
    axis = arg(args, kwargs, 1, "axis")
    if w is None:
        return reduce_axis(it, a, axis, R_MEAN)
    w = to_arr(it, w)
    if a.ndim == 1 and w.ndim == 1:
        fa, fw = a.snap(), w.snap()
        if not same_dim(a.shape[0], w.shape[0]):
            raise PyExc(TypeError, ("shape mismatch",))
        tot = seq_sum(w.shape[0], lambda i: fw((i,)))
        if S.branch(ops.cmp("==", tot, 0)):
            raise PyExc(ZeroDivisionError, ("Weights sum to zero",))
        return ops.div(seq_sum(a.shape[0], lambda i: ops.mul(fa((i,)), fw((i,)))), tot)
    raise Unsupported("np.average of this rank")


# ---------------------------------------------------------------------------------------------
# elementwise functions


def unary(f, dtype=None):
    def m(it, args, kwargs):
        v = force(args[0])
        if isinstance(v, (PList, tuple, Seq)):
            v = to_arr(it, v)
        if isinstance(v, Arr):
            if v.dtype == "O":
                raise PyExc(TypeError, ("loop of ufunc does not support argument",))
            return map_arr(it, [v], f, dtype or v.dtype)
        if not is_scalar(v):
            if isinstance(v, (Opaque, PObj)):
                raise Unsupported("ufunc on an object")
            raise PyExc(TypeError, ("ufunc not supported for the input types",))
        return f(v)

    return m


for _n in ("sin", "cos", "tan", "exp", "log", "tanh", "arcsinh", "sinh", "arctan", "arccos", "arcsin"):
    model(getattr(np, _n))(unary(ops.trig(_n), "f"))
model(np.sqrt)(unary(ops.sqrt, "f"))
model(np.square)(unary(lambda x: ops.mul(x, x)))
model(np.abs)(unary(ops.absolute))
model(np.deg2rad)(unary(ops.deg2rad, "f"))
model(np.rad2deg)(unary(ops.rad2deg, "f"))
model(np.sign)(unary(lambda x: ite(ops.cmp(">", x, 0), 1, ite(ops.cmp("<", x, 0), -1, 0))))
model(np.isfinite)(unary(lambda x: True, "b"))
model(np.isnan)(unary(lambda x: False, "b"))
model(np.logical_not)(unary(lambda x: ops.lnot(zb(x) if is_term(x) else bool(x)), "b"))
model(math.sqrt)(unary(ops.sqrt))
model(math.cos)(unary(ops.trig("cos")))
model(math.sin)(unary(ops.trig("sin")))


def binary(f, dtype=None):
    def m(it, args, kwargs):
        a, b = as_operand(it, args[0]), as_operand(it, args[1])
        return map_arr(it, [a, b], f, dtype)

    return m


model(np.power)(binary(ops.power))
model(np.arctan2)(binary(ops.arctan2, "f"))
model(np.logical_and)(binary(lambda a, b: ops.land(_tb(a), _tb(b)), "b"))
model(np.logical_or)(binary(lambda a, b: ops.lor(_tb(a), _tb(b)), "b"))
model(np.maximum)(binary(ops.smax))
model(np.minimum)(binary(ops.smin))
model(np.add)(binary(ops.add))
model(np.subtract)(binary(ops.sub))
model(np.multiply)(binary(ops.mul))
model(np.divide)(binary(ops.div, "f"))
model(np.mod)(binary(ops.mod))


def _tb(a):
    return conc(zb(a)) if is_scalar(a) else a


def _close(it, args, kwargs):
    "|a - b| <= atol + rtol * |b|; there is no nan or infinity"
    args = list(args)
    names = ("a", "b", "rtol", "atol", "equal_nan")
    kw = dict(zip(names, args), **kwargs)
    rt, at = force(kw.get("rtol", Fraction(1, 10**5))), force(kw.get("atol", Fraction(1, 10**8)))
    if not is_scalar(rt) or not is_scalar(at):
        raise Unsupported("tolerance")
    a, b = as_operand(it, kw["a"]), as_operand(it, kw["b"])
    f = lambda x, y: ops.cmp("<=", ops.absolute(ops.sub(x, y)), ops.add(at, ops.mul(rt, ops.absolute(y))))
    return map_arr(it, [a, b], f, "b")


model(np.isclose)(_close)


@model(np.allclose)
def _allclose(it, args, kwargs):
    r = _close(it, args, kwargs)
    return reducer(R_ALL)(it, [r], {}) if isinstance(r, Arr) else r


@model(np.clip)
def _clip(it, args, kwargs):
    a = as_operand(it, args[0])
    lo, hi = arg(args, kwargs, 1, "a_min"), arg(args, kwargs, 2, "a_max")
    ar = [a] + [as_operand(it, x) for x in (lo, hi) if x is not None]

    def f(x, *b):
        b = list(b)
        if lo is not None:
            x = ops.smax(x, b.pop(0))
        if hi is not None:
            x = ops.smin(x, b.pop(0))
        return x

    return map_arr(it, ar, f)


def nonzero(it, a):
    a = to_arr(it, a)
    if a.dtype != "b":
        a = map_arr(it, [a], lambda x: ops.cmp("!=", x, 0), "b")
    if a.ndim != 1:
        if a.ndim == 2:
            sel = mask_sel(a)
            return tuple(mk_arr((sel.m,), lambda idx, k=k: sel.sel(idx[0])[k], "i") for k in range(2))
        raise Unsupported("nonzero of this rank")
    sh = a.shape[0]
    f = a.snap()
    if isinstance(conc(sh), int) and all(isinstance(f((k,)), bool) for k in range(conc(sh))):
        ks = [k for k in range(conc(sh)) if f((k,))]
        return (mk_arr((len(ks),), lambda idx: pick_num(ks, idx[0]), "i"),)
    sel = mask_sel(a)
    return (masked_build(sel, (sh,), lambda idx: idx[0], "i"),)


@model(np.where)
def _where(it, args, kwargs):
    c = force(args[0])
    if len(args) == 1:
        return nonzero(it, c)
    c = as_operand(it, c)
    return map_arr(it, [c, as_operand(it, args[1]), as_operand(it, args[2])], lambda x, y, w: merge([(_tb(x), y)], w))


@model(np.nonzero)
def _nonzero(it, args, kwargs):
    return nonzero(it, args[0])


@model(np.flatnonzero)
def _flatnonzero(it, args, kwargs):
    return nonzero(it, args[0])[0]


# ---------------------------------------------------------------------------------------------
# constructors


def np_dtype(d):
    if d is None:
        return None
    if d in (float, np.float64, np.float32) or d == "float":
        return "f"
    if d in (int, np.int64, np.int32):
        return "i"
    if d in (bool, np.bool_):
        return "b"
    if d is object:
        return "O"
    if isinstance(d, str) and d in ("f", "i", "b", "O"):
        return d
    raise Unsupported(f"dtype {d}")


def cast_arr(it, a, dt):
    if dt is None or a.dtype == dt:
        return a
    f = a.snap()
    if dt == "f":
        if a.dtype == "O":
            raise Unsupported("object array cast to float")
        return mk_arr(a.shape, lambda idx: _real(f(idx)), "f")
    if dt == "b":
        return mk_arr(a.shape, lambda idx: ops.cmp("!=", f(idx), 0) if not is_bool(f(idx)) else f(idx), "b")
    if dt == "i":
        st = Store((), None, "i")
        return mk_arr(a.shape, lambda idx: store_val(st, zi(f(idx)) if is_bool(f(idx)) else f(idx)), "i")
    return mk_arr(a.shape, f, dt)


def copy_arr(a):
    r = mk_arr(a.shape, a.snap(), a.dtype, a.mask)
    return r


@model(np.array)
def _array(it, args, kwargs):
    v = force(args[0])
    a = to_arr(it, v)
    dt = np_dtype(force(arg(args, kwargs, 1, "dtype")))
    b = cast_arr(it, a, dt)
    if b is a and isinstance(v, Arr):
        return copy_arr(a)
    return b


@model(np.asarray, np.asarray_chkfinite, np.ascontiguousarray)
def _asarray(it, args, kwargs):
    a = to_arr(it, args[0])
    return cast_arr(it, a, np_dtype(force(arg(args, kwargs, 1, "dtype"))))


@model(np.copy)
def _copy(it, args, kwargs):
    return copy_arr(to_arr(it, args[0]))


def shape_arg(it, s):
    s = force(s)
    if isinstance(s, Arr):
        n, f, items = it.seq(s)
        return tuple(items)
    if isinstance(s, (PList, Seq)):
        return tuple(it.seq(s)[2])
    return s if isinstance(s, tuple) else (s,)


@model(np.zeros)
def _zeros(it, args, kwargs):
    dt = np_dtype(force(arg(args, kwargs, 1, "dtype"))) or "f"
    z = {"f": Fraction(0), "i": 0, "b": False}.get(dt)
    return mk_arr(shape_arg(it, arg(args, kwargs, 0, "shape")), lambda idx: z, dt)


@model(np.ones)
def _ones(it, args, kwargs):
    dt = np_dtype(force(arg(args, kwargs, 1, "dtype"))) or "f"
    z = {"f": Fraction(1), "i": 1, "b": True}.get(dt)
    return mk_arr(shape_arg(it, arg(args, kwargs, 0, "shape")), lambda idx: z, dt)


@model(np.full)
def _full(it, args, kwargs):
    v = force(arg(args, kwargs, 1, "fill_value"))
    return mk_arr(shape_arg(it, arg(args, kwargs, 0, "shape")), lambda idx: v, dtype_of(v))


@model(np.zeros_like)
def _zeros_like(it, args, kwargs):
    a = to_arr(it, args[0])
    z = {"f": Fraction(0), "i": 0, "b": False}[a.dtype]
    return mk_arr(a.shape, lambda idx: z, a.dtype)


@model(np.ones_like)
def _ones_like(it, args, kwargs):
    a = to_arr(it, args[0])
    z = {"f": Fraction(1), "i": 1, "b": True}[a.dtype]
    return mk_arr(a.shape, lambda idx: z, a.dtype)


@model(np.empty)
def _empty(it, args, kwargs):
    sh = shape_arg(it, arg(args, kwargs, 0, "shape"))
    f = S.fresh_fun("uninit", len(sh), REAL)
    return mk_arr(sh, lambda idx: f(*idx), "f")


@model(np.eye)
def _eye(it, args, kwargs):
    n = args[0]
    return mk_arr((n, n), lambda idx: ite(ops.cmp("==", idx[0], idx[1]), Fraction(1), Fraction(0)), "f")


@model(np.arange)
def _arange(it, args, kwargs):
    args = [force(a) for a in args]
    if all(isinstance(conc(a), int) for a in args):
        r = range(*[conc(a) for a in args])
        return mk_arr((len(r),), lambda idx: ops.add(r.start, ops.mul(r.step, idx[0])), "i")
    if len(args) == 1:
        a = args[0]
        if is_int(a):
            return mk_arr((ite(ops.cmp(">", a, 0), a, 0),), lambda idx: idx[0], "i")
    start, stop = (0, args[0]) if len(args) == 1 else args[:2]
    step = args[2] if len(args) > 2 else 1
    # n = ceil((stop - start)/step) for a positive step
    S.oblige("arange step is positive", ops.cmp(">", step, 0), kind="safety-div")
    n = S.fresh("arange", INT)
    q = ops.sub(stop, start)
    S.assume(z3.Implies(zr(step) > 0, z3.And(
        n >= 0, z3.Implies(zr(q) <= 0, n == 0),
        z3.Implies(zr(q) > 0, z3.And(z3.ToReal(n) * zr(step) >= zr(q), (z3.ToReal(n) - 1) * zr(step) < zr(q))))))
    ii = is_int(start) and is_int(step)
    return mk_arr((n,), lambda idx: ops.add(start, ops.mul(step, idx[0])), "i" if ii else "f")


@model(np.linspace)
def _linspace(it, args, kwargs):
    start, stop = force(args[0]), force(args[1])
    num = force(arg(args, kwargs, 2, "num", 50))
    endpoint = arg(args, kwargs, 3, "endpoint", True)
    if not is_int(num):
        raise PyExc(TypeError, ("num must be integer",))
    if S.branch(ops.cmp("<", num, 0)):
        raise PyExc(ValueError, ("negative num",))

    def elem(i, a, b):
        i = conc(i)
        num_c = conc(num)
        div_ = ops.sub(num, 1) if endpoint else num
        if isinstance(num_c, int):
            dv = num_c - 1 if endpoint else num_c
            if dv <= 0:
                return _real(a)
            if isinstance(i, int) and i == num_c - 1 and endpoint:
                return _real(b)
            return _real(ops.add(a, ops.mul(ops.div(ops.sub(b, a), dv), i)))
        d = z3.ToReal(zi(div_))
        step = z3.If(zi(div_) > 0, (zr(b) - zr(a)) / d, R0)
        return zr(a) + step * zr(i)

    from .terms import R0

    if isinstance(start, Arr) or isinstance(stop, Arr) or isinstance(start, (PList, tuple)) or isinstance(stop, (PList, tuple)):
        a, b = to_arr(it, start), to_arr(it, stop)
        out = broadcast_shape([a.shape, b.shape])
        ga, gb = bget(a.snap(), a.shape, out), bget(b.snap(), b.shape, out)
        return mk_arr((num,) + out, lambda idx: elem(idx[0], ga(tuple(idx[1:])), gb(tuple(idx[1:]))), "f")
    return mk_arr((num,), lambda idx: elem(idx[0], start, stop), "f")


def seq_items(it, v):
    n, fn, items = it.seq(v)
    if items is None:
        if isinstance(conc(n), int):
            return [fn(k) for k in range(conc(n))]
        return None
    return items


@model(np.column_stack)
def _column_stack(it, args, kwargs):
    items = seq_items(it, args[0])
    if items is None:
        n, fn, _ = it.seq(args[0])
        rows = to_arr(it, args[0])  # (k, n)
        if rows.ndim != 2:
            raise Unsupported("column_stack")
        return transpose(rows)
    cols = []
    n = None
    arrs = [to_arr(it, x) for x in items]
    if not arrs:
        raise PyExc(ValueError, ("need at least one array to concatenate",))
    for a in arrs:
        if a.ndim == 0:
            f = a.snap()
            a = mk_arr((1,), lambda idx, f=f: f(()), a.dtype)
        if a.ndim == 1:
            f = a.snap()
            cols.append((1, a.shape[0], lambda i, j, f=f: f((i,)), a.dtype))
        elif a.ndim == 2:
            f = a.snap()
            cols.append((a.shape[1], a.shape[0], lambda i, j, f=f: f((i, j)), a.dtype))
        else:
            raise PyExc(ValueError, ("column_stack",))
    n = cols[0][1]
    for c in cols[1:]:
        if not same_dim(n, c[1]):
            raise PyExc(ValueError, ("all the input array dimensions must match",))
    dt = join_dtype(*[c[3] for c in cols])
    if all(isinstance(conc(c[0]), int) for c in cols):
        width = [(c, j) for c in cols for j in range(conc(c[0]))]
        return mk_arr((n, len(width)), lambda idx: _cast(merge_pick(
            [(lambda c=c, j=j: c[2](idx[0], j)) for c, j in width], idx[1]), dt), dt)
    return transpose(concat([transpose_of(c, n) for c in cols], 0))


def transpose_of(c, n):
    return mk_arr((c[0], n), lambda idx: c[2](idx[1], idx[0]), c[3])


def concat(arrs, axis=0):
    nd = arrs[0].ndim
    for a in arrs:
        if a.ndim != nd:
            raise PyExc(ValueError, ("all the input arrays must have same number of dimensions",))
    if axis < 0:
        axis += nd
    if axis >= nd:
        raise PyExc(np.exceptions.AxisError, ("axis",))
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and not same_dim(arrs[0].shape[k], a.shape[k]):
                raise PyExc(ValueError, ("dimensions must match",))
    dt = join_dtype(*[a.dtype for a in arrs])
    snaps = [a.snap() for a in arrs]
    lens = [conc(a.shape[axis]) for a in arrs]
    offs, tot = [], 0
    for l in lens:
        offs.append(tot)
        tot = simp(ops.add(tot, l))

    def fn(idx):
        x = idx[axis]
        alts = []
        for s, o, l in zip(snaps, offs, lens):
            if isinstance(l, int) and l == 0:
                continue
            c = ops.cmp("<", x, simp(ops.add(o, l)))
            if c is False:
                continue
            alts.append((c, (lambda s=s, o=o: _cast(s(tuple(idx[:axis]) + (simp(ops.sub(x, o)),) + tuple(idx[axis + 1:])), dt))))
            if c is True:
                break
        if not alts:
            return UNDEF
        vals = [(c, t()) for c, t in alts]
        return merge(vals[:-1], vals[-1][1])

    return mk_arr(arrs[0].shape[:axis] + (tot,) + arrs[0].shape[axis + 1:], fn, dt)


@model(np.concatenate)
def _concatenate(it, args, kwargs):
    items = seq_items(it, args[0])
    axis = arg(args, kwargs, 1, "axis", 0)
    if items is None:
        raise Unsupported("concatenate of symbolically many arrays")
    arrs = [to_arr(it, x) for x in items]
    if not arrs:
        raise PyExc(ValueError, ("need at least one array to concatenate",))
    if axis is None:
        arrs = [ravel(a) for a in arrs]
        axis = 0
    if any(a.ndim == 0 for a in arrs):
        raise PyExc(ValueError, ("zero-dimensional arrays cannot be concatenated",))
    return concat(arrs, axis)


@model(np.append)
def _append(it, args, kwargs):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    axis = arg(args, kwargs, 2, "axis")
    if axis is None:
        return concat([ravel(a), ravel(b)], 0)
    return concat([a, b], axis)


@model(np.row_stack, np.vstack)
def _row_stack(it, args, kwargs):
    items = seq_items(it, args[0])
    if items is None:
        a = to_arr(it, args[0])
        if a.ndim == 2:
            return a
        raise Unsupported("row_stack of symbolically many arrays")
    if isinstance(force(args[0]), Seq) and False:
        pass
    arrs = []
    for x in items:
        a = to_arr(it, x)
        arrs.append(atleast_2d(a))
    if not arrs:
        raise PyExc(ValueError, ("need at least one array to concatenate",))
    return concat(arrs, 0)


@model(np.hstack)
def _hstack(it, args, kwargs):
    arrs = [to_arr(it, x) for x in seq_items(it, args[0])]
    return concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@model(np.stack)
def _stack(it, args, kwargs):
    items = seq_items(it, args[0])
    axis = arg(args, kwargs, 1, "axis", 0)
    if items is None:
        a = to_arr(it, args[0])
        if axis == 0:
            return a
        raise Unsupported("stack of symbolically many arrays")
    arrs = [to_arr(it, x) for x in items]
    nd = arrs[0].ndim + 1
    if axis < 0:
        axis += nd
    out = []
    for a in arrs:
        f = a.snap()
        out.append(mk_arr(a.shape[:axis] + (1,) + a.shape[axis:],
                          lambda idx, f=f: f(tuple(idx[:axis]) + tuple(idx[axis + 1:])), a.dtype))
    return concat(out, axis)


@model(np.hsplit)
def _hsplit(it, args, kwargs):
    a, k = to_arr(it, args[0]), conc(args[1])
    w = conc(a.shape[1])
    if not isinstance(w, int) or not isinstance(k, int):
        raise Unsupported("hsplit")
    if w % k:
        raise PyExc(ValueError, ("array split does not result in an equal division",))
    s = w // k
    return PList([basic_view(it, a, [SliceV(None, None, None), SliceV(j * s, (j + 1) * s, None)]) for j in range(k)])


@model(np.meshgrid)
def _meshgrid(it, args, kwargs):
    a = [to_arr(it, x) for x in args]
    idxing = kwargs.get("indexing", "xy")
    if len(a) == 2:
        x, y = a[0].snap(), a[1].snap()
        n, m = a[0].shape[0], a[1].shape[0]
        if idxing == "xy":
            return PList([mk_arr((m, n), lambda idx: x((idx[1],)), a[0].dtype), mk_arr((m, n), lambda idx: y((idx[0],)), a[1].dtype)])
        return PList([mk_arr((n, m), lambda idx: x((idx[0],)), a[0].dtype), mk_arr((n, m), lambda idx: y((idx[1],)), a[1].dtype)])
    raise Unsupported("meshgrid")


def transpose(a):
    spec = a.full_spec()
    nd = a.ndim
    if a.mask is not None:
        a = copy_arr(a)
        a.mask = None
        spec = a.full_spec()
    return Arr(a.store, tuple(reversed(a.shape)),
               tuple(sp if sp[0] == "f" else ("a", nd - 1 - sp[1], sp[2], sp[3]) for sp in spec))


@method("ndarray", "@T")
def _T(it, self):
    return transpose(self)


@method("ndarray", "transpose")
def _nd_transpose(it, self, args, kwargs):
    if args or kwargs:
        raise Unsupported("transpose with axes")
    return transpose(self)


@model(np.transpose)
def _transpose(it, args, kwargs):
    return transpose(to_arr(it, args[0]))


def ravel(a):
    if a.ndim == 1:
        return a
    spec = a.full_spec()
    shape = tuple(conc(s) for s in a.shape)
    if a.ndim == 2 and isinstance(shape[1], int) and shape[1] == 1:
        return Arr(a.store, (shape[0],), tuple(sp if sp[0] == "f" else (sp if sp[1] == 0 else ("f", sp[2])) for sp in spec))
    if a.ndim == 2 and isinstance(shape[0], int) and shape[0] == 1:
        return Arr(a.store, (shape[1],), tuple(
            sp if sp[0] == "f" else (("a", 0, sp[2], sp[3]) if sp[1] == 1 else ("f", sp[2])) for sp in spec))
    n, f = flat_elems(a)
    return mk_arr((n,), lambda idx: f(idx[0]), a.dtype)


@method("ndarray", "ravel", "flatten")
def _ravel(it, self, args, kwargs):
    return ravel(self)


@method("ndarray", "@flat")
def _flat(it, self):
    return ravel(self)


@model(np.ravel)
def _np_ravel(it, args, kwargs):
    return ravel(to_arr(it, args[0]))


def reshape(it, a, shape):
    shape = [conc(force(s)) for s in shape]
    ka, ks = [k for k, d in enumerate(a.shape) if not same(d, 1)], [k for k, d in enumerate(shape) if not same(d, 1)]
    if (a.ndim == 3 or len(shape) == 3) and len(ka) == len(ks) and all(same(a.shape[i], shape[j]) for i, j in zip(ka, ks)):
        g = a.snap()  # only axes of length 1 come or go
        return mk_arr(tuple(shape), lambda idx: g(tuple(idx[ks[ka.index(k)]] if k in ka else 0 for k in range(a.ndim))), a.dtype)
    n, f = flat_elems(a)
    n = conc(n)
    if shape.count(-1) == 1:
        k = shape.index(-1)
        rest = 1
        for j, s in enumerate(shape):
            if j != k:
                rest = simp(ops.mul(rest, s))
        if isinstance(rest, int) and rest == 1:
            shape[k] = n
        elif isinstance(rest, int) and isinstance(n, int):
            if n % rest:
                raise PyExc(ValueError, ("cannot reshape",))
            shape[k] = n // rest
        else:
            # dims of the source that match
            if a.ndim == 2 and same(rest, a.shape[1]):
                shape[k] = a.shape[0]
            elif a.ndim == 2 and same(rest, a.shape[0]):
                shape[k] = a.shape[1]
            else:
                if not S.branch(ops.cmp("==", ops.mod(n, rest), 0)):
                    raise PyExc(ValueError, ("cannot reshape",))
                shape[k] = ops.floordiv(n, rest)
    if len(shape) == 2 and a.ndim == 2 and same(shape[0], a.shape[0]) and same(shape[1], a.shape[1]):
        return a
    tot = 1
    for s in shape:
        tot = simp(ops.mul(tot, s))
    if not same(tot, n):
        if not S.branch(ops.cmp("==", tot, n)):
            raise PyExc(ValueError, ("cannot reshape",))
    if len(shape) == 1:
        return ravel(a)
    if a.ndim == 1 and len(shape) == 2:
        if isinstance(shape[1], int) and shape[1] == 1:
            sp = tuple(s if s[0] == "f" else ("a", 0, s[2], s[3]) for s in a.full_spec())
            return Arr(a.store, (shape[0], 1), sp)
        if isinstance(shape[0], int) and shape[0] == 1:
            sp = tuple(s if s[0] == "f" else ("a", 1, s[2], s[3]) for s in a.full_spec())
            return Arr(a.store, (1, shape[1]), sp)
    if len(shape) == 2:
        d = shape[1]
        if a.ndim == 2 and isinstance(a.shape[1], int) and isinstance(d, int) and False:
            pass
        return mk_arr(tuple(shape), lambda idx: f(simp(ops.add(ops.mul(idx[0], d), idx[1]))), a.dtype)
    if all(isinstance(s, int) for s in shape):
        def fn(idx):
            k = 0
            for i, s in zip(idx, shape):
                k = ops.add(ops.mul(k, s), i)
            return f(simp(k))
        return mk_arr(tuple(shape), fn, a.dtype)
    raise Unsupported("reshape")


@method("ndarray", "reshape")
def _m_reshape(it, self, args, kwargs):
    shape = args[0] if len(args) == 1 and isinstance(force(args[0]), (tuple, PList)) else tuple(args)
    return reshape(it, self, shape_arg(it, shape))


@model(np.reshape)
def _np_reshape(it, args, kwargs):
    return reshape(it, to_arr(it, args[0]), shape_arg(it, args[1]))


def atleast_2d(a):
    if a.ndim == 0:
        f = a.snap()
        return mk_arr((1, 1), lambda idx: f(()), a.dtype)
    if a.ndim == 1:
        sp = tuple(s if s[0] == "f" else ("a", 1, s[2], s[3]) for s in a.full_spec())
        if a.mask is not None:
            a2 = copy_arr(a)
            return Arr(a2.store, (1, a.shape[0]), sp)
        return Arr(a.store, (1, a.shape[0]), sp)
    return a


@model(np.atleast_2d)
def _atleast_2d(it, args, kwargs):
    return atleast_2d(to_arr(it, args[0]))


@model(np.atleast_1d)
def _atleast_1d(it, args, kwargs):
    a = to_arr(it, args[0])
    if a.ndim == 0:
        f = a.snap()
        return mk_arr((1,), lambda idx: f(()), a.dtype)
    return a


@model(np.expand_dims)
def _expand(it, args, kwargs):
    a, ax = to_arr(it, args[0]), conc(args[1])
    idx = [SliceV(None, None, None)] * a.ndim
    idx.insert(ax if ax >= 0 else a.ndim + 1 + ax, None)
    return basic_view(it, a, idx)


@model(np.flip)
def _flip(it, args, kwargs):
    a = to_arr(it, args[0])
    ax = arg(args, kwargs, 1, "axis")
    idx = [SliceV(None, None, -1 if (ax is None or conc(ax) % a.ndim == k) else None) for k in range(a.ndim)]
    return basic_view(it, a, idx)


@model(np.delete)
def _delete(it, args, kwargs):
    a = to_arr(it, args[0])
    obj = force(args[1])
    axis = arg(args, kwargs, 2, "axis")
    if axis is None:
        a, axis = ravel(a), 0
    axis = conc(axis)
    if axis < 0:
        axis += a.ndim
    n = conc(a.shape[axis])
    f = a.snap()
    if is_int(obj):
        k = it.norm_index(obj, n)
        return mk_arr(a.shape[:axis] + (simp(ops.sub(n, 1)),) + a.shape[axis + 1:],
                      lambda idx: f(tuple(idx[:axis]) + (ite(ops.cmp("<", idx[axis], k), idx[axis], ops.add(idx[axis], 1)),) + tuple(idx[axis + 1:])), a.dtype)
    raise Unsupported("np.delete with a list")


@model(np.repeat)
def _np_repeat(it, args, kwargs):
    a, k = to_arr(it, args[0]), arg(args, kwargs, 1, "repeats")
    axis = arg(args, kwargs, 2, "axis")
    if not is_int(k):
        raise Unsupported("np.repeat with several counts")
    if axis is None:
        a, axis = ravel(a), 0
    f = a.snap()
    axis = conc(axis) % a.ndim
    return build(a.shape[:axis] + (simp(ops.mul(a.shape[axis], k)),) + a.shape[axis + 1:],
                 lambda idx: f((*idx[:axis], 0 if a.shape[axis] == 1 else ops.floordiv(idx[axis], k), *idx[axis + 1:])), a.dtype)


@model(np.shape)
def _np_shape(it, args, kwargs):
    return tuple(to_arr(it, args[0]).shape)


@model(np.dot)
def _dot(it, args, kwargs):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    if a.ndim == 0 or b.ndim == 0:
        return map_arr(it, [a, b], ops.mul)
    return matmul(it, a, b)


@model(np.cross)
def _cross(it, args, kwargs):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    if a.ndim == 1 and b.ndim == 1 and a.shape == (3,) and b.shape == (3,):
        x, y = [a.get(k) for k in range(3)], [b.get(k) for k in range(3)]
        r = [ops.sub(ops.mul(x[(k + 1) % 3], y[(k + 2) % 3]), ops.mul(x[(k + 2) % 3], y[(k + 1) % 3])) for k in range(3)]
        return mk_arr((3,), lambda idx: pick_num(r, idx[0]), "f")
    if a.ndim == 2 and b.ndim == 2 and same(a.shape[0], b.shape[0]) and a.shape[1] == b.shape[1] == 3:
        f, g = a.snap(), b.snap()

        def e(idx):
            x, y = [[h((idx[0], k)) for k in range(3)] for h in (f, g)]
            return pick_num([ops.sub(ops.mul(x[(k + 1) % 3], y[(k + 2) % 3]), ops.mul(x[(k + 2) % 3], y[(k + 1) % 3])) for k in range(3)], idx[1])

        return build((a.shape[0], 3), e, "f")
    raise Unsupported("np.cross")


@model(np.linalg.norm)
def _norm(it, args, kwargs):
    a = to_arr(it, args[0])
    axis = arg(args, kwargs, 2, "axis")
    if arg(args, kwargs, 1, "ord") is not None:
        raise Unsupported("norm order")
    if axis is None and a.ndim > 1:
        n, f = flat_elems(a)
        if isinstance(a.shape[-1], int) and not isinstance(a.shape[0], int) and a.ndim == 2:
            g = a.snap()
            return ops.sqrt(seq_sum(a.shape[0], lambda i: _addall([ops.mul(g((i, j)), g((i, j))) for j in range(a.shape[1])])))
        return ops.sqrt(seq_sum(n, lambda i: ops.mul(f(i), f(i))))
    return reduce_axis(it, a, axis, lambda n, f: ops.sqrt(seq_sum(n, lambda i: ops.mul(f(i), f(i)))))


@model(np.linalg.det)
def _det(it, args, kwargs):
    a = to_arr(it, args[0])
    if a.shape == (2, 2):
        g = a.get
        return ops.sub(ops.mul(g(0, 0), g(1, 1)), ops.mul(g(0, 1), g(1, 0)))
    if a.shape == (3, 3):
        g = a.get
        t = 0
        for k in range(3):
            i, j = (k + 1) % 3, (k + 2) % 3
            t = ops.add(t, ops.mul(g(0, k), ops.sub(ops.mul(g(1, i), g(2, j)), ops.mul(g(1, j), g(2, i)))))
        return t
    raise Unsupported("det")


@model(np.linalg.inv)
def _inv(it, args, kwargs):
    a = to_arr(it, args[0])
    if a.shape == (2, 2):
        g = a.get
        d = ops.sub(ops.mul(g(0, 0), g(1, 1)), ops.mul(g(0, 1), g(1, 0)))
        if S.branch(ops.cmp("==", d, 0)):
            raise PyExc(np.linalg.LinAlgError, ("Singular matrix",))
        m = [[ops.div(g(1, 1), d), ops.neg(ops.div(g(0, 1), d))], [ops.neg(ops.div(g(1, 0), d)), ops.div(g(0, 0), d)]]
        return build((2, 2), lambda idx: m[idx[0]][idx[1]], "f")
    if a.shape == (3, 3):
        g = a.get
        d = _det(it, [a], {})
        if S.branch(ops.cmp("==", d, 0)):
            raise PyExc(np.linalg.LinAlgError, ("Singular matrix",))
        minor = lambda i, j: ops.sub(ops.mul(g((i + 1) % 3, (j + 1) % 3), g((i + 2) % 3, (j + 2) % 3)), ops.mul(g((i + 1) % 3, (j + 2) % 3), g((i + 2) % 3, (j + 1) % 3)))
        m = [[ops.div(minor(j, i), d) for j in range(3)] for i in range(3)]
        return build((3, 3), lambda idx: pick_num([pick_num(r, idx[1]) for r in m], idx[0]), "f")
    raise Unsupported("inv")


@model(np.linalg.solve)
def _solve(it, args, kwargs):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    if b.ndim != 1 or a.ndim != 2 or a.shape[0] != b.shape[0]:
        raise Unsupported("solve")
    m = _inv(it, [a], {})
    n = b.shape[0]
    r = [_addall([ops.mul(m.get(i, k), b.get(k)) for k in range(n)]) for i in range(n)]
    return build((n,), lambda idx: pick_num(r, idx[0]), "f")


# ---------------------------------------------------------------------------------------------
# ndarray attributes and methods


@method("ndarray", "@shape")
def _shape(it, self):
    return tuple(self.shape)


@method("ndarray", "@ndim")
def _ndim(it, self):
    return self.ndim


@method("ndarray", "@size")
def _size(it, self):
    n = 1
    for s in self.shape:
        n = ops.mul(n, s)
    return n


@method("ndarray", "@dtype")
def _dtype(it, self):
    return {"f": np.dtype(float), "i": np.dtype(int), "b": np.dtype(bool), "O": np.dtype(object)}[self.dtype]


@method("ndarray", "copy")
def _m_copy(it, self, args, kwargs):
    return copy_arr(self)


@method("ndarray", "astype")
def _astype(it, self, args, kwargs):
    a = cast_arr(it, self, np_dtype(force(args[0])))
    return copy_arr(a)


@method("ndarray", "tolist")
def _tolist(it, self, args, kwargs):
    f = self.snap()
    if self.ndim == 1:
        n = conc(self.shape[0])
        if isinstance(n, int):
            return PList([f((k,)) for k in range(n)])
        return PList(n=n, fn=lambda i: f((i,)))
    raise Unsupported("tolist")


@method("ndarray", "item")
def _item(it, self, args, kwargs):
    return self.get(*([0] * self.ndim))


@method("ndarray", "fill")
def _fill(it, self, args, kwargs):
    arr_assign(it, self, force(args[0]))


@method("scalar", "copy")
def _s_copy(it, self, args, kwargs):
    return self


@method("scalar", "item")
def _s_item(it, self, args, kwargs):
    return self


for _nm in ("sum", "mean", "max", "min"):
    method("scalar", _nm)(lambda it, self, args, kwargs: self)
method("scalar", "any")(lambda it, self, args, kwargs: self)
method("scalar", "all")(lambda it, self, args, kwargs: self)
method("scalar", "@shape")(lambda it, self: ())
method("scalar", "@ndim")(lambda it, self: 0)
method("scalar", "@T")(lambda it, self: self)
method("scalar", "@dtype")(lambda it, self: {"b": np.dtype(bool), "i": np.dtype(int), "f": np.dtype(float)}[dtype_of(self)])
method("scalar", "astype")(lambda it, self, args, kwargs: self)
method("scalar", "is_integer")(lambda it, self, args, kwargs: (z3.IsInt(self) if is_term(self) and is_real(self) else True))


# ---------------------------------------------------------------------------------------------
# builtins


@model(len)
def _len(it, args, kwargs):
    v = force(args[0])
    if isinstance(v, PList):
        return v.length()
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, (tuple, str, bytes)):
        return len(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyExc(TypeError, ("len() of unsized object",))
        return v.shape[0]
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, IndexDict):
        return v.n
    if isinstance(v, PSet):
        return len(v.s)
    if isinstance(v, SSet):
        return v.length(it.equals)
    if isinstance(v, PObj):
        m = it.class_attr(v.cls, "__len__")
        if isinstance(m, Func):
            return it.call(Bound(v, m), [])
        if "$dict" in v.attrs:
            return len(v.attrs["$dict"].d)
    if isinstance(v, Opaque):
        raise Unsupported("len of an opaque value")
    if isinstance(v, type):
        return len(v)
    raise PyExc(TypeError, ("object has no len()",))


@model(range)
def _range(it, args, kwargs):
    args = [force(a) for a in args]
    for a in args:
        if not (is_int(a) or is_bool(a)):
            raise PyExc(TypeError, ("range of a non-integer",))
    args = [conc(a) for a in args]
    if all(isinstance(a, int) for a in args):
        r = range(*args)
        if len(r) <= 4096:
            return Seq(items=list(r))
    start, stop = (0, args[0]) if len(args) == 1 else args[:2]
    step = args[2] if len(args) > 2 else 1
    if step == 1:
        n = simp(ite(ops.cmp(">", stop, start), ops.sub(stop, start), 0))
        return Seq(n=n, fn=lambda i: simp(ops.add(start, i)))
    if step == -1:
        n = simp(ite(ops.cmp("<", stop, start), ops.sub(start, stop), 0))
        return Seq(n=n, fn=lambda i: simp(ops.sub(start, i)))
    if isinstance(conc(step), int) and conc(step) > 0:
        st = conc(step)
        d = zi(ops.sub(stop, start))
        n = simp(z3.If(d <= 0, z3.IntVal(0), (d + (st - 1)) / st))
        return Seq(n=n, fn=lambda i: simp(ops.add(start, ops.mul(i, st))))
    raise Unsupported("range step")


@model(zip)
def _zip(it, args, kwargs):
    if len(args) == 1 and isinstance(args[0], StarSeq):
        st = args[0]
        probe = it.seq(st.fn(z3.Int("canon!probe")))
        w = conc(probe[0])
        if isinstance(w, int) and S.branch(ops.cmp(">", st.n, 0)):
            return Seq(items=[SeqTuple(st.n, lambda i, k=k: it.seq(st.fn(i))[1](k)) for k in range(w)])
        if isinstance(w, int):
            return Seq(items=[])
        raise Unsupported("zip(*symbolic)")
    seqs = [it.seq(a) for a in args]
    if not seqs:
        return Seq(items=[])
    if all(s[2] is not None for s in seqs):
        return Seq(items=list(zip(*[s[2] for s in seqs])))
    n = seqs[0][0]
    for s in seqs[1:]:
        if not same(n, s[0]):
            if S.entails(zi(n) == zi(s[0])):
                n = n if not isinstance(s[0], int) else s[0]
            else:
                n = simp(ite(ops.cmp("<=", n, s[0]), n, s[0]))
    fns = [s[1] for s in seqs]
    return Seq(n=n, fn=lambda i: tuple(f(i) for f in fns))


def SeqTuple(n, fn):
    return PList(n=n, fn=fn)


@model(enumerate)
def _enumerate(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    st = arg(args, kwargs, 1, "start", 0)
    if items is not None:
        return Seq(items=[(k + st, x) for k, x in enumerate(items)])
    return Seq(n=n, fn=lambda i: (simp(ops.add(i, st)), fn(i)))


@model(reversed)
def _reversed(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    if items is not None:
        return Seq(items=list(reversed(items)))
    return Seq(n=n, fn=lambda i: fn(simp(ops.sub(ops.sub(n, 1), i))))


@model(list)
def _list(it, args, kwargs):
    if not args:
        return PList([])
    n, fn, items = it.seq(args[0])
    return PList(items) if items is not None else PList(n=n, fn=fn)


@model(iter)
def _iter(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    return Seq(items=items) if items is not None else Seq(n=n, fn=fn)


@model(tuple)
def _tuple(it, args, kwargs):
    if not args:
        return ()
    n, fn, items = it.seq(args[0])
    if items is None:
        return PList(n=n, fn=fn)
    return tuple(items)


@model(set, frozenset)
def _set(it, args, kwargs):
    if not args:
        return PSet()
    n, fn, items = it.seq(args[0])
    if items is None:
        return SSet(n, fn)
    items = [force(x) for x in items]
    if any(is_term(x) for x in items):
        if not all(is_scalar(x) for x in items):
            raise Unsupported("set of mixed symbolic members")
        return SSet(n, fn, items)
    return PSet({it.hashkey(x) for x in items})


@model(dict)
def _dict(it, args, kwargs):
    d = {}
    if args:
        v = force(args[0])
        if isinstance(v, PDict):
            d.update(v.d)
        elif isinstance(v, PObj) and "$dict" in v.attrs:
            d.update(v.attrs["$dict"].d)
        else:
            n, fn, items = it.seq(v)
            if items is None:
                probe = z3.Int("canon!probe")
                pair = fn(probe)
                if isinstance(pair, tuple) and len(pair) == 2 and is_term(pair[0]) and simp(pair[0] - probe) == 0 and not kwargs:
                    return IndexDict(n, lambda i: fn(i)[1])  # dict(enumerate(...))
                raise Unsupported("dict of a symbolic sequence")
            for x in items:
                k, w = it.seq(x)[2]
                d[it.hashkey(k)] = w
    d.update(kwargs)
    return PDict(d)


@model(map)
def _map(it, args, kwargs):
    f = args[0]
    seqs = [it.seq(a) for a in args[1:]]
    if all(s[2] is not None for s in seqs):
        return Seq(items=[it.call(f, list(xs)) for xs in zip(*[s[2] for s in seqs])])
    n = seqs[0][0]
    if len(seqs) > 1:
        raise Unsupported("map over several symbolic sequences")
    return Seq(n=n, fn=map_seq(n, lambda i: it.call(f, [seqs[0][1](i)])))


@model(np.isscalar)
def _isscalar(it, args, kwargs):
    v = force(args[0])
    if isinstance(v, Choice):
        raise Unsupported("isscalar of a value of varying type")
    if isinstance(v, Arr):
        return False
    return is_scalar(v) or isinstance(v, (str, bytes))


@model(filter)
def _filter(it, args, kwargs):
    n, fn, items = it.seq(args[1])
    if items is None:
        g = args[0]
        mask = map_seq(n, lambda i: it.truth(it.call(g, [fn(i)]) if g is not None else fn(i)))
        m, f, sel, rank = filter_seq(n, lambda i: force(mask(i)), fn)
        return Seq(n=m, fn=f)
    return Seq(items=[x for x in items if it.test(it.call(args[0], [x]) if args[0] is not None else x)])


@model(sum)
def _sum(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    start = arg(args, kwargs, 1, "start", 0)
    if items is not None:
        r = start
        for x in items:
            r = it.binop("Add", r, x)
        return r
    f = map_seq(n, lambda i: force(fn(i)))
    return ops.add(start, seq_sum(n, f))


def _minmax(largest):
    def m(it, args, kwargs):
        key = kwargs.get("key")
        if len(args) > 1:
            n, fn, items = len(args), None, [force(a) for a in args]
        else:
            n, fn, items = it.seq(args[0])
        if items is not None:
            if not items:
                if "default" in kwargs:
                    return kwargs["default"]
                raise PyExc(ValueError, ("empty sequence",))
            items = [force(x) for x in items]
            ks = [it.call(key, [x]) for x in items] if key is not None else items
            best, bk = items[0], ks[0]
            for x, k in zip(items[1:], ks[1:]):
                c = it.truth(it.compare("Gt" if largest else "Lt", k, bk))
                best = merge([(c, x)], best)
                bk = merge([(c, k)], bk)
            return best
        if "default" in kwargs and not S.branch(ops.cmp(">", n, 0)):
            return kwargs["default"]
        if key is not None:
            kf = map_seq(n, lambda i: force(it.call(key, [fn(i)])))
            v, at = seq_extreme(n, kf, largest, "max" if largest else "min")
            return fn(at)
        return seq_extreme(n, lambda i: fn(i), largest, "max" if largest else "min")[0]

    return m


model(max)(_minmax(True))
model(min)(_minmax(False))


@model(sorted)
def _sorted(it, args, kwargs):
    key = kwargs.get("key")
    rev = bool(kwargs.get("reverse", False))
    return sort_list(it, it.seq(args[0]), key, rev)


def sort_list(it, seq, key, rev):
    n, fn, items = seq
    if items is not None and len(items) <= 1:
        return PList(items)
    if items is not None:
        ks = [force(it.call(key, [x]) if key is not None else x) for x in items]
        try:
            lows = [it.lower(k) for k in ks]
            order = sorted(range(len(items)), key=lambda i: lows[i], reverse=rev)
            return PList([items[i] for i in order])
        except (Unsupported,):
            pass
        if len(items) <= 4:
            # exact sorting network by forking on comparisons (insertion sort)
            out = []
            for x, k in zip(items, ks):
                pos = len(out)
                while pos > 0 and S.branch(it.truth(it.compare("Gt" if rev else "Lt", k, out[pos - 1][1]))):
                    pos -= 1
                out.insert(pos, (x, k))
            return PList([x for x, _ in out])
        n = len(items)
        fn = lambda i: pick(items, i)
    if key is not None:
        kf = map_seq(n, lambda i: force(it.call(key, [fn(i)])))
    else:
        kf = lambda i: force(fn(i))
    leq = key_leq(it)
    p, q = sort_perm(n, kf, (lambda a, b: leq(b, a)) if rev else leq)
    r = PList(n=n, fn=lambda i: fn(p(zi(i))))
    return r


@model(any)
def _any(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    if items is not None:
        r = False
        for x in items:
            r = ops.lor(r, it.truth(x))
        return r
    f = map_seq(n, lambda i: it.truth(fn(i)))
    return exists_bool(n, f)


@model(all)
def _all(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    if items is not None:
        r = True
        for x in items:
            r = ops.land(r, it.truth(x))
        return r
    f = map_seq(n, lambda i: it.truth(fn(i)))
    return forall_bool(n, f)


@model(abs)
def _abs(it, args, kwargs):
    v = force(args[0])
    if isinstance(v, Arr):
        return map_arr(it, [v], ops.absolute, v.dtype)
    if isinstance(v, TD):
        return TD(ops.absolute(v.t))
    if not is_scalar(v):
        raise PyExc(TypeError, ("bad operand for abs",))
    return ops.absolute(v)


@model(float)
def _float(it, args, kwargs):
    v = force(args[0]) if args else 0
    if isinstance(v, Arr):
        v = v.get(*([0] * v.ndim))
    if isinstance(v, str):
        try:
            return ops.norm(float(v))
        except ValueError as e:
            raise PyExc(ValueError, e.args)
    if isinstance(v, NumText):
        return _real(v.t)
    if not is_scalar(v):
        raise PyExc(TypeError, ("float() argument",))
    return _real(v)


@model(ast.literal_eval)
def _literal_eval(it, args, kwargs):
    v = force(args[0])
    if isinstance(v, NumText):
        return v.t
    if isinstance(v, terms.Text) or not isinstance(v, str):
        raise Unsupported("literal_eval")
    try:
        return it.lift(ast.literal_eval(v))
    except Exception as e:  # noqa: BLE001 -- as CPython
        raise PyExc(type(e), e.args)


@method("numtext", "replace")
def _num_replace(it, self, args, kwargs):
    if isinstance(args[0], str) and len(args[0]) == 1 and args[0] not in "0123456789.+-einfaINFA":
        return self
    raise Unsupported("replacing characters of a number")


@method("numtext", "strip", "rstrip", "lstrip")
def _num_strip(it, self, args, kwargs):
    if args:
        raise Unsupported("strip with characters")
    return self


@model(next)
def _next(it, args, kwargs):
    v = force(args[0])
    m = it.class_attr(v.cls, "__next__") if isinstance(v, PObj) else None
    if m is None or len(args) > 1:
        raise Unsupported("next")
    return it.call(it.getattr(v, "__next__"), [])


@model(int)
def _int(it, args, kwargs):
    v = force(args[0]) if args else 0
    if isinstance(v, Arr):
        v = v.get(*([0] * v.ndim))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            raise PyExc(ValueError, e.args)
    if not is_scalar(v):
        raise PyExc(TypeError, ("int() argument",))
    if is_bool(v):
        return conc(zi(v))
    if is_int(v):
        return v
    st = Store((), None, "i")
    return store_val(st, v)


@model(bool)
def _bool(it, args, kwargs):
    return it.truth(args[0]) if args else False


@model(repr)
def _repr(it, args, kwargs):
    v = force(args[0])
    return str(v) if isinstance(v, int) else repr(v) if type(v) is str else terms.Text()


@model(str)
def _str(it, args, kwargs):
    v = force(args[0]) if args else ""
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, PObj):
        f = it.class_attr(v.cls, "__str__")
        if isinstance(f, Func):
            return it.call(Bound(v, f), [], {})
    return terms.Text()


@model(divmod)
def m_divmod(it, args, kw):
    a, b = args
    return (ops.floordiv(a, b), ops.mod(a, b))


@model(round)
def _round(it, args, kwargs):
    x, nd = force(args[0]), (force(args[1]) if len(args) > 1 else None)
    if is_scalar(x) and not is_term(x) and not isinstance(x, Fraction):
        return round(x) if nd is None else round(x, nd)
    if not is_scalar(x) or not (nd is None or isinstance(nd, int)):
        raise Unsupported("round")
    if is_int(x) and (nd is None or nd >= 0):
        return x
    r = z3.Function("round" + ("" if nd is None else f"!{nd}"), REAL, INT if nd is None else REAL)(zr(x))
    half = z3.RealVal(1) / z3.RealVal(2 * 10 ** (nd or 0))
    S.assume(z3.And(zr(r) - zr(x) <= half, zr(x) - zr(r) <= half))
    return r


@model(isinstance)
def _isinstance(it, args, kwargs):
    v = force(args[0])
    ts = args[1] if isinstance(args[1], tuple) else (args[1],)
    return any(inst(v, t) for t in ts)


def inst(v, t):
    import collections.abc as cabc
    import typing

    if not isinstance(t, type):
        if t is typing.Iterable:
            t = cabc.Iterable
        elif t is typing.Callable:
            t = cabc.Callable
        elif t is typing.Union:
            return False
    if isinstance(v, PObj):
        try:
            return issubclass(v.cls, t)
        except TypeError:
            return False
    if isinstance(v, Opaque):
        if v.types is None:
            raise Unsupported("isinstance of an opaque value")
        return any(issubclass(x, t) for x in v.types)
    real = None
    if v is None:
        real = type(None)
    elif isinstance(v, Arr):
        real = np.ndarray
    elif isinstance(v, PList):
        real = list
    elif isinstance(v, tuple):
        real = tuple
    elif isinstance(v, (PDict, IndexDict)):
        real = dict
    elif isinstance(v, SSet):
        real = dict if v.ordered else set
    elif isinstance(v, PSet):
        real = set
    elif isinstance(v, DT):
        real = _dt.datetime
    elif isinstance(v, TD):
        real = _dt.timedelta
    elif isinstance(v, Seq):
        real = type(iter([]))
    elif is_bool(v):
        real = bool
    elif is_int(v):
        real = int
    elif is_real(v) or isinstance(v, float):
        real = float
    elif isinstance(v, (Func, OpaqueFn, Bound, MethodOf)):
        return t in (cabc.Callable,) or t is type(lambda: 0)
    else:
        real = type(v)
    try:
        if real is float and t in (np.floating, np.float64):
            S.notes.add("a symbolic real is treated as a Python float by isinstance checks")
            return False
        return issubclass(real, t)
    except TypeError:
        raise Unsupported(f"isinstance with {t}")


@model(issubclass)
def _issubclass(it, args, kwargs):
    return issubclass(force(args[0]), args[1])


@model(type)
def _type(it, args, kwargs):
    v = force(args[0])
    if isinstance(v, PObj):
        return v.cls
    if is_bool(v):
        return bool
    if is_int(v):
        return int
    if is_real(v):
        return float
    if v is None:
        return type(None)
    m = {"ndarray": np.ndarray, "list": list, "tuple": tuple, "dict": dict, "str": str, "datetime": _dt.datetime,
         "timedelta": _dt.timedelta}
    k = kind_of(v)
    if k in m:
        return m[k]
    raise Unsupported("type()")


@model(callable)
def _callable(it, args, kwargs):
    v = force(args[0])
    if isinstance(v, (Func, OpaqueFn, Bound, MethodOf)):
        return True
    if isinstance(v, PObj):
        return it.class_attr(v.cls, "__call__") is not None
    if isinstance(v, (Arr, PList, PDict, tuple, str)) or is_scalar(v) or v is None:
        return False
    return callable(v)


@model(getattr)
def _getattr(it, args, kwargs):
    return it.getattr(args[0], args[1], args[2] if len(args) > 2 else UNDEF)


@model(hasattr)
def _hasattr(it, args, kwargs):
    try:
        it.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(setattr)
def _setattr(it, args, kwargs):
    it.setattr(args[0], args[1], args[2])


@model(print)
def _print(it, args, kwargs):
    return None


@model(id)
def _id(it, args, kwargs):
    return id(force(args[0]))


@model(hash)
def _hash(it, args, kwargs):
    raise Unsupported("hash")


@model(object.__init__)
def _obj_init(it, args, kwargs):
    return None


@model(property)
def _property(it, args, kwargs):
    raise Unsupported("property object")


@model(np.finfo)
def _finfo(it, args, kwargs):
    return np.finfo(float)


@model(slice)
def _slice(it, args, kwargs):
    args = [force(a) for a in args]
    if len(args) == 1:
        return SliceV(None, args[0], None)
    return SliceV(args[0], args[1], args[2] if len(args) > 2 else None)


# list methods
@method("list", "append")
def _l_append(it, self, args, kwargs):
    self.append(args[0])


@method("list", "extend")
def _l_extend(it, self, args, kwargs):
    it.list_extend(self, args[0])


@method("list", "copy")
def _l_copy(it, self, args, kwargs):
    return PList(self.items) if self.items is not None else PList(n=self.n, fn=self.fn)


@method("list", "sort")
def _l_sort(it, self, args, kwargs):
    r = sort_list(it, it.seq(self), kwargs.get("key"), bool(kwargs.get("reverse", False)))
    self.assign(items=r.items, n=r.n, fn=r.fn)


@method("list", "pop")
def _l_pop(it, self, args, kwargs):
    n, fn = self.pure()
    if S.branch(ops.cmp("==", n, 0)):
        raise PyExc(IndexError, ("pop from empty list",))
    i = it.norm_index(force(args[0]) if args else -1, n)
    v = fn(i)
    if self.items is not None and isinstance(i, int):
        items = list(self.items)
        items.pop(i)
        self.assign(items=items)
    else:
        self.assign(n=simp(ops.sub(n, 1)), fn=lambda k: merge([(ops.cmp("<", k, i), fn(k))], lambda: fn(simp(ops.add(k, 1)))))
    return v


@method("list", "insert")
def _l_insert(it, self, args, kwargs):
    i, v = conc(force(args[0])), args[1]
    if self.items is not None and isinstance(i, int):
        items = list(self.items)
        items.insert(i, v)
        self.assign(items=items)
        return
    n, fn = self.pure()
    if i == 0:
        self.assign(n=simp(ops.add(n, 1)), fn=lambda k: merge([(ops.cmp("==", k, 0), v)], lambda: fn(simp(ops.sub(k, 1)))))
        return
    raise Unsupported("list.insert")


@method("list", "remove")
def _l_remove(it, self, args, kwargs):
    if self.items is None:
        raise Unsupported("list.remove on a symbolic list")
    for k, x in enumerate(self.items):
        if S.branch(it.truth(it.equals(x, args[0]))):
            items = list(self.items)
            items.pop(k)
            self.assign(items=items)
            return None
    raise PyExc(ValueError, ("list.remove(x): x not in list",))


@method("list", "reverse")
def _l_reverse(it, self, args, kwargs):
    n, fn = self.pure()
    if self.items is not None:
        self.assign(items=list(reversed(self.items)))
    else:
        self.assign(n=n, fn=lambda i: fn(simp(ops.sub(ops.sub(n, 1), i))))


def _index(it, self, args, kwargs):
    n, fn, items = it.seq(self)
    x = force(args[0])
    if items is not None:
        for k, y in enumerate(items):
            if S.branch(it.truth(it.equals(y, x))):
                return k
        raise PyExc(ValueError, ("not in list",))
    found = exists_bool(n, lambda i: it.equals(fn(i), x), "in")
    if not S.branch(found):
        raise PyExc(ValueError, ("not in list",))
    at = S.fresh("index", INT)
    k = S.bound("k")
    S.assume(z3.And(at >= 0, at < zi(n), zb(it.equals(fn(at), x))))
    S.forall([k], z3.Implies(z3.And(k >= 0, k < at), z3.Not(zb(it.equals(fn(k), x)))))
    return at


method("list", "index")(_index)
method("tuple", "index")(_index)


@method("list", "count")
def _count(it, self, args, kwargs):
    n, fn, items = it.seq(self)
    x = force(args[0])
    f = map_seq(n, lambda i: ite(it.truth(it.equals(fn(i), x)), 1, 0)) if items is None else None
    if items is not None:
        return _addall([ite(it.truth(it.equals(y, x)), 1, 0) for y in items])
    return seq_sum(n, f)


@method("list", "clear")
def _l_clear(it, self, args, kwargs):
    self.assign(items=[])


# dict methods
@method("idict", "keys")
def _id_keys(it, self, args, kwargs):
    return Seq(n=self.n, fn=lambda i: i)


@method("idict", "values")
def _id_values(it, self, args, kwargs):
    return Seq(n=self.n, fn=self.fn)


@method("idict", "items")
def _id_items(it, self, args, kwargs):
    return Seq(n=self.n, fn=lambda i: (i, self.fn(i)))


@method("dict", "keys")
def _d_keys(it, self, args, kwargs):
    return Seq(items=list(self.d))


@method("dict", "values")
def _d_values(it, self, args, kwargs):
    return Seq(items=list(self.d.values()))


@method("dict", "items")
def _d_items(it, self, args, kwargs):
    return Seq(items=list(self.d.items()))


@method("dict", "get")
def _d_get(it, self, args, kwargs):
    k = it.hashkey(args[0])
    return self.d.get(k, args[1] if len(args) > 1 else kwargs.get("default"))


@method("dict", "copy")
def _d_copy(it, self, args, kwargs):
    return PDict(self.d)


@method("dict", "update")
def _d_update(it, self, args, kwargs):
    new = dict(self.d)
    if args:
        new.update(_dict(it, args, {}).d)
    new.update(kwargs)
    self._save()
    self.d = new


@method("dict", "pop")
def _d_pop(it, self, args, kwargs):
    k = it.hashkey(args[0])
    if k not in self.d:
        if len(args) > 1:
            return args[1]
        raise PyExc(KeyError, (k,))
    v = self.d[k]
    self.delete(k)
    return v


@method("dict", "setdefault")
def _d_setdefault(it, self, args, kwargs):
    k = it.hashkey(args[0])
    if k not in self.d:
        self.set(k, args[1] if len(args) > 1 else None)
    return self.d[k]


@method("dict", "clear")
def _d_clear(it, self, args, kwargs):
    self._save()
    self.d = {}


@method("set", "add")
def _s_add(it, self, args, kwargs):
    self.s = self.s | {it.hashkey(args[0])}


@method("set", "union")
def _s_union(it, self, args, kwargs):
    r = set(self.s)
    for a in args:
        r |= set(it.hashkey(x) for x in seq_items(it, a))
    return PSet(r)


def _fromkeys(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    if items is not None and not any(is_term(force(x)) for x in items):
        return PDict({it.hashkey(x): (args[1] if len(args) > 1 else None) for x in items})
    return SSet(n, fn, items, ordered=True)


MODELS[(dict, "fromkeys")] = _fromkeys


def _now(it, args, kwargs):
    return DT(S.fresh("now"))


for _name in ("now", "utcnow", "today"):
    MODELS[(_dt.datetime, _name)] = _now


@method("sset", "keys")
def _ss_keys(it, self, args, kwargs):
    return self


def subset(it, a, b):
    """a <= b for sets of which at least one is symbolic"""
    n, fn, items = set_parts(it, a)
    if isinstance(b, (PSet, SSet)):
        has = (lambda x: b.has(x, it.equals)) if isinstance(b, SSet) else (lambda x: it.contains(PList(sorted(b.s, key=repr)), x))
    else:
        has = lambda x: it.contains(b, x)
    if items is not None:
        r = True
        for x in items:
            r = ops.land(r, has(x))
        return r
    # members without a partner: a witness and a universal fact
    bn, bf, bi = set_parts(it, b) if isinstance(b, (PSet, SSet)) else it.seq(b)
    ok, w = S.fresh("subset", BOOL), S.fresh("outside", INT)
    pos = S.fresh_fun("pos", 1, INT)
    k, l = S.bound("k"), S.bound("l")
    S.assume(z3.Or(ok, z3.And(w >= 0, w < zi(n))))
    S.touch(fn(w))
    S.forall([l], z3.Implies(z3.And(z3.Not(ok), l >= 0, l < zi(bn)), z3.Not(zb(it.equals(bf(l), fn(w))))), name="outside")
    S.forall([k], z3.Implies(z3.And(ok, k >= 0, k < zi(n)), z3.And(pos(k) >= 0, pos(k) < zi(bn), zb(it.equals(bf(pos(k)), fn(k))))),
             name="subset")
    return ok


def set_parts(it, a):
    if isinstance(a, SSet):
        return a.n, a.fn, a.items
    return it.seq(a)


@method("sset", "issubset")
def _ss_issubset(it, self, args, kwargs):
    return subset(it, self, force(args[0]))


@method("set", "issubset")
def _s_issubset(it, self, args, kwargs):
    o = force(args[0])
    if isinstance(o, SSet) or (not isinstance(o, PSet) and it.seq(o)[2] is None) or (isinstance(o, (Arr, PList, tuple)) and any(is_term(force(x)) for x in it.seq(o)[2])):
        return subset(it, self, o)
    return self.s <= set(it.hashkey(x) for x in seq_items(it, args[0]))


# timedelta / datetime
method("timedelta", "total_seconds")(lambda it, self, args, kwargs: self.t)


@model(_dt.timedelta)
def _timedelta(it, args, kwargs):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    mult = {"days": 86400, "seconds": 1, "microseconds": Fraction(1, 10**6), "milliseconds": Fraction(1, 1000),
            "minutes": 60, "hours": 3600, "weeks": 604800}
    t = 0
    for k, v in list(zip(names, args)) + list(kwargs.items()):
        t = ops.add(t, ops.mul(force(v), mult[k]))
    return TD(_real(t))


import warnings as _warnings  # noqa: E402


@model(_warnings.warn)
def _warn(it, args, kwargs):
    return None


import copy as _copy_mod  # noqa: E402


@model(_copy_mod.copy)
def _copy_copy(it, args, kwargs):
    v = force(args[0])
    if isinstance(v, Arr):
        return copy_arr(v)
    if isinstance(v, PList):
        return PList(v.items) if v.items is not None else PList(n=v.n, fn=v.fn)
    if isinstance(v, PDict):
        return PDict(v.d)
    if isinstance(v, PObj):
        return PObj(v.cls, v.attrs)
    return v


def with_enter(it, cm):
    cm = force(cm)
    if isinstance(cm, PObj):
        m = it.class_attr(cm.cls, "__enter__")
        return it.call(Bound(cm, m), [])
    raise Unsupported("with statement")


def with_exit(it, cm):
    cm = force(cm)
    if isinstance(cm, PObj):
        m = it.class_attr(cm.cls, "__exit__")
        if m is not None:
            it.call(Bound(cm, m), [None, None, None])


# bisect
import bisect as _bisect  # noqa: E402


def _bisect_model(left):
    def m(it, args, kwargs):
        n, fn, items = it.seq(args[0])
        x = force(args[1])
        leq, key = key_leq(it), (lambda i: force(fn(zi(i)) if items is None else pick(items, i)))
        if kwargs or len(args) > 2:
            raise Unsupported("bisect with bounds or a key")
        before = (lambda v: ops.lnot(leq(x, v))) if left else (lambda v: leq(v, x))
        nn = zi(n)
        i, j = z3.Int(S.name("bis")), z3.Int(S.name("bis"))
        mark = len(S.conds)
        S.conds.append(z3.And(i >= 0, i < j, j < nn))
        asc = S.entails(zb(leq(key(i), key(j))), timeout=2.0, rounds=2)
        del S.conds[mark:]
        p = S.fresh("bisect", INT)
        S.assume(z3.And(p >= 0, p <= nn))
        if asc:
            k = S.bound("k")
            S.forall([k], z3.Implies(z3.And(k >= 0, k < p), zb(before(key(k)))), name="bisect-before")
            S.forall([k], z3.Implies(z3.And(k >= p, k < nn), z3.Not(zb(before(key(k))))), name="bisect-after")
        return p

    return m


model(_bisect.bisect_left)(_bisect_model(True))
model(_bisect.bisect_right)(_bisect_model(False))
model(_bisect.bisect)(_bisect_model(False))


# itertools
def chain_seqs(it, seqs):
    seqs = [it.seq(a) for a in seqs]
    if all(s[2] is not None for s in seqs):
        return Seq(items=[x for s in seqs for x in s[2]])
    total, starts = 0, []
    for s in seqs:
        starts.append(total)
        total = simp(ops.add(total, s[0]))

    def fn(i):
        alts = [(z3.And(zi(i) < zi(st) + zi(s[0])), (lambda s=s, st=st: s[1](simp(zi(i) - zi(st))))) for s, st in zip(seqs[:-1], starts)]
        return merge([(c, f()) for c, f in alts], lambda: seqs[-1][1](simp(zi(i) - zi(starts[-1]))))

    return Seq(n=total, fn=fn)


@model(itertools.islice)
def _islice(it, args, kwargs):
    n, fn, items = it.seq(args[0])
    if len(args) != 2 or items is None:
        raise Unsupported("islice of this form")
    stop = it.lower(force(args[1]))
    return Seq(items=items[:stop])


@model(itertools.chain)
def _chain(it, args, kwargs):
    return chain_seqs(it, args)


@model(itertools.chain.from_iterable)
def _chain_from(it, args, kwargs):
    parts = it.seq(args[0])[2]
    if parts is None:
        raise Unsupported("chain of a symbolic number of iterables")
    return chain_seqs(it, parts)
