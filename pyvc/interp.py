"""AST interpreter for the functions of the repository, run on symbolic values."""
import ast
import builtins
import datetime as _dt
import enum
import inspect
import os
import sys
import types
from fractions import Fraction

from . import ops, terms
from .terms import (BOOL, INT, REAL, Unsupported, conc, is_bool, is_int, is_num, is_real, is_scalar, is_term,
                    mentions, same, simp, zb, zi, zr)
from .values import (DT, TD, NumText, UNDEF, Arr, Choice, ControlFlow, Frame, Generic, Heap, Infeasible, Opaque, OpaqueFn,
                     IndexDict, PDict, PList, PObj, PSet, SSet, PyExc, S, Seq, Store, closure_of, conj, exists_bool, filter_seq,
                     force, forall_bool, generic, identical, ite, map_seq, merge, merge_list, merged_value, mk_arr,
                     pick, settle_exceptions, subst_val)
from .z3load import z3

REPO = os.environ.get("PYVC_REPO", "/repo")
MODELS = {}      # id(real callable) -> model(interp, args, kwargs)
METHODS = {}     # (kind, name) -> model(interp, self, args, kwargs)
CONTRACTS = {}   # qualname -> summary used at call sites instead of the body
_KEEP = []
_AST = {}


def model(*objs):
    def deco(f):
        for o in objs:
            MODELS[id(o)] = f
            if isinstance(o, types.BuiltinMethodType) and isinstance(o.__self__, type):
                MODELS[(o.__self__, o.__name__)] = f  # a new object on every access
            _KEEP.append(o)
        return f

    return deco


def method(kind, *names):
    def deco(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f

    return deco


class Func:
    """Function or lambda of the repository (AST)."""

    __slots__ = ("node", "globs", "closure", "owner", "defaults", "kwdefaults", "name", "qual", "module", "marks")

    def __init__(self, node, globs, closure=None, owner=None, defaults=(), kwdefaults=None, qual=None, module=None):
        self.node, self.globs, self.closure, self.owner = node, globs, closure, owner
        self.defaults, self.kwdefaults = list(defaults), dict(kwdefaults or {})
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or self.name
        self.module = module
        self.marks = {}


class Bound:
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class MethodOf:
    """builtin method of an engine value"""

    __slots__ = ("obj", "kind", "name")

    def __init__(self, obj, kind, name):
        self.obj, self.kind, self.name = obj, kind, name


class Super:
    __slots__ = ("owner", "obj")

    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ReturnSig(ControlFlow):
    def __init__(self, v):
        super().__init__("return", v)


class BreakSig(ControlFlow):
    def __init__(self):
        super().__init__("break")


class ContinueSig(ControlFlow):
    def __init__(self):
        super().__init__("continue")


def member_of_selection(n, fn, x):
    "x in [i for i in range(N) if P(i)]  is  0 <= x < N and P(x)"
    if not is_scalar(x) or not is_int(x):
        return None
    k = S.bound("k")
    y = fn(k)
    if not is_term(y) or not is_int(y):
        return None
    x = zi(x)
    if y.eq(k):
        return z3.And(x >= 0, x < zi(n))
    if z3.is_app(y) and y.num_args() == 1 and y.arg(0).eq(k):
        for f in S.filters.values():
            if f[0] < len(S.facts) and S.facts[f[0]] is f[1] and f[3](k).eq(y) and same(n, f[2]):
                return z3.And(x >= 0, x < f[5], z3.substitute(f[6], (z3.Int("filter!x"), x)))
    return None


def is_repo_module(name):
    return isinstance(name, str) and (name == "hrosailing" or name.startswith(("hrosailing.", "contracts.")))


def module_ast(path):
    if path not in _AST:
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min(d.lineno for d in node.decorator_list)
                idx.setdefault((line, getattr(node, "name", "<lambda>")), node)
        _AST[path] = (tree, idx, src)
    return _AST[path]


def func_node(pyfn):
    code = pyfn.__code__
    tree, idx, _ = module_ast(code.co_filename)
    node = idx.get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported(f"no source for {pyfn.__qualname__}")
    return node


EXC_BASES = (BaseException,)


class Interp:
    def __init__(self):
        self.max_depth = 60
        self.max_steps = 400000

    # -- lifting of real objects ------------------------------------------------------------
    def lift(self, o):
        if o is None or isinstance(o, (bool, int, str, bytes)) or o is Ellipsis or o is NotImplemented:
            return o
        if isinstance(o, float):
            return ops.norm(o)
        if isinstance(o, (Fraction,)) or is_term(o):
            return o
        if isinstance(o, (Heap, Arr, Seq, Choice, Func, Bound, Opaque, OpaqueFn, DT, TD, NumText, MethodOf, Super, SliceV)):
            return o
        import numpy as np

        if isinstance(o, np.ndarray):
            key = ("nd", id(o))
            if key not in S.lifted:
                S.lifted[key] = (self.lift_ndarray(o), o)
            return S.lifted[key][0]
        if isinstance(o, np.generic):
            return self.lift(o.item())
        if isinstance(o, tuple):
            if hasattr(o, "_fields") and is_repo_module(type(o).__module__):
                v = PObj(type(o), {k: self.lift(x) for k, x in zip(o._fields, o)})
                v.stamp = 0
                return v
            return tuple(self.lift(x) for x in o)
        key = id(o)
        if key in S.lifted:
            return S.lifted[key][0]
        if isinstance(o, list):
            v = PList([self.lift(x) for x in o])
        elif isinstance(o, dict):
            v = PDict({k: self.lift(x) for k, x in o.items()})
        elif isinstance(o, (set, frozenset)):
            v = PSet(o)
        elif isinstance(o, _dt.datetime):
            v = DT(Fraction(o.timestamp() if o.tzinfo else (o - _dt.datetime(1970, 1, 1)).total_seconds()))
        elif isinstance(o, _dt.timedelta):
            v = TD(Fraction(repr(o.total_seconds())))
        elif isinstance(o, types.FunctionType) and is_repo_module(o.__module__) and id(o) not in MODELS:
            v = self.lift_func(o)
        elif isinstance(o, types.MethodType) and is_repo_module(getattr(o.__func__, "__module__", "")):
            v = Bound(self.lift(o.__self__), self.lift(o.__func__))
        elif isinstance(o, enum.Enum):
            v = o
        elif isinstance(o, (type, types.ModuleType, types.BuiltinFunctionType, types.FunctionType)):
            v = o
        elif is_repo_module(type(o).__module__):
            v = PObj(type(o))
            v.stamp = 0
            S.lifted[key] = (v, o)
            v.attrs = {k: self.lift(x) for k, x in vars(o).items()}
        else:
            v = o
        S.lifted[key] = (v, o)
        return v

    def lift_ndarray(self, o):
        flat = o.tolist()
        dt = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(o.dtype.kind, "O")
        shape = o.shape

        def fn(idx):
            x = flat
            idx = [conc(i) for i in idx]
            if all(isinstance(i, int) for i in idx):
                for i in idx:
                    x = x[i]
                return self.lift(x)
            k = next(j for j, i in enumerate(idx) if not isinstance(i, int))
            return merge(
                [(zi(idx[k]) == m, fn(tuple(idx[:k] + [m] + idx[k + 1:]))) for m in range(shape[k] - 1)],
                lambda: fn(tuple(idx[:k] + [shape[k] - 1] + idx[k + 1:])),
            )

        return mk_arr(shape, fn, dt)

    def lift_func(self, f):
        node = func_node(f)
        defaults = [self.lift(x) for x in (f.__defaults__ or ())]
        kwd = {k: self.lift(x) for k, x in (f.__kwdefaults__ or {}).items()}
        clo = None
        if f.__closure__:
            clo = Frame(f.__globals__)
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                if nm == "__class__":
                    continue
                clo.vars[nm] = self.lift(cell.cell_contents)
        owner = None
        if f.__closure__ and "__class__" in f.__code__.co_freevars:
            owner = f.__closure__[f.__code__.co_freevars.index("__class__")].cell_contents
        fn = Func(node, f.__globals__, clo, owner, defaults, kwd, f.__qualname__, f.__module__)
        return fn

    # -- names ------------------------------------------------------------------------------
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        if name in fr.globs:
            return self.lift(fr.globs[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, (name,))

    # -- calls ------------------------------------------------------------------------------
    def call(self, fv, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        fv = force(fv)
        args = list(args)
        if isinstance(fv, Bound):
            return self.call(fv.fn, [fv.self_] + args, kwargs, node)
        if isinstance(fv, Func):
            key = f"{fv.module}.{fv.qual}" if fv.module else fv.qual
            summ = CONTRACTS.get(key)
            if summ is not None and S.used is not None:
                S.used.add(key)
                return summ(self, fv, args, kwargs)
            return self.call_func(fv, args, kwargs)
        if isinstance(fv, OpaqueFn):
            return fv.model(self, args, kwargs)
        if isinstance(fv, MethodOf):
            m = METHODS.get((fv.kind, fv.name))
            if m is None:
                raise Unsupported(f"method {fv.kind}.{fv.name}")
            S.assumed.add(f"{fv.kind}.{fv.name}")
            return m(self, fv.obj, args, kwargs)
        m = MODELS.get(id(fv)) if not isinstance(fv, (PObj, Arr)) else None
        if m is None and isinstance(fv, types.BuiltinMethodType) and isinstance(getattr(fv, "__self__", None), type):
            m = MODELS.get((fv.__self__, fv.__name__))
        if m is not None:
            S.assumed.add(getattr(fv, "__module__", "") and f"{getattr(fv, '__module__', '')}.{getattr(fv, '__name__', fv)}"
                          or str(getattr(fv, "__name__", fv)))
            return m(self, args, kwargs)
        if isinstance(fv, types.FunctionType) and is_repo_module(fv.__module__):
            return self.call(self.lift(fv), args, kwargs, node)
        if isinstance(fv, type):
            return self.instantiate(fv, args, kwargs)
        if isinstance(fv, PObj):
            c = self.class_attr(fv.cls, "__call__")
            if c is not None:
                return self.call(Bound(fv, c), args, kwargs, node)
        if isinstance(fv, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodType, types.FunctionType)) or callable(fv):
            return self.call_real(fv, args, kwargs)
        if isinstance(fv, (types.ClassMethodDescriptorType, classmethod, staticmethod)) or hasattr(type(fv), "__get__"):
            raise Unsupported(f"call of {fv!r}")
        raise PyExc(TypeError, ("not callable",))

    def call_real(self, fv, args, kwargs):
        nm = getattr(fv, "__qualname__", str(fv))
        try:
            a = [self.lower(x) for x in args]
            k = {q: self.lower(x) for q, x in kwargs.items()}
        except Unsupported:
            raise Unsupported(f"external function {nm} on symbolic arguments")
        mod = getattr(fv, "__module__", None) or type(getattr(fv, "__self__", None)).__module__
        if isinstance(getattr(fv, "__self__", None), (str, bytes, int, float)) or (
            isinstance(getattr(fv, "__self__", None), type) and nm.endswith("__subclasses__")) or (
            mod in ("posixpath", "posix") and nm in ("split", "join", "basename", "dirname", "splitext", "fspath")) or mod in (
            "numpy", "builtins", "math", "itertools", "functools", "numpy.linalg", "datetime", "ast"
        ):
            try:
                r = fv(*a, **k)
            except Unsupported:
                raise
            except Exception as e:  # the real function raised on concrete arguments
                raise PyExc(type(e), e.args)
            return self.lift(r)
        raise Unsupported(f"external function {mod}.{nm}")

    def lower(self, v):
        """Concrete Python value of an engine value, or Unsupported."""
        v = conc(v) if is_term(v) else v
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return v
        if isinstance(v, Fraction):
            return float(v) if v.denominator != 1 else float(v)
        if isinstance(v, tuple):
            return tuple(self.lower(x) for x in v)
        if isinstance(v, PList) and v.items is not None:
            return [self.lower(x) for x in v.items]
        if isinstance(v, Seq) and v.items is not None:
            return [self.lower(x) for x in v.items]
        if isinstance(v, PDict):
            return {k: self.lower(x) for k, x in v.d.items()}
        if isinstance(v, Arr) and all(isinstance(s, int) for s in v.shape):
            import numpy as np
            import itertools

            out = np.zeros(v.shape, dtype={"f": float, "i": int, "b": bool}.get(v.dtype, object))
            for idx in itertools.product(*[range(s) for s in v.shape]):
                out[idx] = self.lower(v.get(*idx))
            return out
        if isinstance(v, (type, types.ModuleType)):
            return v
        raise Unsupported("symbolic value where a concrete one is needed")

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return PObj(cls, {"args": tuple(args)})
        if is_repo_module(cls.__module__):
            import dataclasses

            if issubclass(cls, enum.Enum):
                return self.lift(cls(self.lower(args[0])))
            if issubclass(cls, tuple) and hasattr(cls, "_fields"):
                if len(args) > len(cls._fields) or any(k not in cls._fields for k in kwargs):
                    raise PyExc(TypeError, ("unexpected arguments",))
                vals = dict(zip(cls._fields, args))
                if any(k in vals for k in kwargs):
                    raise PyExc(TypeError, ("multiple values for an argument",))
                vals.update(kwargs)
                for f in cls._fields:
                    if f not in vals:
                        if f not in cls._field_defaults:
                            raise PyExc(TypeError, ("missing field",))
                        vals[f] = self.lift(cls._field_defaults[f])
                return PObj(cls, {f: vals[f] for f in cls._fields})
            obj = PObj(cls)
            init = self.class_attr(cls, "__init__")
            if isinstance(init, Func):
                self.call(Bound(obj, init), args, kwargs)
            elif dataclasses.is_dataclass(cls):
                flds = dataclasses.fields(cls)
                vals = dict(zip([f.name for f in flds], args))
                vals.update(kwargs)
                for f in flds:
                    if f.name not in vals:
                        if f.default is not dataclasses.MISSING:
                            vals[f.name] = self.lift(f.default)
                        elif f.default_factory is not dataclasses.MISSING:
                            vals[f.name] = self.call(f.default_factory)
                        else:
                            raise PyExc(TypeError, ("missing field",))
                    obj.set(f.name, vals[f.name])
                post = self.class_attr(cls, "__post_init__")
                if isinstance(post, Func):
                    self.call(Bound(obj, post), [], {})
            elif args or kwargs:
                raise Unsupported(f"instantiation of {cls.__name__} by a constructor that is not its own")
            return obj
        raise Unsupported(f"instantiation of {cls}")

    def call_func(self, fn, args, kwargs):
        if S.depth > self.max_depth:
            raise Unsupported("recursion too deep")
        if fn.module:
            S.inlined.add(f"{fn.module}.{fn.qual}")
        node = fn.node
        fr = Frame(fn.globs, fn.closure, fn)
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = {}
        if len(args) > len(params):
            if a.vararg is None:
                raise PyExc(TypeError, (f"{fn.name} takes fewer positional arguments",))
            vals[a.vararg.arg] = tuple(args[len(params):])
            args = args[: len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for p, v in zip(params, args):
            vals[p] = v
        nd = len(fn.defaults)
        for k, p in enumerate(params):
            if p in vals:
                if p in kwargs:
                    raise PyExc(TypeError, (f"multiple values for {p}",))
                continue
            if p in kwargs:
                vals[p] = kwargs.pop(p)
            elif k >= len(params) - nd:
                vals[p] = fn.defaults[k - (len(params) - nd)]
            else:
                raise PyExc(TypeError, (f"missing argument {p}",))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                vals[p.arg] = kwargs.pop(p.arg)
            elif p.arg in fn.kwdefaults:
                vals[p.arg] = fn.kwdefaults[p.arg]
            else:
                raise PyExc(TypeError, (f"missing argument {p.arg}",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(kwargs)
        elif kwargs:
            raise PyExc(TypeError, (f"unexpected keyword {list(kwargs)}",))
        fr.vars.update(vals)
        S.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node)):
                fr.vars["$yield"] = PList([])
                try:
                    self.block(node.body, fr)
                except ReturnSig:
                    pass
                return fr.vars["$yield"]
            try:
                self.block(node.body, fr)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            S.depth -= 1

    # -- attributes --------------------------------------------------------------------------
    def class_attr(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.__dict__:
                v = k.__dict__[name]
                if isinstance(v, types.FunctionType):
                    if v.__code__.co_filename == "<string>":
                        return v  # generated by the dataclass decorator
                    if is_repo_module(v.__module__):
                        f = self.lift(v)
                        if isinstance(f, Func) and f.owner is None:
                            f.owner = k
                        return f
                    if k.__module__.startswith("dataclasses") or v.__module__ is None:
                        return v
                    return v
                return v
        return None

    def getattr(self, o, name, default=UNDEF):
        o = force(o)
        if isinstance(o, PObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PDict(o.attrs)
            v = self.class_attr(o.cls, name)
            if v is None:
                if default is not UNDEF:
                    return default
                if o.cls.__module__.startswith("contracts."):
                    raise Unsupported(f"the stand-in {o.cls.__name__} has no {name}")
                raise PyExc(AttributeError, (name,))
            return self.bind(o, v, o.cls)
        if isinstance(o, Super):
            v = self.class_attr(o.obj.cls, name, after=o.owner)
            if v is None:
                raise PyExc(AttributeError, (name,))
            return self.bind(o.obj, v, o.obj.cls)
        if isinstance(o, type):
            if o.__module__ and is_repo_module(o.__module__):
                v = self.class_attr(o, name)
                if v is None:
                    v = getattr(o, name, None)
                    if v is None:
                        raise PyExc(AttributeError, (name,))
                    return self.lift(v)
                if isinstance(v, staticmethod):
                    return self.lift(v.__func__)
                if isinstance(v, classmethod):
                    return Bound(o, self.lift(v.__func__))
                return self.lift(v)
            return self.lift(getattr(o, name))
        if isinstance(o, enum.Enum):
            if name in ("value", "name"):
                return self.lift(getattr(o, name))
            v = self.class_attr(type(o), name)
            if isinstance(v, Func):
                return Bound(o, v)
            if isinstance(v, staticmethod):
                return self.lift(v.__func__)
            if isinstance(v, property):
                return self.call(self.lift(v.fget), [o])
            return self.lift(getattr(o, name))
        if isinstance(o, types.ModuleType):
            try:
                return self.lift(getattr(o, name))
            except AttributeError:
                raise PyExc(AttributeError, (name,))
        k = kind_of(o)
        h = METHODS.get((k, "@" + name))
        if h is not None:
            return h(self, o)
        if (k, name) in METHODS:
            return MethodOf(o, k, name)
        if isinstance(o, str) and hasattr(str, name):
            return getattr(o, name)
        if isinstance(o, (Func,)):
            if name in o.marks:
                return o.marks[name]
            if name in ("__name__", "__qualname__"):
                return o.name
        if isinstance(o, OpaqueFn) and name == "__name__":
            return o.name
        if default is not UNDEF:
            return default
        if k in ("ndarray", "list", "tuple", "dict", "scalar", "none", "str", "set"):
            import numpy as np
            real = {"ndarray": np.ndarray, "list": list, "tuple": tuple, "dict": dict,
                    "none": type(None), "str": str, "set": set}.get(k)
            if real is not None and hasattr(real, name):
                raise Unsupported(f"method {k}.{name}")
            if k == "scalar" and (hasattr(np.float64, name)):
                raise Unsupported(f"scalar.{name}")
            raise PyExc(AttributeError, (name,))
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)) or not isinstance(o, Heap):
            try:
                return self.lift(getattr(o, name))
            except AttributeError:
                raise PyExc(AttributeError, (name,))
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def bind(self, obj, v, cls):
        if isinstance(v, Func):
            return Bound(obj, v)
        if isinstance(v, staticmethod):
            return self.lift(v.__func__)
        if isinstance(v, classmethod):
            return Bound(cls, self.lift(v.__func__))
        if isinstance(v, property):
            return self.call(self.lift(v.fget), [obj])
        if isinstance(v, types.FunctionType):
            return Bound(obj, v)
        if isinstance(v, types.WrapperDescriptorType) or isinstance(v, types.MethodDescriptorType):
            if v.__name__ == "__init__":
                return OpaqueFn("object.__init__", lambda it, a, k: None)
            if isinstance(obj, PObj) and issubclass(obj.cls, dict) and getattr(dict, v.__name__, None) is v:
                return MethodOf(obj, "dictobj", v.__name__)
            raise Unsupported(f"descriptor {v.__name__}")
        return self.lift(v)

    def setattr(self, o, name, v):
        o = force(o)
        if isinstance(o, PObj):
            d = None
            for k in o.cls.__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    break
            if isinstance(d, property):
                if d.fset is None:
                    raise PyExc(AttributeError, (name,))
                self.call(self.lift(d.fset), [o, v])
                return
            o.set(name, v)
            return
        raise Unsupported(f"setattr on {type(o).__name__}")

    # -- truth ---------------------------------------------------------------------------------
    def truth(self, v):
        """Python truth value as bool or z3 Bool (no fork)."""
        v = force(v)
        if v is None:
            return False
        if isinstance(v, (str, bytes, tuple)):
            return len(v) > 0
        if is_scalar(v):
            if isinstance(v, float):
                return v != 0
            return simp(zb(v)) if is_term(v) else bool(v)
        if isinstance(v, (PList, Seq)):
            n = v.length() if isinstance(v, PList) else v.n
            return n > 0 if isinstance(n, int) else conc(z3.simplify(zi(n) > 0))
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, IndexDict):
            return conc(z3.simplify(zi(v.n) > 0))
        if isinstance(v, PSet):
            return len(v.s) > 0
        if isinstance(v, SSet):
            return v.n > 0 if isinstance(v.n, int) else conc(z3.simplify(zi(v.n) > 0))
        if isinstance(v, Arr):
            size = 1
            for s in v.shape:
                size = ops.mul(size, s)
            one = ops.cmp("==", size, 1)
            if S.branch(one):
                return self.truth(v.get(*([0] * v.ndim)))
            if S.branch(ops.cmp("==", size, 0)):
                return False
            raise PyExc(ValueError, ("truth value of an array is ambiguous",))
        if isinstance(v, PObj):
            b = self.class_attr(v.cls, "__bool__")
            if b is not None:
                return self.truth(self.call(Bound(v, b), []))
            ln = self.class_attr(v.cls, "__len__")
            if isinstance(ln, Func):
                return self.truth(self.call(Bound(v, ln), []))
            return True
        if isinstance(v, Opaque):
            if v.truthy is None:
                raise Unsupported(f"truth of {v.name}")
            return v.truthy
        if isinstance(v, (DT, NumText)):
            return True
        if isinstance(v, TD):
            return ops.cmp("!=", v.t, 0)
        return True

    def test(self, v):
        return S.branch(self.truth(v))

    # -- statements ----------------------------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        S.steps += 1
        if S.steps > self.max_steps:
            raise Unsupported("step limit")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.eval(s.target, fr)
            fr.set(s.target.id, self.inplace(op, cur, self.eval(s.value, fr)))
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.inplace(op, cur, self.eval(s.value, fr)))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            i = self.index(s.target.slice, fr)
            cur = force(self.getitem(o, i))
            if isinstance(cur, Arr) and cur.mask is not None:  # a new selection, nobody else has it
                r = self.binop(op, cur, force(self.eval(s.value, fr)))
                if not isinstance(r, Arr) or cur.dtype == "i" and r.dtype == "f":
                    raise Unsupported("in-place operation on a selection")
                self.setitem(o, i, r)
                return
            self.setitem(o, i, self.inplace(op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        cur = force(cur)
        v = force(v)
        if isinstance(cur, Arr):
            from .npmodel import arr_assign

            r = self.binop(op, cur, v)
            if isinstance(r, Arr) and len(r.shape) == cur.ndim:
                if cur.dtype == "i" and r.dtype == "f":
                    raise PyExc(TypeError, ("cannot cast ufunc output",))
                arr_assign(self, cur, r)
                return cur
            raise PyExc(ValueError, ("non-broadcastable output",))
        if isinstance(cur, PList) and op == "Add":
            self.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def list_extend(self, lst, v):
        n, fn, items = self.seq(v)
        if items is not None and lst.items is not None:
            lst.assign(items=lst.items + list(items))
        elif items is not None:
            for x in items:
                lst.append(x)
        else:
            n0, f0 = lst.pure()
            if isinstance(n0, int) and n0 == 0:
                lst.assign(n=n, fn=fn)
            else:
                lst.assign(n=simp(zi(n0) + zi(n)),
                           fn=lambda i: merge([(zi(i) < zi(n0), f0(i))], lambda: fn(simp(zi(i) - zi(n0)))))

    def s_If(self, s, fr):
        if self.test(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.cur_exc[-1] if getattr(self, "cur_exc", None) else None
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            raise PyExc(e, (), s)
        if isinstance(e, PObj):
            raise PyExc(e.cls, e.attrs.get("args", ()), s)
        raise Unsupported("raise of a non-exception")

    def s_Assert(self, s, fr):
        if not self.test(self.eval(s.test, fr)):
            raise PyExc(AssertionError, (), s)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        types_ = (BaseException,)
                    else:
                        t = self.eval(h.type, fr)
                        types_ = t if isinstance(t, tuple) else (t,)
                    if any(isinstance(t, type) and issubclass(e.cls, t) for t in types_):
                        if h.name:
                            fr.set(h.name, PObj(e.cls, {"args": tuple(e.args_)}))
                        self.cur_exc = getattr(self, "cur_exc", []) + [e]
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc = self.cur_exc[:-1]
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f])
        fr.set(s.name, f)

    def make_func(self, node, fr):
        a = node.args
        defaults = [self.eval(x, fr) for x in a.defaults]
        kwd = {p.arg: self.eval(x, fr) for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None}
        owner = fr.func.owner if fr.func is not None else None
        q = (fr.func.qual + ".<locals>." if fr.func is not None else "") + getattr(node, "name", "<lambda>")
        return Func(node, fr.globs, fr, owner, defaults, kwd, q, fr.func.module if fr.func else None)

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            fr.set(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        import importlib

        pkg = fr.globs.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            v = getattr(m, a.name) if hasattr(m, a.name) else importlib.import_module(m.__name__ + "." + a.name)
            fr.set(a.asname or a.name, self.lift(v))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.set(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = force(self.eval(t.value, fr))
                i = self.index(t.slice, fr)
                if isinstance(o, PDict):
                    o.delete(i)
                else:
                    raise Unsupported("del of a subscript")
            else:
                raise Unsupported("del")

    def s_With(self, s, fr):
        from .npmodel import with_enter, with_exit

        ents = []
        for it in s.items:
            cm = self.eval(it.context_expr, fr)
            v = with_enter(self, cm)
            ents.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        finally:
            for cm in reversed(ents):
                with_exit(self, cm)

    def s_While(self, s, fr):
        n = 0
        inv = self.loop_spec(s, fr)
        if inv is not None:
            return inv.run(self, s, fr)
        if all(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Sub)) for x in s.body):
            from .loops import counting_while

            if counting_while(self, s, fr):
                return
        while True:
            c = self.truth(self.eval(s.test, fr))
            if not isinstance(conc(c), bool):
                n += 1
                if n > 3:
                    raise Unsupported(f"while loop without invariant at line {s.lineno}")
            if not S.branch(c):
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
            S.steps += 1
            if S.steps > self.max_steps:
                raise Unsupported("while loop step limit")

    loop_specs = {}

    def loop_spec(self, s, fr):
        if fr.func is None:
            return None
        loops = [x for x in walk_own(fr.func.node) if isinstance(x, (ast.For, ast.While))]
        k = loops.index(s) if s in loops else -1
        return self.loop_specs.get((f"{fr.func.module}.{fr.func.qual}", k))

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        n, fn, items = self.seq(it)
        inv = self.loop_spec(s, fr)
        if inv is not None:
            return inv.run(self, s, fr, n, fn)
        if items is None and isinstance(conc(n), int) and conc(n) <= 64:
            items = [fn(k) for k in range(conc(n))]
        if items is not None:
            for x in items:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except BreakSig:
                    return
                except ContinueSig:
                    continue
            self.block(s.orelse, fr)
            return
        from .loops import symbolic_for

        symbolic_for(self, s, fr, n, fn)

    # -- assignment ----------------------------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred target")
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        v = force(v)
        n, fn, items = self.seq(v)
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is None:
            if stars:
                k = stars[0]
                rest = len(elts) - 1
                if not S.branch(ops.cmp(">=", n, rest)):
                    raise PyExc(ValueError, ("not enough values to unpack",))
                for j in range(k):
                    self.assign(elts[j], fn(j), fr)
                tail = len(elts) - k - 1
                self.assign(elts[k].value, PList(n=simp(zi(n) - rest), fn=lambda i: fn(simp(zi(i) + k))), fr)
                for j in range(tail):
                    self.assign(elts[k + 1 + j], fn(simp(zi(n) - tail + j)), fr)
                return
            if not S.branch(ops.cmp("==", n, len(elts))):
                raise PyExc(ValueError, ("unpack",))
            items = [fn(k) for k in range(len(elts))]
        if stars:
            k = stars[0]
            tail = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                raise PyExc(ValueError, ("not enough values to unpack",))
            for j in range(k):
                self.assign(elts[j], items[j], fr)
            self.assign(elts[k].value, PList(items[k: len(items) - tail]), fr)
            for j in range(tail):
                self.assign(elts[k + 1 + j], items[len(items) - tail + j], fr)
            return
        if len(items) != len(elts):
            raise PyExc(ValueError, ("unpack",))
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    # -- expressions ---------------------------------------------------------------------------
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return ops.norm(e.value) if isinstance(e.value, float) else e.value

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if v is UNDEF:
            raise PyExc(UnboundLocalError, (e.id,))
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.func is not None and f.func.owner is None:
                f = f.parent
            fn = f.func
            self_name = fn.node.args.args[0].arg
            obj = self.lookup(self_name, f)
            return Super(fn.owner, obj)
        fv = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                n, fn, items = self.seq(self.eval(a.value, fr))
                if items is None:
                    if isinstance(conc(n), int):
                        items = [fn(k) for k in range(conc(n))]
                    else:
                        args.append(StarSeq(n, fn))
                        continue
                args.extend(items)
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                v = force(v)
                if isinstance(v, PDict):
                    kwargs.update(v.d)
                else:
                    raise Unsupported("** of a non-dict")
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, e)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        if self.test(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        if self.pure(e, fr):
            res = is_and
            for sub in e.values:
                res = (ops.land if is_and else ops.lor)(res, self.truth(self.eval(sub, fr)))
            return res
        v = None
        for k, sub in enumerate(e.values):
            v = self.eval(sub, fr)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and:
                if not S.branch(t):
                    return v if not is_bool(v) else False
            else:
                if S.branch(t):
                    return v if not is_bool(v) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = force(self.eval(e.operand, fr))
        op = type(e.op).__name__
        if op == "Not":
            return ops.lnot(self.truth(v))
        if isinstance(v, Arr):
            from .npmodel import map_arr

            if op == "Invert":
                if v.dtype == "b":
                    return map_arr(self, [v], lambda x: ops.lnot(x), "b")
                raise Unsupported("~ on a non-boolean array")
            if op == "USub":
                return map_arr(self, [v], ops.neg, v.dtype)
            if op == "UAdd":
                return v
        if isinstance(v, PObj):
            d = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op]
            m = self.class_attr(v.cls, d)
            if m is None:
                raise PyExc(TypeError, ("bad operand",))
            return self.call(Bound(v, m), [])
        if isinstance(v, TD) and op == "USub":
            return TD(ops.neg(v.t))
        if not is_scalar(v):
            raise PyExc(TypeError, ("bad operand type for unary",))
        if op == "USub":
            return ops.neg(v)
        if op == "UAdd":
            return v
        if op == "Invert" and is_bool(v) and is_term(v):
            return ops.lnot(v)
        if op == "Invert" and isinstance(v, int):
            return ~v
        raise Unsupported(f"unary {op}")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Mod": "mod", "Pow": "pow",
              "FloorDiv": "floordiv", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul"}

    def binop(self, op, a, b):
        a, b = force(a), force(b)
        if isinstance(a, PObj) or isinstance(b, PObj):
            d = self.DUNDER[op]
            if isinstance(a, PObj):
                m = self.class_attr(a.cls, f"__{d}__")
                if m is not None:
                    r = self.call(Bound(a, m), [b])
                    if r is not NotImplemented:
                        return r
            if isinstance(a, Arr) and getattr(b.cls, "__array_ufunc__", 0) is not None:
                raise Unsupported("array with object operand")
            if isinstance(b, PObj):
                m = self.class_attr(b.cls, f"__r{d}__")
                if m is not None:
                    r = self.call(Bound(b, m), [a])
                    if r is not NotImplemented:
                        return r
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Unsupported("array with object operand")
            raise PyExc(TypeError, ("unsupported operand",))
        if isinstance(a, Arr) or isinstance(b, Arr):
            from .npmodel import arr_binop

            return arr_binop(self, op, a, b)
        if isinstance(a, (DT, TD)) or isinstance(b, (DT, TD)):
            return self.dt_binop(op, a, b)
        if is_scalar(a) and is_scalar(b):
            return scalar_binop(op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, str) and op == "Mod":
            return terms.Text()
        if isinstance(a, str) and isinstance(b, int) and op == "Mult":
            return a * b
        if op == "Add" and isinstance(a, PList) and isinstance(b, PList):
            r = PList(items=a.items, n=a.n, fn=a.fn) if a.items is None else PList(a.items)
            self.list_extend(r, b)
            return r
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "Mult" and isinstance(a, (PList, tuple)) and is_int(b):
            b = conc(b)
            if isinstance(a, tuple):
                if isinstance(b, int):
                    return a * b
                raise Unsupported("tuple * symbolic")
            if a.items is not None:
                if isinstance(b, int):
                    return PList(a.items * max(b, 0))
                if len(a.items) == 1:
                    x = a.items[0]
                    n = ite(ops.cmp(">=", b, 0), b, 0)
                    return PList(n=n, fn=lambda i: x)
            raise Unsupported("list * symbolic")
        if op == "Mult" and isinstance(b, PList) and is_int(a):
            return self.binop(op, b, a)
        if op == "BitOr" and isinstance(a, PDict) and isinstance(b, PDict):
            return PDict({**a.d, **b.d})
        if isinstance(a, SSet) or isinstance(b, SSet):
            raise Unsupported("set operation on symbolic sets")
        if isinstance(a, PSet) and isinstance(b, PSet):
            return PSet({"BitOr": a.s | b.s, "BitAnd": a.s & b.s, "Sub": a.s - b.s}[op])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("operation on an opaque value")
        raise PyExc(TypeError, (f"unsupported operand types for {op}",))

    def dt_binop(self, op, a, b):
        if op == "Sub" and isinstance(a, DT) and isinstance(b, DT):
            return TD(ops.sub(a.t, b.t))
        if op in ("Add", "Sub") and isinstance(a, DT) and isinstance(b, TD):
            return DT((ops.add if op == "Add" else ops.sub)(a.t, b.t))
        if op == "Add" and isinstance(a, TD) and isinstance(b, DT):
            return DT(ops.add(a.t, b.t))
        if op in ("Add", "Sub") and isinstance(a, TD) and isinstance(b, TD):
            return TD((ops.add if op == "Add" else ops.sub)(a.t, b.t))
        if op == "Mult" and isinstance(a, TD) and is_scalar(b):
            return TD(ops.mul(a.t, b))
        if op == "Mult" and isinstance(b, TD) and is_scalar(a):
            return TD(ops.mul(a, b.t))
        if op == "Div" and isinstance(a, TD) and isinstance(b, TD):
            return ops.div(a.t, b.t, python=True)
        if op == "Div" and isinstance(a, TD) and is_scalar(b):
            return TD(ops.div(a.t, b, python=True))
        raise PyExc(TypeError, ("unsupported operand for datetime",))

    CMP = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}

    def pure(self, e, fr):
        """scalar expression whose evaluation neither raises nor has effects (so that short-circuiting may be ignored)"""
        t = type(e)
        if t is ast.Constant:
            return isinstance(e.value, (int, float))
        if t is ast.Name:
            f = fr
            while f is not None:
                if e.id in f.vars:
                    v = f.vars[e.id]
                    return is_scalar(v) and not isinstance(v, Choice)
                f = f.parent
            return False
        if t is ast.BinOp:
            if not (self.pure(e.left, fr) and self.pure(e.right, fr)):
                return False
            return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) or (
                isinstance(e.op, ast.Div) and isinstance(e.right, ast.Constant) and e.right.value != 0)
        if t is ast.UnaryOp:
            return isinstance(e.op, (ast.USub, ast.Not)) and self.pure(e.operand, fr)
        if t is ast.Compare:
            return all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops) and \
                all(self.pure(x, fr) for x in [e.left] + e.comparators)
        if t is ast.BoolOp:
            return all(self.pure(x, fr) and self.boolean(x) for x in e.values)
        return False

    @staticmethod
    def boolean(e):
        return isinstance(e, (ast.Compare, ast.BoolOp)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) > 1 and self.pure(e, fr):
            res = True
            for op, right in zip(e.ops, e.comparators):
                r = self.eval(right, fr)
                res = ops.land(res, self.truth(self.compare(type(op).__name__, left, r)))
                left = r
            return res
        res = True
        for k, (op, right) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(right, fr)
            c = self.compare(type(op).__name__, left, r)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            if k < len(e.ops) - 1:
                if not S.branch(c):
                    return False
            else:
                return c
            left = r
        return res

    def compare(self, op, a, b):
        if isinstance(a, terms.Text) or isinstance(b, terms.Text):
            return False if op == "Is" else True if op == "IsNot" else S.fresh("text", BOOL)
        if op in ("Is", "IsNot"):
            a, b = force(a), force(b)
            if a is None or b is None or isinstance(a, (bool, type, enum.Enum)) or isinstance(b, (bool, type, enum.Enum)):
                r = a is b
                if is_bool(a) and is_bool(b) and (is_term(a) or is_term(b)):
                    r = ops.cmp("==", a, b)
            elif isinstance(a, Heap) or isinstance(b, Heap) or isinstance(a, Opaque):
                r = a is b
            elif isinstance(a, Func) and isinstance(b, Func):
                r = a is b or a.node is b.node
            else:
                r = a is b
            return r if op == "Is" else ops.lnot(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else ops.lnot(r)
        a, b = force(a), force(b)
        sym = self.CMP[op]
        if isinstance(a, PObj) or isinstance(b, PObj):
            names = {"<": ("__lt__", "__gt__"), ">": ("__gt__", "__lt__"), "<=": ("__le__", "__ge__"),
                     ">=": ("__ge__", "__le__"), "==": ("__eq__", "__eq__"), "!=": ("__ne__", "__ne__")}[sym]
            for x, y, nm in ((a, b, names[0]), (b, a, names[1])):
                if isinstance(x, PObj):
                    m = self.class_attr(x.cls, nm)
                    if isinstance(m, Func):
                        return self.call(Bound(x, m), [y])
                    if nm == "__ne__":
                        m = self.class_attr(x.cls, "__eq__")
                        if isinstance(m, Func):
                            return ops.lnot(self.truth(self.call(Bound(x, m), [y])))
            if sym in ("==", "!="):
                import dataclasses

                if any(isinstance(x, PObj) and dataclasses.is_dataclass(x.cls) and "__eq__" in x.cls.__dict__ for x in (a, b)):
                    r = False
                    if isinstance(a, PObj) and isinstance(b, PObj) and a.cls is b.cls:
                        fl = [f.name for f in dataclasses.fields(a.cls) if f.compare]
                        r = self.equals(tuple(a.attrs[f] for f in fl), tuple(b.attrs[f] for f in fl))
                    return r if sym == "==" else ops.lnot(r)
                return (a is b) == (sym == "==")
            raise PyExc(TypeError, ("unorderable",))
        if isinstance(a, Arr) or isinstance(b, Arr):
            from .npmodel import arr_compare

            return arr_compare(self, sym, a, b)
        if isinstance(a, DT) and isinstance(b, DT) or isinstance(a, TD) and isinstance(b, TD):
            return ops.cmp(sym, a.t, b.t)
        if is_scalar(a) and is_scalar(b):
            return ops.cmp(sym, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[sym]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison with an opaque value")
        if sym in ("==", "!="):
            r = self.equals(a, b)
            return r if sym == "==" else ops.lnot(r)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(sym, a, b)
        raise PyExc(TypeError, ("unorderable types",))

    def lex(self, sym, a, b):
        if not a or not b:
            la, lb = len(a), len(b)
            return {"<": la < lb, "<=": la <= lb, ">": la > lb, ">=": la >= lb}[sym]
        strict = {"<": "<", "<=": "<", ">": ">", ">=": ">"}[sym]
        first = self.compare({"<": "Lt", ">": "Gt"}[strict], a[0], b[0])
        eq = conc(self.equals(a[0], b[0]))
        if eq is False:
            return first
        if len(a) > 1 and len(b) > 1 and eq is not True and not (is_scalar(force(a[1])) and is_scalar(force(b[1]))) and not S.branch(zb(eq)):
            return first
        return ops.lor(first, ops.land(eq, self.lex(sym, a[1:], b[1:])))

    def equals(self, a, b):
        a, b = force(a), force(b)
        if isinstance(a, terms.Text) or isinstance(b, terms.Text):
            other = b if isinstance(a, terms.Text) else a
            return S.fresh("text", BOOL) if isinstance(other, str) else False
        if a is None or b is None:
            return a is b
        if is_scalar(a) and is_scalar(b):
            return ops.cmp("==", a, b)
        if isinstance(a, (DT, TD)) and type(a) is type(b):
            return ops.cmp("==", a.t, b.t)
        if isinstance(a, NumText) or isinstance(b, NumText):
            return num_text_equals(*((a, b) if isinstance(a, NumText) else (b, a)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = ops.land(r, self.equals(x, y))
            return r
        if isinstance(a, PList) and isinstance(b, PList):
            if a is b:
                return True
            na, fa = a.pure()
            nb, fb = b.pure()
            c = ops.cmp("==", na, nb)
            if c is False:
                return False
            if isinstance(na, int):
                r = c
                for k in range(na):
                    r = ops.land(r, self.equals(fa(k), fb(k)))
                return r
            return ops.land(c, forall_bool(na, lambda i: self.equals(fa(i), fb(i))))
        if isinstance(a, PDict) and isinstance(b, PDict):
            if set(a.d) != set(b.d):
                return False
            r = True
            for k in a.d:
                r = ops.land(r, self.equals(a.d[k], b.d[k]))
            return r
        if isinstance(a, PSet) and isinstance(b, PSet):
            return a.s == b.s
        if isinstance(a, (str, type, enum.Enum)) or isinstance(b, (str, type, enum.Enum)):
            return a == b if type(a) is type(b) else False
        return a is b

    def contains(self, cont, x):
        cont = force(cont)
        if isinstance(cont, PDict):
            x = force(x)
            if isinstance(x, (str, int, tuple, type)) or x is None:
                return x in cont.d
            if any(is_scalar(k) for k in cont.d) or is_scalar(x):
                r = False
                for k in cont.d:
                    if is_scalar(k) and is_scalar(x):
                        r = ops.lor(r, ops.cmp("==", k, x))
                return r
            raise Unsupported("symbolic key in dict")
        if isinstance(cont, PSet):
            x = force(x)
            if is_term(x):
                r = False
                for y in sorted(cont.s, key=repr):
                    r = ops.lor(r, self.equals(y, x))
                return r
            return x in cont.s
        if isinstance(cont, SSet):
            return cont.has(force(x), self.equals)
        if isinstance(cont, str):
            return force(x) in cont
        if isinstance(cont, PObj):
            m = self.class_attr(cont.cls, "__contains__")
            if isinstance(m, Func):
                return self.truth(self.call(Bound(cont, m), [x]))
        x = force(x)
        if isinstance(cont, Arr):
            from .npmodel import arr_exists

            if isinstance(x, Arr) or isinstance(x, (tuple, PList)):
                raise Unsupported("array membership of an array")
            return arr_exists(cont, lambda y: self.equals(y, x))
        n, fn, items = self.seq(cont)
        if items is not None:
            r = False
            for y in items:
                r = ops.lor(r, self.equals(y, x))
                if r is True:
                    return True
            return r
        r = member_of_selection(n, fn, x)
        return exists_bool(n, lambda i: self.equals(fn(i), x), "in") if r is None else r

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                n, fn, items = self.seq(self.eval(x.value, fr))
                if items is None:
                    raise Unsupported("starred symbolic sequence in a tuple")
                out.extend(items)
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = PList([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(r, self.eval(x.value, fr))
                else:
                    r.append(self.eval(x, fr))
            return r
        return PList([self.eval(x, fr) for x in e.elts])

    def e_Set(self, e, fr):
        return PSet({self.eval(x, fr) for x in e.elts})

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = force(self.eval(v, fr))
                if not isinstance(sub, PDict):
                    raise Unsupported("** in dict display")
                d.update(sub.d)
            else:
                d[self.hashkey(self.eval(k, fr))] = self.eval(v, fr)
        return PDict(d)

    def hashkey(self, k):
        k = force(k)
        if is_term(k):
            k = simp(k)
            if is_term(k):
                raise Unsupported("symbolic dict key")
        if isinstance(k, (str, int, Fraction, bool, type, tuple, enum.Enum)) or k is None:
            return k
        if isinstance(k, PObj):
            return k
        if isinstance(k, (Func, types.FunctionType)):
            return k
        raise Unsupported(f"dict key {type(k).__name__}")

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                try:
                    x = force(self.eval(v.value, fr))
                except (PyExc,):
                    return terms.Text()
                if isinstance(x, PObj) and v.format_spec is None:
                    f = inspect.getattr_static(x.cls, "__str__", None)
                    if isinstance(f, types.FunctionType) and is_repo_module(f.__module__):
                        x = self.call(self.getattr(x, "__str__"), [], {})
                if isinstance(x, terms.Text):
                    return terms.Text()
                if isinstance(x, (str, int, float, type(None))) and v.conversion == -1 and v.format_spec is None:
                    out.append(str(x))
                else:
                    return terms.Text()
        return "".join(out)

    def e_FormattedValue(self, e, fr):
        return terms.Text()

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while "$yield" not in f.vars:
            f = f.parent
        f.vars["$yield"].append(v)
        return None

    def e_YieldFrom(self, e, fr):
        n, fn, items = self.seq(self.eval(e.value, fr))
        f = fr
        while "$yield" not in f.vars:
            f = f.parent
        out = f.vars["$yield"]
        if items is not None:
            for v in items:
                out.append(v)
        elif out.items == []:
            f.vars["$yield"] = PList(n=n, fn=fn)
        else:
            raise Unsupported("yield from a sequence of unknown length after other values")
        return None

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def norm_index(self, i, n):
        """bounds-checked non-negative index; raises IndexError on the failing paths."""
        i = conc(simp(i)) if is_term(i) else i
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, Fraction):
            raise PyExc(IndexError, ("float index",)) if i.denominator != 1 else PyExc(TypeError, ("float index",))
        if not is_int(i):
            raise PyExc(TypeError, ("bad index",))
        n = conc(n)
        if isinstance(i, int) and isinstance(n, int):
            if i < -n or i >= n:
                raise PyExc(IndexError, ("out of range",))
            return i if i >= 0 else i + n
        if isinstance(i, int):
            if i >= 0:
                if not S.branch(zi(i) < zi(n)):
                    raise PyExc(IndexError, ("out of range",))
                return i
            if not S.branch(zi(n) >= -i):
                raise PyExc(IndexError, ("out of range",))
            return simp(zi(n) + i)
        if S.entails(z3.And(zi(i) >= 0, zi(i) < zi(n))):
            return i
        if S.branch(zi(i) >= 0):
            if not S.branch(zi(i) < zi(n)):
                raise PyExc(IndexError, ("out of range",))
            return i
        if not S.branch(zi(i) >= -zi(n)):
            raise PyExc(IndexError, ("out of range",))
        return simp(zi(i) + zi(n))

    def slice_bounds(self, sl, n):
        """(start, length, step) of a slice with step +1/-1 over length n."""
        step = 1 if sl.step is None else conc(force(sl.step))
        lo = None if sl.lo is None else force(sl.lo)
        hi = None if sl.hi is None else force(sl.hi)
        n = conc(n)
        if step == -1 and lo is None and hi is None:
            return (simp(ops.sub(n, 1)), n, -1)
        if all(isinstance(x, (int, type(None))) for x in (lo, hi, step, n)) and n is not None:
            r = range(*slice(lo, hi, step).indices(n))
            return (r.start, len(r), r.step)
        if step != 1:
            if isinstance(step, int) and step > 1 and lo in (None, 0, 1) and hi is None:
                lo = lo or 0
                return (lo, ite(ops.cmp(">", n, lo), ops.floordiv(ops.add(ops.sub(n, lo), step - 1), step), 0), step)
            raise Unsupported("slice step")

        def clip(x, default):
            if x is None:
                return default
            if isinstance(x, int) and x < 0:
                x = simp(ops.add(n, x))
            elif is_term(x):
                if not S.entails(zi(x) >= 0):
                    x = ite(ops.cmp("<", x, 0), ops.add(x, n), x)
            x = ite(settle(ops.cmp("<", x, 0)), 0, x)
            return ite(settle(ops.cmp(">", x, n)), n, x)

        def settle(c):
            c = conc(z3.simplify(c)) if is_term(c) else c
            if is_term(c):
                if S.entails(z3.Not(c), timeout=0.5):
                    return False
                if S.entails(c, timeout=0.5):
                    return True
            return c

        if is_term(n):
            S.assume(n >= 0)
        a = clip(lo, 0)
        b = clip(hi, n)
        ln = simp(ite(settle(ops.cmp("<", b, a)), 0, ops.sub(b, a)))
        return (simp(a), ln, 1)

    def getitem(self, o, i):
        o = force(o)
        if isinstance(o, Arr):
            from .npmodel import arr_getitem

            return arr_getitem(self, o, i)
        if isinstance(o, PObj):
            if "$dict" in o.attrs and not isinstance(self.class_attr(o.cls, "__getitem__"), Func):
                return self.getitem(o.attrs["$dict"], i)
            if issubclass(o.cls, tuple) and hasattr(o.cls, "_fields"):
                return self.getitem(tuple(o.attrs[f] for f in o.cls._fields), i)
            m = self.class_attr(o.cls, "__getitem__")
            if m is None:
                raise PyExc(TypeError, ("not subscriptable",))
            return self.call(Bound(o, m), [i])
        if isinstance(o, PDict):
            k = force(i)
            if is_term(k) and any(is_scalar(q) for q in o.d):
                for q, v in o.d.items():
                    if is_scalar(q) and S.branch(ops.cmp("==", q, k)):
                        return v
                raise PyExc(KeyError, (k,))
            k = self.hashkey(k)
            if k not in o.d:
                raise PyExc(KeyError, (k,))
            return o.d[k]
        i = force(i)
        if isinstance(o, IndexDict):
            if not is_int(i) or is_bool(i):
                raise Unsupported("key of an index dictionary")
            if not S.branch(ops.land(ops.cmp("<=", 0, i), ops.cmp("<", i, o.n))):
                raise PyExc(KeyError, (i,))
            return o.fn(i)
        if isinstance(o, str):
            if isinstance(i, SliceV):
                return o[slice(*[self.lower(x) for x in (i.lo, i.hi, i.step)])]
            try:
                return o[self.lower(i)]
            except IndexError:
                raise PyExc(IndexError, ())
        if isinstance(o, (PList, Seq, tuple)):
            n, fn, items = self.seq(o)
            if isinstance(i, SliceV):
                if items is not None and all(isinstance(conc(x), (int, type(None))) for x in (i.lo, i.hi, i.step)):
                    r = items[slice(conc(i.lo), conc(i.hi), conc(i.step))]
                    return tuple(r) if isinstance(o, tuple) else PList(r)
                a, ln, st = self.slice_bounds(i, n)
                return PList(n=ln, fn=lambda k: fn(simp(ops.add(a, ops.mul(k, st)))))
            if isinstance(i, (PList, tuple, Arr)):
                raise PyExc(TypeError, ("list indices must be integers",))
            i = self.norm_index(i, n)
            return fn(i) if items is None or not isinstance(i, int) else items[i]
        if isinstance(o, type) or o is None or is_scalar(o):
            if isinstance(o, type) and issubclass(o, enum.Enum):
                return o[i]
            raise PyExc(TypeError, ("not subscriptable",))
        if isinstance(o, Opaque):
            raise Unsupported("subscript of an opaque value")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, i, v):
        o = force(o)
        if isinstance(o, Arr):
            from .npmodel import arr_setitem

            return arr_setitem(self, o, i, v)
        if isinstance(o, PDict):
            return o.set(self.hashkey(i), v)
        if isinstance(o, PObj):
            if "$dict" in o.attrs and not isinstance(self.class_attr(o.cls, "__setitem__"), Func):
                return self.setitem(o.attrs["$dict"], i, v)
            m = self.class_attr(o.cls, "__setitem__")
            if m is None:
                raise PyExc(TypeError, ("no item assignment",))
            return self.call(Bound(o, m), [i, v])
        if isinstance(o, PList):
            i = force(i)
            if isinstance(i, SliceV):
                raise Unsupported("slice assignment on a list")
            n, fn = o.pure()
            i = self.norm_index(i, n)
            if o.items is not None and isinstance(i, int):
                items = list(o.items)
                items[i] = v
                return o.assign(items=items)
            return o.assign(n=n, fn=lambda k: merge([(zi(k) == zi(i), v)], lambda: fn(k)))
        raise PyExc(TypeError, ("no item assignment",))

    # -- iteration ------------------------------------------------------------------------------
    def seq(self, v):
        """(n, closure, items or None) of an iterable"""
        v = force(v)
        if isinstance(v, PList):
            n, fn = v.pure()
            return n, fn, (list(v.items) if v.items is not None else None)
        if isinstance(v, Seq):
            return v.n, v.get, v.items
        if isinstance(v, tuple):
            return len(v), (lambda i: pick(list(v), i) if not isinstance(conc(i), int) else v[conc(i)]), list(v)
        if isinstance(v, Arr):
            from .npmodel import arr_getitem

            if v.ndim == 0:
                raise PyExc(TypeError, ("iteration over a 0-d array",))
            n = conc(v.shape[0])
            if v.ndim == 1:
                f = v.snap()
                fn = lambda i: f((i,))
            else:
                fn = lambda i: row_view(v, i)
            return n, fn, ([fn(k) for k in range(n)] if isinstance(n, int) else None)
        if isinstance(v, PDict):
            ks = list(v.d)
            return len(ks), (lambda i: pick(ks, i)), ks
        if isinstance(v, IndexDict):
            return v.n, (lambda i: i), None
        if isinstance(v, SSet):
            if not (v.ordered or same(v.n, 1)):
                d, fn = v.enumeration(self.equals)
                return d, fn, None
            if not same(v.n, 1) and not S.branch(v.distinct(self.equals)):
                raise Unsupported("iteration over keys with duplicates")
            return v.n, v.fn, v.items
        if isinstance(v, PSet):
            ks = sorted(v.s, key=repr)
            return len(ks), (lambda i: pick(ks, i)), ks
        if isinstance(v, str):
            return len(v), (lambda i: v[i]), list(v)
        if isinstance(v, PObj):
            if issubclass(v.cls, tuple) and hasattr(v.cls, "_fields"):
                return self.seq(tuple(v.attrs[f] for f in v.cls._fields))
            if "$dict" in v.attrs:
                return self.seq(v.attrs["$dict"])
            m = self.class_attr(v.cls, "__iter__")
            if isinstance(m, Func):
                return self.seq(self.call(Bound(v, m), []))
            m = self.class_attr(v.cls, "__getitem__")
            if m is not None:
                raise Unsupported("iteration by __getitem__")
        if isinstance(v, type) and issubclass(v, enum.Enum):
            ks = list(v)
            return len(ks), (lambda i: ks[i]), ks
        if isinstance(v, Opaque):
            raise Unsupported("iteration over an opaque value")
        if not isinstance(v, PObj) and hasattr(type(v), "__iter__"):
            raise Unsupported("iteration over an object of another library")
        raise PyExc(TypeError, ("not iterable",))

    def e_ListComp(self, e, fr):
        return self.comp(e.elt, e.generators, fr)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e.elt, e.generators, fr)
        r_n, r_f = r.pure()
        return Seq(items=r.items) if r.items is not None else Seq(n=r_n, fn=r_f)

    def e_SetComp(self, e, fr):
        r = self.comp(e.elt, e.generators, fr)
        if r.items is None:
            raise Unsupported("set comprehension over a symbolic sequence")
        return PSet({self.hashkey(x) for x in r.items})

    def e_DictComp(self, e, fr):
        pair = ast.Tuple([e.key, e.value], ast.Load())
        r = self.comp(pair, e.generators, fr)
        if r.items is None:
            raise Unsupported("dict comprehension over a symbolic sequence")
        return PDict({self.hashkey(k): v for k, v in r.items})

    def comp_as_loop(self, elt, g, fr, n, fn):
        "a comprehension whose element has side effects: the loop it stands for"
        from .loops import symbolic_for

        f2 = Frame(fr.globs, fr, fr.func)
        out = PList([])
        f2.set("$out", out)
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("$out", ast.Load()), "append", ast.Load()), [elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        s = ast.For(g.target, g.iter, body, [])
        for x in ast.walk(s):
            for a in ("lineno", "end_lineno", "col_offset", "end_col_offset"):
                if not hasattr(x, a):
                    setattr(x, a, getattr(elt, a, 0))
        symbolic_for(self, s, f2, n, fn)
        return out

    def comp(self, elt, gens, fr):
        g = gens[0]
        inner = Frame(fr.globs, fr, fr.func)
        n, fn, items = self.seq(self.eval(g.iter, fr if g is gens[0] else inner))
        if items is None and isinstance(conc(n), int) and conc(n) <= 64:
            items = [fn(k) for k in range(conc(n))]
        if items is not None:
            out = PList([])
            for x in items:
                f2 = Frame(fr.globs, fr, fr.func)
                self.assign(g.target, x, f2)
                skip = False
                for c in g.ifs:
                    if not self.test(self.eval(c, f2)):
                        skip = True
                        break
                if skip:
                    continue
                if len(gens) > 1:
                    self.list_extend(out, self.comp(elt, gens[1:], f2))
                else:
                    out.append(self.eval(elt, f2))
            return out
        if len(gens) > 1:
            if g.ifs:
                raise Unsupported("nested filtering comprehension over a symbolic sequence")
            lens = set()

            def body3(i):
                f2 = Frame(fr.globs, fr, fr.func)
                self.assign(g.target, fn(i), f2)
                r = self.comp(elt, gens[1:], f2)
                ln = conc(r.length())
                if not isinstance(ln, int):
                    raise Unsupported("nested comprehension of varying length over a symbolic sequence")
                lens.add(ln)
                return tuple(r.get(k) for k in range(ln))

            f = map_seq(n, body3)
            if len(lens) != 1:
                raise Unsupported("nested comprehension of varying length over a symbolic sequence")
            ln = lens.pop()
            if ln == 1:
                return PList(n=n, fn=lambda i: force(f(i))[0])
            return PList(n=simp(ops.mul(n, ln)), fn=lambda i: pick(list(force(f(zi(i) / ln))), conc(z3.simplify(zi(i) % ln))))

        if not g.ifs:
            def body(i):
                f2 = Frame(fr.globs, fr, fr.func)
                self.assign(g.target, fn(i), f2)
                return self.eval(elt, f2)

            try:
                f = map_seq(n, body)
            except Unsupported as e:
                if "side effect" not in str(e):
                    raise
                return self.comp_as_loop(elt, g, fr, n, fn)
            return PList(n=n, fn=f)

        def body2(i):
            f2 = Frame(fr.globs, fr, fr.func)
            self.assign(g.target, fn(i), f2)
            if all(self.pure(c, f2) and self.boolean(c) for c in g.ifs) and self.pure(elt, f2):
                ok = True
                for c in g.ifs:
                    ok = ops.land(ok, self.truth(self.eval(c, f2)))
                return (ok, self.eval(elt, f2))
            for c in g.ifs:
                if not self.test(self.eval(c, f2)):
                    return (False, UNDEF)
            return (True, self.eval(elt, f2))

        gen = generic(n, body2)
        paths = settle_exceptions(gen)
        if any(p[3] for p in paths):
            return self.comp_as_loop(elt, g, fr, n, fn)
        keep = [p if p[2][0] is True else (p[0] + [zb(p[2][0])], *p[1:]) for p in paths if p[2][0] is not False]
        if not keep:
            return PList([])
        cond = z3.Or(*[conj(p[0]) for p in keep])
        live = [(conj(p[0]), p[2][1]) for p in keep]
        maskf = closure_of(gen, z3.simplify(cond))
        valf = closure_of(gen, merge_list(live[:-1], live[-1][1]))
        m, f, sel, rank = filter_seq(n, maskf, valf)
        r = PList(n=m, fn=f)
        return r


class StarSeq:
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


def row_view(v, i):
    spec = []
    for sp in v.full_spec():
        if sp[0] == "f":
            spec.append(sp)
        elif sp[1] == 0:
            from .values import _lin

            spec.append(("f", _lin(sp[2], sp[3], i)))
        else:
            spec.append(("a", sp[1] - 1, sp[2], sp[3]))
    return Arr(v.store, v.shape[1:], tuple(spec))


def walk_own(fnode):
    """Nodes of a function body in source order, not entering nested functions."""
    out = []

    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            out.append(c)
            rec(c)

    rec(fnode)
    return out


def num_text_equals(a, b):
    if isinstance(b, NumText) or isinstance(b, terms.Text):
        raise Unsupported("comparison of the texts of numbers")
    if isinstance(b, str):
        try:
            float(b)
        except ValueError:
            return False
        raise Unsupported("comparison of the text of a number")
    return False


def kind_of(o):
    if isinstance(o, Arr):
        return "ndarray"
    if isinstance(o, PList):
        return "list"
    if isinstance(o, tuple):
        return "tuple"
    if isinstance(o, PDict):
        return "dict"
    if isinstance(o, IndexDict):
        return "idict"
    if isinstance(o, PSet):
        return "set"
    if isinstance(o, SSet):
        return "sset"
    if isinstance(o, Seq):
        return "seq"
    if is_scalar(o):
        return "scalar"
    if o is None:
        return "none"
    if isinstance(o, str):
        return "str"
    if isinstance(o, DT):
        return "datetime"
    if isinstance(o, TD):
        return "timedelta"
    if isinstance(o, NumText):
        return "numtext"
    return type(o).__name__


def scalar_binop(op, a, b):
    if op == "Add":
        return ops.add(a, b)
    if op == "Sub":
        return ops.sub(a, b)
    if op == "Mult":
        return ops.mul(a, b)
    if op == "Div":
        return ops.div(a, b, python=True)
    if op == "Mod":
        return ops.mod(a, b, python=True)
    if op == "Pow":
        return ops.power(a, b)
    if op == "FloorDiv":
        return ops.floordiv(a, b)
    if op in ("BitAnd", "BitOr", "BitXor") and is_bool(a) and is_bool(b):
        if op == "BitAnd":
            return ops.land(a, b)
        if op == "BitOr":
            return ops.lor(a, b)
        return ops.cmp("!=", a, b)
    if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, int) and isinstance(b, int):
        return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
    if op == "BitAnd" or op == "BitOr":
        raise Unsupported("bit operation on symbolic integers")
    if op == "MatMult":
        raise PyExc(ValueError, ("matmul of scalars",))
    raise Unsupported(f"operator {op}")


INTERP = Interp()
