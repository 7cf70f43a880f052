"""Symbolic interpreter for the real Python source in /repo (see DESIGN.md)."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import enum
import fractions
import functools
import inspect
import operator
import sys
import types
import typing

import z3

from . import rope as R
from . import source
from .core import Unsupported, PathDone, Infeasible, Restart, Budget
from .rope import zi, simp
from .values import *
from .values import Val

sys.setrecursionlimit(30000)


class Frame:
    __slots__ = ("vars", "parent", "src", "glob", "closure", "uid", "yield_cb", "exc", "fn")

    def __init__(self, src, glob, parent=None, closure=None, uid=0, fn=None):
        self.vars = {}
        self.src = src
        self.glob = glob
        self.parent = parent
        self.closure = closure or {}
        self.uid = uid
        self.yield_cb = None
        self.exc = None
        self.fn = fn


class Flow(Exception):
    pass


class BodyFlow(Flow):
    """A return, break or continue of a with statement's body, on its way through the context manager."""

    def __init__(self, flow):
        self.flow = flow


class ReturnX(Flow):
    def __init__(self, v):
        self.v = v


class BreakX(Flow):
    pass


class ContinueX(Flow):
    pass


class ConsumerBreak(Flow):
    """Leaves an internal iteration early (break/next in the consumer)."""

    def __init__(self, token):
        self.token = token


_MISSING = object()

MODELS = {}          # id(native callable) -> (callable, handler, name)
METHODS = {}         # (kind, name) -> handler(I, self, args, kwargs)
INIT_HOOKS = []


def model(*natives, name=None):
    def deco(fn):
        for n in natives:
            MODELS[id(n)] = (n, fn, name or getattr(n, "__name__", str(n)))
        return fn
    return deco


def method(kind, *names):
    def deco(fn):
        for n in names:
            METHODS[(kind, n)] = fn
        return fn
    return deco


def has_sym(v, depth=0):
    if isinstance(v, (Sym, Frame)) or v is POISON:
        return True
    if isinstance(v, (tuple, list)) and depth < 4:
        return any(has_sym(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 3 and len(v) < 50:
        return any(has_sym(x, depth + 1) for x in v.values()) or \
            any(has_sym(x, depth + 1) for x in v.keys())
    if isinstance(v, slice):
        return has_sym(v.start) or has_sym(v.stop) or has_sym(v.step)
    return False


def pyclass(v):
    """The exact Python type of a value; None if unknown."""
    if isinstance(v, Sym):
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SReal):
            return float
        if isinstance(v, (SVal, SObj, SEnum)):
            return v.cls
        if isinstance(v, SBytes):
            return bytes
        if isinstance(v, SByteArray):
            return bytearray
        if isinstance(v, SList):
            return list
        if isinstance(v, SSeq):
            return v.kind
        if isinstance(v, SDict):
            return dict
        if isinstance(v, SSet):
            return frozenset if v.frozen else set
        if isinstance(v, SRange):
            return range
        if isinstance(v, SFunc):
            return types.FunctionType
        if isinstance(v, BoundMethod):
            return types.MethodType
        if isinstance(v, SPartial):
            return functools.partial
        if isinstance(v, SGen):
            return types.GeneratorType
        if isinstance(v, SView):
            return v.pytype
        if isinstance(v, Model):
            return types.BuiltinFunctionType
        k = getattr(v, "pytype", None)
        return k
    return type(v)


def is_intlike(v):
    return isinstance(v, (int, SInt, SBool)) or isinstance(v, SEnum)


def ie(v):
    """z3 Int of an int-like value."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(int(v))
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SEnum):
        return v.e
    if isinstance(v, enum.Flag) and isinstance(v.value, int):
        return z3.IntVal(v.value)
    raise Unsupported(f"not an int: {v!r}")


def member_int(m):
    """The int a member of an int-valued enum is equal to."""
    return int(m) if isinstance(m, int) else int(m.value)


def mkint(e):
    e = simp(e)
    return e if isinstance(e, int) else SInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


FLOATOP = z3.Function("floatop", z3.IntSort(), Val, Val, Val)
TRUTHY = z3.Function("is_truthy", Val, z3.BoolSort())
INT2F = z3.Function("int_to_float", z3.IntSort(), Val)
REAL = z3.Function("real_of", Val, z3.RealSort())          # of a finite float
FINITE = z3.Function("is_finite", Val, z3.BoolSort())
PYEQ = z3.Function("py_eq", Val, Val, z3.BoolSort())


class Interp:
    def __init__(self, engine):
        self.E = engine
        self.contracts = {}         # function object -> handler(I, args, kwargs)
        self.values = set()         # classes whose (symbolic) instances are immutable values
        self.bits = {}              # term id -> (term, the bools its low bits are, whether there are no others)
        self.gframes = {}           # id(globals) -> Frame of the globals assigned by the code
        self.override = {}          # id(native object) -> replacement
        self.loop_hints = []
        self.class_init = {}        # class -> handler(I, args, kwargs)
        self.isinstance_hook = []
        self.attr_hook = {}         # (cls, name) -> handler(I, obj)
        from . import memview
        memview.use(self)
        self.inline_ok = set()      # extra modules which may be inlined
        self.depth = 0
        self.in_spec = False
        self.str_digit_limit = True

    # ---- path reset -------------------------------------------------------
    def reset(self):
        self.heap = {}
        self.writes = []
        self.lits = {}
        self.depth = 0
        self.capture = None         # (see omap.capture_template)
        self.emitted = None

    # ---- allocation -------------------------------------------------------
    def uid(self):
        self.E.counter += 1
        return self.E.counter

    def reg(self, o):
        if o.uid is None:
            o.uid = self.uid()
        self.heap[o.uid] = o
        return o

    def new(self, cls, **attrs):
        return self.reg(SObj(cls, dict(attrs)))

    def given(self, cls, attrs):
        """An object in an arbitrary state, made of the attributes its representation is known to have."""
        o = self.reg(SObj(cls, dict(attrs)))
        o.given = True
        return o

    def lst(self, items):
        return self.reg(SList(list(items)))

    def dct(self, items=()):
        return self.reg(SDict([tuple(x) for x in items]))

    def note(self, loc):
        for log in self.writes:
            log.add(loc)

    def touch(self, o):
        self.note(("h", o.uid))

    # ---- symbolic inputs --------------------------------------------------
    def int_(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self.E.inputs[name] = lambda m, e=e: m.eval(e, model_completion=True).as_long()
        if lo is not None:
            self.E.assume(e >= lo)
        if hi is not None:
            self.E.assume(e <= hi)
        return SInt(e)

    def bool_(self, name):
        e = z3.Bool(name)
        self.E.inputs[name] = lambda m, e=e: z3.is_true(m.eval(e, model_completion=True))
        return SBool(e)

    def val(self, name, cls=None):
        return SVal(z3.Const(name, Val), cls)

    def data(self, name, minlen=0):
        """Arbitrary bytes as one Arr segment."""
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        n = z3.Int(name + "_len")
        self.E.assume(n >= minlen)

        def conc(m):
            k = m.eval(n, model_completion=True).as_long()
            out = [m.eval(f(i), model_completion=True).as_long() & 255 for i in range(min(k, 64))]
            if k > 64:
                out += [0] * (min(k, 20000) - 64)
                fi = m[f]
                if fi is not None:
                    d = fi.else_value()
                    d = d.as_long() & 255 if d is not None and z3.is_int_value(d) else 0
                    out[64:] = [d] * (len(out) - 64)
                    for i in range(fi.num_entries()):
                        e = fi.entry(i)
                        if z3.is_int_value(e.arg_value(0)) and z3.is_int_value(e.value()):
                            j = e.arg_value(0).as_long()
                            if 64 <= j < len(out):
                                out[j] = e.value().as_long() & 255
            return out
        self.E.inputs[name] = conc
        return R.Arr(f, 0, n)

    def bytearray_(self, segs):
        return self.reg(SByteArray(list(segs)))

    # ---- literals ---------------------------------------------------------
    def lit(self, v):
        """Val constant for a concrete str/float/bytes/int/None."""
        key = (type(v).__name__, repr(v))
        if key in self.lits:
            return self.lits[key]
        c = z3.Const(f"{key[0]}:{key[1]}"[:200] + (f"#{len(self.lits)}" if len(key[1]) > 150 else ""), Val)
        for k2, (c2) in self.lits.items():
            if k2[0] == key[0]:
                self.E.axiom(("litne", str(k2), str(key)), c != c2)
        self.lits[key] = c
        return c

    def as_val(self, v):
        """z3 Val term for a value."""
        if isinstance(v, SVal):
            return v.e
        if isinstance(v, (str, float, bytes)) and not isinstance(v, enum.Enum):
            return self.lit(v)
        if isinstance(v, SObj):
            if v.ghost is None:
                v.ghost = z3.Const(f"obj!{v.uid}", Val)
            return v.ghost
        raise Unsupported(f"no Val term for {v!r}")

    # ---- exceptions -------------------------------------------------------
    def raise_(self, cls, *args):
        raise PyRaise(self.exc(cls, *args))

    def exc(self, cls, *args):
        return self.new(cls, args=tuple(args))

    # ---- truth ------------------------------------------------------------
    def truth_term(self, v):
        """bool or z3 Bool."""
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SInt):
            return v.e != 0
        if isinstance(v, (SEnum, SReal)):
            return v.e != 0
        if v is None:
            return False
        if isinstance(v, SBytes):
            return zi(R.rope_len(self.E, v.segs)) != 0
        if isinstance(v, SByteArray):
            return zi(R.rope_len(self.E, v.segs)) != 0
        if isinstance(v, (SList, SSet, SDict)):
            return len(v.items) > 0
        if isinstance(v, SSeq):
            return zi(v.n0) + len(v.tail) != 0
        if isinstance(v, (SFunc, BoundMethod, Model, SPartial, SGen)):
            return True
        if isinstance(v, (SObj, SView)) or type(v) in METHKINDS:
            cls = pyclass(v)
            if isinstance(v, SObj):
                for nm in ("__bool__", "__len__"):
                    f = self.class_lookup(cls, nm)
                    if f is not _MISSING:
                        return self.truth_term(self.call(self.bind(f, v, cls), [], {}))
                return True
            return self.truth_term(self.length(v))
        if isinstance(v, SVal):
            if v.cls is str:
                return zi(R.ENCLEN(R.CODECS["utf-8"], v.e)) != 0
            if isinstance(v.info, dict) and v.info.get("not_none"):
                return TRUTHY(v.e)          # any value: nothing is known about it
            raise Unsupported(f"truth value of {v!r}")
        if isinstance(v, Sym):
            raise Unsupported(f"truth value of {v!r}")
        return bool(v)

    def truth(self, v):
        t = self.truth_term(v)
        return t if isinstance(t, bool) else self.E.branch(t)

    # ---- functions --------------------------------------------------------
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        E = self.E
        self.depth += 1
        try:
            if self.depth > 400:
                raise Unsupported("call depth")
            return self._call(f, list(args), kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Model):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundMethod):
            return self._call(f.func, [f.self] + args, kwargs)
        if isinstance(f, SPartial):
            return self._call(f.func, f.args + args, {**f.kwargs, **kwargs})
        if isinstance(f, SFunc):
            return self.call_source(source_of(f), f.glob, f.frame, {}, f.defaults, f.kwdefaults,
                                    args, kwargs, f)
        if isinstance(f, SObj):
            c = self.class_lookup(f.cls, "__call__")
            if c is _MISSING:
                self.raise_(TypeError, "not callable")
            return self._call(self.bind(c, f, f.cls), args, kwargs)
        if isinstance(f, Sym):
            raise Unsupported(f"call of {f!r}")
        try:
            h = self.contracts.get(f)
        except TypeError:
            h = None
        if h is not None and self.E.memo.get("own_body") is f:
            del self.E.memo["own_body"]
            h = None
        if h is not None:
            self.E.stats.functions[qualname(f)] = "contract"
            return h(self, args, kwargs)
        m = MODELS.get(id(f))
        if m is not None and m[0] is f:
            r = m[1](self, args, kwargs)
            self.E.stats.trusted[m[2]] = self.E.stats.trusted.get(m[2], 0) + 1
            return r
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, functools.partial):
            return self._call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        if isinstance(f, operator.methodcaller):
            _, st = f.__reduce__()[0], f.__reduce__()[1]
            if f.__reduce__()[0] is operator.methodcaller:
                return self.call(self.getattr(args[0], st[0]), list(st[1:]))
            raise Unsupported("methodcaller with keywords")
        if isinstance(f, operator.itemgetter):
            ks = f.__reduce__()[1]
            return self.getitem(args[0], ks[0]) if len(ks) == 1 else tuple(self.getitem(args[0], x) for x in ks)
        if isinstance(f, types.FunctionType):
            w = getattr(f, "__wrapped__", None)
            if w is not None and f.__code__.co_filename.endswith("contextlib.py"):
                return self.make_cm(w, args, kwargs)
            src = source.find(f)
            if src is None and f.__name__ == "__eq__" and len(args) == 2 and isinstance(args[0], SObj) \
                    and any(c.__dict__.get("__eq__") is f or "__dataclass_fields__" in c.__dict__ for c in args[0].cls.__mro__):
                return self.dataclass_eq(args[0], args[1])
            if src is None or not self.may_inline(f):
                return self.native(f, args, kwargs)
            closure = {}
            if f.__closure__:
                closure = dict(zip(f.__code__.co_freevars, f.__closure__))
            if source.in_repo(f):
                self.E.stats.functions.setdefault(qualname(f), "inlined")
            return self.call_source(src, f.__globals__, None, closure, f.__defaults__ or (),
                                    f.__kwdefaults__ or {}, args, kwargs, f)
        if isinstance(f, functools._lru_cache_wrapper):
            if has_sym(args) or has_sym(kwargs):
                if not all(isinstance(x, (SInt, SVal, SEnum)) or isinstance(x, SObj) and x.cls in self.values or not isinstance(x, Sym)
                           for x in list(args) + list(kwargs.values())):
                    raise Unsupported("lru_cache with symbolic arguments")
                self.E.stats.trusted["lru_cache (transparent)"] = self.E.stats.trusted.get("lru_cache (transparent)", 0) + 1
                return self.call(f.__wrapped__, args, kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and not isinstance(f.__self__, (types.ModuleType, type(None))):
            return self.native_method(f.__self__, f.__name__, args, kwargs)
        if isinstance(f, (types.MethodWrapperType,)):
            return self.native_method(f.__self__, f.__name__, args, kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            # unbound builtin method, e.g. dict.get, BaseException.__init__
            return self.unbound_builtin(f, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType,)):
            return self.native(f, args, kwargs)
        if isinstance(f, typing.NewType):
            return args[0]
        if typing.get_origin(f) is not None:
            return self._call(typing.get_origin(f), args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def call_body(self, f, args, kwargs):
        """Call f through its body, once, though it has a contract (nested calls use the contract)."""
        self.E.memo["own_body"] = f
        return self._call(f, list(args), dict(kwargs))

    def may_inline(self, f):
        if source.in_repo(f):
            return True
        fn = f.__code__.co_filename
        return (fn.endswith(("/_collections_abc.py", "/reprlib.py")) or fn == "<frozen _collections_abc>" or "/specs/" in fn
                or f.__module__ in self.inline_ok)

    def native(self, f, args, kwargs):
        """Run a pure native callable on concrete arguments."""
        if getattr(f, "__name__", "") == "_no_init_or_replace_init" and f.__module__.startswith("typing") \
                and args and isinstance(args[0], SObj) and args[0].cls.__init__ is not f:
            return None         # Protocol.__init__ of a class with an __init__ of its own
        if has_sym(args) or has_sym(kwargs):
            raise Unsupported(f"native call {getattr(f, '__qualname__', f)} with symbolic arguments")
        mod = getattr(f, "__module__", "") or ""
        if isinstance(f, types.FunctionType) and not (
                mod.startswith("packaging") or mod in ("functools", "enum", "typing", "re",
                                                       "types", "contextlib", "struct", "abc")):
            raise Unsupported(f"native call of {f.__module__}.{f.__qualname__}")
        try:
            return self.wrap_native(f(*args, **kwargs))
        except Exception as e:
            raise PyRaise(e)

    def wrap_native(self, v):
        if type(v) is list:
            return self.lst(v)
        if type(v) is dict:
            return self.dct(v.items())
        if type(v) is bytearray:
            return self.bytearray_([R.Lit(v)])
        return v

    def native_method(self, obj, name, args, kwargs):
        h = METHODS.get((type(obj), name))
        if h is not None:
            return h(self, obj, args, kwargs)
        if has_sym(args) or has_sym(kwargs):
            for k in type(obj).__mro__:
                h = METHODS.get((k, name))
                if h is not None:
                    return h(self, obj, args, kwargs)
            raise Unsupported(f"{type(obj).__name__}.{name} with symbolic arguments")
        if isinstance(obj, (list, dict, set, bytearray)) and name not in (
                "get", "items", "keys", "values", "copy", "index", "count", "__contains__",
                "__getitem__", "__iter__", "__len__"):
            raise Unsupported(f"mutation of a native {type(obj).__name__} by {name}")
        try:
            return self.wrap_native(getattr(obj, name)(*args, **kwargs))
        except Exception as e:
            raise PyRaise(e)

    def unbound_builtin(self, f, args, kwargs):
        cls, name = f.__objclass__, f.__name__
        if issubclass(cls, BaseException) and name == "__init__":
            self.setattr_raw(args[0], "args", tuple(args[1:]))
            return None
        if cls is object and name == "__init__":
            return None
        if cls is object and name in ("__setattr__",):
            self.setattr_raw(args[0], args[1], args[2])
            return None
        if cls is object and name == "__eq__":
            return True if args[0] is args[1] else NotImplemented
        if args:
            return self.call(self.getattr(args[0], name), args[1:], kwargs)
        raise Unsupported(f"call of {f!r}")

    def call_source(self, src, glob, parent, closure, defaults, kwdefaults, args, kwargs, fn):
        fr = Frame(src, glob, parent, closure, self.uid(), fn)
        self.heap[fr.uid] = fr
        self.bind_args(fr, src.node.args, defaults, kwdefaults, args, kwargs, src.qual)
        if src.is_gen:
            def run(cb):
                fr.yield_cb = cb
                try:
                    self.exec_body(src.node.body, fr)
                except ReturnX as r:
                    return r.v
                return None
            return self.reg(SGen(run, src.qual))
        if isinstance(src.node, ast.Lambda):
            return self.ev(src.node.body, fr)
        try:
            self.exec_body(src.node.body, fr)
        except ReturnX as r:
            return r.v
        return None

    def bind_args(self, fr, a, defaults, kwdefaults, args, kwargs, qual):
        pos = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        names = [x.arg for x in pos]
        posonly = {x.arg for x in a.posonlyargs}
        n = len(args)
        v = fr.vars
        for nm, val in zip(names, args):
            v[nm] = val
        if n > len(names):
            if a.vararg is None:
                self.raise_(TypeError, f"{qual}() takes {len(names)} positional arguments")
            v[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        for nm in names[n:]:
            if nm in kwargs and nm not in posonly:
                v[nm] = kwargs.pop(nm)
        off = len(names) - len(defaults)
        for i, nm in enumerate(names):
            if nm not in v:
                if i >= off:
                    v[nm] = defaults[i - off]
                else:
                    self.raise_(TypeError, f"{qual}() missing argument {nm}")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                v[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                v[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_(TypeError, f"{qual}() missing keyword argument {x.arg}")
        if a.kwarg is not None:
            v[a.kwarg.arg] = self.dct(kwargs.items())
        elif kwargs:
            self.raise_(TypeError, f"{qual}() got unexpected keyword arguments {sorted(kwargs)}")

    # ---- context managers -------------------------------------------------
    def make_cm(self, genfn, args, kwargs):
        g = self.call(genfn, args, kwargs)
        o = self.new(GenCM)
        o.ghost = None
        o.attrs["gen"] = g
        return o

    # ---- classes ----------------------------------------------------------
    def instantiate(self, cls, args, kwargs):
        h = self.class_init.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        if issubclass(cls, enum.Enum):
            return self.enum_lookup(cls, args, kwargs)
        if issubclass(cls, BaseException):
            o = self.new(cls, args=tuple(args))
            init = self.class_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + args, kwargs)
            return o
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            return cls(*args, **kwargs)
        if not cls.__module__.startswith(("v8serialize", "specs", "collections.abc")):
            if not has_sym(args) and not has_sym(kwargs):
                try:
                    return self.wrap_native(cls(*args, **kwargs))
                except Exception as e:
                    raise PyRaise(e)
            raise Unsupported(f"instantiation of {cls.__module__}.{cls.__name__}")
        new = self.class_lookup(cls, "__new__")
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType) and new.__module__ != "typing":
            o = self.call(new, [cls] + args, kwargs)
            if not (isinstance(o, SObj) and issubclass(o.cls, cls)):
                return o
        else:
            o = self.new(cls)
        init = self.class_lookup(cls, "__init__")
        if isinstance(init, types.FunctionType):
            if source.find(init) is None:
                if dataclasses.is_dataclass(cls):
                    self.dataclass_init(cls, o, args, kwargs)
                else:
                    raise Unsupported(f"__init__ of {cls.__name__}")
            elif init.__module__ == "typing":
                pass
            else:
                self.call(init, [o] + args, kwargs)
        elif args or kwargs:
            self.raise_(TypeError, "object() takes no arguments")
        return o

    def dataclass_init(self, cls, o, args, kwargs):
        self.E.stats.trusted["dataclass __init__"] = 1
        args = list(args)
        kwargs = dict(kwargs)
        fs = [f for f in dataclasses.fields(cls)]
        for f in fs:
            if not f.init:
                if f.default is not dataclasses.MISSING:
                    o.attrs[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    o.attrs[f.name] = self.call(f.default_factory, [])
                continue
            if args and not f.kw_only:
                o.attrs[f.name] = args.pop(0)
            elif f.name in kwargs:
                o.attrs[f.name] = kwargs.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                o.attrs[f.name] = f.default
            elif f.default_factory is not dataclasses.MISSING:
                o.attrs[f.name] = self.call(f.default_factory, [])
            else:
                self.raise_(TypeError, f"missing argument {f.name}")
        if args or kwargs:
            self.raise_(TypeError, "unexpected arguments")
        pi = self.class_lookup(cls, "__post_init__")
        if pi is not _MISSING:
            self.call(self.bind(pi, o, cls), [])

    def enum_lookup(self, cls, args, kwargs):
        v = args[0]
        if isinstance(v, SEnum) and v.cls is cls:
            return v
        if not has_sym(args):
            try:
                return cls(*args, **kwargs)
            except Exception as e:
                raise PyRaise(e)
        if isinstance(v, (SInt, SEnum, SBool)):
            e = ie(v)
            if issubclass(cls, enum.Flag):
                known = 0
                for m in cls:
                    known |= m.value
                b = getattr(cls, "_boundary_", None)
                if b is enum.KEEP:
                    return SEnum(cls, e)
                if self.E.entails(z3.And(e >= 0, e <= known)) and (known & (known + 1)) == 0:
                    return SEnum(cls, e)
                raise Unsupported(f"flag {cls.__name__} of a symbolic value")
            vals = sorted({member_int(m) for m in cls if isinstance(m.value, int)})
            missing = self.class_lookup(cls, "_missing_")
            own = inspect.isfunction(inspect.unwrap(getattr(missing, "__func__", missing))) and \
                source.in_repo(inspect.unwrap(getattr(missing, "__func__", missing)))
            if not vals and own and all(type(m.value).__eq__ is object.__eq__ or dataclasses.is_dataclass(m.value) for m in cls):
                r = self.call(self.bind(missing, cls, type(cls)), [v])    # no member's value is equal to an int
                if r is None:
                    self.raise_(ValueError, f"not a valid {cls.__name__}")
                return r
            if own or len({isinstance(m.value, int) for m in cls}) > 1:
                raise Unsupported(f"enum lookup {cls.__name__}({v!r})")
            c = z3.Or([e == x for x in vals])
            if not self.E.branch(c):
                self.raise_(ValueError, f"not a valid {cls.__name__}")
            return self.mk_enum(cls, e)
        if isinstance(v, SVal) and v.cls is str and issubclass(cls, str):
            for m in cls:
                if self.truth(self.eq(str(m.value), v)):
                    return m
            self.raise_(ValueError, f"not a valid {cls.__name__}")
        raise Unsupported(f"enum lookup {cls.__name__}({v!r})")

    def mk_enum(self, cls, e):
        e = simp(e)
        if isinstance(e, int):
            return cls(e)
        return SEnum(cls, e)

    def concretize_enum(self, v):
        """Fork over the members of a symbolic enum value."""
        if not isinstance(v, SEnum):
            return v
        if issubclass(v.cls, enum.Flag):
            raise Unsupported("concretize flag")
        for m in v.cls:
            if self.E.branch(v.e == member_int(m)):
                return m
        raise Infeasible

    def class_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return _MISSING

    def bind(self, f, obj, cls):
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, classmethod):
            return BoundMethod(cls, f.__func__)
        if isinstance(f, (types.FunctionType, SFunc, Model, types.MethodDescriptorType,
                          types.WrapperDescriptorType, functools._lru_cache_wrapper)):
            return BoundMethod(obj, f)
        if isinstance(f, functools.singledispatchmethod):
            return Model(lambda I, a, k, f=f, obj=obj, cls=cls: I.dispatch(f, obj, cls, a, k),
                         "singledispatchmethod")
        if isinstance(f, property):
            return self.call(f.fget, [obj])
        return self.override.get(id(f), f)

    def dispatch(self, sdm, obj, cls, args, kwargs):
        v = args[0]
        t = pyclass(v)
        if t is None:
            raise Unsupported("singledispatch on a value of unknown type")
        impl = sdm.dispatcher.dispatch(t)
        return self.call(self.bind(impl, obj, cls), args, kwargs)

    # ---- attributes -------------------------------------------------------
    def getattr(self, o, name, default=_MISSING):
        try:
            return self._getattr(o, name)
        except AttrMissing:
            if default is not _MISSING:
                return default
            if self.in_spec:        # the lemma names something the code no longer has: nothing to decide
                raise Unsupported(f"attribute {name} used by the lemma does not exist")
            if isinstance(o, SObj) and o.given:
                raise Unsupported(f"attribute {name} of an object whose representation is given")
            self.raise_(AttributeError, name)

    def _getattr(self, o, name):
        if isinstance(o, SObj):
            h = self.attr_hook.get((o.cls, name))
            if h is not None:
                return h(self, o)
            if o.cls is GenCM:
                raise AttrMissing
            if name == "__class__":
                return o.cls
            d = self.class_lookup(o.cls, name)
            if isinstance(d, property):
                return self.call(d.fget, [o])
            if isinstance(d, functools.cached_property):
                if name not in o.attrs:
                    o.attrs[name] = self.call(d.func, [o])
                return o.attrs[name]
            if name in o.attrs:
                v = o.attrs[name]
                if v is POISON:
                    raise Unsupported(f"attribute {name} has no known value here")
                return v
            if d is _MISSING or isinstance(d, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                if name == "__dict__":
                    raise Unsupported("__dict__")
                if issubclass(o.cls, BaseException) and name in ("__cause__", "__context__", "__traceback__"):
                    return o.attrs.get(name)
                raise AttrMissing
            m = METHODS.get((o.cls, name))
            if m is not None:
                return Model(lambda I, a, k: m(I, o, a, k), name)
            return self.bind(d, o, o.cls)
        if isinstance(o, SSuper):
            mro = o.self.cls.__mro__ if isinstance(o.self, SObj) else (
                o.self.__mro__ if isinstance(o.self, type) else pyclass(o.self).__mro__)
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    return self.bind(k.__dict__[name], o.self, pyclass(o.self))
            raise AttrMissing
        if isinstance(o, SEnum):
            if name in ("value", "_value_"):
                return mkint(o.e)
            if name == "name":
                return SVal(z3.Function("enumname", z3.IntSort(), Val)(o.e), str)
            if name == "__class__":
                return o.cls
            d = self.class_lookup(o.cls, name)
            if d is _MISSING:
                m = METHODS.get((int, name))
                if m:
                    return Model(lambda I, a, k: m(I, mkint(o.e), a, k), name)
                raise AttrMissing
            if isinstance(d, property):
                return self.call(d.fget, [o])
            return self.bind(d, o, o.cls)
        if isinstance(o, (SFunc,)):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            raise AttrMissing
        if isinstance(o, SGen) and name == "__iter__":
            return Model(lambda I, a, k: o, name)
        if isinstance(o, Sym):
            cls = pyclass(o)
            kinds = [type(o)]
            if cls is not None:
                kinds += list(cls.__mro__)
            for k in kinds:
                h = self.attr_hook.get((k, name))
                if h is not None:
                    return h(self, o)
            for k in kinds:
                m = METHODS.get((k, name))
                if m is not None:
                    return Model(lambda I, a, kw, m=m: m(I, o, a, kw), name)
            if name == "__class__" and cls is not None:
                return cls
            if name == "__hash__" and cls is not None:
                return getattr(cls, "__hash__", None)
            if cls is not None and not hasattr(cls, name):
                raise AttrMissing
            raise Unsupported(f"attribute {name} of {o!r}")
        if isinstance(o, types.ModuleType):
            gf = self.gframes.get(id(o.__dict__))
            if gf is not None and name in gf.vars:
                return self.global_var(gf, name)
            v = getattr(o, name, _MISSING)
            if v is _MISSING:
                raise AttrMissing
            return self.override.get(id(v), v)
        if isinstance(o, type):
            for k in o.__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, classmethod):
                        return BoundMethod(o, d.__func__)
                    break
        h = METHODS.get((type(o), name))
        if h is not None:
            return Model(lambda I, a, k, h=h: h(I, o, a, k), name)
        if not isinstance(o, type):
            d = self.class_lookup(type(o), name)
            if isinstance(d, functools.singledispatchmethod):
                return self.bind(d, o, type(o))
        try:
            v = getattr(o, name)
        except AttributeError:
            raise AttrMissing
        except Exception as e:
            raise PyRaise(e)
        return self.override.get(id(v), v)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            d = self.class_lookup(o.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    self.raise_(AttributeError, name)
                self.call(d.fset, [o, v])
                return
            sa = self.class_lookup(o.cls, "__setattr__")
            if isinstance(sa, types.FunctionType):
                self.call(sa, [o, name, v])
                return
            self.setattr_raw(o, name, v)
            return
        if isinstance(o, SFunc):
            o.attrs[name] = v
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    def setattr_raw(self, o, name, v):
        if not isinstance(o, SObj):
            raise Unsupported(f"attribute assignment on {o!r}")
        self.note(("a", o.uid, name))
        o.attrs[name] = v

    # ---- frames -----------------------------------------------------------
    def load(self, fr, name):
        f = fr
        while f is not None:
            if name in f.src.locals_ or name in f.vars:
                if name in f.vars:
                    v = f.vars[name]
                    if v is POISON:
                        raise Unsupported(f"local {name} has no known value here")
                    return v
                if name in f.src.locals_:
                    self.raise_(UnboundLocalError, name)
            if name in f.closure:
                v = f.closure[name].cell_contents
                return self.override.get(id(v), v)
            if f.parent is None:
                break
            f = f.parent
        g = fr.glob
        gf = self.gframes.get(id(g))
        if gf is not None and name in gf.vars:
            return self.global_var(gf, name)
        if name in g:
            v = g[name]
            return self.override.get(id(v), v)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def global_var(self, gf, name):
        """A global the code has assigned: its value lives in a frame of its own."""
        v = gf.vars[name]
        if v is POISON:
            raise Unsupported(f"global {name} has no known value here")
        return v

    def store(self, fr, name, v):
        if name in fr.src.nonlocals_:
            f = fr.parent
            while f is not None and name not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
            fr = f
        elif name in fr.src.globals_:
            gf = self.gframes.get(id(fr.glob))
            if gf is None:
                gf = self.gframes[id(fr.glob)] = Frame(None, fr.glob, uid=self.uid())
            fr = gf
        self.note(("l", fr.uid, name))
        self.heap.setdefault(fr.uid, fr)
        fr.vars[name] = v

    # ---- statements -------------------------------------------------------
    def exec_body(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.E.where = (fr.src.qual, s.lineno)
        self.in_spec = "/specs/" in (fr.src.file or "")
        m(s, fr)

    def x_Expr(self, s, fr):
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise ReturnX(None if s.value is None else self.ev(s.value, fr))

    def x_Break(self, s, fr):
        raise BreakX

    def x_Continue(self, s, fr):
        raise ContinueX

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(fr, t.id)
            v = self.binop(type(s.op), cur, self.ev(s.value, fr), inplace=True)
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            v = self.binop(type(s.op), self.getattr(o, nm), self.ev(s.value, fr), inplace=True)
            self.setattr(o, nm, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            v = self.binop(type(s.op), self.getitem(o, i), self.ev(s.value, fr), inplace=True)
            self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment target")

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Name):
                self.note(("l", fr.uid, t.id))
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.note(("a", o.uid, t.attr))
                o.attrs.pop(self.mangle(t.attr, fr), None)
            else:
                raise Unsupported("del target")

    def x_If(self, s, fr):
        self.exec_body(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_(AssertionError)

    def x_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is None:
                raise Unsupported("bare raise")
            raise PyRaise(f.exc)
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            c = self.ev(s.cause, fr)
            if isinstance(e, SObj):
                e.attrs["__cause__"] = c
        if isinstance(e, type):
            e = self.instantiate(e, [], {})
        raise PyRaise(e)

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        cls = exc.cls if isinstance(exc, SObj) else type(exc)
        return issubclass(cls, t)

    def x_Try(self, s, fr):
        def inner():
            try:
                self.exec_body(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.ev(h.type, fr)):
                        old = fr.exc
                        fr.exc = e.exc
                        if h.name:
                            self.store(fr, h.name, e.exc)
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            fr.exc = old
                        if h.name:
                            fr.vars.pop(h.name, None)
                        return
                raise
            else:
                self.exec_body(s.orelse, fr)
        if not s.finalbody:
            inner()
            return
        try:
            inner()
        except (PyRaise, Flow):
            self.exec_body(s.finalbody, fr)
            raise
        self.exec_body(s.finalbody, fr)

    def x_With(self, s, fr):
        self.with_items(s.items, 0, s, fr)

    def with_items(self, items, i, s, fr):
        if i == len(items):
            self.exec_body(s.body, fr)
            return
        it = items[i]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, SObj) and cm.cls is GenCM:
            ran = []

            def cb(v):
                if ran:
                    raise Unsupported("contextmanager yielded twice")
                ran.append(1)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                try:
                    self.with_items(items, i + 1, s, fr)
                except BodyFlow:
                    raise
                except Flow as e:
                    raise BodyFlow(e)
                return None
            try:
                cm.attrs["gen"].run(cb)
            except BodyFlow as e:
                raise e.flow
            if not ran:
                self.raise_(RuntimeError, "generator didn't yield")
            return
        v = self.call(self.getattr(cm, "__enter__"), [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        ex = self.getattr(cm, "__exit__")
        try:
            self.with_items(items, i + 1, s, fr)
        except PyRaise as e:
            r = self.call(ex, [e.cls, e.exc, None])
            if r is not None and self.truth(r):
                return
            raise
        except Flow:
            self.call(ex, [None, None, None])
            raise
        self.call(ex, [None, None, None])

    def x_FunctionDef(self, s, fr):
        v = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            dec = self.ev(d, fr)
            if dec is functools.wraps or isinstance(dec, SPartial) and dec.func is functools.update_wrapper:
                continue
            if isinstance(dec, functools.partial) and dec.func is functools.update_wrapper:
                continue
            v = self.call(dec, [v])
        self.store(fr, s.name, v)

    def make_func(self, node, fr):
        a = node.args
        d = tuple(self.ev(x, fr) for x in a.defaults)
        kd = {x.arg: self.ev(v, fr) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        name = getattr(node, "name", "<lambda>")
        return SFunc(node, fr, fr.glob, d, kd, name, fr.src.qual + ".<locals>." + name,
                     fr.src.clsname, fr.src.file)

    def x_Import(self, s, fr):
        for al in s.names:
            m = __import__(al.name)
            self.store(fr, (al.asname or al.name).split(".")[0],
                       sys.modules[al.name] if al.asname else m)

    def x_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for al in s.names:
            v = getattr(m, al.name)
            self.store(fr, al.asname or al.name, self.override.get(id(v), v))

    def x_Nonlocal(self, s, fr):
        pass

    def x_Global(self, s, fr):
        pass

    # ---- assignment targets -----------------------------------------------
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.src.clsname:
            return "_" + fr.src.clsname.lstrip("_") + name
        return name

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    self.raise_(ValueError, "not enough values to unpack")
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, self.lst(vs[i:len(vs) - n]), fr)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - n:]):
                    self.assign(x, y, fr)
                return
            if len(vs) != len(t.elts):
                self.raise_(ValueError, "unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, SList):
            return list(v.items)
        out = []
        self.iterate(v, out.append)
        return out

    # ---- loops ------------------------------------------------------------
    def x_While(self, s, fr):
        key = ("while", fr.src.qual, s.lineno, s.col_offset)

        def step():
            if not self.truth(self.ev(s.test, fr)):
                return "exhausted"
            try:
                self.exec_body(s.body, fr)
            except ContinueX:
                pass
            return "next"
        try:
            self.loop(key, step, node=s)
        except BreakX:
            return
        self.exec_body(s.orelse, fr)

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        token = object()

        def cb(v):
            self.assign(s.target, v, fr)
            try:
                self.exec_body(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                raise ConsumerBreak(token)
        hook = getattr(self, "for_hook", None)
        if hook is not None and hook(self, it, cb, s, fr):
            self.exec_body(s.orelse, fr)
            return
        try:
            self.iterate(it, cb, node=s, fr=fr)
        except ConsumerBreak as b:
            if b.token is not token:
                raise
            return
        self.exec_body(s.orelse, fr)

    def iterate(self, it, cb, node=None, fr=None):
        """Internal iteration: cb(value) for every element."""
        if isinstance(it, SList):
            i = 0
            while i < len(it.items):
                cb(it.items[i])
                i += 1
            return
        if isinstance(it, (tuple, list, range, str, bytes, dict, types.MappingProxyType, frozenset,
                           set, type({}.items()), type({}.keys()), type({}.values()))):
            if isinstance(it, range) and len(it) > 2000:
                it = SRange(it.start, it.stop, it.step)
            else:
                for x in list(it):
                    cb(x)
                return
        if isinstance(it, SGen):
            if it.started:
                return None
            it.started = True
            return it.run(lambda v: (cb(v), None)[1])
        if isinstance(it, (SDict,)):
            for k, _ in list(it.items):
                cb(k)
            return
        if isinstance(it, SSet):
            for k in list(it.items):
                cb(k)
            return
        if isinstance(it, SView):
            return it.iterfn(self, cb)
        if isinstance(it, SRange):
            start, stop, step = it.start, it.stop, it.step
            if not isinstance(step, int):
                raise Unsupported("symbolic range step")
            if step == 1:
                n = simp(z3.If(zi(stop) > zi(start), zi(stop) - zi(start), z3.IntVal(0)))
                elem = lambda k: mkint(zi(start) + k)
            elif step == -1:
                n = simp(z3.If(zi(stop) < zi(start), zi(start) - zi(stop), z3.IntVal(0)))
                elem = lambda k: mkint(zi(start) - k)
            else:
                raise Unsupported("range step")
            return self.symloop(n, elem, cb, node, fr)
        if isinstance(it, SSeq):
            n0 = simp(it.n0)
            if not isinstance(n0, int) or n0:
                self.symloop(it.n0, it.elem, cb, node, fr, seq=it)
            for x in list(it.tail):
                cb(x)
            return
        if isinstance(it, SObj):
            f = self.class_lookup(it.cls, "__iter__")
            if f is _MISSING:
                self.raise_(TypeError, "not iterable")
            return self.iterate(self.call(self.bind(f, it, it.cls), []), cb, node, fr)
        if isinstance(it, type) and issubclass(it, enum.Enum):
            for x in it:
                cb(x)
            return
        if isinstance(it, (enum.Flag, SEnum)):
            cls = it.cls if isinstance(it, SEnum) else type(it)
            f = self.class_lookup(cls, "__iter__") if issubclass(cls, enum.Flag) else None
            if isinstance(f, types.FunctionType):
                if source.in_repo(f):
                    return self.iterate(self.call(f, [it]), cb, node, fr)
                # enum.Flag's own: the canonical members whose bit is set, in a fixed order (3.11+)
                known = 0
                for m in cls:
                    known |= m.value
                for x in (list(cls(known)) if isinstance(it, SEnum) else list(it)):
                    if not isinstance(it, SEnum) or self.E.branch(self.mask(it.e, x.value) == x.value):
                        cb(x)
                return
        h = METHODS.get((type(it), "__iterate__"))
        if h is not None:
            return h(self, it, [cb], {})
        if not isinstance(it, Sym):
            f = getattr(type(it), "__iter__", None)
            if isinstance(f, types.FunctionType) and source.in_repo(f):
                return self.iterate(self.call(f, [it]), cb, node, fr)
        raise Unsupported(f"iteration over {it!r}")

    def symloop(self, n, elem, cb, node, fr, seq=None):
        """Loop rule for `for` over n elements (n symbolic)."""
        n = simp(n)
        if isinstance(n, int) and n <= 8:
            for i in range(n):
                cb(elem(z3.IntVal(i)))
            return
        if self.capture is not None:
            return self.capture(n, elem, cb)
        key = ("for", fr.src.qual if fr else "?", getattr(node, "lineno", 0),
               getattr(node, "col_offset", 0))
        tgt = None
        if node is not None and isinstance(node, ast.For) and isinstance(node.target, ast.Name):
            tgt = ("l", fr.uid, node.target.id)

        def step(k=None):
            kk = 0 if k is None else k
            if not self.E.branch(zi(kk) < zi(n)):
                return "exhausted"
            cb(elem(zi(kk)))
            return "next"
        self.loop(key, step, node=node, counted=(n, elem, tgt))

    def loop(self, key, step, node=None, counted=None):
        from .loops import run_loop
        return run_loop(self, key, step, counted)

    # ---- expressions ------------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load(fr, n.id)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while getattr(f.src, "qual", "").endswith("<comp>"):
            f = f.parent
        self.store(f, n.target.id, v)
        return v

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        if not n.elts and not self.in_spec and getattr(self, "empty_list", None) is not None:
            return self.empty_list(self)
        return self.lst(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        s = self.reg(SSet())
        for x in self.elts(n.elts, fr):
            self.set_add(s, x)
        return s

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                self.iterate(self.ev(x.value, fr), out.append)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, n, fr):
        new = getattr(self, "dict_factory", None)
        d = self.dct() if new is None or n.keys else new(self)
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                self.iterate(self.call(self.getattr(o, "items"), []),
                             lambda kv: self.setitem(d, kv[0], kv[1]))
            else:
                kk = self.ev(k, fr)
                self.setitem(d, kk, self.ev(v, fr))
        return d

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, SBool) else (0 if isinstance(v, SInt) else v)
            if not is_and and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (SInt, SBool, SEnum)):
                return mkint(-ie(v))
            if isinstance(v, SVal):
                return self.float_op("neg", v, v)
            return -v
        if isinstance(n.op, ast.UAdd) and isinstance(v, (int, SInt)):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, SInt):
                return mkint(-v.e - 1)
            if not isinstance(v, Sym):
                return ~v
        raise Unsupported("unary operator")

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op), a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fr)
            res = self.compare(type(op), left, right)
            if i < len(n.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f.parent is not None and "__class__" not in f.closure:
                f = f.parent
            c = f.closure.get("__class__")
            if c is None:
                raise Unsupported("super() without __class__")
            a = f.src.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SSuper(c.cell_contents, f.vars[first])
        f = self.ev(n.func, fr)
        args = self.elts(n.args, fr)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, SDict):
                    kwargs.update({a: b for a, b in d.items})
                elif isinstance(d, dict):
                    kwargs.update(d)
                else:
                    raise Unsupported("** argument")
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        if f is builtins.super and len(args) == 2:
            return SSuper(args[0], args[1])
        r = self.call(f, args, kwargs)
        self.E.where = (fr.src.qual, n.lineno)
        return r

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), self.mangle(n.attr, fr))

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev(n.slice, fr))

    def e_Slice(self, n, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Starred(self, n, fr):
        raise Unsupported("starred")

    def e_JoinedStr(self, n, fr):
        parts = []
        conc = True
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.ev(v.value, fr)
            spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ""
            s = self.format(x, v.conversion, spec)
            parts.append(s)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return SVal(self.E.fresh("str", Val), str)

    def format(self, x, conversion, spec=""):
        """str()/repr()/format() of a value in an f-string."""
        if isinstance(x, SInt):
            self.check_digits(x)
            h = getattr(self, "int_to_str", None)
            if h is not None and not spec:
                return h(self, x)
            return SVal(self.E.fresh("str", Val), str)
        if has_sym(x) or not isinstance(x, (str, int, float, bytes, type(None), enum.Enum)):
            # repr()/str() of repo objects is not interpreted: assumed total
            self.E.stats.assumed.add("str()/repr() of objects in messages returns a str")
            return SVal(self.E.fresh("str", Val), str)
        try:
            v = {-1: lambda z: z, 114: repr, 115: str, 97: ascii}[conversion](x)
            return format(v, spec if isinstance(spec, str) else "")
        except ValueError as e:
            raise PyRaise(e)

    def check_digits(self, x):
        """int -> decimal str raises ValueError beyond sys.int_info limits."""
        if not self.str_digit_limit:
            return
        e = ie(x)
        lim = z3.Int("10**int_max_str_digits")
        self.E.axiom("strlim", lim > 10 ** 600)
        if not self.E.branch(z3.And(e < 2 ** 64, e > -(2 ** 64))):
            # 64-bit split keeps the common case free of huge constants
            if not self.E.branch(z3.And(e < lim, e > -lim)):
                self.raise_(ValueError, "Exceeds the limit for integer string conversion")

    def e_Yield(self, n, fr):
        v = None if n.value is None else self.ev(n.value, fr)
        return fr_yield(fr)(v)

    def e_YieldFrom(self, n, fr):
        it = self.ev(n.value, fr)
        cb = fr_yield(fr)
        if isinstance(it, SGen):
            it.started = True
            return it.run(cb)
        self.iterate(it, cb, node=n, fr=fr)
        return None

    def comp_frame(self, fr):
        src = source.FnSrc()
        src.node, src.file, src.clsname = fr.src.node, fr.src.file, fr.src.clsname
        src.qual = fr.src.qual + ".<comp>"
        src.is_gen = False
        src.locals_, src.globals_, src.nonlocals_ = set(), set(), set()
        f = Frame(src, fr.glob, fr, {}, self.uid(), fr.fn)
        self.heap[f.uid] = f
        return f

    def run_comp(self, gens, fr, emit):
        def rec(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]
            it = self.ev(g.iter, fr)

            def cb(v):
                self.assign(g.target, v, fr)
                for c in g.ifs:
                    if not self.truth(self.ev(c, fr)):
                        return
                rec(i + 1)
            self.iterate(it, cb, node=g.iter, fr=fr)
        rec(0)

    def comp_hook(self, n, fr):
        """Comprehension over a symbolic sequence; None if not applicable."""
        h = getattr(self, "comp_handler", None)
        return h(self, n, fr) if h is not None else None

    def e_ListComp(self, n, fr):
        r = self.comp_hook(n, fr)
        if r is not None:
            return r
        f = self.comp_frame(fr)
        out = self.lst([])

        def emit():
            v = self.ev(n.elt, f)
            self.touch(out)
            out.items.append(v)
        self.run_comp(n.generators, f, emit)
        return out

    def e_SetComp(self, n, fr):
        f = self.comp_frame(fr)
        out = self.reg(SSet())
        self.run_comp(n.generators, f, lambda: self.set_add(out, self.ev(n.elt, f)))
        return out

    def e_DictComp(self, n, fr):
        r = self.comp_hook(n, fr)
        if r is not None:
            return r
        f = self.comp_frame(fr)
        out = self.dct()

        def emit():
            k = self.ev(n.key, f)
            self.setitem(out, k, self.ev(n.value, f))
        self.run_comp(n.generators, f, emit)
        return out

    def e_GeneratorExp(self, n, fr):
        f = self.comp_frame(fr)
        # the first iterable is evaluated eagerly
        first = self.ev(n.generators[0].iter, f)

        def run(cb):
            gens = n.generators

            def rec(i):
                if i == len(gens):
                    cb(self.ev(n.elt, f))
                    return
                g = gens[i]
                it = first if i == 0 else self.ev(g.iter, f)

                def c2(v):
                    self.assign(g.target, v, f)
                    for c in g.ifs:
                        if not self.truth(self.ev(c, f)):
                            return
                    rec(i + 1)
                self.iterate(it, c2, node=g.iter, fr=f)
            rec(0)
        return self.reg(SGen(run, f.src.qual))

    # ---- operators --------------------------------------------------------
    OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.BitOr: "or", ast.BitAnd: "and",
           ast.BitXor: "xor", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.LShift: "lshift",
           ast.RShift: "rshift", ast.Div: "truediv", ast.Pow: "pow", ast.MatMult: "matmul"}
    OPF = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
           ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.LShift: operator.lshift,
           ast.RShift: operator.rshift, ast.Div: operator.truediv, ast.Pow: operator.pow}

    def binop(self, op, a, b, inplace=False):
        if not has_sym(a) and not has_sym(b) and not isinstance(a, (list, dict, set, bytearray)):
            f = getattr(type(a), f"__{self.OPN[op]}__", None)
            if not (isinstance(f, types.FunctionType) and source.in_repo(f)):
                try:
                    return self.OPF[op](a, b)
                except Exception as e:
                    raise PyRaise(e)
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            r = self.flag_op(op, a, b)
            if r is not None:
                return r
        if is_intlike(a) and is_intlike(b):
            return self.int_op(op, a, b)
        nm = self.OPN[op]
        if isinstance(a, SObj) or (not isinstance(a, Sym) and type(a).__module__.startswith("v8serialize")):
            cls = pyclass(a)
            for dn in ([f"__i{nm}__"] if inplace else []) + [f"__{nm}__"]:
                f = self.class_lookup(cls, dn)
                if f is not _MISSING:
                    r = self.call(self.bind(f, a, cls), [b])
                    if r is not NotImplemented:
                        return r
        if isinstance(a, Sym):
            for k in [type(a)] + list((pyclass(a) or object).__mro__):
                h = METHODS.get((k, f"__i{nm}__" if inplace else f"__{nm}__")) or \
                    METHODS.get((k, f"__{nm}__"))
                if h is not None:
                    return h(self, a, [b], {})
        if isinstance(b, Sym):
            for k in [type(b)] + list((pyclass(b) or object).__mro__):
                h = METHODS.get((k, f"__r{nm}__"))
                if h is not None:
                    return h(self, b, [a], {})
        if isinstance(b, SObj):
            f = self.class_lookup(b.cls, f"__r{nm}__")
            if f is not _MISSING:
                return self.call(self.bind(f, b, b.cls), [a])
        if op is ast.BitOr and isinstance(a, type):
            return a | b
        if pyclass(a) is str and (op is ast.Add or op is ast.Mod):
            return SVal(self.E.fresh("str", Val), str)
        if pyclass(a) is float or pyclass(b) is float:
            return self.float_op(nm, a, b)
        if isinstance(a, SInt) and isinstance(b, (SInt, int)) and op is ast.Div:
            return SReal(z3.ToReal(ie(a)) / z3.ToReal(ie(b)))
        if op is ast.Mult:
            if is_intlike(a) and type(b) in (bytes, bytearray):
                a, b = b, a
            if type(a) in (bytes, bytearray) and is_intlike(b):
                return self.repeat_bytes(a, b)
        raise Unsupported(f"operator {nm} on {a!r}, {b!r}")

    def repeat_bytes(self, a, n):
        """Constant bytes repeated a symbolic number of times (none for a negative one)."""
        n = simp(ie(n))
        if len(a) == 0 or self.E.branch(zi(n) <= 0):
            segs = []
        else:
            segs = [R.Rep(n, z3.Int("repeat_kv"), [R.Lit(bytes(a))], None)]
        return self.bytearray_(segs) if type(a) is bytearray else SBytes(segs)

    def float_op(self, nm, a, b):
        code = sum(ord(c) * 131 ** i for i, c in enumerate(nm)) % 1000003
        r = SVal(FLOATOP(code, self.fval(a), self.fval(b)), float)
        self.rounding(nm, a, b, r)
        return r

    def rounding(self, nm, a, b, r):
        """IEEE 754: the result is the exact one but for a relative error of 2**-52, when neither is extreme."""
        x, y = self.real(a), self.real(b)
        if x is None or y is None:
            return
        (x, fx, cx), (y, fy, cy) = x, y
        if nm == "mul" and (cx or cy):
            exact = x * y
        elif nm == "truediv" and cy and not z3.is_true(z3.simplify(y == 0)):
            exact = x / y
        elif nm in ("add", "sub"):
            exact = x + y if nm == "add" else x - y
        else:
            return
        mag = z3.If(exact < 0, -exact, exact)
        err = REAL(r.e) - exact
        tiny, huge = z3.RealVal(2) ** -1000, z3.RealVal(2) ** 1000
        self.E.assume(z3.Implies(
            z3.And(fx, fy, z3.Or(exact == 0, z3.And(mag >= z3.simplify(tiny), mag <= z3.simplify(huge)))),
            z3.And(FINITE(r.e), err * 2 ** 52 <= mag, -err * 2 ** 52 <= mag)))

    def real(self, v):
        """(real value, is it finite, is it known), None for an int whose float is not known."""
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            f = float(v)
            if f != f or f in (float("inf"), float("-inf")):
                return None
            return z3.RealVal(str(fractions.Fraction(f))), z3.BoolVal(True), True
        if isinstance(v, SVal) and v.cls is float:
            return REAL(v.e), FINITE(v.e), False
        return None

    def fval(self, v):
        if is_intlike(v):
            v = ie(v)
            v = simp(v)
            if isinstance(v, int):
                return self.lit(float(v))
            return INT2F(v)
        return self.as_val(v)

    def flag_op(self, op, a, b):
        cls = a.cls if isinstance(a, SEnum) else b.cls
        if not issubclass(cls, enum.Flag):
            return None
        if op in (ast.BitOr, ast.BitAnd, ast.BitXor):
            r = self.int_op(op, mkint(ie(a)), mkint(ie(b)))
            return self.mk_enum(cls, ie(r)) if isinstance(r, SInt) else cls(r)
        return None

    def int_op(self, op, a, b):
        E = self.E
        x, y = ie(a), ie(b)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and z3.is_expr(x) and z3.is_expr(y):
            p, q = self.known_bits(x), self.known_bits(y)
            if p is not None and q is not None and (x.get_id() in self.bits or y.get_id() in self.bits):
                n = max(len(p), len(q))
                p, q = (list(t) + [z3.BoolVal(False)] * (n - len(t)) for t in (p, q))
                z = {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op]
                return mkint(self.of_bits([z3.simplify(z(s, t)) for s, t in zip(p, q)]))
        if op is ast.Add:
            return mkint(x + y)
        if op is ast.Sub:
            return mkint(x - y)
        if op is ast.Mult:
            return mkint(x * y)
        if op in (ast.FloorDiv, ast.Mod):
            c = simp(y)
            if isinstance(c, int):
                if c == 0:
                    self.raise_(ZeroDivisionError)
                if c > 0:
                    return mkint(x / c if op is ast.FloorDiv else x % c)
                raise Unsupported("negative divisor")
            if not E.branch(y != 0):
                self.raise_(ZeroDivisionError)
            if E.entails(y > 0):
                return mkint(x / y if op is ast.FloorDiv else x % y)
            raise Unsupported("divisor of unknown sign")
        if op is ast.RShift:
            c = simp(y)
            if isinstance(c, int):
                if c < 0:
                    self.raise_(ValueError, "negative shift count")
                return mkint(x / (2 ** c))
            raise Unsupported("symbolic right shift")
        if op is ast.LShift:
            c = simp(y)
            if isinstance(c, int):
                if c < 0:
                    self.raise_(ValueError, "negative shift count")
                return mkint(x * (2 ** c))
            cx = simp(x)
            if not E.branch(y >= 0):
                self.raise_(ValueError, "negative shift count")
            if cx == 1:
                return mkint(R.pow2(E, y))
            return mkint(R.shl(E, x, y))
        if op is ast.Pow:
            cx, cy = simp(x), simp(y)
            if cx == 2 and not isinstance(cy, int):
                if E.entails(y >= 0):
                    return mkint(R.pow2(E, y))
            if isinstance(cy, int) and 0 <= cy <= 4:
                r = z3.IntVal(1)
                for _ in range(cy):
                    r = r * x
                return mkint(r)
            raise Unsupported("power")
        if op is ast.BitAnd:
            cx, cy = simp(x), simp(y)
            if isinstance(cx, int):
                cx, x, cy, y = cy, y, cx, x
            if isinstance(cy, int) and cy >= 0:
                return mkint(self.mask(x, cy))
            if isinstance(cy, int):     # x & ~m
                return mkint(x - self.mask(x, ~cy))
            raise Unsupported("symbolic &")
        if op in (ast.BitOr, ast.BitXor):
            cx, cy = simp(x), simp(y)
            if isinstance(cx, int):
                cx, x, cy, y = cy, y, cx, x
            if isinstance(cy, int) and cy >= 0:
                m = self.mask(x, cy)
                return mkint(x + cy - m if op is ast.BitOr else x + cy - 2 * m)
            if isinstance(cy, int):
                # x | c (c<0) = ~(~x & ~c)
                m = self.mask(-x - 1, ~cy)
                if op is ast.BitOr:
                    return mkint(-m - 1)
                raise Unsupported("xor with negative")
            # disjoint operands add up
            for p, q in ((x, y), (y, x)):
                for k in (1, 7, 8, 16, 32):
                    if E.entails(z3.And(p >= 0, p < 2 ** k, q % (2 ** k) == 0, q >= 0)):
                        return mkint(x + y)
                if z3.is_app(q) and q.decl().name() == "shl":
                    if E.entails(z3.And(p >= 0, q >= 0, p < R.pow2(E, q.arg(1)))):
                        return mkint(x + y)
            if op is ast.BitOr and E.entails(z3.And(x >= 0, y >= 0)):
                # sound bounds only: max(x, y) <= x | y <= x + y
                r = E.fresh("bitor")
                E.assume(z3.And(r >= x, r >= y, r <= x + y))
                E.approx = True
                return mkint(r)
            raise Unsupported("symbolic | of overlapping operands")
        if op is ast.Div:
            if not E.branch(y != 0):
                self.raise_(ZeroDivisionError)
            return SReal(z3.ToReal(x) / z3.ToReal(y))
        raise Unsupported(f"int operator {op.__name__}")

    def mask(self, x, m):
        """x & m for a constant m >= 0 (exact for any int x)."""
        known = self.bits.get(x.get_id()) if z3.is_expr(x) else None
        if known is not None and m < 2 ** len(known[1]):
            on = [b if (m >> k) & 1 else z3.BoolVal(False) for k, b in enumerate(known[1])]
            return self.of_bits(on)
        tot = z3.IntVal(0)
        b = 0
        while m >> b:
            if not (m >> b) & 1:
                b += 1
                continue
            w = 0
            while (m >> (b + w)) & 1:
                w += 1
            t = x if b == 0 else x / (2 ** b)
            tot = tot + (t % (2 ** w)) * (2 ** b)
            b += w
        return tot

    def known_bits(self, x):
        """All the bits of a term, as bools, where they are known."""
        k = self.bits.get(x.get_id())
        if k is not None:
            return k[1] if k[2] else None
        c = simp(x)
        if isinstance(c, int) and 0 <= c < 2 ** 64:
            return [z3.BoolVal(bool(c >> i & 1)) for i in range(c.bit_length())]
        return None

    def of_bits(self, on, high=None):
        """The int with these bits (least first); masks of it are read off."""
        r = z3.Sum([z3.If(b, z3.IntVal(2 ** k), z3.IntVal(0)) for k, b in enumerate(on) if not z3.is_false(b)] or [z3.IntVal(0)])
        if high is not None:
            r = r + high * 2 ** len(on)
        t = simp(r)
        if not isinstance(t, int):
            self.bits[t.get_id()] = (t, on, high is None)
            r = t
        return zi(r)

    def compare(self, op, a, b):
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))
        if op is ast.Eq:
            return self.eq(a, b)
        if op is ast.NotEq:
            if isinstance(a, SObj):
                f = self.class_lookup(a.cls, "__ne__")
                if isinstance(f, types.FunctionType):
                    return self.call(f, [a, b])
            r = self.eq(a, b)
            t = self.truth_term(r)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t))
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            t = self.truth_term(self.contains(b, a))
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t))
        return self.order(op, a, b)

    def order(self, op, a, b):
        if not has_sym(a) and not has_sym(b):
            try:
                return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
                        ast.GtE: operator.ge}[op](a, b)
            except Exception as e:
                raise PyRaise(e)
        if (is_intlike(a) or isinstance(a, SReal)) and (is_intlike(b) or isinstance(b, (SReal, float))
                                                        and not isinstance(b, SVal)) or \
                isinstance(a, float) and (is_intlike(b) or isinstance(b, SReal)):
            x, y = self.num(a), self.num(b)
            self.bl_axiom(x, y)
            return mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op])
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported("symbolic tuple ordering")
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[op]
        ref = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}[nm]
        for o, other, name in ((a, b, nm), (b, a, ref)):
            if isinstance(o, SObj):
                f = self.class_lookup(o.cls, name)
                if f is not _MISSING and isinstance(f, types.FunctionType):
                    r = self.call(f, [o, other])
                    if r is not NotImplemented:
                        return r
            elif isinstance(o, Sym):
                for k in [type(o)] + list((pyclass(o) or object).__mro__):
                    h = METHODS.get((k, name))
                    if h is not None:
                        return h(self, o, [other], {})
            else:
                f = getattr(type(o), name, None)
                if isinstance(f, types.FunctionType) and (self.may_inline(f) or id(f) in MODELS):
                    r = self.call(f, [o, other])
                    if r is not NotImplemented:
                        return r
        raise Unsupported(f"ordering of {a!r} and {b!r}")

    def num(self, v):
        if isinstance(v, SReal):
            return v.e
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("non-finite comparison")
            return z3.RealVal(str(v)) if not v.is_integer() else z3.IntVal(int(v))
        return ie(v)

    def bl_axiom(self, x, y):
        """Instances of the bit_length definition at the constant compared with."""
        for p, q in ((x, y), (y, x)):
            p, q = simp(p), simp(q)
            if isinstance(q, int) and 0 <= q <= 4096 and not isinstance(p, int):
                for t in subterms(p, "bit_length"):
                    v = t.arg(0)
                    for c in (q - 1, q, q + 1):
                        if c >= 0:
                            self.E.axiom(("bl", R.kid(self.E, t), c),
                                         (t > c) == z3.Or(v >= 2 ** c, v <= -(2 ** c)))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            if isinstance(b, SEnum) and not isinstance(a, SEnum):
                a, b = b, a
            if isinstance(b, SEnum):
                return mkbool(a.e == b.e) if a.cls is b.cls else False
            if isinstance(b, enum.Enum) and type(b) is a.cls:
                return mkbool(a.e == int(b.value))
            return False
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(b, SVal) and not isinstance(a, SVal):
                a, b = b, a
            if isinstance(b, SVal):
                if a.cls is not None and b.cls is not None and a.cls is not b.cls:
                    return False
                return mkbool(a.e == b.e)
            if a.cls is not None and pyclass(b) is not a.cls:
                return False
            if a.cls is None and b is None and isinstance(a.info, dict) and a.info.get("not_none"):
                return False
            if a.cls is None:
                h = getattr(self, "opaque_is", None)
                if h is not None:
                    return h(self, a, b)
                raise Unsupported(f"identity of opaque value and {b!r}")
            raise Unsupported(f"identity of {a!r} and {b!r}")
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(b, SBool) and not isinstance(a, SBool):
                a, b = b, a
            if isinstance(b, SBool):
                return mkbool(a.e == b.e)
            if isinstance(b, bool):
                return mkbool(a.e if b else z3.Not(a.e))
            return False
        if isinstance(a, SInt) or isinstance(b, SInt):
            if pyclass(a) is int and pyclass(b) is int:
                raise Unsupported("identity of ints")
            return False
        if isinstance(a, Heap) or isinstance(b, Heap):
            return False
        if isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None:
                return False
            raise Unsupported(f"identity of {a!r} and {b!r}")
        return a is b

    def eq(self, a, b):
        if a is b and not isinstance(a, (SVal, float, SObj)):
            return True
        if not has_sym(a) and not has_sym(b):
            try:
                return a == b
            except Exception as e:
                raise PyRaise(e)
        for p, q in ((a, b), (b, a)):
            if isinstance(p, SEnum) and not issubclass(p.cls, int):     # equal to itself only
                if pyclass(q) is not p.cls:
                    return False
                return mkbool(ie(p) == ie(q))
        if is_intlike(a) and is_intlike(b):
            return mkbool(ie(a) == ie(b))
        for p, q in ((a, b), (b, a)):
            if type(p) is float and isinstance(q, (SInt, SBool)):
                return mkbool(ie(q) == int(p)) if p == p and abs(p) != float("inf") and p == int(p) else False
        if isinstance(a, (SReal,)) or isinstance(b, SReal):
            if (is_intlike(a) or isinstance(a, (SReal, float))) and \
                    (is_intlike(b) or isinstance(b, (SReal, float))):
                return mkbool(self.num(a) == self.num(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a, b):
                t = self.truth_term(self.eq(x, y))
                if t is False:
                    return False
                if t is not True:
                    cs.append(t)
            return mkbool(z3.And(cs)) if cs else True
        if isinstance(a, (SBytes, SByteArray)) or isinstance(b, (SBytes, SByteArray)):
            return self.bytes_eq(a, b)
        for o, other in ((a, b), (b, a)):
            if isinstance(o, SObj):
                f = self.class_lookup(o.cls, "__eq__")
                if isinstance(f, types.FunctionType):
                    if source.find(f) is None:
                        r = self.dataclass_eq(o, other)
                    else:
                        r = self.call(f, [o, other])
                    if r is not NotImplemented:
                        return r
        if isinstance(a, SObj) or isinstance(b, SObj):
            return a is b
        if isinstance(a, SVal) or isinstance(b, SVal):
            ca, cb = pyclass(a), pyclass(b)
            if ca is str and cb is str:
                return mkbool(self.as_val(a) == self.as_val(b))
            if ca is bytes and cb is bytes:
                return mkbool(self.as_val(a) == self.as_val(b))
            for o, other in ((a, b), (b, a)):
                for k in [type(o)] + list((pyclass(o) or object).__mro__):
                    h = METHODS.get((k, "__eq__"))
                    if h is not None and isinstance(o, Sym):
                        return h(self, o, [other], {})
            num = (int, float, bool)
            if ca in (str, bytes) and cb is not None and cb is not ca and \
                    cb.__module__ == "builtins" or cb in (str, bytes) and ca is not None and ca is not cb \
                    and ca.__module__ == "builtins":
                return False
            h = getattr(self, "opaque_eq", None)
            if h is not None:
                return h(self, a, b)
            raise Unsupported(f"equality of {a!r} and {b!r}")
        if isinstance(a, (SList, SDict, SSet, SSeq)) or isinstance(b, (SList, SDict, SSet, SSeq)):
            if isinstance(a, SList) and isinstance(b, SList):
                return self.eq(tuple(a.items), tuple(b.items))
            if pyclass(a) is not pyclass(b):
                return False
            raise Unsupported("equality of containers")
        if isinstance(a, Sym):
            h = METHODS.get((type(a), "__eq__"))
            if h is not None:
                return h(self, a, [b], {})
        if isinstance(b, Sym):
            h = METHODS.get((type(b), "__eq__"))
            if h is not None:
                return h(self, b, [a], {})
        ca, cb = pyclass(a), pyclass(b)
        if ca is not None and cb is not None and (a is None or b is None):
            return False
        if is_intlike(a) and cb in (str, bytes, tuple, list, dict) or \
                is_intlike(b) and ca in (str, bytes, tuple, list, dict):
            return False
        for x, c in ((a, cb), (b, ca)):
            if is_intlike(x) and isinstance(c, type) and not issubclass(c, int):
                f = getattr(c, "__eq__", None)
                if f is tuple.__eq__ or dataclasses.is_dataclass(c) and isinstance(f, types.FunctionType) and source.find(f) is None:
                    return False        # tuples and data classes are equal to their own kind only
        for x, c in ((a, cb), (b, ca)):
            if is_intlike(x) and isinstance(c, type) and c.__eq__ is object.__eq__:
                return False
            if type(x) is tuple and c is not None and not issubclass(c, tuple) and not isinstance(getattr(c, "__eq__", None), types.FunctionType):
                return False
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def dataclass_eq(self, a, b):
        if not isinstance(b, SObj) or b.cls is not a.cls:
            return NotImplemented
        fs = [f.name for f in dataclasses.fields(a.cls) if f.compare]
        return self.eq(tuple(self.getattr(a, n) for n in fs), tuple(self.getattr(b, n) for n in fs))

    def bytes_eq(self, a, b):
        sa, sb = self.segs_of(a), self.segs_of(b)
        if sa is None or sb is None:
            return False
        sa, sb = R.norm(self.E, sa), R.norm(self.E, sb)
        if len(sa) == len(sb) and all(R.seg_same(self.E, x, y) for x, y in zip(sa, sb)):
            return True
        raise Unsupported("equality of byte strings")

    def segs_of(self, v):
        if isinstance(v, (SBytes, SByteArray)):
            return v.segs
        if isinstance(v, (bytes, bytearray)):
            return [R.Lit(v)] if v else []
        h = METHODS.get((type(v), "__segs__"))
        if h is not None:
            return h(self, v, [], {})
        return None

    def contains(self, c, x):
        E = self.E
        if isinstance(c, range) and (isinstance(x, (SInt, SEnum, SBool))):
            e = ie(x)
            if c.step == 1:
                return mkbool(z3.And(e >= c.start, e < c.stop))
            raise Unsupported("range step")
        if isinstance(c, SRange):
            if is_intlike(x) and c.step == 1:
                return mkbool(z3.And(ie(x) >= zi(c.start), ie(x) < zi(c.stop)))
            raise Unsupported("in range")
        if isinstance(c, range) and isinstance(x, SVal):
            raise Unsupported("opaque in range")
        if isinstance(c, type) and issubclass(c, enum.Enum):
            if isinstance(x, SEnum) and x.cls is c:
                return True
            if isinstance(x, (SInt, SEnum)):
                if issubclass(c, enum.Flag):
                    raise Unsupported("int in Flag class")
                return mkbool(z3.Or([ie(x) == member_int(m) for m in c]))
            if isinstance(x, SVal) and x.cls is str and issubclass(c, str):
                return self.any_eq([str(m.value) for m in c], x)
            if not has_sym(x):
                try:
                    return x in c
                except Exception as e:
                    raise PyRaise(e)
        if isinstance(c, (SList,)):
            return self.any_eq(c.items, x)
        if isinstance(c, (SSet,)):
            return self.any_eq(c.items, x)
        if isinstance(c, SDict):
            return self.any_eq([k for k, _ in c.items], x)
        if isinstance(c, (tuple, list)):
            return self.any_eq(list(c), x)
        if isinstance(c, (dict, frozenset, set, types.MappingProxyType)) and isinstance(x, Sym):
            return self.any_eq(list(c), x)
        if isinstance(c, enum.Flag) and isinstance(x, enum.Flag):
            return x in c
        if isinstance(c, enum.Flag) or isinstance(c, SEnum) and issubclass(c.cls, enum.Flag):
            xe, ce = simp(ie(x)), ie(c)
            if isinstance(xe, int):
                return mkbool(self.mask(ce, xe) == xe)
            raise Unsupported("symbolic flag membership")
        if isinstance(c, SObj):
            f = self.class_lookup(c.cls, "__contains__")
            if f is not _MISSING:
                r = self.call(self.bind(f, c, c.cls), [x])
                t = self.truth_term(r)
                return mkbool(t) if not isinstance(t, bool) else t
            hit = []
            raise Unsupported("in by iteration")
        if isinstance(c, SView) and c.containsfn is not None:
            return c.containsfn(self, x)
        if isinstance(c, Sym):
            for k in [type(c)] + list((pyclass(c) or object).__mro__):
                h = METHODS.get((k, "__contains__"))
                if h is not None:
                    return h(self, c, [x], {})
            raise Unsupported(f"in {c!r}")
        f = getattr(type(c), "__contains__", None)
        if isinstance(f, types.FunctionType) and source.in_repo(f):
            t = self.truth_term(self.call(f, [c, x]))
            return mkbool(t) if not isinstance(t, bool) else t
        if not has_sym(x) and not has_sym(c):
            try:
                return x in c
            except Exception as e:
                raise PyRaise(e)
        raise Unsupported(f"{x!r} in {c!r}")

    def any_eq(self, items, x):
        cs = []
        for y in items:
            if y is x:
                return True
            t = self.truth_term(self.eq(y, x))
            if t is True:
                return True
            if t is not False:
                cs.append(t)
        return mkbool(z3.Or(cs)) if cs else False

    # ---- subscripts -------------------------------------------------------
    def norm_index(self, i, n):
        """Index with Python semantics; raises IndexError. Returns int/z3."""
        if not is_intlike(i):
            if pyclass(i) is not None:
                self.raise_(TypeError, "indices must be integers")
            raise Unsupported("index of unknown type")
        e = ie(i)
        n = zi(n)
        if self.E.branch(e < 0):
            e = e + n
        if not self.E.branch(z3.And(e >= 0, e < n)):
            self.raise_(IndexError, "index out of range")
        return simp(e)

    def clamp(self, i, n, default):
        """Slice bound clamped to 0..n."""
        if i is None:
            return default
        e = ie(i)
        n = zi(n)
        if self.E.branch(e < 0):
            e = e + n
            if self.E.branch(e < 0):
                return 0
        if self.E.branch(e > n):
            return simp(n)
        return simp(e)

    def pick(self, items, e):
        """items[e] for a symbolic e within range: forks."""
        if isinstance(e, int):
            return items[e]
        for j in range(len(items)):
            if self.E.branch(e == j):
                return items[j]
        raise Infeasible

    def getitem(self, o, i):
        if isinstance(i, slice):
            return self.getslice(o, i)
        if isinstance(o, (SBytes, SByteArray)) or isinstance(o, (bytes, bytearray)) and has_sym(i):
            segs = self.segs_of(o)
            e = self.norm_index(i, R.rope_len(self.E, segs))
            return mkint(R.at(self.E, segs, e))
        if isinstance(o, SList) or isinstance(o, (tuple, list)) and has_sym(i):
            items = o.items if isinstance(o, SList) else o
            return self.pick(items, self.norm_index(i, len(items)))
        if isinstance(o, SDict):
            for k, v in o.items:
                if self.truth(self.eq(k, i)):
                    return v
            d = self.new(KeyError, args=(i,))
            raise PyRaise(d)
        if isinstance(o, SSeq):
            e = self.norm_index(i, simp(zi(o.n0) + len(o.tail)))
            return self.seq_at(o, e)
        if isinstance(o, SObj):
            f = self.class_lookup(o.cls, "__getitem__")
            if f is _MISSING:
                if issubclass(o.cls, (enum.Enum,)):
                    raise Unsupported("enum getitem")
                self.raise_(TypeError, "not subscriptable")
            return self.call(self.bind(f, o, o.cls), [i])
        if isinstance(o, (dict, types.MappingProxyType)):
            if isinstance(i, SEnum):
                i = self.concretize_enum(i)
            if isinstance(i, (SInt, SVal)):
                for k in o:
                    if self.truth(self.eq(k, i)):
                        return o[k]
                self.raise_(KeyError, i)
            try:
                return o[i]
            except Exception as e:
                raise PyRaise(e)
        if isinstance(o, type):
            return o[i] if not has_sym(i) else o
        if isinstance(o, Sym):
            for k in [type(o)] + list((pyclass(o) or object).__mro__):
                h = METHODS.get((k, "__getitem__"))
                if h is not None:
                    return h(self, o, [i], {})
            raise Unsupported(f"subscript of {o!r}")
        if has_sym(i):
            raise Unsupported(f"subscript of {type(o).__name__} by {i!r}")
        try:
            return o[i]
        except Exception as e:
            raise PyRaise(e)

    def seq_at(self, o, e):
        if not o.tail:
            return o.elem(zi(e))
        if self.E.branch(zi(e) < zi(o.n0)):
            return o.elem(zi(e))
        return self.pick(o.tail, simp(zi(e) - zi(o.n0)))

    def getslice(self, o, s):
        if isinstance(o, (SBytes, SByteArray)) or isinstance(o, (bytes, bytearray)) and has_sym(s):
            segs = self.segs_of(o)
            if s.step not in (None, 1):
                raise Unsupported("slice step")
            n = R.rope_len(self.E, segs)
            a = self.clamp(s.start, n, 0)
            b = self.clamp(s.stop, n, n)
            if not self.E.branch(zi(a) <= zi(b)):
                b = a
            out = R.slice_(self.E, segs, a, b)
            return SBytes(out) if isinstance(o, (SBytes, bytes)) else self.bytearray_(out)
        if isinstance(o, SList):
            if has_sym(s):
                raise Unsupported("symbolic list slice")
            return self.lst(o.items[s])
        if isinstance(o, Sym):
            for k in [type(o)] + list((pyclass(o) or object).__mro__):
                h = METHODS.get((k, "__getitem__"))
                if h is not None:
                    return h(self, o, [s], {})
            if isinstance(o, SObj):
                f = self.class_lookup(o.cls, "__getitem__")
                if f is not _MISSING:
                    return self.call(self.bind(f, o, o.cls), [s])
            raise Unsupported(f"slice of {o!r}")
        if has_sym(s) or has_sym(o) and not isinstance(o, (tuple, list)):
            raise Unsupported("symbolic slice")
        try:
            return self.wrap_native(o[s])
        except Exception as e:
            raise PyRaise(e)

    def setitem(self, o, i, v):
        if isinstance(o, SDict):
            self.touch(o)
            for j, (k, _) in enumerate(o.items):
                if self.truth(self.eq(k, i)):
                    o.items[j] = (k, v)
                    return
            o.items.append((i, v))
            return
        if isinstance(o, SList) and not isinstance(i, slice):
            e = self.norm_index(i, len(o.items))
            self.touch(o)
            if isinstance(e, int):
                o.items[e] = v
                return
            for j in range(len(o.items)):
                if self.E.branch(e == j):
                    o.items[j] = v
                    return
            raise Infeasible
        if isinstance(o, SSeq) and not isinstance(i, slice):
            e = self.norm_index(i, simp(zi(o.n0) + len(o.tail)))
            self.touch(o)
            if o.tail and not self.E.branch(zi(e) < zi(o.n0)):
                j = simp(zi(e) - zi(o.n0))
                for t in range(len(o.tail)):
                    if (t == j) if isinstance(j, int) else self.E.branch(j == t):
                        o.tail[t] = v
                        return
                raise Infeasible
            raise Unsupported("store into symbolic list")
        if isinstance(o, SObj):
            f = self.class_lookup(o.cls, "__setitem__")
            if f is _MISSING:
                self.raise_(TypeError, "no item assignment")
            self.call(self.bind(f, o, o.cls), [i, v])
            return
        if isinstance(o, Sym):
            for k in [type(o)] + list((pyclass(o) or object).__mro__):
                h = METHODS.get((k, "__setitem__"))
                if h is not None:
                    h(self, o, [i, v], {})
                    return
        raise Unsupported(f"item assignment on {o!r}")

    def delitem(self, o, i):
        if isinstance(o, SDict):
            for j, (k, _) in enumerate(o.items):
                if self.truth(self.eq(k, i)):
                    self.touch(o)
                    del o.items[j]
                    return
            raise PyRaise(self.new(KeyError, args=(i,)))
        if isinstance(o, SList):
            self.touch(o)
            if isinstance(i, slice):
                if has_sym(i):
                    raise Unsupported("symbolic del slice")
                del o.items[i]
                return
            e = self.norm_index(i, len(o.items))
            if isinstance(e, int):
                del o.items[e]
                return
            for j in range(len(o.items)):
                if self.E.branch(e == j):
                    del o.items[j]
                    return
            raise Infeasible
        if isinstance(o, SObj):
            f = self.class_lookup(o.cls, "__delitem__")
            if f is not _MISSING:
                self.call(self.bind(f, o, o.cls), [i])
                return
        if isinstance(o, Sym):
            for k in [type(o)] + list((pyclass(o) or object).__mro__):
                h = METHODS.get((k, "__delitem__"))
                if h is not None:
                    h(self, o, [i], {})
                    return
        raise Unsupported(f"item deletion on {o!r}")

    def set_add(self, s, x):
        if not self.truth(self.any_eq(s.items, x)):
            self.touch(s)
            s.items.append(x)

    def length(self, v):
        if isinstance(v, (SBytes, SByteArray)):
            return mkint(zi(R.rope_len(self.E, v.segs)))
        if isinstance(v, (SList, SDict, SSet)):
            return len(v.items)
        if isinstance(v, SSeq):
            return mkint(zi(v.n0) + len(v.tail))
        if isinstance(v, SRange) and v.step == 1:
            return mkint(z3.If(zi(v.stop) > zi(v.start), zi(v.stop) - zi(v.start), z3.IntVal(0)))
        if isinstance(v, SObj):
            f = self.class_lookup(v.cls, "__len__")
            if f is _MISSING:
                self.raise_(TypeError, "object has no len()")
            return self.call(self.bind(f, v, v.cls), [])
        if isinstance(v, SView):
            return v.lenfn(self)
        if isinstance(v, Sym):
            for k in [type(v)] + list((pyclass(v) or object).__mro__):
                h = METHODS.get((k, "__len__"))
                if h is not None:
                    return h(self, v, [], {})
            raise Unsupported(f"len of {v!r}")
        f = getattr(type(v), "__len__", None)
        if isinstance(f, types.FunctionType) and source.in_repo(f):
            return self.call(f, [v])
        try:
            return len(v)
        except Exception as e:
            raise PyRaise(e)

    # ---- isinstance -------------------------------------------------------
    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, SVal) or isinstance(t, Sym):
            raise Unsupported("isinstance with symbolic class")
        for h in self.isinstance_hook:
            r = h(self, v, t)
            if r is not None:
                return r
        if isinstance(t, types.UnionType):
            return any(self.isinstance_(v, x) for x in t.__args__)
        cls = pyclass(v)
        if cls is None:
            raise Unsupported(f"isinstance of a value of unknown type: {v!r}")
        if isinstance(v, Sym) and getattr(t, "_is_protocol", False):
            names = typing_protocol_attrs(t)
            for n in names:
                if self.getattr_exists(v, n) is False:
                    return False
            return True
        if isinstance(v, Sym):
            return issubclass(cls, t)
        return isinstance(v, t)

    def getattr_exists(self, v, n):
        if isinstance(v, SObj):
            return n in v.attrs or self.class_lookup(v.cls, n) is not _MISSING
        return hasattr(pyclass(v), n)


class AttrMissing(Exception):
    pass


class GenCM:
    """Marker class: object returned by a @contextmanager function."""


METHKINDS = set()


def fr_yield(fr):
    f = fr
    while f is not None and f.yield_cb is None:
        f = f.parent
    if f is None:
        raise Unsupported("yield outside a generator run")
    return f.yield_cb


def typing_protocol_attrs(t):
    try:
        return sorted(typing._get_protocol_attrs(t))
    except Exception:
        return sorted(getattr(t, "__protocol_attrs__", ()))


def subterms(e, name):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name:
                out.append(x)
            todo.extend(x.children())
    return out


def qualname(f):
    return f"{getattr(f, '__module__', '?')}.{getattr(f, '__qualname__', f)}"


_SRC = {}


def source_of(f):
    s = _SRC.get(id(f.node))
    if s is None:
        s = source.make_src(f.node, f.file, f.clsname, f.qual)
        _SRC[id(f.node)] = s
    return s
