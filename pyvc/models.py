"""Trusted models of Python builtins and standard library functions."""
from __future__ import annotations

import builtins
import codecs
import dataclasses
import datetime
import enum
import functools
import itertools
import operator
import re
import struct
import types
import typing

import z3

from . import rope as R
from .core import Unsupported, Infeasible
from .interp import *
from .interp import (model, method, METHODS, MODELS, METHKINDS, ie, mkint, mkbool, is_intlike, pyclass,
                     has_sym, INT2F, FLOATOP, REAL, FINITE, _MISSING)
from .rope import zi, simp
from .values import *


@model(builtins.len)
def _len(I, a, k):
    return I.length(a[0])


@model(builtins.isinstance)
def _isinstance(I, a, k):
    return I.isinstance_(a[0], a[1])


@model(builtins.issubclass)
def _issubclass(I, a, k):
    return issubclass(a[0], a[1])


@model(builtins.callable)
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (SFunc, BoundMethod, Model, SPartial)):
        return True
    if isinstance(v, SObj):
        return I.class_lookup(v.cls, "__call__") is not _MISSING
    if isinstance(v, Sym):
        c = pyclass(v)
        if c is None:
            raise Unsupported("callable of unknown")
        return hasattr(c, "__call__")
    return callable(v)


@model(builtins.getattr)
def _getattr(I, a, k):
    return I.getattr(a[0], a[1], *(a[2:3]))


@model(builtins.hasattr)
def _hasattr(I, a, k):
    no = object()
    try:
        return I.getattr(a[0], a[1], no) is not no
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(builtins.setattr)
def _setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


@model(builtins.id)
def _id(I, a, k):
    v = a[0]
    if isinstance(v, SVal):
        f = z3.Function("id_val", Val, z3.IntSort())
        return mkint(f(v.e))
    if isinstance(v, Heap):
        e = z3.Int(f"id!{v.uid}")
        seen = I.E.memo.setdefault("ids", {})
        if v.uid not in seen:
            for u, e2 in seen.items():
                I.E.axiom(("idne", u, v.uid), e != e2)
            seen[v.uid] = e
        return SInt(e)
    h = getattr(I, "id_hook", None)
    if h is not None:
        return h(I, v)
    return SInt(I.E.fresh("idof"))


@model(builtins.abs)
def _abs(I, a, k):
    v = a[0]
    if isinstance(v, (SInt, SEnum, SBool)):
        e = ie(v)
        r = z3.If(e >= 0, e, -e)
        return mkint(r)
    return I.native(abs, a, k)


@model(builtins.min, builtins.max)
def _unused_minmax(I, a, k):
    raise Unsupported("min/max")


def _minmax(which):
    def h(I, a, k):
        items = a
        if len(a) == 1:
            items = []
            I.iterate(a[0], items.append)
            if not items:
                if "default" in k:
                    return k["default"]
                I.raise_(ValueError, f"{which.__name__}() arg is an empty sequence")
        if "key" in k:
            raise Unsupported("min/max key")
        if not has_sym(list(items)):
            return I.native(which, [list(items)], {})
        r = items[0]
        for x in items[1:]:
            if not (is_intlike(r) and is_intlike(x)):
                raise Unsupported("min/max of non-ints")
            p, q = ie(r), ie(x)
            r = mkint(z3.If(q < p, q, p) if which is min else z3.If(q > p, q, p))
        return r
    return h


MODELS[id(min)] = (min, _minmax(min), "min")
MODELS[id(max)] = (max, _minmax(max), "max")


@model(divmod)
def _divmod(I, a, k):
    if not has_sym(a):
        return I.native(divmod, a, k)
    import ast
    return (I.binop(ast.FloorDiv, a[0], a[1]), I.binop(ast.Mod, a[0], a[1]))


@model(int)
def _int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (SInt, SBool, SEnum)):
        return mkint(ie(v))
    if isinstance(v, SReal) and len(a) == 1:
        from .text import real_to_int
        return real_to_int(I, v)
    if not isinstance(v, (SVal, SReal)) and getattr(v, "pytype", None) is str and isinstance(v, Sym):
        from .text import to_int
        if len(a) > 1 and a[1:] != [10] or k and k != {"base": 10}:
            raise Unsupported("int() with a base")
        return to_int(I, v)
    if isinstance(v, SVal):
        h = METHODS.get((v.cls, "__int__"))
        if h:
            return h(I, v, a[1:], k)
    return I.native(int, a, k)


@model(float)
def _float(I, a, k):
    if not has_sym(a):
        return I.native(float, a, k)
    v = a[0]
    if is_intlike(v):
        lim = (2 ** 53 - 1) * 2 ** 971 + 2 ** 970
        e = ie(v)
        if not I.E.branch(z3.And(e < 2 ** 64, e > -2 ** 64)):
            if not I.E.branch(z3.And(e < lim, e > -lim)):
                I.raise_(OverflowError, "int too large to convert to float")
        return SVal(I.fval(v), float)
    if pyclass(v) is float:
        return v
    raise Unsupported(f"float({v!r})")


@model(bool)
def _bool(I, a, k):
    return mkbool_(I.truth_term(a[0])) if a else False


def mkbool_(t):
    return t if isinstance(t, bool) else mkbool(t)


@model(str)
def _str(I, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (SInt,)):
        I.check_digits(v)
        h = getattr(I, "int_to_str", None)
        if h is not None:
            return h(I, v)
        t = z3.Function("dec", z3.IntSort(), Val)(v.e)
        I.E.axiom(("dec", t.get_id()), z3.And(LATIN1(t), z3.Not(SURR(t))))      # decimal text is ASCII
        return SVal(t, str)
    if isinstance(v, SVal) and v.cls is str or isinstance(v, Sym) and getattr(v, "pytype", None) is str:
        return v
    if isinstance(v, SReal) and hasattr(I, "int_to_str"):
        from .text import REALTEXT, SText
        return SText(REALTEXT(v.e))
    if isinstance(v, (SObj, SEnum)) and len(a) == 1:
        f = I.class_lookup(v.cls, "__str__")
        if isinstance(f, types.FunctionType) and (isinstance(v, SObj) or source.in_repo(f)):
            return I.call(f, [v])
        return SVal(I.E.fresh("str", Val), str)
    if has_sym(v):
        return SVal(I.E.fresh("str", Val), str)
    return I.native(str, a, k)


@model(repr)
def _repr(I, a, k):
    if has_sym(a[0]):
        return I.format(a[0], 114)
    return I.native(repr, a, k)


@model(hex)
def _hex(I, a, k):
    if isinstance(a[0], SInt):
        return SVal(I.E.fresh("str", Val), str)
    return I.native(hex, a, k)


@model(type)
def _type(I, a, k):
    if len(a) != 1:
        raise Unsupported("type() with 3 arguments")
    c = pyclass(a[0])
    if c is None:
        raise Unsupported("type of unknown")
    return c


@model(range)
def _range(I, a, k):
    if not has_sym(a):
        return I.native(range, a, k)
    for x in a:
        if not is_intlike(x):
            I.raise_(TypeError, "range")
    a = [simp(ie(x)) for x in a]
    if len(a) == 1:
        return SRange(0, a[0], 1)
    if len(a) == 2:
        return SRange(a[0], a[1], 1)
    return SRange(a[0], a[1], a[2])


def empty_list(I):
    f = getattr(I, "empty_list", None)
    return I.lst([]) if f is None or I.in_spec else f(I)


@model(list)
def _list(I, a, k):
    if not a or isinstance(a[0], tuple) and not a[0]:
        return empty_list(I)
    v = a[0]
    if isinstance(v, SSeq):
        return I.reg(SSeq(v.n0, v.elem, list(v.tail)))
    h = METHODS.get((type(v), "__list__"))
    if h is not None:
        return h(I, v, [], {})
    out = I.lst([])
    r = getattr(I, "list_hook", None)
    if r is not None:
        x = r(I, v)
        if x is not None:
            return x

    def cb(x):
        I.touch(out)
        out.items.append(x)
    I.iterate(v, cb)
    return out


@model(tuple)
def _tuple(I, a, k):
    if not a:
        return ()
    out = []
    I.iterate(a[0], out.append)
    return tuple(out)


@model(dict)
def _dict(I, a, k):
    new = getattr(I, "dict_factory", None)
    if new is not None and not k and not I.in_spec and (not a or getattr(I, "dict_from", None) is not None):
        d = new(I)
        if a:
            I.dict_from(I, d, a[0])
        return d
    d = I.dct()
    if a:
        v = a[0]
        if isinstance(v, SDict):
            d.items = list(v.items)
        elif isinstance(v, (dict, types.MappingProxyType)):
            d.items = list(v.items())
        else:
            def cb(kv):
                x, y = I.unpack(kv)
                I.setitem(d, x, y)
            I.iterate(v, cb)
    for x, y in k.items():
        I.setitem(d, x, y)
    return d


@model(set)
def _set(I, a, k):
    s = I.reg(SSet())
    if a:
        I.iterate(a[0], lambda x: I.set_add(s, x))
    return s


@model(frozenset)
def _frozenset(I, a, k):
    if a and not has_sym(a) and isinstance(a[0], (list, tuple, set, frozenset)):
        return frozenset(a[0])
    s = I.reg(SSet(frozen=True))
    if a:
        I.iterate(a[0], lambda x: I.set_add(s, x))
    return s


@model(bytearray)
def _bytearray(I, a, k):
    if not a:
        return I.bytearray_([])
    v = a[0]
    if is_intlike(v):
        e = simp(ie(v))
        if isinstance(e, int):
            return I.bytearray_([R.Lit(bytes(e))])
        if not I.E.branch(e >= 0):
            I.raise_(ValueError, "negative count")
        return I.bytearray_([R.Arr(ZERO, 0, e)])
    segs = I.segs_of(v)
    if segs is None:
        raise Unsupported(f"bytearray({v!r})")
    return I.bytearray_(list(segs))


ZERO = z3.RecFunction("zero_byte", z3.IntSort(), z3.IntSort())
z3.RecAddDefinition(ZERO, [z3.Int("zz")], z3.IntVal(0))


@model(bytes)
def _bytes(I, a, k):
    if not a:
        return b""
    if not has_sym(a):
        return I.native(bytes, a, k)
    segs = I.segs_of(a[0])
    if segs is None and isinstance(a[0], SList) and all(is_intlike(x) for x in a[0].items):
        segs = [R.B1(simp(ie(x))) for x in a[0].items]
        for s in segs:
            if not isinstance(s.e, int) and not I.E.entails(z3.And(s.e >= 0, s.e < 256)):
                raise Unsupported("bytes() of unbounded ints")
            if isinstance(s.e, int) and not 0 <= s.e < 256:
                I.raise_(ValueError, "bytes must be in range(0, 256)")
    if segs is None:
        raise Unsupported(f"bytes({a[0]!r})")
    return SBytes(R.norm(I.E, list(segs)))


class Cell:
    """The counter of an enumerate(), the accumulator of a sum()."""


@model(enumerate)
def _enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    v = a[0]
    if isinstance(v, SSeq):
        return I.reg(SSeq(v.n0, lambda i: (mkint(zi(i) + ie(start)), v.elem(i)),
                          [(mkint(zi(v.n0) + j + ie(start)), x) for j, x in enumerate(v.tail)]))
    h = METHODS.get((type(v), "__enumerate__"))
    if h is not None:
        return h(I, v, [start], {})

    if isinstance(v, SObj):
        return _enumerate(I, [iterator_of(I, v), start], {})

    def run(cb):
        n = I.reg(SObj(Cell, {"v": start}))     # a location, so that the loop rule sees it change

        def c2(x):
            j = n.attrs["v"]
            I.setattr_raw(n, "v", I.binop(__import__("ast").Add, j, 1))
            cb((j, x))
        return I.iterate(v, c2)
    if isinstance(v, (SList, tuple, list, str, bytes, dict, range, SGen)):
        return I.reg(SGen(run, "enumerate"))
    raise Unsupported(f"enumerate({v!r})")


def iterator_of(I, x):
    if isinstance(x, SGen) and x.of is not None and not x.started:
        I.touch(x)
        x.started = True
        return iterator_of(I, x.of)
    if not isinstance(x, SObj):
        return x
    f = I.class_lookup(x.cls, "__iter__")
    if f is _MISSING:
        I.raise_(TypeError, "not iterable")
    return iterator_of(I, I.call(I.bind(f, x, x.cls), []))


@model(zip)
def _zip(I, a, k):
    ls = []
    a = [iterator_of(I, x) for x in a]
    a = [METHODS[type(x), "__iter__"](I, x, [], {}) if isinstance(x, Sym) and (type(x), "__iter__") in METHODS else x for x in a]
    if a and all(isinstance(x, SSeq) and not x.tail for x in a):
        n = zi(a[0].n0)
        for x in a[1:]:
            n = zi(x.n0) if I.E.branch(zi(x.n0) < n) else n
        return I.reg(SSeq(simp(n), lambda i: tuple(x.elem(i) for x in a)))
    for x in a:
        if isinstance(x, (SList, tuple, list, range)) and (not isinstance(x, range) or len(x) < 5000):
            ls.append(I.unpack(x) if not isinstance(x, SList) else list(x.items))
        else:
            raise Unsupported(f"zip of symbolic iterables {x!r}")
    return I.lst([tuple(t) for t in zip(*ls)])


@model(reversed)
def _reversed(I, a, k):
    v = a[0]
    if isinstance(v, SList):
        return I.lst(v.items[::-1])
    if isinstance(v, (tuple, list)):
        return I.lst(list(v)[::-1])
    if isinstance(v, SSeq):
        if v.tail:
            raise Unsupported("reversed of extended sequence")
        return I.reg(SSeq(v.n0, lambda i: v.elem(zi(v.n0) - 1 - i), []))
    if isinstance(v, SRange) and v.step == 1:
        return SRange(simp(zi(v.stop) - 1), simp(zi(v.start) - 1), -1)
    if isinstance(v, range):
        return v[::-1]
    if isinstance(v, SObj):
        f = I.class_lookup(v.cls, "__reversed__")
        if f is not _MISSING and f is not None:
            return I.call(I.bind(f, v, v.cls), [])
    h = METHODS.get((type(v), "__reversed__"))
    if h is not None:
        return h(I, v, [], {})
    raise Unsupported(f"reversed({v!r})")


@model(sorted)
def _sorted(I, a, k):
    v = a[0]
    h = METHODS.get((type(v), "__sorted__"))
    if h is not None:
        return h(I, v, [], k)
    if not has_sym(v) and not has_sym(k) and not isinstance(v, Sym):
        return I.native(sorted, [list(v)], k)
    hook = getattr(I, "sort_hook", None)
    if hook is not None and isinstance(v, SGen):
        r = hook(I, v, k)
        if r is not None:
            return r
    items = I.unpack(v)
    if not has_sym(items):
        return I.lst(sorted(items, **k))
    raise Unsupported("sorted of symbolic values")


@model(any)
def _any(I, a, k):
    tok = object()

    def cb(x):
        if I.truth(x):
            raise ConsumerBreak(tok)
    try:
        I.iterate(a[0], cb)
    except ConsumerBreak as b:
        if b.token is not tok:
            raise
        return True
    return False


@model(all)
def _all(I, a, k):
    tok = object()

    def cb(x):
        if not I.truth(x):
            raise ConsumerBreak(tok)
    try:
        I.iterate(a[0], cb)
    except ConsumerBreak as b:
        if b.token is not tok:
            raise
        return False
    return True


@model(sum)
def _sum(I, a, k):
    import ast
    acc = [a[1] if len(a) > 1 else k.get("start", 0)]
    h = getattr(I, "sum_hook", None)
    if h is not None and is_intlike(acc[0]):
        return h(I, a[0], acc[0])

    acc = I.reg(SObj(Cell, {"v": acc[0]}))      # a location, so that the loop rule sees it change
    I.iterate(a[0], lambda x: I.setattr_raw(acc, "v", I.binop(ast.Add, acc.attrs["v"], x)))
    return acc.attrs["v"]


@model(map)
def _map(I, a, k):
    f, v = a
    return I.reg(SGen(lambda cb: I.iterate(v, lambda x: cb(I.call(f, [x]))), "map"))


@model(filter)
def _filter(I, a, k):
    f, v = a

    def c(cb):
        def g(x):
            if I.truth(x if f is None else I.call(f, [x])):
                cb(x)
        return I.iterate(v, g)
    return I.reg(SGen(c, "filter"))


@model(iter)
def _iter(I, a, k):
    v = a[0]
    if len(a) > 1:
        raise Unsupported("iter with sentinel")
    if isinstance(v, SObj):
        f = I.class_lookup(v.cls, "__iter__")
        if f is _MISSING:
            I.raise_(TypeError, "not iterable")
        return I.call(I.bind(f, v, v.cls), [])
    if isinstance(v, SGen):
        return v
    h = METHODS.get((type(v), "__iter__"))
    if h is not None:
        return h(I, v, [], {})
    c = pyclass(v)
    if c is not None and not hasattr(c, "__iter__"):
        I.raise_(TypeError, "not iterable")
    return I.reg(SGen(lambda cb: I.iterate(v, cb), "iter", of=v))


@model(itertools.repeat)
def _repeat(I, a, k):
    x = a[0]
    if len(a) < 2 and "times" not in k:
        raise Unsupported("endless repeat")
    n = zi(ie(a[1] if len(a) > 1 else k["times"]))
    return I.reg(SSeq(z3.simplify(z3.If(n > 0, n, 0)), lambda i: x))


@model(next)
def _next(I, a, k):
    it = a[0]
    h = METHODS.get((type(it), "__next__"))
    if h is not None:
        return h(I, it, list(a[1:]), {})
    tok = object()
    box = []

    def cb(x):
        box.append(x)
        raise ConsumerBreak(tok)
    if isinstance(it, SGen) and it.started:
        raise Unsupported("next() on a generator already started")
    try:
        I.iterate(it, cb)
    except ConsumerBreak as b:
        if b.token is not tok:
            raise
        it.started = None if False else True
        I.E.stats.assumed.add("an iterator is not used again after next()")
        return box[0]
    if len(a) > 1:
        return a[1]
    I.raise_(StopIteration)


@model(typing.cast)
def _cast(I, a, k):
    return a[1]


@model(functools.partial)
def _partial(I, a, k):
    return SPartial(a[0], list(a[1:]), dict(k))


@model(functools.wraps, functools.update_wrapper)
def _wraps(I, a, k):
    return Model(lambda I, x, kk: x[0], "wraps")


@model(functools.reduce)
def _reduce(I, a, k):
    acc = [a[2]] if len(a) > 2 else []

    def cb(x):
        if not acc:
            acc.append(x)
        else:
            acc[0] = I.call(a[0], [acc[0], x])
    I.iterate(a[1], cb)
    if not acc:
        I.raise_(TypeError, "reduce() of empty iterable")
    return acc[0]


@model(operator.or_)
def _or_(I, a, k):
    import ast
    return I.binop(ast.BitOr, a[0], a[1])


@model(operator.methodcaller)
def _methodcaller(I, a, k):
    return Model(lambda I, x, kk: I.call(I.getattr(x[0], a[0]), list(a[1:]), k), "methodcaller")


def hashable(I, v):
    """hash(v) does not raise, as far as the value is known."""
    if isinstance(v, tuple) or isinstance(v, SSet) and v.frozen:
        return all(hashable(I, x) for x in (v if isinstance(v, tuple) else v.items))
    c = pyclass(v)
    if c is None:
        raise Unsupported("hash of unknown")
    return getattr(c, "__hash__", None) is not None


def memo(I, f, args, kwargs, maxsize, typed, store):
    """A call of a function cached by functools.lru_cache.

    (contract) an earlier call with an equal argument, of the same type if typed, gives the
    earlier result, unless a bounded cache may have forgotten it."""
    if len(args) != 1 or kwargs:
        raise Unsupported("lru_cache of several arguments")
    x = args[0]
    if not hashable(I, x):
        raise PyRaise(I.new(TypeError, args=("unhashable",)))
    for e, r in store:
        if typed and pyclass(e) is not pyclass(x):
            continue
        if I.truth(I.eq(e, x)):
            if maxsize is None or I.truth(mkbool(z3.Bool(str(I.E.fresh("kept"))))):
                return r
    r = I.call(f, args, kwargs)
    store.append((x, r))
    return r


@model(functools.lru_cache)
def _lru(I, a, k):
    maxsize = a[0] if a else k.get("maxsize", 128)
    typed = a[1] if len(a) > 1 else k.get("typed", False)

    def wrap(I, x, kk):
        f, store = x[0], []
        if getattr(I, "memo", False):
            return Model(lambda I, y, k3: memo(I, f, y, k3, maxsize, typed, store), "lru_cache")
        return Model(lambda I, y, k3: I.call(f, y, k3), "lru_cache")
    return Model(wrap, "lru_cache")


@model(struct.pack)
def _pack(I, a, k):
    if not has_sym(a):
        return I.native(struct.pack, a, k)
    if a[0] == "<d":
        v = a[1]
        if is_intlike(v):
            lim = (2 ** 53 - 1) * 2 ** 971 + 2 ** 970
            e = ie(v)
            if not I.E.branch(z3.And(e < 2 ** 64, e > -2 ** 64)):
                if not I.E.branch(z3.And(e < lim, e > -lim)):
                    I.raise_(struct.error, "required argument is not a float")
            return SBytes([R.F64(I.fval(v))])
        if pyclass(v) is float:
            return SBytes([R.F64(I.as_val(v))])
        I.raise_(struct.error, "required argument is not a float")
    return memview.struct_pack(I, a, k)


LATIN1 = z3.Function("latin1_encodable", Val, z3.BoolSort())
SURR = z3.Function("has_lone_surrogate", Val, z3.BoolSort())


def encode_str(I, s, codec):
    c = R.CODECS.get(codec)
    if c is None:
        raise Unsupported(f"codec {codec!r}")
    e = s.e
    if c == 1:
        if not I.E.branch(LATIN1(e)):
            I.raise_(UnicodeEncodeError, "latin-1")
    elif c in (2, 3):
        if not I.E.branch(z3.Not(SURR(e))):
            I.raise_(UnicodeEncodeError, "surrogates not allowed")
    else:
        raise Unsupported("codec")
    return SBytes([R.Enc(c, e)])


@method(str, "encode")
def _str_encode(I, s, a, k):
    if not isinstance(s, SVal):
        return I.native(str.encode, [s] + a, k)
    codec = a[0] if a else k.get("encoding", "utf-8")
    if len(a) > 1 or "errors" in k:
        raise Unsupported("encode errors")
    return encode_str(I, s, codec)


def decode_bytes(I, segs, codec):
    c = R.CODECS.get(codec)
    if c is None:
        raise Unsupported(f"codec {codec!r}")
    segs = R.norm(I.E, segs)
    if not segs:
        return ""
    if len(segs) == 1:
        s = segs[0]
        if isinstance(s, R.Enc) and s.codec == c:
            return SVal(s.s, str)
        if isinstance(s, R.Lit):
            try:
                return s.b.decode(codec)
            except UnicodeDecodeError as e:
                raise PyRaise(e)
        if isinstance(s, R.Enc):
            # decoded with another codec than it was encoded with
            return SVal(z3.Function(f"transcode_{s.codec}_{c}", Val, Val)(s.s), str)
    # a function of the bytes: the same ones decode to the same text
    memo = I.E.memo.setdefault("decoded", [])
    for c2, old, ok, text in memo:
        if c2 == c and len(old) == len(segs) and all(R.seg_same(I.E, x, y) for x, y in zip(old, segs)):
            break
    else:
        ok, text = I.E.fresh("decodable", "bool"), I.E.fresh("decoded", Val)
        memo.append((c, segs, ok, text))
    if c != 1 and not I.E.branch(ok):
        I.raise_(UnicodeDecodeError, codec)
    return SVal(text, str)


@model(codecs.decode)
def _codecs_decode(I, a, k):
    segs = I.segs_of(a[0])
    if segs is None:
        raise Unsupported("codecs.decode")
    return decode_bytes(I, segs, a[1] if len(a) > 1 else k.get("encoding", "utf-8"))


@method(bytes, "decode")
@method(bytearray, "decode")
def _bytes_decode(I, s, a, k):
    return decode_bytes(I, I.segs_of(s), a[0] if a else k.get("encoding", "utf-8"))


# -- bytearray -----------------------------------------------------------------
@method(SByteArray, "append")
def _ba_append(I, s, a, k):
    if not is_intlike(a[0]):
        I.raise_(TypeError, "an integer is required")
    e = ie(a[0])
    if not I.E.branch(z3.And(e >= 0, e <= 255)):
        I.raise_(ValueError, "byte must be in range(0, 256)")
    I.touch(s)
    e = simp(e)
    s.segs = s.segs + [R.Lit(bytes([e])) if isinstance(e, int) else R.B1(e)]


@method(SByteArray, "extend", "__iadd__")
def _ba_extend(I, s, a, k):
    segs = I.segs_of(a[0])
    if segs is None:
        out = []
        I.iterate(a[0], out.append)
        for x in out:
            _ba_append(I, s, [x], {})
        return s
    I.touch(s)
    s.segs = s.segs + list(segs)
    return s


@method(SByteArray, "insert")
def _ba_insert(I, s, a, k):
    e = ie(a[1])
    if not I.E.branch(z3.And(e >= 0, e <= 255)):
        I.raise_(ValueError, "byte must be in range(0, 256)")
    n = R.rope_len(I.E, s.segs)
    p = I.clamp(a[0], n, 0)
    x, y = R.cut(I.E, s.segs, p)
    I.touch(s)
    e = simp(e)
    s.segs = x + [R.Lit(bytes([e])) if isinstance(e, int) else R.B1(e)] + y


@method(SByteArray, "__setitem__")
def _ba_setitem(I, s, a, k):
    i, v = a
    n = R.rope_len(I.E, s.segs)
    if isinstance(i, slice):
        lo = I.clamp(i.start, n, 0)
        hi = I.clamp(i.stop, n, n)
        segs = I.segs_of(v)
        if segs is None:
            raise Unsupported("slice assignment")
        x, y = R.cut(I.E, s.segs, lo)
        _, z = R.cut(I.E, s.segs, hi if not I.E.entails(zi(hi) < zi(lo)) else lo)
        I.touch(s)
        s.segs = x + list(segs) + z
        return
    p = I.norm_index(i, n)
    e = ie(v)
    if not I.E.branch(z3.And(e >= 0, e <= 255)):
        I.raise_(ValueError, "byte must be in range(0, 256)")
    x, y = R.cut(I.E, s.segs, p)
    _, z = R.cut(I.E, y, 1)
    I.touch(s)
    s.segs = x + [R.B1(simp(e)) if not isinstance(simp(e), int) else R.Lit(bytes([simp(e)]))] + z


@method(SByteArray, "__delitem__")
def _ba_delitem(I, s, a, k):
    i = a[0]
    n = R.rope_len(I.E, s.segs)
    if not isinstance(i, slice) or i.step not in (None, 1):
        raise Unsupported("del bytearray index")
    lo = I.clamp(i.start, n, 0)
    hi = I.clamp(i.stop, n, n)
    if not I.E.branch(zi(lo) <= zi(hi)):
        return
    x, _ = R.cut(I.E, s.segs, lo)
    _, z = R.cut(I.E, s.segs, hi)
    I.touch(s)
    s.segs = x + z


@method(SBytes, "__add__")
def _b_add(I, s, a, k):
    return SBytes(s.segs + I.segs_of(a[0]))


@method(SByteArray, "__add__")
def _ba_add(I, s, a, k):
    return I.bytearray_(s.segs + I.segs_of(a[0]))


@method(SBytes, "__radd__")
def _b_radd(I, s, a, k):
    return SBytes(I.segs_of(a[0]) + s.segs)


# -- ints ----------------------------------------------------------------------
@method(int, "bit_length")
def _bit_length(I, v, a, k):
    if not isinstance(v, Sym):
        return v.bit_length()
    e = ie(v)
    t = R.BL(e)
    E = I.E
    key = R.kid(E, t)
    E.axiom(("bl0", key), z3.And(t >= 0, (t == 0) == (e == 0)))
    E.memo.setdefault("bl", []).append((e, t))
    # |value| < 2**bl and bl(value) = bl(|value|)
    for e2, t2 in E.memo["bl"]:
        E.axiom(("blabs", key, R.kid(E, t2)), z3.Implies(z3.Or(e2 == e, e2 == -e), t == t2))
    for c in (8, 16, 32, 64):
        E.axiom(("blc", key, c), (t > c) == z3.Or(e >= 2 ** c, e <= -(2 ** c)))
    return SInt(t)


@method(int, "to_bytes")
def _to_bytes(I, v, a, k):
    length = a[0] if a else k.get("length", 1)
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    if k.get("signed"):
        raise Unsupported("to_bytes signed")
    if not isinstance(v, Sym) and not has_sym(length):
        return I.native(int.to_bytes, [v] + a, k)
    e, n = ie(v), ie(length)
    if not I.E.branch(n >= 0):
        I.raise_(ValueError, "length argument must be non-negative")
    if not I.E.branch(e >= 0):
        I.raise_(OverflowError, "can't convert negative int to unsigned")
    # |v| and v have the same bit length
    b = ie(_bit_length(I, SInt(e) if not isinstance(v, SInt) else v, [], {}))
    if not I.E.branch(b <= 8 * n):
        I.raise_(OverflowError, "int too big to convert")
    if order not in ("little", "big"):
        I.raise_(ValueError, "byteorder must be either 'little' or 'big'")
    return SBytes([R.ILE(simp(e), simp(n), order)])


@model(int.from_bytes)
def _from_bytes(I, a, k):
    return from_bytes(I, a, k)


def from_bytes(I, a, k):
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    if k.get("signed"):
        raise Unsupported("from_bytes signed")
    segs = I.segs_of(a[0])
    if segs is None:
        raise Unsupported("from_bytes")
    segs = R.norm(I.E, segs)
    if not segs:
        return 0
    if len(segs) == 1 and isinstance(segs[0], R.Lit):
        return int.from_bytes(segs[0].b, order)
    if len(segs) == 1 and isinstance(segs[0], R.ILE):
        s = segs[0]
        if s.order == order:
            return mkint(s.v)
        return SInt(I.E.fresh("wrong_endian"))
    memo = I.E.memo.setdefault("frombytes", [])
    for o2, old, r in memo:                 # a function of the bytes
        if o2 == order and len(old) == len(segs) and all(R.seg_same(I.E, x, y) for x, y in zip(old, segs)):
            return SInt(r)
    r = I.E.fresh("frombytes")
    I.E.assume(r >= 0)
    memo.append((order, segs, r))
    return SInt(r)


METHODS[(type, "from_bytes")] = lambda I, s, a, k: from_bytes(I, a, k)


@method(float, "is_integer")
def _is_integer(I, v, a, k):
    if not isinstance(v, Sym):
        return v.is_integer()
    f = z3.Function("float_is_integer", Val, z3.BoolSort())
    return mkbool(f(v.e))


# -- lists / dicts / sets ----------------------------------------------------------
@method(SList, "append")
def _l_append(I, s, a, k):
    I.touch(s)
    s.items.append(a[0])


@method(SList, "extend", "__iadd__")
def _l_extend(I, s, a, k):
    out = []
    I.iterate(a[0], out.append)
    I.touch(s)
    s.items.extend(out)
    return s


@method(SList, "insert")
def _l_insert(I, s, a, k):
    p = I.clamp(a[0], len(s.items), 0)
    I.touch(s)
    if isinstance(p, int):
        s.items.insert(p, a[1])
        return
    for j in range(len(s.items) + 1):
        if I.E.branch(p == j):
            s.items.insert(j, a[1])
            return
    raise Infeasible


@method(SList, "pop")
def _l_pop(I, s, a, k):
    if not s.items:
        I.raise_(IndexError, "pop from empty list")
    i = a[0] if a else -1
    e = I.norm_index(i, len(s.items))
    I.touch(s)
    if isinstance(e, int):
        return s.items.pop(e)
    for j in range(len(s.items)):
        if I.E.branch(e == j):
            return s.items.pop(j)
    raise Infeasible


@method(SList, "clear")
def _l_clear(I, s, a, k):
    I.touch(s)
    s.items = []


@method(SList, "reverse")
def _l_reverse(I, s, a, k):
    I.touch(s)
    s.items = s.items[::-1]


@method(SList, "copy")
def _l_copy(I, s, a, k):
    return I.lst(s.items)


@method(SList, "__add__")
def _l_add(I, s, a, k):
    return I.lst(s.items + I.unpack(a[0]))


@method(SList, "__mul__")
def _l_mul(I, s, a, k):
    n = simp(ie(a[0]))
    if not isinstance(n, int):
        h = getattr(I, "repeat_hook", None)
        r = h(I, s.items, n) if h is not None else None
        if r is None:
            raise Unsupported("list * symbolic")
        return r
    return I.lst(s.items * n)


@method(SList, "sort")
def _l_sort(I, s, a, k):
    if has_sym(s.items):
        raise Unsupported("sort of symbolic list")
    I.touch(s)
    s.items = sorted(s.items, **k)


@method(SSeq, "append")
def _s_append(I, s, a, k):
    I.touch(s)
    s.tail = s.tail + [a[0]]


@method(SSeq, "__len__")
def _s_len(I, s, a, k):
    return I.length(s)


@method(SDict, "get")
def _d_get(I, s, a, k):
    for kk, v in s.items:
        if I.truth(I.eq(kk, a[0])):
            return v
    return a[1] if len(a) > 1 else None


@method(SDict, "setdefault")
def _d_setdefault(I, s, a, k):
    for kk, v in s.items:
        if I.truth(I.eq(kk, a[0])):
            return v
    I.touch(s)
    d = a[1] if len(a) > 1 else None
    s.items.append((a[0], d))
    return d


@method(SDict, "pop")
def _d_pop(I, s, a, k):
    for j, (kk, v) in enumerate(s.items):
        if I.truth(I.eq(kk, a[0])):
            I.touch(s)
            del s.items[j]
            return v
    if len(a) > 1:
        return a[1]
    raise PyRaise(I.new(KeyError, args=(a[0],)))


@method(SDict, "clear")
def _d_clear(I, s, a, k):
    I.touch(s)
    s.items = []


@method(SDict, "items")
def _d_items(I, s, a, k):
    return I.lst([tuple(x) for x in s.items])


@method(SDict, "keys", "__iter__")
def _d_keys(I, s, a, k):
    return I.lst([x for x, _ in s.items])


@method(SDict, "values")
def _d_values(I, s, a, k):
    return I.lst([v for _, v in s.items])


@method(SDict, "copy")
def _d_copy(I, s, a, k):
    return I.dct(s.items)


@method(SDict, "update")
def _d_update(I, s, a, k):
    if a:
        v = a[0]
        if isinstance(v, SDict):
            for x, y in list(v.items):
                I.setitem(s, x, y)
        elif isinstance(v, (dict, types.MappingProxyType)):
            for x, y in v.items():
                I.setitem(s, x, y)
        elif isinstance(v, SObj) and I.class_lookup(v.cls, "keys") is not _MISSING:
            for x in I.unpack(I.call(I.getattr(v, "keys"), [])):
                I.setitem(s, x, I.getitem(v, x))
        else:
            def cb(kv):
                x, y = I.unpack(kv)
                I.setitem(s, x, y)
            I.iterate(v, cb)
    for x, y in k.items():
        I.setitem(s, x, y)


@method(SSet, "add")
def _s_add(I, s, a, k):
    I.set_add(s, a[0])


@method(SSet, "remove", "discard")
def _s_remove(I, s, a, k, must=True):
    for j, x in enumerate(s.items):
        if I.truth(I.eq(x, a[0])):
            I.touch(s)
            del s.items[j]
            return
    raise PyRaise(I.new(KeyError, args=(a[0],)))


def _s_discard(I, s, a, k):
    for j, x in enumerate(s.items):
        if I.truth(I.eq(x, a[0])):
            I.touch(s)
            del s.items[j]
            return


METHODS[(SSet, "discard")] = _s_discard


def mappingproxy(I, a, k):
    v = a[0]
    if isinstance(v, SDict) or isinstance(v, Heap) and getattr(v, "pytype", None) is dict:
        return v          # read-only alias; writes through it do not occur in valid code
    return I.native(types.MappingProxyType, a, k)


@model(itertools.chain)
def _chain(I, a, k):
    if not has_sym(a):
        return I.native(itertools.chain, a, k)
    its = [I.getiter(x) if hasattr(I, "getiter") else x for x in a]

    def gen(cb):
        for x in its:
            I.iterate(x, cb)
    return I.reg(SGen(gen, "chain"))


MODELS[id(types.MappingProxyType)] = (types.MappingProxyType, mappingproxy, "MappingProxyType")


@method(dict, "get")
@method(types.MappingProxyType, "get")
def _nd_get(I, s, a, k):
    if isinstance(s, Sym):
        raise Unsupported("get")
    key = a[0]
    if isinstance(key, SEnum):
        key = I.concretize_enum(key)
    if has_sym(key):
        for kk in s:
            if I.truth(I.eq(kk, key)):
                return s[kk]
        return a[1] if len(a) > 1 else None
    return s.get(key, *a[1:])


@method(tuple, "index")
def _t_index(I, s, a, k):
    for j, x in enumerate(s):
        if I.truth(I.eq(x, a[0])):
            return j
    I.raise_(ValueError, "not in tuple")


# no-op
def _add_note(I, a, k):
    return None


# -- datetime ------------------------------------------------------------------------
# a datetime is its instant, in microseconds since the epoch
MICROS = z3.Function("micros_of", Val, z3.IntSort())
TIMESTAMP = z3.Function("timestamp_of", Val, Val)
MICROS_SAFE = (-61 * 10 ** 15, 253 * 10 ** 15)     # years 36 to 9987, in every timezone


@method(datetime.datetime, "timestamp")
def _timestamp(I, v, a, k):
    """The nearest float to the instant in seconds."""
    if not isinstance(v, Sym):
        return v.timestamp()
    us = MICROS(v.e)
    if not I.E.entails(z3.And(us >= MICROS_SAFE[0], us <= MICROS_SAFE[1])):
        raise Unsupported("timestamp of a datetime which may be near the ends of the calendar")
    t = SVal(TIMESTAMP(v.e), float)
    exact = z3.ToReal(us) / 1000000
    mag = z3.If(exact < 0, -exact, exact)
    err = REAL(t.e) - exact
    I.E.assume(z3.And(FINITE(t.e), err * 2 ** 52 <= mag, -err * 2 ** 52 <= mag))
    return t


def fromtimestamp(I, a, k):
    """The instant nearest to a float in seconds, to the microsecond; an error where there is none."""
    t, tz = a[0], (a[1] if len(a) > 1 else k.get("tz"))
    if not isinstance(t, SVal) or t.cls is not float:
        raise Unsupported("fromtimestamp of a value that is not an opaque float")
    secs = REAL(t.e)
    safe = z3.And(FINITE(t.e), secs >= MICROS_SAFE[0] // 10 ** 6, secs <= MICROS_SAFE[1] // 10 ** 6)
    if not I.E.entails(safe):
        n = I.E.choose(4)
        if n < 3:
            I.raise_((OSError, OverflowError, ValueError)[n], "timestamp out of range")
    r = I.E.fresh("datetime", Val)
    diff = z3.ToReal(MICROS(r)) - secs * 1000000
    I.E.assume(z3.Implies(FINITE(t.e), z3.And(diff <= 1, diff >= -1)))
    return SVal(r, datetime.datetime, {"tz": tz})


METHODS[(type, "fromtimestamp")] = lambda I, s, a, k: fromtimestamp(I, a, k) if s is datetime.datetime \
    else I.native(s.fromtimestamp, a, k)


# -- regular expressions ---------------------------------------------------------------
# re.compile is a function of its arguments: whether the source compiles, and the flags of the pattern
# (the given flags, those the source sets inline, and UNICODE for text)
PAT_OK = z3.Function("pattern_compiles", Val, z3.IntSort(), z3.BoolSort())
PAT_FLAGS = z3.Function("pattern_flags", Val, z3.IntSort(), z3.IntSort())


@model(re.compile)
def _re_compile(I, a, k):
    src, flags = a[0], (a[1] if len(a) > 1 else k.get("flags", 0))
    if not has_sym(src) and not has_sym(flags):
        return I.native(re.compile, a, k)
    if pyclass(src) is not str or not is_intlike(flags) and not isinstance(flags, (enum.Flag, SEnum)):
        raise Unsupported("re.compile of this source")
    e, fl = I.as_val(src), zi(ie(flags))
    if not I.E.branch(PAT_OK(e, fl)):
        I.raise_(re.error, "not a valid pattern")
    return I.reg(SObj(re.Pattern, {"pattern": src, "flags": mkint(PAT_FLAGS(e, fl))}))


@method(str, "join")
def _join(I, s, a, k):
    if has_sym(s):
        raise Unsupported("join")
    parts = []
    I.iterate(a[0], lambda x: (parts.append(x), None)[1])
    if has_sym(parts):
        if not all(pyclass(p) is str for p in parts):
            raise Unsupported("join of these")
        return SVal(I.E.fresh("str", Val), str)
    return I.native(s.join, [parts], {})


from . import memview      # noqa: E402  (registers its models)
