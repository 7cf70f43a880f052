"""Contracts for nested values: encode_object / decode_object and the object log.

encode_object(v), called when the log holds n objects, appends exactly one token
Nest(v, n): at least one byte, the first of which is a tag that can start a value
(or an object key while the stream is constrained to keys); the log grows by
NESTCNT(v, n) >= 0 objects.  decode_object(), positioned on that token with n objects
in its log, returns NESTVAL(v, n), consumes exactly the token and grows its log by
the same NESTCNT(v, n).

This is the induction hypothesis of the round trip over the nesting depth of the value: the
lemmas of C02 and C04..C07 prove each kind of value against it (one step of the induction),
scalars without it.  It needs the writer's and the reader's log to hold equally many objects;
the contract of decode_object makes that an obligation at every nested value.
"""
import random

import z3

from pyvc import rope as R
from pyvc.core import Unsupported
from pyvc.dual import *
from pyvc.interp import PyRaise, ie, is_intlike, mkint, mkbool, model, pyclass
from pyvc.rope import zi, simp
from pyvc.values import *
from pyvc.values import Val

from v8serialize._references import ForwardReference, SerializedIdOutOfRangeV8SerializeError, SerializedObjectLog
from v8serialize.constants import JS_OBJECT_KEY_TAGS, SerializationTag as T
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import DefaultEncodeContext, WritableTagStream

from v8serialize.jstypes import JSArrayBuffer, JSHole, JSUndefined

from specs import contracts as C

# the tags which may start a nested value written by the library
VALUE_FIRST = frozenset({
    T.kUndefined, T.kNull, T.kTrue, T.kFalse, T.kTheHole, T.kInt32, T.kUint32, T.kDouble, T.kBigInt,
    T.kUtf8String, T.kOneByteString, T.kTwoByteString, T.kObjectReference, T.kBeginJSObject, T.kBeginDenseJSArray,
    T.kBeginSparseJSArray, T.kDate, T.kTrueObject, T.kFalseObject, T.kNumberObject, T.kBigIntObject,
    T.kStringObject, T.kRegExp, T.kBeginJSMap, T.kBeginJSSet, T.kArrayBuffer, T.kResizableArrayBuffer,
    T.kArrayBufferTransfer, T.kSharedArrayBuffer, T.kSharedObject, T.kHostObject, T.kError})


class Role:
    def __init__(self, name, tags):
        self.name = name
        self.tags = sorted(int(t) for t in tags)

    def first(self, t):
        return z3.Or([t == x for x in self.tags])


VALUE = Role("value", VALUE_FIRST)
KEY = Role("key", JS_OBJECT_KEY_TAGS.allowed_tags)


# ---------------------------------------------------------------------------
# vocabulary of the lemmas
# ---------------------------------------------------------------------------
def start_log(stream, n):
    """The stream's log as it is after n earlier objects of the message."""
    for i in range(n):
        stream.objects.record_reference(FILL[i])


FILL = [object() for _ in range(200)]


@model(start_log)
def _start_log(I, a, k):
    stream, n = a
    log = I.getattr(stream, "objects")
    I.setattr_raw(log, "_n", n)


def seen(stream):
    """How many objects have taken a number."""
    return log_size(stream.objects)


def log_size(log):
    """How many numbers the log can resolve."""
    lo, hi = 0, 1
    while resolves(log, hi - 1):
        lo, hi = hi, hi * 2
    while lo < hi:
        mid = (lo + hi) // 2
        if resolves(log, mid):
            lo = mid + 1
        else:
            hi = mid
    return lo


def resolves(log, i):
    try:
        log.get_object(i)
    except KeyError:
        return False
    return True


@model(seen)
def _seen(I, a, k):
    log = I.getattr(a[0], "objects")
    return log.attrs["_n"]


def more(stream, k):
    """k further objects have been written or read."""
    for i in range(k):
        stream.objects.record_reference(FILL2[i])


FILL2 = [object() for _ in range(200)]


@model(more)
def _more(I, a, k):
    stream, n = a
    log = I.getattr(stream, "objects")
    I.setattr_raw(log, "_n", mkint(ie(log.attrs["_n"]) + ie(n)))


def number_of(stream, obj):
    """The number obj took (it took one just before, and none since)."""
    return stream.objects.get_serialized_id(obj)


@model(number_of)
def _number_of(I, a, k):
    log = I.getattr(a[0], "objects")
    for i, o, _ in reversed(log.attrs["_recent"]):
        if o is a[1]:
            return i
    raise Unsupported("number of an object not recorded on this path")


def recorded(stream, n):
    """The object that took number n."""
    return stream.objects.get_object(n)


@model(recorded)
def _recorded(I, a, k):
    log = I.getattr(a[0], "objects")
    for i, _, o in reversed(log.attrs["_recent"]):
        if I.E.entails(ie(i) == ie(a[1])):
            return o
    raise Unsupported("object with a number not recorded on this path")


def encode_whole(ctx, v):
    """ctx.encode_object(v) through all its steps."""
    ctx.encode_object(v)


def decode_whole(ctx):
    """ctx.decode_object() through all its steps."""
    return ctx.decode_object()


def same_scalar(got, v):
    """The loaded value for the scalar v."""
    if isinstance(v, int) and not isinstance(v, bool):
        if v < -2 ** 31 or v >= 2 ** 32:
            if -(2 ** 53) < v and v < 2 ** 53:
                return identical(got, float(v))
    return identical(got, v)


def is_loaded(got, v):
    """got is what the nested value v loads as."""
    return same_scalar(got, v)


@model(is_loaded)
def _is_loaded(I, a, k):
    got, v = a
    if isinstance(got, SVal) and isinstance(got.info, dict) and "of" in got.info:
        return mkbool(got.info["of"] == I.as_val(v))
    return False


def same_object(a, b):
    return a is b


# ---------------------------------------------------------------------------
# contracts
# ---------------------------------------------------------------------------
def _self_log(I, a):
    log = a[0]
    if not isinstance(log, SObj):
        raise Unsupported("object log")
    return log


def log_init(I, a, k):
    """A new log holds no objects."""
    log = _self_log(I, a)
    I.setattr_raw(log, "_n", 0)
    I.setattr_raw(log, "_recent", ())


def record_reference(I, a, k):
    """ensures result == number of objects recorded before; obj is now recorded under it.
    Proved from its body by C05 'record_reference'."""
    log, obj = _self_log(I, a), (a[1] if len(a) > 1 else k["obj"])
    n = log.attrs["_n"]
    I.setattr_raw(log, "_n", mkint(ie(n) + 1))
    I.setattr_raw(log, "_recent", log.attrs["_recent"] + ((n, obj, obj),))
    return n


def replace_reference(I, a, k):
    """requires serialized_id to be the most recent number, else ValueError; ensures only that entry changes.
    Proved from its body by C05 'replace_reference'."""
    log = _self_log(I, a)
    sid = a[1] if len(a) > 1 else k["serialized_id"]
    v = a[2] if len(a) > 2 else k["value"]
    n = log.attrs["_n"]
    if not I.E.branch(ie(sid) == ie(n) - 1):
        I.raise_(ValueError, "Only the most-recent reference can be replaced")
    r = log.attrs["_recent"]
    if not r:
        raise Unsupported("replace_reference of an object recorded elsewhere")
    I.setattr_raw(log, "_recent", r[:-1] + ((r[-1][0], r[-1][1], v),))


def get_serialized_id(I, a, k):
    """The number obj was last recorded under; ObjectNotSerialized when it was not recorded.
    Proved from its body by C05 'record_reference' and 'acyclic_reference'."""
    log, obj = _self_log(I, a), (a[1] if len(a) > 1 else k["obj"])
    for i, o, held in reversed(log.attrs["_recent"]):
        if o is obj:
            if isinstance(held, SObj) and held.cls is ForwardReference:
                I.call(I.getattr(held, "get_value"), [])      # raises while the reference is open
            return i
    raise Unsupported("number of an object not recorded on this path")


def get_object(I, a, k):
    """The object recorded under a number below the count; SerializedIdOutOfRange for a larger one.
    Proved from its body by C05 'record_reference'."""
    log, i = _self_log(I, a), (a[1] if len(a) > 1 else k["serialized_id"])
    if not I.E.branch(ie(i) < ie(log.attrs["_n"])):
        e = I.call(SerializedIdOutOfRangeV8SerializeError, ["not recorded"], {"serialized_id": i})
        raise PyRaise(e)
    for j, _, o in reversed(log.attrs["_recent"]):
        if I.E.entails(ie(i) == ie(j)):
            return o
    raise Unsupported("object with a number not recorded on this path")


def contains(I, a, k):
    """An object is in the log exactly when it was recorded (the lemmas start with values not in it).
    Proved from its body by C05 'record_reference'."""
    log = _self_log(I, a)
    return any(o is a[1] for _, o, _ in log.attrs["_recent"])


def encode_object(I, a, k):
    ctx, v = a[0], (a[1] if len(a) > 1 else k["value"])
    if I.E.memo.pop("whole", None) or I.E.memo.get("real_steps"):
        return _body(I, DefaultEncodeContext, "encode_object", a, k)
    stream = I.getattr(ctx, "stream")
    log = I.getattr(stream, "objects")
    data = I.getattr(stream, "data")
    allowed = I.getattr(stream, "allowed_tags")
    if isinstance(allowed, Sym):
        raise Unsupported("symbolic tag constraint")
    role = VALUE if allowed is None else KEY if allowed is JS_OBJECT_KEY_TAGS else Role(repr(allowed), allowed.allowed_tags)
    if isinstance(v, SObj) and (issubclass(v.cls, JSArrayBuffer) or any(o is v for _, o, _ in log.attrs["_recent"])):
        return _body(I, DefaultEncodeContext, "encode_object", a, k)    # a value seen before: not abstract
    if pyclass(v) in (bytes, bytearray, memoryview):
        return _body(I, DefaultEncodeContext, "encode_object", a, k)
    if I.E.memo.get("may_fail") and not I.E.branch(I.E.fresh("ok", "bool")):
        I.E.memo["failed_with"] = e = I.exc(EncodeFailure, "nested value failed")
        raise PyRaise(e)
    I.touch(data)
    n = log.attrs["_n"]
    seg = R.Nest(I.as_val(v), ie(n), role)
    data.segs = data.segs + [seg]
    I.setattr_raw(log, "_n", mkint(ie(n) + seg.cnt(I.E)))
    return None


class EncodeFailure(Exception):
    """Stands for whatever encoding a nested value raises."""


def decode_object(I, a, k):
    ctx = a[0]
    tag = k.get("tag")
    if I.E.memo.pop("whole", None) or I.E.memo.get("real_steps"):
        return _body(I, DefaultDecodeContext, "decode_object", a, k)
    stream = I.getattr(ctx, "stream")
    data, pos = I.getattr(stream, "data"), I.getattr(stream, "pos")
    segs = I.segs_of(data)
    at = simp(ie(pos) - (0 if tag is None else 1))
    seg = None
    if I.E.entails(zi(at) >= 0):
        seg = token_at(I, segs, at)
    if seg is None:
        return _body(I, DefaultDecodeContext, "decode_object", a, k)
    E = I.E
    log = I.getattr(stream, "objects")
    if tag is not None:
        E.prove(ie(tag) == zi(seg.byte(E, 0)), "decode_object is given the tag that starts the nested value")
    E.prove(ie(log.attrs["_n"]) == zi(seg.start), "reader and writer have numbered the same objects before a nested value")
    I.setattr(stream, "pos", mkint(zi(at) + zi(seg.length(E))))
    I.setattr_raw(log, "_n", mkint(zi(seg.start) + seg.cnt(E)))
    cls = None
    if seg.role is KEY:
        cls = (int, float, str)[E.choose(3)]
    return SVal(R.NESTVAL(seg.v, zi(seg.start)), cls, {"of": seg.v})


def token_at(I, segs, at):
    E = I.E
    _, rest = R.cut(E, segs, at)
    rest = expand(E, rest)
    if rest and isinstance(rest[0], R.Nest):
        return rest[0]
    return None


def expand(E, rest):
    """First unit of a repeated segment or its rest, when it is known to have one."""
    if rest and isinstance(rest[0], R.Rep):
        new = R.expand_rep(E, rest, 0, 0)
        return new if new is not None else rest
    return rest


def _body(I, cls, nm, a, k):
    return I.call_body(C._fn(cls, nm), a, k)


@model(encode_whole)
def _encode_whole(I, a, k):
    return _whole(I, DefaultEncodeContext, "encode_object", a, k)


@model(decode_whole)
def _decode_whole(I, a, k):
    return _whole(I, DefaultDecodeContext, "decode_object", a, k)


def _whole(I, cls, nm, a, k):
    """Run the body of this one call; nested calls use the contract."""
    f = C._fn(cls, nm)
    I.E.memo["whole"] = True
    return I.call(f, a, k)


def nested(I):
    I.contracts.clear()
    C.use_varints(I)
    for cls, nm, h in ((SerializedObjectLog, "__init__", log_init),
                       (SerializedObjectLog, "record_reference", record_reference),
                       (SerializedObjectLog, "replace_reference", replace_reference),
                       (SerializedObjectLog, "__contains__", contains),
                       (SerializedObjectLog, "get_serialized_id", get_serialized_id),
                       (SerializedObjectLog, "get_object", get_object),
                       (DefaultEncodeContext, "encode_object", encode_object),
                       (DefaultDecodeContext, "decode_object", decode_object)):
        f = C._fn(cls, nm)
        if f is not None:
            I.contracts[f] = h


class Nested(Dom):
    """One nested value other than None (natively: a scalar)."""

    def sym(self, I, name):
        return SVal(z3.Const(name, Val), None, {"not_none": True})

    def edges(self):
        return [0, "", "x", 1.5, True, 2 ** 70, JSUndefined]

    def rand(self, r):
        v = Values("v").one(r, "v")
        return 7 if v is None else v

    def from_model(self, m):
        return "nested"


class Maybe(Dom):
    """None or a value of the domain."""

    def __init__(self, dom):
        self.dom = dom

    def sym(self, I, name):
        if I.E.choose(2):
            I.E.inputs.setdefault(name, lambda m: "?")
            v = self.dom.sym(I, name)
            return v
        I.E.inputs[name] = lambda m: None
        return None

    def edges(self):
        return [None] + self.dom.edges()[:6]

    def rand(self, r):
        return None if r.random() < 0.3 else self.dom.rand(r)

    def from_model(self, m):
        return None if m is None else self.dom.from_model(m)


# ---------------------------------------------------------------------------
# sequences of nested values
# ---------------------------------------------------------------------------
class Values(Dom):
    """Any number of nested values (natively: scalars)."""

    def __init__(self, *parts, keys=(), maxlen=6):
        self.parts = parts or ("v",)       # one letter per component; "k": object key
        self.maxlen = maxlen

    def sym(self, I, name):
        n = z3.Int(name + "_len")
        I.E.assume(n >= 0)
        fs = [z3.Function(f"{name}_{i}", z3.IntSort(), Val) for i in range(len(self.parts))]

        def elem(i):
            t = tuple(SVal(f(zi(i))) for f in fs)
            return t if len(t) > 1 else t[0]
        I.E.inputs[name] = lambda m, n=n: {"len": m.eval(n, model_completion=True).as_long()}
        return I.reg(SSeq(n, elem))

    def some(self, n, r):
        out = []
        for _ in range(n):
            t = tuple(self.one(r, p) for p in self.parts)
            out.append(t if len(t) > 1 else t[0])
        return out

    def from_model(self, m):
        n = m["len"] if isinstance(m, dict) else 0
        return self.some(n, random.Random(n)) if n <= 200000 else None

    def deep(self):
        out = []
        for n in (7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 199, 200, 201,
                  254, 255, 256, 257, 299, 300, 301, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
                  2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 9999, 10000, 10001, 16382, 16383, 16384, 16385, 32767,
                  32768, 32769, 65534, 65535, 65536, 65537):
            out.append(self.some(n, random.Random(n)))
        return out

    def one(self, r, kind):
        k = r.randrange(8)
        if k == 0:
            return r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-2 ** 31, 2 ** 32 - 1)])
        if k == 1:
            return r.choice(["", "a", "é", "日本", "1", "-0", "x" * r.choice([1, 127, 128])])
        if k == 2:
            return r.choice(FLOATS)
        if k == 3:
            return r.randint(0, 300)
        if kind == "k":
            return str(r.randint(-5, 5))
        if k == 4:
            return r.choice([None, True, False, JSHole, JSUndefined])
        if k == 5:
            return r.choice([2 ** 53, -2 ** 53, 2 ** 64 + r.getrandbits(40), -2 ** 80])
        return "s" * r.randint(0, 9)

    def edges(self):
        return []

    def rand(self, r):
        return self.some(r.choice([0, 1, 2, 3, r.randrange(self.maxlen + 1)]), r)
