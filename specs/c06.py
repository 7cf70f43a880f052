"""C06: errors, regexps, dates, wrapped primitives and shared references keep their data."""
from datetime import datetime, timedelta, timezone

import z3

from pyvc.dual import *
from pyvc.interp import mkbool, mkint, model
from pyvc.models import MICROS, MICROS_SAFE
from pyvc.values import *
from pyvc.values import Val
from v8serialize import DecodeV8SerializeError
from v8serialize._errors import V8SerializeError
from v8serialize.constants import JSErrorName, JSRegExpFlag, SerializationFeature, SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.jstypes import JSArrayBufferTransfer, JSError, JSErrorData, JSPrimitiveObject, JSRegExp
from v8serialize.jstypes import JSSharedArrayBuffer
from v8serialize.jstypes._v8 import V8SharedObjectReference

from specs import c01, c03, c04
from specs.nested import *

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]
LEMMAS += [l for l in c03.LEMMAS if l.name == "utf-8 round trip"]

NAMES = ("EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "UriError", "Error")
PROTOTYPE = {"EvalError": b"E", "RangeError": b"R", "ReferenceError": b"F", "SyntaxError": b"S", "TypeError": b"T",
             "UriError": b"U", "Error": b""}
CIRCULAR = SerializationFeature.CircularErrorCause
NONE = SerializationFeature(0)


def feature_writer(features, pre, n):
    w = WritableTagStream(features=features)
    w.data.extend(pre)
    start_log(w, n)
    return w


def read_back(w, post, pos, n, builder):
    r = c04.reader(w, post, pos, n)
    tr = TagReader() if builder is None else TagReader(js_error_builder=builder)
    return r, DefaultDecodeContext(stream=r, decode_steps=[tr])


def loaded_name(name):
    """The name an error called `name` loads with."""
    for known in NAMES:
        if name == known:
            return known
    return "Error"


@lemma(LEMMAS, "error", setup=nested, called=Str(), message=Maybe(Str()), stack=Maybe(Str()), cause=Maybe(Nested()),
       features=Choice(NONE, CIRCULAR), data=Bool(), pre=Data(), post=Data(), n=Small(0))
def error(called, message, stack, cause, features, data, pre, post, n):
    """An error loads with its name, message, stack and cause, in any combination of present and absent fields."""
    assume(called != "URIError")      # known finding K-urierror
    err = JSErrorData(message, name=called, stack=stack, cause=cause)
    w = feature_writer(features, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), err)
    end = len(w.data)
    r, ctx = read_back(w, post, len(pre), n, JSErrorData.builder if data else None)
    got = decode_whole(ctx)
    prove(isinstance(got, JSErrorData if data else JSError), "an error loads as what the builder makes")
    prove(got.name == loaded_name(called), "an error keeps its name, unknown names become Error")
    if message is None:
        prove(got.message is None if data else got.message == "", "an absent message stays absent")
    else:
        prove(got.message == message, "an error keeps its message")
    if stack is None:
        prove(got.stack is None, "an absent stack stays absent")
    else:
        prove(got.stack == stack, "an error keeps its stack")
    if cause is None:
        prove(got.cause is None, "an absent cause stays absent")
    else:
        prove(is_loaded(got.cause, cause), "an error keeps its cause")
    c04.settled(w, r, len(pre), end, err, got)


@lemma(LEMMAS, "exception error", setup=nested, called=Str(), message=Maybe(Str()), stack=Maybe(Str()),
       cause=Maybe(Nested()), pre=Data(), post=Data(), n=Small(0))
def exception_error(called, message, stack, cause, pre, post, n):
    """A JSError (an exception) is written as an error, with its own fields, and loads as a JSError."""
    assume(called != "URIError")      # known finding K-urierror
    err = JSError(message, name=called, stack=stack, cause=cause)
    w = c04.writer(pre, n)
    encode_whole(DefaultEncodeContext(stream=w), err)
    end = len(w.data)
    r, ctx = read_back(w, post, len(pre), n, None)
    got = decode_whole(ctx)
    prove(isinstance(got, JSError), "an error loads as what the builder makes")
    prove(got.name == loaded_name(called), "an error keeps its name, unknown names become Error")
    prove(got.message == ("" if message is None else message), "an error keeps its message")
    if stack is None:
        prove(got.stack is None, "an absent stack stays absent")
    else:
        prove(got.stack == stack, "an error keeps its stack")
    if cause is None:
        prove(got.cause is None, "an absent cause stays absent")
    else:
        prove(is_loaded(got.cause, cause), "an error keeps its cause")
    c04.settled(w, r, len(pre), end, err, got)


@lemma(LEMMAS, "old error", setup=nested, called=Choice(*NAMES), message=Maybe(Str()), stack=Str(), cause=Maybe(Nested()),
       pre=Data(), post=Data(), n=Small(0))
def old_error(called, message, stack, cause, pre, post, n):
    """An error written in the older order, stack last, loads with the same fields."""
    w = c04.writer(pre, n)
    ctx = DefaultEncodeContext(stream=w)
    w.data.extend(b"r")
    w.data.extend(PROTOTYPE[called])
    if message is not None:
        w.data.extend(b"m")
        w.write_string_utf8(message)
    me = JSErrorData()
    w.objects.record_reference(me)
    if cause is not None:
        w.data.extend(b"c")
        ctx.encode_object(cause)
    w.data.extend(b"s")
    w.write_string_utf8(stack)
    w.data.extend(b".")
    end = len(w.data)
    r, ctx = read_back(w, post, len(pre), n, JSErrorData.builder)
    got = decode_whole(ctx)
    prove(got.name == called, "an error keeps its name")
    if message is None:
        prove(got.message is None, "an absent message stays absent")
    else:
        prove(got.message == message, "an error keeps its message")
    prove(got.stack == stack, "an error keeps its stack")
    if cause is None:
        prove(got.cause is None, "an absent cause stays absent")
    else:
        prove(is_loaded(got.cause, cause), "an error keeps its cause")
    c04.settled(w, r, len(pre), end, me, got)


@lemma(LEMMAS, "cyclic error", setup=nested, message=Str(), stack=Maybe(Str()), pre=Data(), post=Data(), n=Small(0))
def cyclic_error(message, stack, pre, post, n):
    """With the feature enabled an error which is its own cause loads as an error which is its own cause."""
    assume(n < 2 ** 32)
    err = JSErrorData(message, stack=stack)
    err.cause = err
    w = feature_writer(CIRCULAR, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), err)
    end = len(w.data)
    r, ctx = read_back(w, post, len(pre), n, JSErrorData.builder)
    got = decode_whole(ctx)
    prove(got.cause is got, "the cycle is preserved")
    prove(got.message == message, "an error keeps its message")
    if stack is None:
        prove(got.stack is None, "an absent stack stays absent")
    else:
        prove(got.stack == stack, "an error keeps its stack")
    c04.settled(w, r, len(pre), end, err, got)


@lemma(LEMMAS, "refused cycle", setup=nested, message=Maybe(Str()), stack=Maybe(Str()), pre=Data(), n=Small(0))
def refused_cycle(message, stack, pre, n):
    """Without the feature an error which is its own cause is refused with an error of the library."""
    err = JSErrorData(message, stack=stack)
    err.cause = err
    w = feature_writer(NONE, pre, n)
    refused = False
    try:
        encode_whole(DefaultEncodeContext(stream=w), err)
    except V8SerializeError:
        refused = True
    prove(refused, "an error which refers to itself is refused")


@lemma(LEMMAS, "wrong error field", setup=nested, message=Maybe(Str()), stack=Maybe(Str()), cause=Maybe(Nested()),
       code=Nat(2 ** 32 - 1), post=Data(), n=Small(0))
def wrong_error_field(message, stack, cause, code, post, n):
    """An error which does not end where its fields end is rejected with a decode error."""
    w = c04.writer(b"", n)
    ctx = DefaultEncodeContext(stream=w)
    w.data.extend(b"r")
    if message is not None:
        w.data.extend(b"m")
        w.write_string_utf8(message)
    if stack is not None:
        w.data.extend(b"s")
        w.write_string_utf8(stack)
    w.objects.record_reference(message)
    if cause is not None:
        w.data.extend(b"c")
        ctx.encode_object(cause)
    assume(code != 46)      # "."
    if stack is None:
        assume(code != 115)     # "s"
    if cause is None:
        assume(code != 99)      # "c"
        if stack is None:
            assume(code != 109)     # "m"
            if message is None:
                for c in b"ERFSTU":
                    assume(code != c)
    w.write_varint(code)
    r, ctx = read_back(w, post, 0, n, JSErrorData.builder)
    refused = False
    try:
        decode_whole(ctx)
    except DecodeV8SerializeError:
        refused = True
    prove(refused, "an error with a field out of place is rejected")


@lemma(LEMMAS, "regexp", setup=nested, source=Str(), flags=Nat(2 ** 32 - 1), pre=Data(), post=Data(), n=Small(0))
def regexp(source, flags, pre, post, n):
    """A regular expression keeps its source and its flags, ignoring flags V8 does not define."""
    assume(flags & 16 == 0 or flags & 256 == 0)
    value = JSRegExp(source, JSRegExpFlag(flags))
    w = c04.writer(pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r, ctx = read_back(w, post, len(pre), n, None)
    got = decode_whole(ctx)
    prove(isinstance(got, JSRegExp), "a regular expression loads as one")
    prove(got.source == (source if source != "" else "(?:)"), "a regular expression keeps its source")
    prove(got.flags == flags & 511, "a regular expression keeps its flags")
    c04.settled(w, r, len(pre), end, value, got)


@lemma(LEMMAS, "wrapped bool", setup=nested, value=Choice(True, False), pre=Data(), post=Data(), n=Small(0))
def wrapped_bool(value, pre, post, n):
    """A wrapped boolean keeps its value and takes one number."""
    wrapped(JSPrimitiveObject(value), value, pre, post, n)


@lemma(LEMMAS, "wrapped text", setup=nested, value=Str(), pre=Data(), post=Data(), n=Small(0))
def wrapped_text(value, pre, post, n):
    """A wrapped string keeps its value and takes one number."""
    wrapped(JSPrimitiveObject(value), value, pre, post, n)


@lemma(LEMMAS, "wrapped float", setup=nested, value=Float(), pre=Data(), post=Data(), n=Small(0))
def wrapped_float(value, pre, post, n):
    """A wrapped float keeps its value and takes one number."""
    wrapped(JSPrimitiveObject(value), value, pre, post, n)


@lemma(LEMMAS, "wrapped int", setup=nested, value=Int(), pre=Data(), post=Data(), n=Small(0))
def wrapped_int(value, pre, post, n):
    """A wrapped integer keeps its value, as a float where it is safe and as a bigint otherwise."""
    assume((value.bit_length() + 8) // 8 < 2 ** 30)
    if -(2 ** 53) < value and value < 2 ** 53:
        wrapped(JSPrimitiveObject(value), float(value), pre, post, n)
    else:
        wrapped(JSPrimitiveObject(value), value, pre, post, n)


@lemma(LEMMAS, "wrapped bigint", setup=nested, value=Int(), pre=Data(), post=Data(), n=Small(0))
def wrapped_bigint(value, pre, post, n):
    """A wrapped bigint keeps its value, however small."""
    assume((value.bit_length() + 8) // 8 < 2 ** 30)
    wrapped(JSPrimitiveObject(value, SerializationTag.kBigIntObject), value, pre, post, n)


def wrapped(obj, expected, pre, post, n):
    w = c04.writer(pre, n)
    encode_whole(DefaultEncodeContext(stream=w), obj)
    end = len(w.data)
    r, ctx = read_back(w, post, len(pre), n, None)
    got = decode_whole(ctx)
    prove(identical(got, expected), "a wrapped primitive keeps its value")
    prove(w.data[len(pre)] in VALUE_FIRST, "a wrapped primitive starts with a tag that starts a value")
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == n + 1, "a wrapped primitive takes one number when written")
    prove(seen(r) == n + 1, "a wrapped primitive takes one number when read")
    prove(number_of(w, obj) == n, "a wrapped primitive takes the next number")
    prove(identical(recorded(r, n), expected), "the number resolves to the unwrapped value")


@lemma(LEMMAS, "shared reference", setup=nested, kind=Choice("object", "buffer", "transfer"), i=Nat(2 ** 32 - 1),
       pre=Data(), post=Data(), n=Small(0))
def shared_reference(kind, i, pre, post, n):
    """References to shared objects, shared buffers and transferred buffers keep their id."""
    if kind == "object":
        value = V8SharedObjectReference(i)
    elif kind == "buffer":
        value = JSSharedArrayBuffer(i)
    else:
        value = JSArrayBufferTransfer(i)
    assume(len(post) == 0 or post[0] != SerializationTag.kArrayBufferView)
    w = c04.writer(pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r, ctx = read_back(w, post, len(pre), n, None)
    got = decode_whole(ctx)
    if kind == "object":
        prove(got.shared_value_id == i, "a shared object reference keeps its id")
    elif kind == "buffer":
        prove(got.buffer_id == i, "a shared buffer keeps its id")
    else:
        prove(got.transfer_id == i, "a transferred buffer keeps its id")
    prove(type(got) is type(value), "a reference loads as the same kind of reference")
    c04.settled(w, r, len(pre), end, value, got)


# ---------------------------------------------------------------------------
# dates
# ---------------------------------------------------------------------------
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
ZONES = (timezone.utc, timezone(timedelta(hours=-11)), timezone(timedelta(hours=5, minutes=45)))


class Instant(Dom):
    """A datetime, not within weeks of the ends of the calendar."""

    def sym(self, I, name):
        e = z3.Const(name, Val)
        us = MICROS(e)
        I.E.assume(us >= MICROS_SAFE[0] // 2)
        I.E.assume(us <= MICROS_SAFE[1] - 10 ** 12)
        I.E.inputs[name] = lambda m: m.eval(us, model_completion=True).as_long()
        return SVal(e, datetime)

    def from_model(self, m):
        return EPOCH + timedelta(microseconds=m)

    def edges(self):
        out = []
        for us in (0, 1, -1, 999, 1000, -1000, 499, 500, 501, 10 ** 6, -10 ** 6, 123456789, 1600000000123456,
                   1600000000123500, 1600000000999999, 2 ** 53, -2 ** 53, 2 ** 57 + 1, MICROS_SAFE[1] - 10 ** 13,
                   MICROS_SAFE[0] // 2 + 1):
            out.append(EPOCH + timedelta(microseconds=us))
        return out + [d.astimezone(ZONES[1]) for d in out[:9]]

    def rand(self, r):
        us = r.choice([r.randint(-10 ** 16, 10 ** 16), r.randint(0, 2 * 10 ** 15) // 1000 * 1000,
                       r.randint(MICROS_SAFE[0] // 2, MICROS_SAFE[1] - 10 ** 13)])
        d = (EPOCH + timedelta(microseconds=us)).astimezone(r.choice(ZONES))
        if r.random() < 0.3:
            d = datetime.fromtimestamp(us // 10 ** 6) + timedelta(microseconds=us % 10 ** 6)
        return d


def micros(d):
    """The instant of a datetime."""
    if d.tzinfo is None:
        return round(d.timestamp() * 1000000)
    return (d - EPOCH) // timedelta(microseconds=1)


@model(micros)
def _micros(I, a, k):
    return mkint(MICROS(a[0].e))


def zone(d):
    return d.tzinfo


@model(zone)
def _zone(I, a, k):
    return a[0].info["tz"]


@lemma(LEMMAS, "date", setup=nested, value=Instant(), tz=Choice(None, *ZONES), pre=Data(), post=Data(), n=Small(0))
def date(value, tz, pre, post, n):
    """A date keeps its instant to the millisecond and loads in the configured timezone."""
    w = c04.writer(pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader(default_timezone=tz)]))
    prove(isinstance(got, datetime), "a date loads as a datetime")
    d = micros(got) - micros(value)
    prove(-1000 < d and d < 1000, "a date keeps its instant to the millisecond")
    prove(zone(got) is tz, "a date loads in the configured timezone")
    c04.settled(w, r, len(pre), end, value, got)
