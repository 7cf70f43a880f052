"""C02: scalar values survive dumps then loads with exact value and type."""
from pyvc.dual import *
from v8serialize import dumps, loads
from v8serialize.jstypes import JSHole, JSPrimitiveObject, JSUndefined
from v8serialize.encode import WritableTagStream, DefaultEncodeContext
from v8serialize.decode import ReadableTagStream, DefaultDecodeContext
from v8serialize.constants import SerializationTag

from specs import contracts as C
from specs import c01, c03, c11

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint", "zigzag")]
modular, writer, reader = c01.modular, c01.writer, c01.reader


def same_scalar(got, v):
    """The loaded value for the value v."""
    if isinstance(v, int) and not isinstance(v, bool):
        if v < -2 ** 31 or v >= 2 ** 32:
            if -(2 ** 53) < v and v < 2 ** 53:
                return identical(got, float(v))
    return identical(got, v)


def in_message(v, pre, post):
    """encode_object then decode_object of a scalar, anywhere in a message."""
    w = WritableTagStream()
    w.data.extend(pre)
    DefaultEncodeContext(stream=w).encode_object(v)
    end = len(w.data)
    prove(len(w.objects._object_by_serialized_id) == 0, "a scalar takes no object number when written")
    w.data.extend(post)
    r = ReadableTagStream(w.data)
    r.pos = len(pre)
    got = DefaultDecodeContext(stream=r).decode_object()
    prove(same_scalar(got, v), "the scalar loads with the same value and type", got, v)
    prove(r.pos == end, "reading the scalar stops where writing stopped")
    prove(len(r.objects._object_by_serialized_id) == 0, "a scalar takes no object number when read")


def alone(v):
    got = loads(dumps(v))
    prove(same_scalar(got, v), "the scalar loads with the same value and type", got, v)


@lemma(LEMMAS, "int in a message", setup=modular, v=Int(), pre=Data(), post=Data())
def int_in_message(v, pre, post):
    """any int below 2**(2**33), any bytes before and after."""
    assume((v.bit_length() + 8) // 8 < 2 ** 30)
    in_message(v, pre, post)


@lemma(LEMMAS, "float in a message", setup=modular, v=Float(), pre=Data(), post=Data())
def float_in_message(v, pre, post):
    """any float, any bytes before and after."""
    in_message(v, pre, post)


@lemma(LEMMAS, "text in a message", setup=modular, v=Str(), pre=Data(), post=Data())
def str_in_message(v, pre, post):
    """any text without lone surrogates, any bytes before and after."""
    in_message(v, pre, post)


@lemma(LEMMAS, "constant in a message", setup=modular, v=Choice(None, True, False, JSHole, JSUndefined), pre=Data(), post=Data())
def constant_in_message(v, pre, post):
    """None, booleans, hole, undefined; any bytes before and after."""
    in_message(v, pre, post)


@lemma(LEMMAS, "int alone", setup=modular, v=Int())
def int_alone(v):
    """loads(dumps(v)) for any int below 2**(2**33)."""
    assume((v.bit_length() + 8) // 8 < 2 ** 30)
    alone(v)


@lemma(LEMMAS, "float alone", setup=modular, v=Float())
def float_alone(v):
    """loads(dumps(v)) for any float."""
    alone(v)


@lemma(LEMMAS, "text alone", setup=modular, v=Str())
def str_alone(v):
    """loads(dumps(v)) for any text without lone surrogates."""
    alone(v)


@lemma(LEMMAS, "constant alone", setup=modular, v=Choice(None, True, False, JSHole, JSUndefined))
def constant_alone(v):
    """loads(dumps(v)) for None, booleans, hole, undefined."""
    alone(v)


# ---------------------------------------------------------------------------
# next to equal values: the writer shares one representation between equal values only if
# they are the same value to JavaScript
# ---------------------------------------------------------------------------
def caching(I):
    modular(I)
    I.memo = True
    I.opaque_eq = c11.opaque_eq


def box(how, v):
    """The scalar alone, or as the content of an object that Python compares by content."""
    if how == "tuple":
        return (v,)
    if how == "nested tuple":
        return ("a", ((v,), None))
    if how == "wrapped":
        return JSPrimitiveObject(v)
    return v


def unbox(how, x):
    if how == "tuple":
        return x[0]
    if how == "nested tuple":
        return x[1][0][0]
    if how == "wrapped":
        return x.value
    return x


def shared(how, a, b):
    """a, then b, written by one writer."""
    ctx = DefaultEncodeContext()
    first, second = box(how, a), box(how, b)
    got = ctx.deduplicate(first)
    prove(got is first or identical(unbox(how, got), a), "the first value is written as it is", got)
    got = ctx.deduplicate(second)
    prove(got is second or identical(unbox(how, got), b), "a value equal to an earlier one is written with its own value and type", got)


BOXES = Choice("alone", "tuple", "nested tuple", "wrapped")


@lemma(LEMMAS, "after an equal float", setup=caching, how=BOXES, a=Float(), b=Float())
def after_float(how, a, b):
    """any two floats, also equal ones, one after the other in a message."""
    shared(how, a, b)


@lemma(LEMMAS, "after an equal int", setup=caching, how=BOXES, a=Int(), b=Int(), kind=Choice("int", "float", "bool"), c=Float(), d=Bool(), swap=Bool())
def after_int(how, a, b, kind, c, d, swap):
    """an int and another int, a float or a bool."""
    other = b if kind == "int" else c if kind == "float" else d
    if swap:
        shared(how, other, a)
    else:
        shared(how, a, other)
