"""C15: only strings and numbers are ever written or accepted as object keys."""
import re
from datetime import datetime, timezone

import z3

from pyvc.dual import *
from pyvc.interp import ie, member_int
from pyvc.rope import zi
from pyvc.values import *
from v8serialize import DecodeV8SerializeError
from v8serialize.constants import ArrayBufferViewTag, SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import DefaultEncodeContext, EncodeV8SerializeError, WritableTagStream
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSErrorData, JSHole, JSMap, JSObject,
                                 JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSUndefined, create_view)
from v8serialize.jstypes._v8 import V8SharedObjectReference

from specs import c01, c03, c04
from specs import contracts as C
from specs.nested import *

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]
LEMMAS += [l for l in c03.LEMMAS if l.name == "utf-8 round trip"]

T = SerializationTag
# V8's ReadJSObjectProperties accepts these before a property's value
KEY_BYTES = frozenset(b"IUN\"cS")
# wrapped numbers and strings: the library tolerates them, V8 does not; either is fine
WRAPPED = frozenset(b"ns")
FORMS = ("object", "dense", "sparse")
SAFE = 2 ** 53 - 1
LIMIT = c04.LIMIT


class Tag(Dom):
    """Any serialization tag."""

    def sym(self, I, name):
        e = z3.Int(name)
        I.E.assume(z3.Or([e == member_int(t) for t in T]))
        I.E.inputs[name] = lambda m: m.eval(e, model_completion=True).as_long()
        return SEnum(T, e)

    def from_model(self, m):
        return T(m)

    def edges(self):
        return list(T)

    def rand(self, r):
        return r.choice(list(T))


class TagPairs(Dom):
    """Any number of pairs of tags."""

    def sym(self, I, name):
        n = z3.Int(name + "_len")
        I.E.assume(n >= 0)
        fs = [z3.Function(f"{name}_{i}", z3.IntSort(), z3.IntSort()) for i in range(2)]

        def elem(i):
            out = []
            for f in fs:
                t = f(zi(i))
                I.E.axiom(("tagpair", str(t)), z3.Or([t == member_int(x) for x in T]))
                out.append(SEnum(T, t))
            return tuple(out)
        I.E.inputs[name] = lambda m: [[m.eval(f(i), model_completion=True).as_long() for f in fs]
                                      for i in range(min(20000, m.eval(n, model_completion=True).as_long()))]
        return I.reg(SSeq(n, elem))

    def from_model(self, m):
        return [(T(a), T(b)) for a, b in m]

    def edges(self):
        return [[(t, T.kNull)] for t in T] + [[(T.kUtf8String, T.kTrue), (t, T.kNull)] for t in T]

    def deep(self):
        return [[(T.kUtf8String, T.kNull)] * n + [(t, T.kNull)] for n in
                (2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000,
                 1001, 1024, 1025, 4096, 4097, 16384, 65536, 65537)
                for t in (T.kNull, T.kBigInt, T.kBeginJSObject, T.kUtf8String)]

    def rand(self, r):
        return [(T(r.choice(list(KEY_BYTES))) if r.random() < 0.8 else r.choice(list(T)), r.choice(list(T)))
                for _ in range(r.randrange(5))]


class Failure(Exception):
    """An encode step failing in its own way."""


class Probe:
    """An encode context whose steps write one tag for each key and value, and sometimes fail after writing it."""

    def __init__(self, stream):
        self.stream = stream
        self.key = True

    def encode_object(self, tag):
        s = self.stream
        before = len(s.data)
        refused = False
        try:
            s.write_tag(tag)
        except EncodeV8SerializeError:
            refused = True
        if self.key:
            prove(refused == (tag not in KEY_TAGS), "exactly the tags of strings and numbers can be written as keys")
        else:
            prove(not refused, "any tag can be written as a property's value")
        if refused:
            prove(len(s.data) == before, "a refused tag is not written")
            raise Failure
        prove(len(s.data) == before + 1 and s.data[before] == tag, "an accepted tag is written")
        if tag == T.kTwoByteString or tag == T.kPadding:
            raise Failure
        self.key = not self.key


KEY_TAGS = frozenset(T(b) for b in KEY_BYTES | WRAPPED)


def write(form, stream, items, ctx, identity):
    if form == "object":
        stream.write_js_object(items, ctx, identity=identity)
    elif form == "dense":
        stream.write_js_array_dense([], ctx, properties=items, identity=identity)
    else:
        stream.write_js_array_sparse(items, ctx, length=7, identity=identity)


@lemma(LEMMAS, "tags of keys", setup=nested, form=Choice(*FORMS), items=TagPairs(), later=Tag(), pre=Data(), n=Small(0))
def tags_of_keys(form, items, later, pre, n):
    """While a key is written its tags are restricted; while its value is written, and after success or failure, none is."""
    w = c04.writer(pre, n)
    failed = False
    try:
        write(form, w, items, Probe(w), items)
    except Failure:
        failed = True
    before = len(w.data)
    w.write_tag(later)
    prove(len(w.data) == before + 1 and w.data[before] == later, "the restriction is lifted afterwards, failed or not")


@lemma(LEMMAS, "failing keys and values", setup=nested, form=Choice(*FORMS), items=Values("k", "v"), later=Tag(), pre=Data(),
       n=Small(0))
def failing(form, items, later, pre, n):
    """With any values, whichever fails, later writes are not restricted."""
    assume(len(items) < LIMIT)
    may_fail()
    w = c04.writer(pre, n)
    try:
        write(form, w, items, DefaultEncodeContext(stream=w), items)
    except EncodeFailure:
        pass
    before = len(w.data)
    w.write_tag(later)
    prove(len(w.data) == before + 1 and w.data[before] == later, "the restriction is lifted afterwards, failed or not")


def may_fail():
    """Encoding any nested value may fail (natively: what the values do)."""


@model(may_fail)
def _may_fail(I, a, k):
    I.E.memo["may_fail"] = True


def real_steps(I):
    """The nested contracts, except that every value goes through the real steps."""
    nested(I)
    I.E.memo["real_steps"] = True


# ---------------------------------------------------------------------------
# the default steps, for each kind of key
# ---------------------------------------------------------------------------
def first_key(form, data, pos):
    """The key of the first property of an object or array written at pos."""
    r = ReadableTagStream(data)
    r.pos = key_position(form, pos)
    return DefaultDecodeContext(stream=r).decode_object()


def key_position(form, pos):
    return pos + (1 if form == "object" else 2)


@lemma(LEMMAS, "integer key", setup=real_steps, form=Choice(*FORMS), key=Int(), pre=Data())
def integer_key(form, key, pre):
    """An integer is written as a number, or as its decimal text when it is too large for one."""
    assume(-10 ** 600 < key and key < 10 ** 600)    # Python's own limit on decimal text is at least 640 digits
    w = WritableTagStream()
    w.data.extend(pre)
    write(form, w, [(key, None)], DefaultEncodeContext(stream=w), object())
    tag = w.data[key_position(form, len(pre))]
    prove(tag in KEY_BYTES, "an integer key is written as a number or a string")
    got = first_key(form, w.data, len(pre))
    if -SAFE <= key and key <= SAFE:
        prove(identical(got, key) or identical(got, float(key)), "an integer key loads as the number")
    else:
        prove(tag == 34 or tag == 83 or tag == 99, "an integer too large for a number is written as text")
        prove(got == str(key), "an integer too large for a number is written as its decimal text")


@lemma(LEMMAS, "text key", setup=real_steps, form=Choice(*FORMS), key=Str(), pre=Data())
def text_key(form, key, pre):
    """A text key is written as a string."""
    assume(enc_len("utf-8", key) < 2 ** 30)
    w = WritableTagStream()
    w.data.extend(pre)
    write(form, w, [(key, None)], DefaultEncodeContext(stream=w), object())
    tag = w.data[key_position(form, len(pre))]
    prove(tag == 34 or tag == 83 or tag == 99 or tag == 0, "a text key is written as a string")
    prove(first_key(form, w.data, len(pre)) == key, "a text key loads as the text")


@lemma(LEMMAS, "float key", setup=real_steps, form=Choice(*FORMS), key=Float(), pre=Data())
def float_key(form, key, pre):
    """A float key is written as a number."""
    w = WritableTagStream()
    w.data.extend(pre)
    write(form, w, [(key, None)], DefaultEncodeContext(stream=w), object())
    prove(w.data[key_position(form, len(pre))] in KEY_BYTES, "a float key is written as a number")
    prove(identical(first_key(form, w.data, len(pre)), key), "a float key loads as the number")


OTHERS = ("none", "true", "false", "hole", "undefined", "bytes", "bytearray", "memoryview", "buffer", "resizable", "view",
          "view of bytes", "list", "dict", "set", "jsobject", "jsarray", "jsmap", "jsset", "error", "regexp", "pattern",
          "date", "true object", "false object", "bigint object", "shared", "shared buffer", "transfer", "mapping", "set of",
          "object", "tuple", "frozenset")


def other(kind, data, message, number, items):
    if kind in CONSTANTS:
        return CONSTANTS[kind]
    if kind == "bytes":
        return data
    if kind == "bytearray":
        return bytearray(data)
    if kind == "memoryview":
        return memoryview(data)
    if kind == "buffer":
        return JSArrayBuffer(data)
    if kind == "resizable":
        return JSArrayBuffer(data, max_byte_length=len(data) + 1, resizable=True)
    if kind == "view":
        return create_view(JSArrayBuffer(data), ArrayBufferViewTag.kUint8Array)
    if kind == "view of bytes":
        return create_view(data, ArrayBufferViewTag.kDataView)
    if kind == "error":
        return JSErrorData(message)
    if kind == "shared":
        return V8SharedObjectReference(number)
    if kind == "shared buffer":
        return JSSharedArrayBuffer(number)
    if kind == "transfer":
        return JSArrayBufferTransfer(number)
    if kind == "mapping":
        return c04.MapOf(items)
    if kind == "set of":
        return c04.SetOf(items)
    if kind == "jsobject":
        return c04.ObjectOf(items)
    return c04.ArrayOf((), 0, items, items)


CONSTANTS = {"none": None, "true": True, "false": False, "hole": JSHole, "undefined": JSUndefined,
             "regexp": JSRegExp("a"), "pattern": re.compile("a"), "date": datetime(2020, 1, 1, tzinfo=timezone.utc),
             "true object": JSPrimitiveObject(True), "false object": JSPrimitiveObject(False),
             "bigint object": JSPrimitiveObject(2 ** 80), "object": object(), "tuple": (1,), "frozenset": frozenset([1]),
             "list": [1], "dict": {"a": 1}, "set": {1},
             "jsmap": JSMap([(1, 2)]), "jsset": JSSet([1])}


@lemma(LEMMAS, "other keys", setup=real_steps, form=Choice(*FORMS), kind=Choice(*OTHERS), data=Data(), message=Str(),
       number=Nat(2 ** 32 - 1), items=Values("v", "v"), later=Tag(), pre=Data())
def other_keys(form, kind, data, message, number, items, later, pre):
    """Any other key makes encoding fail with an encode error, and does not restrict what is written later."""
    key = other(kind, data, message, number, items)
    w = WritableTagStream()
    w.data.extend(pre)
    refused = False
    try:
        write(form, w, [(key, None)], DefaultEncodeContext(stream=w), object())
    except EncodeV8SerializeError:
        refused = True
    prove(refused, "a key which is not a string or a number makes encoding fail with an encode error")
    prove(len(w.data) <= key_position(form, len(pre)), "nothing of a refused key is written")
    before = len(w.data)
    w.write_tag(later)
    prove(len(w.data) == before + 1 and w.data[before] == later, "the restriction is lifted afterwards")


# ---------------------------------------------------------------------------
# reading
# ---------------------------------------------------------------------------
class Byte(Small):
    def edges(self):
        return list(range(256))

    def rand(self, r):
        return r.randrange(256)


@lemma(LEMMAS, "reading a bad key", setup=nested, form=Choice(*FORMS), values=Values("v"), items=Values("k", "v"), byte=Byte(0),
       post=Data(), n=Small(0))
def bad_key(form, values, items, byte, post, n):
    """After any number of good properties, a key with any tag but those of strings and numbers is rejected."""
    assume(len(items) < LIMIT)
    assume(len(values) < LIMIT)
    assume(byte < 256)
    assume(byte not in KEY_BYTES)
    assume(byte not in WRAPPED)
    assume(byte != 0)           # padding: not the key's tag
    assume(byte != END[form])
    w = WritableTagStream()
    start_log(w, n)
    ctx = DefaultEncodeContext(stream=w)
    w.objects.record_reference(items)
    w.write_tag(BEGIN[form])
    if form == "dense":
        w.write_varint(len(values))
        for v in values:
            ctx.encode_object(v)
    elif form == "sparse":
        w.write_varint(77)
    for k, v in items:
        with w.constrain_tags(JS_OBJECT_KEY_TAGS):
            ctx.encode_object(k)
        ctx.encode_object(v)
    assume(len(w.data) < 2 ** 60)
    w.data.append(byte)
    r = c04.reader(w, post, 0, n)
    d = DefaultDecodeContext(stream=r)
    if form == "object":
        gen = r.read_js_object(d, identity=items, tag=True)
    elif form == "dense":
        gen = r.read_js_array_dense(d, identity=items, tag=True)
    else:
        gen = r.read_js_array_sparse(d, identity=items, tag=True).items
    prove(c04.rejected(gen), "a key of any other kind is rejected")


BEGIN = {"object": T.kBeginJSObject, "dense": T.kBeginDenseJSArray, "sparse": T.kBeginSparseJSArray}
END = {"object": T.kEndJSObject, "dense": T.kEndDenseJSArray, "sparse": T.kEndSparseJSArray}
