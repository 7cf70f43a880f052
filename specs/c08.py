"""C08: malformed or truncated data only raises the library's own errors; nothing is read past the end."""
import codecs
from collections import abc

from pyvc.dual import *
from pyvc.loops import Cand, Pred
from v8serialize import DecodeV8SerializeError, V8SerializeError, loads
from v8serialize.constants import JS_OBJECT_KEY_TAGS, JS_STRING_TAGS, ArrayBufferViewTag, SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.jstypes import JSArrayBuffer, JSArrayBufferTransfer, JSHole, JSSharedArrayBuffer

from specs import contracts as C
from specs.nested import *

LEMMAS = []
T = SerializationTag


# ---------------------------------------------------------------------------
# contracts: what a read of arbitrary bytes may do
# ---------------------------------------------------------------------------
class Within(Cand):
    """A stream position which has advanced at least one byte per iteration and is inside the data."""
    exact = False
    name = "start + iterations <= pos <= len(data)"

    def __init__(self, n, step):
        self.n, self.step = n, step

    def at(self, I, k, v0):
        p = I.E.fresh("pos")
        I.E.assume(z3.And(p >= ie(v0) + self.step * zi(k), p <= zi(self.n)))
        return mkint(p)

    def base_ok(self, I, v0):
        return I.E.entails(ie(v0) <= zi(self.n))

    def ok(self, I, new, k1, v0):
        return is_intlike(new) and I.E.entails(z3.And(ie(new) >= ie(v0) + self.step * zi(k1), ie(new) <= zi(self.n)))


class AtLeast(Cand):
    """An int no smaller than at the start."""
    exact = False
    name = "not smaller than at the start"

    def at(self, I, k, v0):
        p = I.E.fresh("int")
        I.E.assume(p >= ie(v0))
        return mkint(p)

    def ok(self, I, new, k1, v0):
        return is_intlike(new) and I.E.entails(ie(new) >= ie(v0))


def positions(I, loc, v0, v1, ctx):
    if loc[0] == "a" and loc[2] == "pos" and is_intlike(v0):
        n = ie(I.length(I.getattr(I.heap[loc[1]], "data")))
        return [Within(n - 1, 1), Within(n, 1), Within(n - 1, 0), Within(n, 0)]
    return []


def any_ints(I, loc, v0, v1, ctx):
    if loc[0] == "l" and is_intlike(v0) and is_intlike(v1) and not isinstance(simp(ie(v1) - ie(v0)), int):
        return [AtLeast()]
    return []


def stream_of(I, s):
    n = I.length(I.getattr(s, "data"))
    pos = I.getattr(s, "pos")
    return pos, ie(n)


def any_varint(I, a, k):
    """At any position inside the data: raises DecodeV8SerializeError, or returns n >= 0 (below 2**35 when max_bits is 32)
    and pos advances, staying inside the data.  Proved by lemma 'varint of any bytes'."""
    self = a[0]
    bits = a[1] if len(a) > 1 else k.get("max_bits")
    pos, n = stream_of(I, self)
    segs = I.segs_of(I.getattr(self, "data"))
    if segs is not None:
        _, rest = R.cut(I.E, segs, simp(ie(pos)))
        if rest and isinstance(rest[0], R.Var):
            return C.read_varint(I, a, k)
    if bits not in (None, 32):
        raise Unsupported("max_bits")
    I.E.prove(z3.And(ie(pos) >= 0, ie(pos) <= n), "a varint is read from inside the data")
    p = I.E.fresh("pos")
    I.E.assume(z3.And(p >= ie(pos), p <= n))
    I.setattr(self, "pos", mkint(p))
    if I.E.choose(2):
        raise PyRaise(I.exc(Failed, "varint"))
    v = I.E.fresh("varint")
    I.E.assume(z3.And(v >= 0, p > ie(pos)))
    if bits is not None:
        I.E.assume(v < 2 ** 35)
    return mkint(v)


class Failed(DecodeV8SerializeError):
    """Stands for the error of a nested read."""

    def __init__(self, message):
        self.message = message


def any_object(I, a, k):
    """From any position inside the data: raises an error of the library, or returns a value and pos advances past at least
    the value's tag, staying inside the data; string tags give text, and the tags of keys give text or numbers.
    This is what 'decoding any tag' proves of the body, so it is the induction hypothesis over the data left."""
    ctx, tag = a[0], k.get("tag")
    if I.E.memo.pop("whole", None):
        return I.call_body(C._fn(DefaultDecodeContext, "decode_object"), a, k)
    stream = I.getattr(ctx, "stream")
    pos, n = stream_of(I, stream)
    I.E.prove(z3.And(ie(pos) >= 0, ie(pos) <= n), "a nested value is read from inside the data")
    p = I.E.fresh("pos")
    I.E.assume(z3.And(p >= ie(pos), p <= n))
    I.setattr(stream, "pos", mkint(p))
    if I.E.choose(2):
        raise PyRaise(I.exc(Failed, "nested value"))
    cls = None
    if tag is None:
        I.E.assume(p > ie(pos))
    else:
        t = ie(tag)
        if I.E.entails(z3.Or([t == int(x) for x in JS_STRING_TAGS.allowed_tags])):
            cls = str
        elif I.E.entails(z3.Or([t == int(x) for x in JS_OBJECT_KEY_TAGS.allowed_tags])):
            cls = (int, float, str)[I.E.choose(3)]
    return SVal(I.E.fresh("value", Val), cls)


def any_record(I, a, k):
    """A number is taken.  Proved by C05 'record_reference'."""
    n = I.E.fresh("number")
    I.E.assume(n >= 0)
    return mkint(n)


def any_recorded(I, a, k):
    """An error of the library, or any recorded object.  Proved by C05 'record_reference', 'unassigned_reference', 'illegal_cycle'."""
    i = I.E.choose(5)
    if i == 0:
        raise PyRaise(I.call(SerializedIdOutOfRangeV8SerializeError, ["not recorded"], {"serialized_id": 0}))
    if i == 1:
        return I.call(JSArrayBuffer, [SBytes([I.data(I.E.fresh_id("recorded"), 0)])])
    if i == 2:
        return I.call(JSSharedArrayBuffer, [1])
    if i == 3:
        return I.call(JSArrayBufferTransfer, [1])
    return OTHER


OTHER = object()


def loose(I):
    I.contracts.clear()
    I.loop_hints = [positions]
    for cls, nm, h in ((ReadableTagStream, "read_varint", any_varint),
                       (SerializedObjectLog, "record_reference", any_record),
                       (SerializedObjectLog, "replace_reference", any_record),
                       (SerializedObjectLog, "get_object", any_recorded),
                       (DefaultDecodeContext, "decode_object", any_object)):
        f = C._fn(cls, nm)
        if f is not None:
            I.contracts[f] = h


def raw(I):
    I.contracts.clear()
    I.loop_hints = [positions, any_ints]


def raw32(I):
    I.contracts.clear()
    I.unwind = 6


def any_allowed_tag(I, a, k):
    """read_tag(constraint): an error of the library, or one of the allowed tags and pos advanced inside the data.
    Proved by lemma 'reading any bytes' (tag of strings)."""
    self, tag = a[0], (a[1] if len(a) > 1 else k.get("tag"))
    if tag is not JS_STRING_TAGS or k.get("consume", True) is not True:
        return I.call_body(C._fn(ReadableTagStream, "read_tag"), a, k)
    pos, n = stream_of(I, self)
    I.E.prove(z3.And(ie(pos) >= 0, ie(pos) <= n), "a tag is read from inside the data")
    p = I.E.fresh("pos")
    I.E.assume(z3.And(p >= ie(pos), p <= n))
    I.setattr(self, "pos", mkint(p))
    if I.E.choose(2):
        raise PyRaise(I.exc(Failed, "tag"))
    t = I.E.fresh("tag")
    I.E.assume(z3.And(p > ie(pos), z3.Or([t == int(x) for x in JS_STRING_TAGS.allowed_tags])))
    return SEnum(T, t)


def loose_tags(I):
    loose(I)
    f = C._fn(ReadableTagStream, "read_tag")
    if f is not None:
        I.contracts[f] = any_allowed_tag


def fields(I):
    """The readers of lengths, with exact varints where the data starts with one."""
    loose(I)


# ---------------------------------------------------------------------------
# the lemmas
# ---------------------------------------------------------------------------
def check_varint(data, start, bits):
    assume(start <= len(data))
    assume(len(data) < 2 ** 60)
    r = ReadableTagStream(data)
    r.pos = start
    try:
        n = r.read_varint(max_bits=bits)
    except DecodeV8SerializeError:
        prove(start <= r.pos, "a failed read does not move backwards")
        prove(r.pos <= len(data), "a failed read stays inside the data")
        return
    prove(n >= 0, "a varint is not negative")
    prove(bits is None or n < 2 ** 35, "a 32-bit varint takes at most five bytes")
    prove(start < r.pos, "a varint takes at least one byte")
    prove(r.pos <= len(data), "nothing beyond the data is consumed")


@lemma(LEMMAS, "varint of any bytes", setup=raw, data=Data(), start=Small(0))
def any_bytes_varint(data, start):
    """ensures DecodeV8SerializeError, or a natural number and pos advanced inside the data."""
    check_varint(data, start, None)


@lemma(LEMMAS, "32-bit varint of any bytes", setup=raw32, data=Data(), start=Small(0))
def any_bytes_varint32(data, start):
    """ensures DecodeV8SerializeError, or a natural number below 2**35 and pos advanced inside the data."""
    check_varint(data, start, 32)


READERS = ("read_tag", "read_zigzag", "read_double", "read_string_onebyte", "read_string_twobyte", "read_string_utf8",
           "read_bigint", "read_int32", "read_uint32", "read_error_tag", "read_header", "read_padding", "read_object_reference",
           "peak_tag", "read_v8_shared_object_reference", "read_js_primitive_object", "read_js_date", "tag of strings",
           "tag of keys", "one tag")


def read_one(r, what):
    if what == "tag of strings":
        return r.read_tag(JS_STRING_TAGS)
    if what == "tag of keys":
        return r.read_tag(JS_OBJECT_KEY_TAGS, consume=False)
    if what == "one tag":
        return r.read_tag(T.kArrayBuffer)
    return getattr(r, what)()


@lemma(LEMMAS, "reading any bytes", setup=loose, what=Choice(*READERS), data=Data(), start=Small(0))
def reading(what, data, start):
    """Every reader, anywhere in any data: an error of the library, or a value and pos inside the data."""
    assume(start <= len(data))
    assume(len(data) < 2 ** 60)
    r = ReadableTagStream(data)
    r.pos = start
    try:
        got = read_one(r, what)
    except V8SerializeError:
        prove(r.pos <= len(data), "a failed read stays inside the data")
        return
    prove(start <= r.pos, "reading does not move backwards")
    prove(r.pos <= len(data), "nothing beyond the data is consumed")
    if what == "tag of strings":
        prove(start < r.pos and got in JS_STRING_TAGS, "only the tags asked for are accepted")


FIELDS = ("bytes", "read_string_onebyte", "read_string_twobyte", "read_string_utf8", "read_bigint", "buffer", "resizable", "array")


@lemma(LEMMAS, "length fields", setup=fields, what=Choice(*FIELDS), size=Nat(2 ** 30 - 1), top=Nat(2 ** 32 - 1), pre=Data(), rest=Data(),
       form=Choice(bytes, bytearray))
def lengths(what, size, top, pre, rest, form):
    """A length beyond the data is refused; otherwise exactly that many of the bytes after it make the value."""
    assume(len(rest) < 2 ** 30)
    assume(len(pre) < 2 ** 60)
    w = bytearray(pre)
    if what == "read_bigint":
        w.extend(varint(2 * size))
    elif what != "bytes":
        w.extend(varint(size))
    if what == "resizable":
        assume(top >= size)
        w.extend(varint(top))
    at = len(w)
    w.extend(rest)
    r = ReadableTagStream(form(w))
    start_log(r, 0)
    r.pos = len(pre)
    got = None
    refused = False
    try:
        if what == "bytes":
            got = r.read_bytes(size)
        elif what == "buffer" or what == "resizable":
            tag = T.kArrayBuffer if what == "buffer" else T.kResizableArrayBuffer
            got = r.read_js_array_buffer(array_buffer=JSArrayBuffer, shared_array_buffer=JSSharedArrayBuffer,
                                         array_buffer_transfer=JSArrayBufferTransfer, tag=tag)
        elif what == "array":
            i = 0
            for k, v in r.read_js_array_dense(DefaultDecodeContext(stream=r), identity=w):
                prove(i < len(rest), "a value of an array is decoded from bytes which are present")
                i += 1
        else:
            got = getattr(r, what)()
    except DecodeV8SerializeError:
        refused = True
    if size > len(rest):
        prove(refused, "a length exceeding the available data is refused")
        return
    if what == "array":
        return
    if what == "read_string_twobyte" or what == "read_string_utf8":
        valid = True
        try:
            text = rest[:size].decode("utf-16-le" if what == "read_string_twobyte" else "utf-8")
        except UnicodeDecodeError:
            valid = False
        prove(refused == (not valid), "text is refused exactly when its bytes are not text")
        if not valid:
            return
        prove(got == text, "text is decoded from the bytes after its length")
    else:
        prove(not refused, "a length within the data is accepted")
    prove(r.pos == at + size, "exactly the announced bytes are consumed")
    if what == "read_bigint":
        prove(got == int.from_bytes(rest[:size], "little"), "an integer is decoded from the bytes after its length")
    elif what == "bytes":
        same_bytes(got, rest[:size], label="exactly the bytes asked for are returned")
    elif what == "buffer" or what == "resizable":
        same_bytes(bytes(got.data), rest[:size], label="a buffer has exactly the bytes after its length")
    elif what == "read_string_onebyte":
        prove(got == rest[:size].decode("latin1"), "text is decoded from the bytes after its length")


# ---------------------------------------------------------------------------
# values of every tag
# ---------------------------------------------------------------------------
class TakesPairs(abc.MutableMapping):
    """Takes any entries."""
    __hash__ = None

    def update(self, items):
        for k, v in items:
            pass

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())

    __getitem__ = __setitem__ = __delitem__ = None


class TakesProperties(TakesPairs):
    """Takes any properties."""

    def update(self, items):
        for k, v in items:
            prove(isinstance(k, (int, float, str)), "a property is named by text or a number")

    def __setitem__(self, k, v):
        prove(v is JSHole, "only a hole is stored before the elements")
        prove(k >= 0, "an array's length is not negative")
        prove(k < 2 ** 35, "an array's length is limited")


class TakesMembers(abc.MutableSet):
    """Takes any members."""
    __hash__ = None

    def __ior__(self, items):
        for v in items:
            pass
        return self

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __contains__(self, x):
        return False

    def add(self, x):
        pass

    discard = add


RECEIVING = TagReader(jsmap_type=TakesPairs, jsset_type=TakesMembers, js_object_type=TakesProperties, js_array_type=TakesProperties,
                      host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())


GROUPS = {
    "constants and numbers": (T.kTheHole, T.kUndefined, T.kNull, T.kTrue, T.kFalse, T.kInt32, T.kUint32, T.kDouble, T.kBigInt),
    "text": (T.kOneByteString, T.kTwoByteString, T.kUtf8String),
    "wrapped primitives": (T.kTrueObject, T.kFalseObject, T.kNumberObject, T.kBigIntObject, T.kStringObject),
    "objects": (T.kBeginJSObject,),
    "dense arrays": (T.kBeginDenseJSArray,),
    "sparse arrays": (T.kBeginSparseJSArray,),
    "maps and sets": (T.kBeginJSMap, T.kBeginJSSet),
    "dates and regexps": (T.kDate, T.kRegExp),
    "errors": (T.kError,),
    "buffers": (T.kArrayBuffer,),
    "resizable buffers": (T.kResizableArrayBuffer,),
    "shared and transferred buffers": (T.kSharedArrayBuffer, T.kArrayBufferTransfer),
    "references": (T.kObjectReference,),
    "host objects": (T.kHostObject,),
}
GROUPS["other tags"] = tuple(t for t in T if t is not T.kPadding and not any(t in g for g in GROUPS.values()))


def any_tag(tag, pre, rest, version):
    """A value of any of these tags, whatever follows: an error of the library, or a value and pos inside the data."""
    assume(len(pre) < 2 ** 30)
    assume(len(rest) < 2 ** 30)
    r = ReadableTagStream(pre + bytes([tag]) + rest)
    r.version = version
    r.pos = len(pre) + 1
    ctx = DefaultDecodeContext(stream=r, decode_steps=[RECEIVING])
    got = None
    try:
        got = decode_after(ctx, tag)
    except V8SerializeError:
        prove(r.pos <= len(pre) + 1 + len(rest), "a failed read stays inside the data")
        return
    prove(r.pos > len(pre), "a value takes at least its tag")
    prove(r.pos <= len(pre) + 1 + len(rest), "nothing beyond the data is consumed")
    if tag in JS_STRING_TAGS:
        prove(isinstance(got, str), "string tags give text")
    elif tag in JS_OBJECT_KEY_TAGS:
        prove(isinstance(got, (int, float, str)), "the tags of object keys give text or numbers")


for _name, _tags in GROUPS.items():
    lemma(LEMMAS, f"decoding {_name}", setup=loose_tags if _name == "errors" else loose, tag=Choice(*_tags), pre=Data(), rest=Data(), version=Nat(20))(any_tag)


@lemma(LEMMAS, "decoding the next tag", setup=loose, data=Data(), start=Small(0))
def next_tag(data, start):
    """decode_object() reads one tag inside the data and hands it to the steps."""
    assume(start <= len(data))
    assume(len(data) < 2 ** 30)
    r = ReadableTagStream(data)
    r.pos = start
    seen_tags = []

    def step(tag, /, ctx, next):
        seen_tags.append(tag)
        return None
    try:
        decode_whole(DefaultDecodeContext(stream=r, decode_steps=[step]))
    except V8SerializeError:
        prove(len(seen_tags) == 0, "a tag handed to the steps was read")
        return
    prove(len(seen_tags) == 1, "one tag is handed to the steps")
    prove(start < r.pos, "reading a tag moves forward")
    prove(r.pos <= len(data), "nothing beyond the data is consumed")
    prove(data[r.pos - 1] == seen_tags[0], "the tag handed to the steps is the one in the data")


def decode_after(ctx, tag):
    return ctx.decode_object(tag=tag)


@model(decode_after)
def _decode_after(I, a, k):
    I.E.memo["whole"] = True
    return I.call(C._fn(DefaultDecodeContext, "decode_object"), [a[0]], {"tag": a[1]})


@lemma(LEMMAS, "loading any data", setup=loose, data=Data(), form=Choice(bytes, bytearray, memoryview))
def loading(data, form):
    """loads() of any data: a value or an error of the library."""
    assume(len(data) < 2 ** 30)
    try:
        loads(form(data))
    except V8SerializeError:
        return
    prove(len(data) >= 3, "a value needs a header and a tag")
