"""C16: Node.js buffer host objects round-trip and match Node's layout."""
from pyvc.dual import *
from v8serialize import DecodeV8SerializeError, TagReader, default_encode_steps, loads
from v8serialize.constants import ArrayBufferViewTag, SerializationFeature
from v8serialize.decode import DefaultDecodeContext
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object as step
from v8serialize.jstypes import ArrayBufferViewStructFormat, JSArrayBuffer, JSDataView, create_view

from specs import c01, c04
from specs.c12 import OWNERS, SIZES, Few, Long, owner
from specs.nested import *

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]

NONE = SerializationFeature(0)
EVERY = SerializationFeature.Float16Array | SerializationFeature.ResizableArrayBuffers
# lib/v8.js of Node.js: arrayBufferViewTypeToIndex; 10 is FastBuffer (a Uint8Array)
CODES = {"kInt8Array": 0, "kUint8Array": 1, "kUint8ClampedArray": 2, "kInt16Array": 3, "kUint16Array": 4, "kInt32Array": 5,
         "kUint32Array": 6, "kFloat32Array": 7, "kFloat64Array": 8, "kDataView": 9, "kBigInt64Array": 11, "kBigUint64Array": 12}
KINDS = tuple(ArrayBufferViewTag[n] for n in CODES)
KIND_OF = {c: ArrayBufferViewTag[n] for n, c in CODES.items()}
KIND_OF[10] = ArrayBufferViewTag.kUint8Array
HANDLER = NodeJsArrayBufferViewHostObjectHandler()


def node_writer(pre, n, features):
    w = WritableTagStream(features=features)
    w.data.extend(pre)
    start_log(w, n)
    return w, DefaultEncodeContext(encode_steps=[step, *default_encode_steps], stream=w)


def node_reader(w, post, pos, n):
    r = c04.reader(w, post, pos, n)
    return r, DefaultDecodeContext(stream=r, decode_steps=[TagReader(host_object_deserializer=HANDLER)])


def exposes(got, kind, data):
    """got is a fixed view of that kind over exactly these bytes."""
    prove(got.view_tag is kind, "a host object loads as a view of its kind")
    with got.get_buffer_as_memoryview() as m:
        same_bytes(m, data, label="a host object loads with exactly its bytes")
    prove(got.byte_offset == 0, "a host object loads at offset zero of its own buffer")
    prove(not got.is_backing_buffer_resizable, "a host object loads with a fixed buffer")


@lemma(LEMMAS, "host object of a region", setup=nested, data=Long(), how=Choice(*OWNERS), kind=Choice(*KINDS), first=Few(0),
       count=Few(0), pre=Data(), post=Data(), n=Small(0), budget_s=200)
def region(data, how, kind, first, count, pre, post, n):
    """A view of any kind over any region is written as tag, code, length and exactly its bytes, and loads back the same."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    assume((first + count) * size <= len(data))
    v = create_view(owner(data, how), kind, byte_offset=first * size, byte_length=count * size)
    w, ctx = node_writer(pre, n, NONE)
    encode_whole(ctx, v)
    end = len(w.data)
    inside = data[first * size:(first + count) * size]
    same_bytes(w.data, pre, b"\\", varint(CODES[kind.name]), varint(count * size), inside,
               label="a host object is the tag, Node's code, the byte length and exactly the exposed bytes")
    r, ctx = node_reader(w, post, len(pre), n)
    got = decode_whole(ctx)
    exposes(got, kind, inside)
    prove(type(got) is type(v), "a host object loads as the same type")
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == n + 1, "a host object takes one number when written")
    prove(seen(r) == n + 1, "a host object takes one number when read")
    prove(number_of(w, v) == n, "the host object's number is its own")
    prove(recorded(r, n) is got, "the host object's number resolves to it")


@lemma(LEMMAS, "host object without length", setup=nested, data=Long(), how=Choice(*OWNERS), kind=Choice(*KINDS), first=Few(0),
       count=Maybe(Few(0)), pre=Data(), post=Data(), n=Small(0), budget_s=200)
def without_length(data, how, kind, first, count, pre, post, n):
    """A view which tracks its buffer, or has fallen out of its range, is written with the bytes it exposes then."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    v = ArrayBufferViewStructFormat(kind).view_type(owner(data, how), item_offset=first, item_length=count)
    if count is None:
        items = (len(data) - first * size) // size if first * size <= len(data) else 0
    else:
        assume((first + count) * size > len(data))
        items = 0
    inside = data[first * size:first * size + items * size]
    w, ctx = node_writer(pre, n, NONE)
    encode_whole(ctx, v)
    end = len(w.data)
    same_bytes(w.data, pre, b"\\", varint(CODES[kind.name]), varint(items * size), inside,
               label="a host object is the tag, Node's code, the byte length and exactly the exposed bytes")
    r, ctx = node_reader(w, post, len(pre), n)
    got = decode_whole(ctx)
    exposes(got, kind, inside)
    prove(r.pos == end, "reading stops where writing stopped")


@lemma(LEMMAS, "host object loaded by default", setup=nested, data=Long(), kind=Choice(*KINDS), count=Few(0),
       how=Choice("default", "nodejs", "handler"), version=Choice(13, 14, 15), post=Data())
def by_default(data, kind, count, how, version, post):
    """loads() reads Node's host objects without being told to."""
    assume(len(data) < 2 ** 30)
    assume(len(data) == count * SIZES[kind])
    s = WritableTagStream()
    s.data.append(0xff)
    s.data.append(version)
    s.data.extend(b"\\")
    s.write_varint(CODES[kind.name])
    s.write_varint(len(data))
    s.data.extend(data)
    s.data.extend(post)
    if how == "default":
        got = loads(s.data)
    elif how == "nodejs":
        got = loads(s.data, nodejs=True)
    else:
        got = loads(s.data, host_object_deserializer=HANDLER)
    exposes(got, kind, data)


class Code(Small):
    def edges(self):
        return list(range(14)) + [63, 98, 127, 128, 256, 2 ** 31, 2 ** 32 - 1]

    def rand(self, r):
        return r.choice([r.randrange(13), r.randrange(13), r.randrange(300), r.randrange(2 ** 32)])


class Size(Small):
    def edges(self):
        return [0, 1, 2, 8, 9, 16, 24, 64, 127, 128, 2 ** 31, 2 ** 32 - 1]

    def rand(self, r):
        return r.choice([r.randrange(80), 8 * r.randrange(9), r.randrange(2 ** 32)])


@lemma(LEMMAS, "reading a host object", setup=nested, code=Code(0), size=Size(0), rest=Long(), pre=Data(), n=Small(0),
       direct=Choice(False, True))
def reading(code, size, rest, pre, n, direct):
    """Any code and length: an unknown code or a length beyond the data is refused; otherwise exactly those bytes are taken."""
    assume(code < 2 ** 32)
    assume(size < 2 ** 32)
    assume(len(rest) < 2 ** 30)
    assume(len(pre) < 2 ** 60)
    w = WritableTagStream()
    w.data.extend(pre)
    w.data.extend(b"\\")
    w.write_varint(code)
    w.write_varint(size)
    at = len(w.data)
    r, ctx = node_reader(w, rest, len(pre), n)
    got = None
    try:
        got = r.read_host_object(HANDLER, tag=True) if direct else decode_whole(ctx)
    except DecodeV8SerializeError:
        pass
    if code > 12:
        prove(got is None, "an unknown code is refused")
    elif size > len(rest):
        prove(got is None, "a length exceeding the data is refused")
    else:
        kind = None
        for c in KIND_OF:
            if code == c:
                kind = KIND_OF[c]
        item = SIZES[kind]
        prove(got is not None, "a known code with its bytes present is accepted")
        exposes(got, kind, rest[:size // item * item])
        prove(r.pos == at + size, "exactly the host object's bytes are consumed")
        prove(seen(r) == n + 1, "a host object takes one number when read")
        prove(recorded(r, n) is got, "the host object's number resolves to it")


@lemma(LEMMAS, "half floats are passed on", setup=nested, data=Long(), first=Few(0), count=Few(0), features=Choice(EVERY, NONE),
       pre=Data(), n=Small(0))
def passed_on(data, first, count, features, pre, n):
    """A view kind without a code is encoded exactly as without the host object step."""
    assume(len(data) < 2 ** 30)
    assume((first + count) * 2 <= len(data))
    v = create_view(JSArrayBuffer(data), ArrayBufferViewTag.kFloat16Array, byte_offset=first * 2, byte_length=count * 2)
    w, ctx = node_writer(pre, n, features)
    failed = None
    try:
        encode_whole(ctx, v)
    except Exception as e:
        failed = e
    plain = WritableTagStream(features=features)
    plain.data.extend(pre)
    start_log(plain, n)
    expected = None
    try:
        encode_whole(DefaultEncodeContext(stream=plain), v)
    except Exception as e:
        expected = e
    prove(type(failed) is type(expected), "a kind without a code succeeds or fails as in the ordinary encoding")
    if expected is None:
        same_bytes(w.data, plain.data, label="a kind without a code is written as in the ordinary encoding")
        prove(seen(w) == seen(plain), "a kind without a code takes the same numbers as in the ordinary encoding")


@lemma(LEMMAS, "other values are passed on", value=Choice(None, True, 5, "x", 1.5))
def others(value):
    """A value which is not a view reaches the next step, as it is, once."""
    given = []
    step(value, ctx=DefaultEncodeContext(stream=WritableTagStream()), next=given.append)
    prove(len(given) == 1 and given[0] is value, "other values are passed on")
