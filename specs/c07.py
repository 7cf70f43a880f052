"""C07: buffers and views round-trip with extent, resizability and sharing."""
from pyvc.dual import *
from v8serialize.constants import ArrayBufferViewTag, SerializationFeature, SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.jstypes import ArrayBufferViewStructFormat, JSArrayBuffer, create_view

from specs import c01, c04
from specs.nested import *

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]

RES = SerializationFeature.ResizableArrayBuffers
F16 = SerializationFeature.Float16Array
NONE = SerializationFeature(0)
KINDS = tuple(ArrayBufferViewTag)
SIZES = {t: 1 for t in KINDS}
for _t in KINDS:
    for _n, _s in (("16", 2), ("32", 4), ("64", 8)):
        if _n in _t.name:
            SIZES[_t] = _s


class Long(Data):
    """Arbitrary bytes, natively up to 70."""

    def edges(self):
        return [bytes(range(n)) for n in (0, 1, 2, 7, 8, 9, 16, 24, 64)]

    def rand(self, r):
        return bytes(r.randrange(256) for _ in range(r.choice([0, 8, 16, 24, 64, r.randrange(70)])))


class Few(Small):
    def edges(self):
        return [0, 1, 2, 3]

    def rand(self, r):
        return r.choice([0, 0, 1, 1, 2, 3, 5, 8])


def writer(features, pre, n):
    w = WritableTagStream(features=features)
    w.data.extend(pre)
    start_log(w, n)
    return w


def enabled(features, kind):
    """All features, except that Float16Array needs its own."""
    return features | F16 if kind is ArrayBufferViewTag.kFloat16Array else features


def no_view_follows(post):
    """What follows a buffer in the library's own output is never a view of another buffer."""
    assume(len(post) == 0 or post[0] != SerializationTag.kArrayBufferView)


def is_buffer(got, data, top, resizable):
    prove(isinstance(got, JSArrayBuffer), "a buffer loads as a buffer")
    same_bytes(got.data, data, label="a buffer keeps its bytes")
    prove(got.resizable is resizable, "a buffer is resizable exactly when it was and the feature is enabled")
    prove(got.max_byte_length == top, "a resizable buffer keeps its maximum, a fixed one has its length")


@lemma(LEMMAS, "fixed buffer", setup=nested, data=Data(), readonly=Choice(None, True), features=Choice(NONE, RES),
       pre=Data(), post=Data(), n=Small(0))
def fixed_buffer(data, readonly, features, pre, post, n):
    """A fixed-length buffer loads with the same bytes, fixed."""
    assume(len(data) < 2 ** 30)
    no_view_follows(post)
    value = JSArrayBuffer(data, readonly=readonly)
    w = writer(features, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    is_buffer(got, data, len(data), False)
    c04.settled(w, r, len(pre), end, value, got)


@lemma(LEMMAS, "resizable buffer", setup=nested, data=Data(), room=Nat(), features=Choice(NONE, RES), pre=Data(),
       post=Data(), n=Small(0))
def resizable_buffer(data, room, features, pre, post, n):
    """A resizable buffer loads with the same bytes, and with its maximum when the feature is enabled."""
    assume(len(data) < 2 ** 30)
    assume(len(data) + room < 2 ** 32)
    no_view_follows(post)
    value = JSArrayBuffer(data, max_byte_length=len(data) + room, resizable=True)
    w = writer(features, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    if features == RES:
        is_buffer(got, data, len(data) + room, True)
    else:
        is_buffer(got, data, len(data), False)
    c04.settled(w, r, len(pre), end, value, got)


@lemma(LEMMAS, "plain bytes", setup=nested, data=Data(), form=Choice("bytes", "bytearray", "memoryview"),
       features=Choice(NONE, RES), pre=Data(), post=Data(), n=Small(0))
def plain_bytes(data, form, features, pre, post, n):
    """bytes, bytearray and memoryview load as a fixed buffer with the same bytes."""
    assume(len(data) < 2 ** 30)
    no_view_follows(post)
    value = data if form == "bytes" else bytearray(data) if form == "bytearray" else memoryview(data)
    w = writer(features, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    is_buffer(got, data, len(data), False)
    prove(w.data[len(pre)] in VALUE_FIRST, "a buffer starts with a tag that starts a value")
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == n + 1, "a buffer takes one number when written")
    prove(seen(r) == n + 1, "a buffer takes one number when read")
    prove(recorded(r, n) is got, "the buffer's number resolves to it")


def make(data, room, resizable):
    if resizable:
        return JSArrayBuffer(data, max_byte_length=len(data) + room, resizable=True)
    return JSArrayBuffer(data)


def is_view(got, kind, start, size):
    """got exposes size bytes from start through a view of that kind."""
    prove(got.view_tag == kind, "a view keeps its kind")
    prove(got.byte_offset == start, "a view keeps its byte offset")
    prove(got.byte_length == size, "a view keeps its byte length")


@lemma(LEMMAS, "view", setup=nested, data=Long(), room=Small(0), resizable=Choice(False, True), kind=Choice(*KINDS),
       first=Few(0), count=Few(0), features=Choice(NONE, RES), pre=Data(), post=Data(), n=Small(0))
def view(data, room, resizable, kind, first, count, features, pre, post, n):
    """A view of any kind over any aligned region loads as the same kind over the same region."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    assume(len(data) + room < 2 ** 32)
    assume((first + count) * size <= len(data))
    on = enabled(features, kind)
    buffer = make(data, room, resizable)
    value = create_view(buffer, kind, byte_offset=first * size, byte_length=count * size)
    w = writer(on, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    is_view(got, kind, first * size, count * size)
    prove(type(got) is type(value), "a view loads as the same type")
    prove(got.item_length == count, "a view of fixed length stays of fixed length")
    prove(not got.is_length_tracking, "a view of fixed length does not track its buffer")
    b = got.backing_buffer
    kept = resizable and features == RES
    is_buffer(b, data, len(data) + room if kept else len(data), kept)
    both(w, r, len(pre), end, n, buffer, value, b, got)


def both(w, r, start, end, n, buffer, value, b, got):
    prove(w.data[start] in VALUE_FIRST, "a view starts with a tag that starts a value")
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == n + 2, "a buffer and its view take two numbers when written")
    prove(seen(r) == n + 2, "a buffer and its view take two numbers when read")
    prove(number_of(w, buffer) == n, "the buffer takes the first number when written")
    prove(number_of(w, value) == n + 1, "the view takes the second number when written")
    prove(recorded(r, n) is b, "the buffer's number resolves to the buffer")
    prove(recorded(r, n + 1) is got, "the view's number resolves to the view")


@lemma(LEMMAS, "tracking view", setup=nested, data=Long(), room=Small(0), kind=Choice(*KINDS), first=Few(0),
       features=Choice(NONE, RES), pre=Data(), post=Data(), n=Small(0))
def tracking_view(data, room, kind, first, features, pre, post, n):
    """A view which tracks a resizable buffer's length still does with the feature; else it keeps its region."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    assume(len(data) + room < 2 ** 32)
    assume(first * size <= len(data))
    on = enabled(features, kind)
    buffer = make(data, room, True)
    value = create_view(buffer, kind, byte_offset=first * size)
    items = (len(data) - first * size) // size
    prove(value.is_length_tracking, "a view of a resizable buffer without a length tracks it")
    w = writer(on, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    is_view(got, kind, first * size, items * size)
    prove(type(got) is type(value), "a view loads as the same type")
    b = got.backing_buffer
    if features == RES:
        is_buffer(b, data, len(data) + room, True)
        prove(got.is_length_tracking, "a tracking view still tracks its buffer")
    else:
        is_buffer(b, data, len(data), False)
        prove(got.item_length == items, "without the feature the view has a fixed length")
    both(w, r, len(pre), end, n, buffer, value, b, got)


@lemma(LEMMAS, "view of a fixed buffer without length", setup=nested, data=Long(), kind=Choice(*KINDS),
       first=Few(0), features=Choice(NONE, RES), pre=Data(), post=Data(), n=Small(0))
def open_view(data, kind, first, features, pre, post, n):
    """A view without a length over a fixed buffer loads over the same region."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    assume(first * size <= len(data))
    assume(len(data) % size == 0)
    on = enabled(features, kind)
    buffer = JSArrayBuffer(data)
    value = create_view(buffer, kind, byte_offset=first * size)
    w = writer(on, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    is_view(got, kind, first * size, len(data) - first * size)
    prove(type(got) is type(value), "a view loads as the same type")
    prove(not got.is_length_tracking, "a view of a fixed buffer does not track it")
    is_buffer(got.backing_buffer, data, len(data), False)
    both(w, r, len(pre), end, n, buffer, value, got.backing_buffer, got)


@lemma(LEMMAS, "views sharing a buffer", setup=nested, data=Long(), how=Choice("fixed", "resizable", "tracking"),
       kind=Choice(ArrayBufferViewTag.kFloat16Array, ArrayBufferViewTag.kDataView),
       other=Choice(ArrayBufferViewTag.kUint8Array, ArrayBufferViewTag.kFloat64Array),
       first=Few(0), count=Few(0), first2=Few(0), count2=Few(0), middle=Maybe(Nested()), pre=Data(), post=Data(),
       n=Small(0), budget_s=300)
def sharing(data, how, kind, other, first, count, first2, count2, middle, pre, post, n):
    """Two views of one buffer, with or without other values between, share it again and keep their regions."""
    assume(len(data) < 2 ** 30)
    s, s2 = SIZES[kind], SIZES[other]
    assume((first + count) * s <= len(data))
    assume((first2 + count2) * s2 <= len(data))
    buffer = make(data, 0, how != "fixed")
    one = create_view(buffer, kind, byte_offset=first * s, byte_length=count * s)
    two = create_view(buffer, other, byte_offset=first2 * s2, byte_length=None if how == "tracking" else count2 * s2)
    w = writer(RES | F16, pre, n)
    ctx = DefaultEncodeContext(stream=w)
    encode_whole(ctx, one)
    if middle is not None:
        ctx.encode_object(middle)
    assume(seen(w) < 2 ** 32)
    encode_whole(ctx, two)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    ctx = DefaultDecodeContext(stream=r)
    one2 = decode_whole(ctx)
    if middle is not None:
        prove(is_loaded(ctx.decode_object(), middle), "a value between two views loads")
    two2 = decode_whole(ctx)
    prove(one2.backing_buffer is two2.backing_buffer, "views of one buffer still share it")
    is_view(one2, kind, first * s, count * s)
    prove(two2.view_tag == other, "a view keeps its kind")
    prove(two2.byte_offset == first2 * s2, "a view keeps its byte offset")
    if how == "tracking":
        prove(two2.is_length_tracking, "a tracking view still tracks its buffer")
    else:
        prove(two2.byte_length == count2 * s2, "a view keeps its byte length")
    same_bytes(one2.backing_buffer.data, data, label="the shared buffer keeps its bytes")
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == seen(r), "writing and reading number the same objects")


@lemma(LEMMAS, "buffer before its view", setup=nested, data=Long(), resizable=Choice(False, True),
       kind=Choice(ArrayBufferViewTag.kInt32Array, ArrayBufferViewTag.kUint8ClampedArray),
       first=Few(0), count=Few(0), middle=Maybe(Nested()), pre=Data(), post=Data(), n=Small(0), budget_s=200)
def buffer_first(data, resizable, kind, first, count, middle, pre, post, n):
    """A buffer followed, at once or later, by a view of it: the view is a view of that buffer."""
    assume(len(data) < 2 ** 30)
    size = SIZES[kind]
    assume((first + count) * size <= len(data))
    buffer = make(data, 0, resizable)
    value = create_view(buffer, kind, byte_offset=first * size, byte_length=count * size)
    w = writer(RES, pre, n)
    ctx = DefaultEncodeContext(stream=w)
    encode_whole(ctx, buffer)
    if middle is not None:
        ctx.encode_object(middle)
    assume(seen(w) < 2 ** 32)
    encode_whole(ctx, value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    ctx = DefaultDecodeContext(stream=r)
    b = decode_whole(ctx)
    if middle is not None:
        prove(is_loaded(ctx.decode_object(), middle), "a value between a buffer and its view loads")
    got = decode_whole(ctx)
    is_buffer(b, data, len(data), resizable)
    prove(got.backing_buffer is b, "a view of a buffer loaded before is a view of that buffer")
    is_view(got, kind, first * size, count * size)
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == seen(r), "writing and reading number the same objects")


@lemma(LEMMAS, "view out of range", setup=nested, data=Long(), resizable=Choice(False, True), kind=Choice(*KINDS),
       first=Few(0), count=Few(0), features=Choice(NONE, RES), pre=Data(), post=Data(), n=Small(0))
def out_of_range(data, resizable, kind, first, count, features, pre, post, n):
    """A view which has fallen out of its buffer's range loads as an empty view at offset zero, as it was."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    assume((first + count) * size > len(data))
    on = enabled(features, kind)
    buffer = make(data, 0, resizable)
    value = ArrayBufferViewStructFormat(kind).view_type(buffer, item_offset=first, item_length=count)
    w = writer(on, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    is_view(got, kind, 0, 0)
    prove(value.byte_offset == 0 and value.byte_length == 0, "a view out of range is empty at offset zero")
    same_bytes(got.backing_buffer.data, data, label="the buffer keeps its bytes")
    both(w, r, len(pre), end, n, buffer, value, got.backing_buffer, got)


@lemma(LEMMAS, "view of plain bytes", setup=nested, data=Long(), form=Choice("bytes", "bytearray", "memoryview"),
       kind=Choice(*KINDS), first=Few(0), count=Few(0), features=Choice(NONE, RES), pre=Data(), post=Data(), n=Small(0))
def view_of_bytes(data, form, kind, first, count, features, pre, post, n):
    """A view made directly over bytes, a bytearray or a memoryview loads as the same kind over the same region."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    assume((first + count) * size <= len(data))
    value = create_view(data if form == "bytes" else bytearray(data) if form == "bytearray" else memoryview(data),
                        kind, byte_offset=first * size, byte_length=count * size)
    w = writer(enabled(features, kind), pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    r = c04.reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r))
    is_view(got, kind, first * size, count * size)
    prove(type(got) is type(value), "a view loads as the same type")
    is_buffer(got.backing_buffer, data, len(data), False)
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == n + 2, "a buffer and its view take two numbers when written")
    prove(seen(r) == n + 2, "a buffer and its view take two numbers when read")
