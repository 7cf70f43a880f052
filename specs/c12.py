"""C12: views never reach outside their buffer; resizing keeps content."""
import struct

from pyvc.dual import *
from v8serialize import V8SerializeError
from v8serialize.constants import ArrayBufferViewTag
from v8serialize.jstypes import ArrayBufferViewStructFormat, JSArrayBuffer, create_view
from v8serialize.jstypes.jsbuffers import BoundsJSArrayBufferError

LEMMAS = []

KINDS = tuple(ArrayBufferViewTag)
SIZES = {t: 1 for t in KINDS}
FORMATS = {t: "c" for t in KINDS}
for _t in KINDS:
    for _n, _s in (("16", 2), ("32", 4), ("64", 8)):
        if _n in _t.name:
            SIZES[_t] = _s
    for _n, _f in (("Int8", "b"), ("Uint8", "B"), ("Int16", "h"), ("Uint16", "H"), ("Int32", "i"), ("Uint32", "I"),
                   ("Float16", "e"), ("Float32", "f"), ("Float64", "d"), ("BigInt64", "q"), ("BigUint64", "Q")):
        if _t.name.startswith("k" + _n):
            FORMATS[_t] = _f
OWNERS = ("bytes", "bytearray", "memoryview", "fixed", "resizable")


class Long(Data):
    """Arbitrary bytes, natively up to 70."""

    def edges(self):
        return [bytes(range(n)) for n in (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 64)]

    def rand(self, r):
        return bytes(r.randrange(256) for _ in range(r.choice([0, 8, 16, 24, 64, r.randrange(70)])))


class Few(Small):
    def edges(self):
        return [v for v in (0, 1, 2, 3, 4, 7, 8, 9, -1) if self.ok(v)]

    def rand(self, r):
        return r.choice([0, 0, 1, 1, 2, 3, 5, 8, r.randrange(20)])


class Offset(Int):
    """Any int, natively around the ends of small buffers."""

    def edges(self):
        return [0, 1, 2, 3, 4, 7, 8, 9, 16, -1, -8, 2 ** 31, 2 ** 64]

    def rand(self, r):
        return r.choice([0, 1, 2, 4, 8, 12, 16, 24, r.randint(-9, 80), 2 ** 40, -2 ** 40])


class OrNone(Dom):
    """None or a value of the domain."""

    def __init__(self, dom):
        self.dom = dom

    def sym(self, I, name):
        if I.E.choose(2):
            return self.dom.sym(I, name)
        I.E.inputs[name] = lambda m: None
        return None

    def edges(self):
        return [None] + self.dom.edges()

    def rand(self, r):
        return None if r.random() < 0.3 else self.dom.rand(r)


def owner(data, how):
    """Something that holds the bytes."""
    if how == "bytes":
        return data
    if how == "bytearray":
        return bytearray(data)
    if how == "memoryview":
        return memoryview(data)
    if how == "fixed":
        return JSArrayBuffer(data)
    return JSArrayBuffer(data, max_byte_length=len(data) + 9, resizable=True)


def region(v, data, start, size):
    """The view exposes exactly data[start:start + size]."""
    prove(v.byte_offset == start, "a view reports its offset")
    prove(v.byte_length == size, "a view reports its length")
    with v.get_buffer_as_memoryview() as m:
        same_bytes(m, data[start:start + size], label="a view exposes exactly its bytes")
        prove(m.format == "B" and m.itemsize == 1 and m.ndim == 1, "the bytes of a view are given as bytes")
    with v.get_buffer_as_memoryview(readonly=True) as m:
        same_bytes(m, data[start:start + size], label="a view exposes exactly its bytes, read-only")
        prove(m.readonly, "a read-only window is read-only")


@lemma(LEMMAS, "view of fixed length", data=Long(), how=Choice(*OWNERS), kind=Choice(*KINDS), first=Few(0), count=Few(0),
       budget_s=200)
def fixed_length(data, how, kind, first, count):
    """A view with a length exposes exactly its range, or nothing at offset zero when that is not all inside."""
    size = SIZES[kind]
    v = ArrayBufferViewStructFormat(kind).view_type(owner(data, how), item_offset=first, item_length=count)
    if (first + count) * size <= len(data):
        prove(v.is_in_range, "a view inside its buffer is in range")
        region(v, data, first * size, count * size)
    else:
        prove(not v.is_in_range, "a view which is not all inside its buffer is out of range")
        region(v, data, 0, 0)
    prove(not v.is_length_tracking, "a view with a length does not track its buffer")


@lemma(LEMMAS, "view without length", data=Long(), how=Choice(*OWNERS), kind=Choice(*KINDS), first=Few(0), budget_s=200)
def without_length(data, how, kind, first):
    """A view without a length covers as many whole items as fit, or nothing at offset zero when it starts outside."""
    size = SIZES[kind]
    v = ArrayBufferViewStructFormat(kind).view_type(owner(data, how), item_offset=first)
    if first * size <= len(data):
        prove(v.is_in_range, "a view which starts inside its buffer is in range")
        items = (len(data) - first * size) // size
        prove(items * size <= len(data) - first * size and len(data) - first * size < (items + 1) * size,
              "as many items as fit")
        region(v, data, first * size, items * size)
    else:
        prove(not v.is_in_range, "a view which starts outside its buffer is out of range")
        region(v, data, 0, 0)


@lemma(LEMMAS, "negative extents", data=Long(), kind=Choice(*KINDS), first=Offset(), count=OrNone(Offset()))
def negative(data, kind, first, count):
    """A view refuses a negative offset or length, and nothing else."""
    bad = first < 0 or (count is not None and count < 0)
    refused = False
    try:
        ArrayBufferViewStructFormat(kind).view_type(JSArrayBuffer(data), item_offset=first, item_length=count)
    except ValueError:
        refused = True
    prove(refused == bad, "negative extents are refused, others are not")


@lemma(LEMMAS, "checked construction", data=Long(), how=Choice(*OWNERS), kind=Choice(*KINDS), offset=Offset(),
       length=OrNone(Offset()), direct=Choice(True, False), budget_s=300)
def checked(data, how, kind, offset, length, direct):
    """create_view and from_bytes accept a byte range exactly when it is item-aligned and inside the buffer."""
    size = SIZES[kind]
    n = len(data)
    aligned = offset % size == 0 and (length is None or length % size == 0)
    if length is None:
        inside = 0 <= offset and offset <= n and (how == "bytearray" or how == "resizable" or n % size == 0)
    else:
        inside = 0 <= offset and 0 <= length and offset + length <= n
    wanted = aligned and inside
    made = None
    try:
        if direct:
            made = ArrayBufferViewStructFormat(kind).view_type.from_bytes(owner(data, how), byte_offset=offset,
                                                                          byte_length=length)
        else:
            made = create_view(owner(data, how), kind, byte_offset=offset, byte_length=length)
    except ValueError:
        pass
    if wanted:
        prove(made is not None, "an aligned range inside the buffer is accepted")
        prove(made.view_tag == kind, "the view has the requested kind")
        prove(made.byte_offset == offset, "the view starts at the requested offset")
        if length is not None:
            prove(made.byte_length == length, "the view has the requested length")
    else:
        prove(made is None, "a misaligned or outside range is refused")


# ---------------------------------------------------------------------------
# data views
# ---------------------------------------------------------------------------
INTS = (("int8", "b"), ("uint8", "B"), ("int16", "h"), ("uint16", "H"), ("int32", "i"), ("uint32", "I"),
        ("bigint64", "q"), ("biguint64", "Q"))
FLTS = (("float16", "e"), ("float32", "f"), ("float64", "d"))
ORDERS = (None, False, True)
WIDTH = {n: struct.calcsize("<" + f) for n, f in INTS + FLTS}


def data_view(data, start, size):
    buf = JSArrayBuffer(data)
    return buf, create_view(buf, ArrayBufferViewTag.kDataView, byte_offset=start, byte_length=size)


def getter(dv, name, at, little):
    m = getattr(dv, "get_" + name)
    return m(at) if little is None else m(at, little_endian=little)


def setter(dv, name, at, value, little):
    m = getattr(dv, "set_" + name)
    if little is None:
        m(at, value)
    else:
        m(at, value, little_endian=little)


def form(little, f):
    """The struct format: big endian unless little endian is asked for."""
    return "<" + f if little else ">" + f


class Entry(Dom):
    """An accessor: its name, item format and byte order argument."""

    def __init__(self, table):
        self.values = tuple((n, f, o) for n, f in table for o in ORDERS if o is None or f not in "bB")

    def sym(self, I, name):
        i = I.E.choose(len(self.values))
        I.E.inputs[name] = lambda m, i=i: i
        return self.values[i]

    def from_model(self, m):
        return self.values[m]

    def edges(self):
        return list(self.values)

    def rand(self, r):
        return r.choice(self.values)


@lemma(LEMMAS, "data view read", data=Long(), start=Few(0), size=Few(0), entry=Entry(INTS + FLTS), at=Offset())
def data_view_read(data, start, size, entry, at):
    """A read gives the addressed bytes in the requested order, or a bounds error exactly when they are not all inside."""
    name, f, little = entry
    assume(start + size <= len(data))
    buf, v = data_view(data, start, size)
    w = WIDTH[name]
    with v.get_buffer() as dv:
        prove(len(dv) == size, "a data view has the length of its region")
        got = None
        try:
            got = getter(dv, name, at, little)
        except BoundsJSArrayBufferError:
            pass
        if 0 <= at and at + w <= size:
            prove(got is not None, "a read inside the view succeeds")
            want = struct.unpack(form(little, f), data[start + at:start + at + w])[0]
            prove(identical(got, want), "a read gives the addressed bytes in the requested order")
        else:
            prove(got is None, "a read outside the view is refused")
    same_bytes(buf.data, data, label="a read changes nothing")


@lemma(LEMMAS, "data view write int", data=Long(), start=Few(0), size=Few(0), entry=Entry(INTS), at=Offset(), value=Int())
def data_view_write_int(data, start, size, entry, at, value):
    """A write changes exactly the addressed bytes, to the value in the requested order; a refused write changes nothing."""
    name, f, little = entry
    assume(start + size <= len(data))
    buf, v = data_view(data, start, size)
    w = WIDTH[name]
    bits = 8 * w
    fits = -(2 ** (bits - 1)) <= value and value < 2 ** (bits - 1) if f in "bhiq" else 0 <= value and value < 2 ** bits
    with v.get_buffer() as dv:
        error = None
        try:
            setter(dv, name, at, value, little)
        except Exception as e:
            error = e
        if 0 <= at and at + w <= size:
            if fits:
                prove(error is None, "a write inside the view succeeds")
                same_bytes(buf.data, data[:start + at], struct.pack(form(little, f), value), data[start + at + w:],
                           label="a write touches exactly the addressed bytes")
                prove(identical(getter(dv, name, at, little), value), "what was written is read back")
            else:
                prove(error is not None, "a value which does not fit is refused")
                same_bytes(buf.data, data, label="a refused value changes nothing")
        else:
            prove(isinstance(error, BoundsJSArrayBufferError), "a write outside the view raises a bounds error")
            same_bytes(buf.data, data, label="a write outside the view changes nothing")


@lemma(LEMMAS, "data view write float", data=Long(), start=Few(0), size=Few(0), entry=Entry(FLTS), at=Offset(), value=Float())
def data_view_write_float(data, start, size, entry, at, value):
    """The same for floats."""
    name, f, little = entry
    assume(start + size <= len(data))
    buf, v = data_view(data, start, size)
    w = WIDTH[name]
    packed = None
    try:
        packed = struct.pack(form(little, f), value)
    except OverflowError:
        pass
    with v.get_buffer() as dv:
        error = None
        try:
            setter(dv, name, at, value, little)
        except Exception as e:
            error = e
        if 0 <= at and at + w <= size:
            if packed is not None:
                prove(error is None, "a write inside the view succeeds")
                same_bytes(buf.data, data[:start + at], packed, data[start + at + w:],
                           label="a write touches exactly the addressed bytes")
            else:
                prove(error is not None, "a value which does not fit is refused")
                same_bytes(buf.data, data, label="a refused value changes nothing")
        else:
            prove(isinstance(error, BoundsJSArrayBufferError), "a write outside the view raises a bounds error")
            same_bytes(buf.data, data, label="a write outside the view changes nothing")


@lemma(LEMMAS, "read-only data view", data=Long(), entry=Entry(INTS), at=Few(0), value=Int())
def read_only(data, entry, at, value):
    """A read-only view of a writable buffer never changes it."""
    name, f, little = entry
    buf = JSArrayBuffer(data)
    v = create_view(buf, ArrayBufferViewTag.kDataView, byte_offset=0, byte_length=len(data), readonly=True)
    with v.get_buffer() as dv:
        error = None
        try:
            setter(dv, name, at, value, little)
        except Exception as e:
            error = e
        prove(error is not None, "a write through a read-only view is refused")
    same_bytes(buf.data, data, label="a write through a read-only view changes nothing")


# ---------------------------------------------------------------------------
# typed views
# ---------------------------------------------------------------------------
TYPED = tuple(t for t in KINDS if t is not ArrayBufferViewTag.kDataView)


@lemma(LEMMAS, "item read", data=Long(), kind=Choice(*TYPED), first=Few(0), count=Few(0), i=Few(0))
def item_read(data, kind, first, count, i):
    """The items of a typed view are those of its kind at its range of the buffer, and there are no others."""
    size = SIZES[kind]
    assume((first + count) * size <= len(data))
    v = create_view(JSArrayBuffer(data), kind, byte_offset=first * size, byte_length=count * size)
    with v.get_buffer() as m:
        prove(len(m) == count, "a typed view has as many items as its region")
        if i < count:
            at = (first + i) * size
            want = struct.unpack("<" + FORMATS[kind], data[at:at + size])[0]
            prove(identical(m[i], want), "an item is the buffer's bytes there in the view's type")
        else:
            refused = False
            try:
                m[i]
            except IndexError:
                refused = True
            prove(refused, "there is no item after the end of the region")


@lemma(LEMMAS, "item write", data=Long(), kind=Choice(*[t for t in TYPED if FORMATS[t] not in "efd"]), first=Few(0),
       count=Few(0), i=Few(0), value=Int())
def item_write(data, kind, first, count, i, value):
    """Storing an item changes exactly its bytes of the buffer."""
    size = SIZES[kind]
    f = FORMATS[kind]
    assume((first + count) * size <= len(data))
    assume(-(2 ** (8 * size - 1)) <= value and value < 2 ** (8 * size - 1) if f in "bhiq" else 0 <= value and value < 2 ** (8 * size))
    buf = JSArrayBuffer(data)
    v = create_view(buf, kind, byte_offset=first * size, byte_length=count * size)
    with v.get_buffer() as m:
        error = None
        try:
            m[i] = value
        except IndexError as e:
            error = e
        prove((error is None) == (i < count), "items inside the region can be stored, others cannot")
    if i < count:
        at = (first + i) * size
        same_bytes(buf.data, data[:at], struct.pack("<" + f, value), data[at + size:],
                   label="storing an item touches exactly its bytes")
    else:
        same_bytes(buf.data, data, label="a refused store changes nothing")


# ---------------------------------------------------------------------------
# resizing
# ---------------------------------------------------------------------------
@lemma(LEMMAS, "resize", data=Long(), room=Few(0), to=Offset())
def resize(data, room, to):
    """Resizing keeps the common prefix, zero-fills growth, and is refused outside zero to the maximum."""
    top = len(data) + room
    b = JSArrayBuffer(data, max_byte_length=top, resizable=True)
    refused = False
    try:
        b.resize(to)
    except V8SerializeError:
        refused = True
    prove(refused == (to < 0 or to > top), "resizing outside zero to the maximum is refused, inside it is not")
    if refused:
        same_bytes(b.data, data, label="a refused resize changes nothing")
    elif to <= len(data):
        same_bytes(b.data, data[:to], label="shrinking keeps the prefix")
    else:
        same_bytes(b.data, data, zeros(to - len(data)), label="growing keeps the content and adds zeros")
    prove(b.max_byte_length == top and b.resizable, "resizing keeps the maximum and resizability")


@lemma(LEMMAS, "resize twice", data=Long(), room=Few(0), to=Few(0), then=Few(0))
def resize_twice(data, room, to, then):
    """After shrinking, growing again gives zeros, not the bytes cut off; views follow."""
    top = len(data) + room
    assume(to <= top)
    assume(then <= top)
    b = JSArrayBuffer(data, max_byte_length=top, resizable=True)
    v = create_view(b, ArrayBufferViewTag.kUint8Array)
    b.resize(to)
    b.resize(then)
    if to <= len(data) and to <= then:
        same_bytes(b.data, data[:to], zeros(then - to), label="growing after shrinking adds zeros")
    prove(v.byte_length == then, "a tracking view follows its buffer")


@lemma(LEMMAS, "resize fixed", data=Long(), readonly=Choice(None, True), to=Offset())
def resize_fixed(data, readonly, to):
    """A buffer which is not resizable refuses every resize."""
    b = JSArrayBuffer(data, readonly=readonly)
    refused = False
    try:
        b.resize(to)
    except V8SerializeError:
        refused = True
    prove(refused, "a fixed buffer cannot be resized")
    same_bytes(b.data, data, label="a refused resize changes nothing")


@lemma(LEMMAS, "new buffer", data=Long(), top=Offset(), copy=Choice(None, True, False), resizable=Choice(None, True))
def new_buffer(data, top, copy, resizable):
    """A buffer is made exactly when its content is within its maximum."""
    b = None
    try:
        b = JSArrayBuffer(bytearray(data) if copy is False else data, max_byte_length=top, resizable=resizable, copy_data=copy)
    except V8SerializeError:
        pass
    if len(data) <= top:
        prove(b is not None, "a buffer within its maximum can be made")
        same_bytes(b.data, data, label="a new buffer holds its data")
        prove(b.resizable and b.max_byte_length == top, "a buffer with a maximum is resizable to it")
    else:
        prove(b is None, "a buffer beyond its maximum is refused")


@lemma(LEMMAS, "new empty buffer", size=Few(0), readonly=Choice(None, True), keyword=Choice(False, True))
def new_empty(size, readonly, keyword):
    """A buffer made with a length holds that many zeros."""
    b = JSArrayBuffer(byte_length=size, readonly=readonly) if keyword else JSArrayBuffer(size, readonly=readonly)
    same_bytes(b.data, zeros(size), label="a new buffer of a length is zeros")
    prove(not b.resizable and b.max_byte_length == size, "a buffer without a maximum is fixed")
