"""C01: integers, bigints and doubles are written and read back exactly."""
import struct

from pyvc.dual import *
import v8serialize.decode
import v8serialize.encode
from v8serialize.encode import WritableTagStream
from v8serialize.decode import ReadableTagStream
from v8serialize.constants import SerializationTag

from specs import contracts as C

LEMMAS = []
# internal helpers: their contracts are stated while they exist under these names
_encode_zigzag = getattr(v8serialize.encode, "_encode_zigzag", None)
_decode_zigzag = getattr(v8serialize.decode, "_decode_zigzag", None)
HELPERS = [] if _encode_zigzag is None or _decode_zigzag is None else LEMMAS


def raw(I):
    I.contracts.clear()


def modular(I):
    I.contracts.clear()
    C.use_varints(I)


def writer(pre):
    w = WritableTagStream()
    w.data.extend(pre)
    return w


def reader(w, post, pos):
    w.data.extend(post)
    r = ReadableTagStream(w.data)
    r.pos = pos
    return r


@lemma(LEMMAS, "write_varint", setup=raw, n=Int(), pre=Data())
def write_varint_contract(n, pre):
    """requires any int; ensures data == old(data) ++ varint(n), minimal form; n < 0 raises
    ValueError and changes nothing."""
    w = writer(pre)
    try:
        w.write_varint(n)
    except ValueError:
        prove(n < 0, "write_varint rejects negative numbers only")
        same_bytes(w.data, pre, label="write_varint: nothing written when rejected")
        return
    prove(n >= 0, "write_varint rejects negative numbers")
    same_bytes(w.data, pre, varint(n), label="write_varint appends exactly varint(n)")


@lemma(LEMMAS, "read_varint", setup=raw, n=Nat(), pre=Data(), post=Data(), bits=Choice(None, 32))
def read_varint_contract(n, pre, post, bits):
    """requires data == pre ++ varint(n) ++ post, pos == len(pre), n < 2**32 if max_bits == 32;
    ensures result == n and pos == len(pre) + len(varint(n)), data unchanged."""
    if bits is not None:
        assume(n < 2 ** bits)
    r = ReadableTagStream(pre + varint(n) + post)
    r.pos = len(pre)
    got = r.read_varint(max_bits=bits)
    prove(identical(got, n), "read_varint returns the number written")
    prove(r.pos == len(pre) + len(varint(n)), "read_varint consumes exactly the varint")
    same_bytes(r.data, pre, varint(n), post, label="read_varint does not change the data")


@lemma(HELPERS, "zigzag", n=Int())
def zigzag_contract(n):
    """ensures _decode_zigzag(_encode_zigzag(n)) == n and the encoding is 2n or -2n-1."""
    z = _encode_zigzag(n)
    prove(z >= 0, "zig-zag encoding is non-negative")
    prove(z == (2 * n if n >= 0 else -2 * n - 1), "zig-zag encoding maps 0,-1,1,-2.. to 0,1,2,3..")
    prove(_decode_zigzag(z) == n, "zig-zag decoding inverts encoding")


@lemma(HELPERS, "zigzag onto", n=Nat())
def zigzag_onto(n):
    """ensures _encode_zigzag(_decode_zigzag(n)) == n for every natural n."""
    prove(_encode_zigzag(_decode_zigzag(n)) == n, "zig-zag encoding inverts decoding")


@lemma(LEMMAS, "zigzag round trip", setup=modular, n=Int(), pre=Data(), post=Data())
def zigzag_roundtrip(n, pre, post):
    """ensures read_zigzag after write_zigzag gives n and consumes exactly what was written."""
    w = writer(pre)
    w.write_zigzag(n)
    end = len(w.data)
    r = reader(w, post, len(pre))
    got = r.read_zigzag()
    prove(identical(got, n), "read_zigzag returns the number written")
    prove(r.pos == end, "read_zigzag consumes exactly the bytes written")


@lemma(LEMMAS, "varint round trip", setup=modular, n=Nat(), pre=Data(), post=Data())
def varint_roundtrip(n, pre, post):
    """ensures read_varint after write_varint gives n and consumes exactly what was written."""
    w = writer(pre)
    w.write_varint(n)
    end = len(w.data)
    r = reader(w, post, len(pre))
    prove(identical(r.read_varint(), n), "read_varint returns the number written")
    prove(r.pos == end, "read_varint consumes exactly the bytes written")


@lemma(LEMMAS, "int32 round trip", setup=modular, n=Int(), pre=Data(), post=Data(), tagged=Choice(True, False))
def int32_roundtrip(n, pre, post, tagged):
    """write_int32 accepts exactly -2**31..2**31-1, else ValueError with nothing written."""
    w = writer(pre)
    tag = SerializationTag.kInt32 if tagged else None
    try:
        w.write_int32(n, tag=tag)
    except ValueError:
        prove(n < -2 ** 31 or n >= 2 ** 31, "write_int32 rejects only numbers outside int32")
        same_bytes(w.data, pre, label="write_int32 writes nothing when it rejects")
        return
    prove(n >= -2 ** 31 and n < 2 ** 31, "write_int32 rejects numbers outside int32")
    same_bytes(w.data, pre, b"I" if tagged else b"", varint(2 * n if n >= 0 else -2 * n - 1),
               label="write_int32 appends tag and zig-zag varint")
    end = len(w.data)
    r = reader(w, post, len(pre))
    prove(identical(r.read_int32(tag=tagged), n), "read_int32 returns the number written")
    prove(r.pos == end, "read_int32 consumes exactly the bytes written")


@lemma(LEMMAS, "uint32 round trip", setup=modular, n=Int(), pre=Data(), post=Data(), tagged=Choice(True, False))
def uint32_roundtrip(n, pre, post, tagged):
    """write_uint32 accepts exactly 0..2**32-1, else ValueError with nothing written."""
    w = writer(pre)
    tag = SerializationTag.kUint32 if tagged else None
    try:
        w.write_uint32(n, tag=tag)
    except ValueError:
        prove(n < 0 or n >= 2 ** 32, "write_uint32 rejects only numbers outside uint32")
        same_bytes(w.data, pre, label="write_uint32 writes nothing when it rejects")
        return
    prove(n >= 0 and n < 2 ** 32, "write_uint32 rejects numbers outside uint32")
    same_bytes(w.data, pre, b"U" if tagged else b"", varint(n),
               label="write_uint32 appends tag and varint")
    end = len(w.data)
    r = reader(w, post, len(pre))
    prove(identical(r.read_uint32(tag=tagged), n), "read_uint32 returns the number written")
    prove(r.pos == end, "read_uint32 consumes exactly the bytes written")


@lemma(LEMMAS, "bigint round trip", setup=modular, n=Int(far=2 ** 22), pre=Data(), post=Data(), tagged=Choice(True, False))
def bigint_roundtrip(n, pre, post, tagged):
    """every int whose byte length fits 30 bits is written as bitfield and little-endian digits."""
    w = writer(pre)
    tag = SerializationTag.kBigInt if tagged else None
    try:
        w.write_bigint(n, tag=tag)
    except ValueError:
        prove((n.bit_length() + 8) // 8 >= 2 ** 30, "write_bigint rejects only huge numbers")
        same_bytes(w.data, pre, label="write_bigint writes nothing when it rejects")
        return
    end = len(w.data)
    r = reader(w, post, len(pre))
    prove(identical(r.read_bigint(tag=tagged), n), "read_bigint returns the number written")
    prove(r.pos == end, "read_bigint consumes exactly the bytes written")


@lemma(LEMMAS, "bigint layout", setup=modular, n=Int(far=2 ** 22), pre=Data())
def bigint_layout(n, pre):
    """bitfield == 2 * byte count + sign, then the magnitude, little endian."""
    assume((n.bit_length() + 8) // 8 < 2 ** 30)
    w = writer(pre)
    w.write_bigint(n)
    m = n if n >= 0 else -n
    k = (m.bit_length() + 8) // 8
    same_bytes(w.data, pre, b"Z", varint(2 * k + (1 if n < 0 else 0)), le_bytes(m, k),
               label="write_bigint appends tag, bitfield and magnitude")


@lemma(LEMMAS, "double round trip", v=Float(), pre=Data(), post=Data(), tagged=Choice(True, False))
def double_roundtrip(v, pre, post, tagged):
    """any float, bit for bit (NaN as NaN)."""
    w = writer(pre)
    w.write_double(v, tag=SerializationTag.kDouble if tagged else None)
    same_bytes(w.data, pre, b"N" if tagged else b"", f64(v), label="write_double appends tag and IEEE bits")
    end = len(w.data)
    r = reader(w, post, len(pre))
    prove(identical(r.read_double(tag=tagged), v), "read_double returns the number written")
    prove(r.pos == end, "read_double consumes exactly the bytes written")


@lemma(LEMMAS, "double of int", n=Int(), pre=Data())
def double_of_int(n, pre):
    """an int outside the float range is rejected before anything is written."""
    w = writer(pre)
    try:
        w.write_double(n)
    except (OverflowError, ValueError, struct.error):
        prove(n >= 2 ** 1023 or n <= -2 ** 1023, "write_double rejects only ints beyond the float range")
        same_bytes(w.data, pre, label="write_double writes nothing when it rejects")
        return
    same_bytes(w.data, pre, b"N", f64(n), label="write_double appends tag and IEEE bits")
