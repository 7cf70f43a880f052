"""C01: varint, zig-zag, int32, uint32, bigint and double fields are written and read back exactly."""
import struct

from native.common import *
from v8serialize.constants import SerializationTag
from v8serialize.decode import ReadableTagStream
from v8serialize.encode import WritableTagStream


def vbytes(n):
    out = bytearray()
    while True:
        n, b = n >> 7, n & 127
        out.append(b | (128 if n else 0))
        if not n:
            return bytes(out)


def zz(n):
    return 2 * n if n >= 0 else -2 * n - 1


def numbers(r, late):
    for e in list(range(0, 70)) + [127, 128, 255, 256, 511, 1023, 1024, 4096, 8191]:
        for d in range(-2, 3):
            yield 2 ** e + d
            yield -(2 ** e) + d
    while not late():
        yield r.choice((1, -1)) * r.getrandbits(r.choice((3, 7, 8, 14, 15, 30, 31, 32, 33, 53, 63, 64, 65, 100, 1000, 5000)))


FIELDS = {
    # name: (accepts, bytes, tag)
    "varint": (lambda n: n >= 0, vbytes, None),
    "zigzag": (lambda n: True, lambda n: vbytes(zz(n)), None),
    "int32": (lambda n: -2 ** 31 <= n < 2 ** 31, lambda n: vbytes(zz(n)), SerializationTag.kInt32),
    "uint32": (lambda n: 0 <= n < 2 ** 32, vbytes, SerializationTag.kUint32),
    "bigint": (lambda n: True, None, SerializationTag.kBigInt),
}


def field(ctx, name, n, pre, post):
    accepts, enc, tag = FIELDS[name]
    for tagged in ((True, False) if tag is not None else (None,)):
        w = WritableTagStream()
        w.data.extend(pre)
        kw = {} if tagged is None else {"tag": tag if tagged else None}
        try:
            getattr(w, "write_" + name)(n, **kw)
        except ValueError:
            ctx.check(not accepts(n), f"write_{name} accepts its range", n, n)
            ctx.check(bytes(w.data) == pre, f"write_{name} writes nothing when it rejects", n, n)
            continue
        ctx.check(accepts(n), f"write_{name} rejects what it cannot represent", n, n)
        ctx.check(bytes(w.data[:len(pre)]) == pre, f"write_{name} keeps what was written before", n, n)
        body = bytes(w.data[len(pre):])
        if enc is not None:
            ctx.check(body == (bytes([tag]) if tagged else b"") + enc(n), f"write_{name} writes the format's bytes", lambda: (n, body.hex()), n)
        else:
            if tagged:
                ctx.check(body[:1] == b"Z", "write_bigint writes its tag", lambda: body[:4].hex(), n)
                body = body[1:]
            head = ReadableTagStream(bytearray(body))
            bits = head.read_varint()
            digits = body[head.pos:]
            ctx.check(bits >> 1 == len(digits), "write_bigint counts its digits", lambda: (n, bits, len(digits)), n)
            v = int.from_bytes(digits, "little")
            ctx.check((-v if bits & 1 else v) == n, "write_bigint writes sign and magnitude", lambda: (n, body.hex()), n)
        end = len(w.data)
        w.data.extend(post)
        keep = bytes(w.data)
        rd = ReadableTagStream(w.data)
        rd.pos = len(pre)
        kw = {} if tagged is None else {"tag": tagged}
        got = getattr(rd, "read_" + name)(**kw)
        ctx.check(ident(n, got), f"read_{name} returns the number written", lambda: (n, got), n)
        ctx.check(rd.pos == end, f"read_{name} consumes exactly the bytes written", lambda: (n, rd.pos, end), n)
        ctx.check(bytes(rd.data) == keep, f"read_{name} does not change the data", n, n)


def ints(ctx):
    r = ctx.rng
    for n in numbers(r, lambda: ctx.late or ctx.runs > ctx.scale(6000)):
        ctx.case(n)
        pre, post = r.randbytes(r.randrange(0, 4)), r.randbytes(r.randrange(0, 12))
        for name in FIELDS:
            field(ctx, name, n, pre, post)


def huge(ctx):
    for bits in (2 ** 16, 2 ** 17 - 1, 10 ** 6):
        for n in (2 ** bits, -(2 ** bits), 2 ** bits - 1, -(2 ** bits) + 1):
            ctx.case(bits)
            field(ctx, "bigint", n, b"ab", b"\xff")


def doubles(ctx):
    r = ctx.rng

    def bits():
        for b in (0, 1, 2 ** 52 - 1, 2 ** 52, 0x7fe << 52, (0x7ff << 52) - 1, 0x7ff << 52, 0x7ff8 << 48, 0x3ff << 52):
            yield b
            yield b | 2 ** 63
        while not ctx.late and ctx.runs < ctx.scale(4000):
            yield r.getrandbits(64)
    for b in bits():
        v, = struct.unpack("<d", struct.pack("<Q", b))
        ctx.case(b)
        for tagged in (True, False):
            w = WritableTagStream()
            w.data.extend(b"x" * (b & 3))
            w.write_double(v, tag=SerializationTag.kDouble if tagged else None)
            end = len(w.data)
            body = bytes(w.data[b & 3:])
            if v == v:
                ctx.check(body == (b"N" if tagged else b"") + struct.pack("<d", v), "write_double writes the IEEE bits", lambda: (v, body.hex()), v)
            w.data.extend(r.randbytes(r.randrange(0, 9)))
            rd = ReadableTagStream(w.data)
            rd.pos = b & 3
            got = rd.read_double(tag=tagged)
            ctx.check(ident(v, got), "read_double returns the number written", lambda: (v, got), v)
            ctx.check(rd.pos == end, "read_double consumes exactly the bytes written", lambda: rd.pos, v)


PARTS = parts(ints, huge, doubles)
