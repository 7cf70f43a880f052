"""C12: views never reach outside their buffer; resizing keeps content."""
import struct
from array import array
from native.common import *
from v8serialize import V8SerializeError
from v8serialize.jstypes.jsbuffers import BoundsJSArrayBufferError, ArrayBufferViewStructFormat


def expect_view(n, off, ln, size):
    """(in range, offset, length) of a view over n bytes, from the description."""
    if ln is None:
        if off > n:
            return False, 0, 0
        return True, off, (n - off) // size * size
    if off + ln > n:
        return False, 0, 0
    return True, off, ln


def back(n, kind, r):
    raw = bytes(r.randrange(256) for _ in range(n))
    if kind == "bytes":
        return raw, raw
    if kind == "bytearray":
        return bytearray(raw), raw
    if kind == "fixed":
        return JSArrayBuffer(raw), raw
    if kind == "mv":
        return memoryview(b"<<" + raw + b">>")[2:2 + n], raw
    if kind == "words":         # a buffer whose items are not bytes, over other memory
        a = array("H" if n % 2 == 0 else "B", raw)
        return JSArrayBuffer(r.choice([a, memoryview(a)]), copy_data=False, readonly=r.random() < 0.5), raw
    if kind == "array":
        return (array("H", raw) if n % 2 == 0 else array("b", raw)), raw
    if kind == "cast":
        return memoryview(raw).cast("c") if n % 4 or not n else memoryview(raw).cast("B", [4, n // 4]), raw
    return JSArrayBuffer(raw, max_byte_length=n + 9, resizable=True), raw


def check_view(ctx, v, raw, off, ln, size, case):
    ok, eo, el = expect_view(len(raw), off, ln, size)
    got = (v.is_in_range, v.byte_offset, v.byte_length)
    ctx.check(got == (ok, eo, el), "a view reports its region", lambda: f"{got}, expected {(ok, eo, el)}", case)
    for ro in (None, True):
        with v.get_buffer_as_memoryview(readonly=ro) as m:
            ctx.check(bytes(m) == raw[eo:eo + el], "a view exposes exactly its bytes",
                      lambda: f"{bytes(m)!r}, expected {raw[eo:eo + el]!r}", case)
            ctx.check(m.readonly or not ro, "a read-only view is read-only", "", case)


def regions(ctx):
    r = ctx.rng
    for tag in VIEW_TAGS:
        cls = ArrayBufferViewStructFormat(tag).view_type
        size = item_size(tag)
        for kind in ("bytes", "bytearray", "fixed", "mv", "resizable", "words", "array", "cast"):
            for n in sorted({0, 1, size, size + 1, 3 * size - 1, 3 * size, 3 * size + size // 2}):
                b, raw = back(n, kind, r)
                for io in range(0, n // size + 3):
                    for il in [None] + list(range(0, n // size + 3)):
                        case = (tag.name, kind, n, io, il)
                        ctx.case(case)
                        v = cls(b, item_offset=io, item_length=il)
                        check_view(ctx, v, raw, io * size, None if il is None else il * size, size, case)
                        if il is not None or True:
                            try:
                                with v.get_buffer(readonly=True) as items:
                                    k = len(items)
                                ctx.check(k * size == v.byte_length, "a view has whole items", lambda: f"{k} items, {v.byte_length} bytes", case)
                            except TypeError:
                                raise
    # extents far outside
    for n in (0, 8):
        for io in (2 ** 31, 2 ** 40):
            for il in (None, 0, 1, 2 ** 62):
                v = create_view(JSArrayBuffer(n), ArrayBufferViewTag.kUint32Array)
                v = type(v)(JSArrayBuffer(n), item_offset=io, item_length=il)
                check_view(ctx, v, bytes(n), io * 4, None if il is None else il * 4, 4, (n, io, il))
    for args in ((-1, None), (0, -1), (-1, -1)):
        ctx.case(args)
        try:
            type(create_view(JSArrayBuffer(8), ArrayBufferViewTag.kUint8Array))(JSArrayBuffer(8), item_offset=args[0], item_length=args[1])
            ctx.fail("negative extents are refused", repr(args))
        except ValueError:
            pass


def constructors(ctx):
    """from_bytes / create_view accept a range exactly when it is aligned and inside."""
    r = ctx.rng
    for tag in VIEW_TAGS:
        size = item_size(tag)
        cls = ArrayBufferViewStructFormat(tag).view_type
        for kind in ("bytes", "bytearray", "fixed", "resizable", "words"):
            tracks = kind in ("bytearray", "resizable")
            for n in sorted({0, 1, size, size + 1, 2 * size, 3 * size - 1}):
                b, raw = back(n, kind, r)
                for off in list(range(-1, n + 2 * size + 1)) + [2 ** 40]:
                    for ln in [None] + list(range(-1, n + size + 2)) + [2 ** 40]:
                        case = (tag.name, kind, n, off, ln)
                        ctx.case(case)
                        aligned = off % size == 0 and (ln is None or ln % size == 0)
                        if ln is None:
                            inside = 0 <= off <= n and (tracks or n % size == 0)
                        else:
                            inside = 0 <= off and 0 <= ln and off + ln <= n
                        want = aligned and inside
                        for make in (lambda: cls.from_bytes(b, byte_offset=off, byte_length=ln),
                                     lambda: create_view(b, tag, byte_offset=off, byte_length=ln)):
                            try:
                                v = make()
                            except ValueError as e:
                                ctx.check(not want, "an aligned range inside the buffer is accepted", lambda: f"{type(e).__name__}: {e}", case)
                                continue
                            if ctx.check(want, "a misaligned or outside range is refused", lambda: f"{v!r}", case):
                                check_view(ctx, v, raw, off, ln, size, case)
                                ctx.check(v.view_tag is tag, "the view has the requested type", lambda: repr(v), case)


FMT = dict(bigint64="q", biguint64="Q", float16="e", float32="f", float64="d", int16="h", int32="i", uint16="H", uint32="I",
           int8="b", uint8="B")


def value_for(r, f):
    if f in "efd":
        v = r.choice([0.0, -0.0, 1.5, -2.25, math.inf, 0.5, 100.0])
        return v
    bits = 8 * struct.calcsize("<" + f)
    if f.islower():
        return r.choice([-(1 << bits - 1), (1 << bits - 1) - 1, -1, 0, 1, r.randrange(-(1 << bits - 1), 1 << bits - 1)])
    return r.choice([(1 << bits) - 1, 0, 1, r.getrandbits(bits)])


def data_view(ctx):
    r = ctx.rng
    for off in (0, 1, 3, 5):
        for ln in (None, 0, 1, 2, 4, 7, 8, 9, 16):
            if ln is not None and off + ln > 21:
                continue
            n = 21 if ln is not None or off else 16
            for name, f in FMT.items():
                size = struct.calcsize("<" + f)
                raw = bytes(r.randrange(256) for _ in range(n))
                total = n - off if ln is None else ln
                for at in list(range(-9, total + 10)) + [2 ** 40, -2 ** 40]:
                    for little in (False, True, None):
                        if f in "bB" and little is not None:
                            continue
                        buf = JSArrayBuffer(raw)
                        v = create_view(buf, ArrayBufferViewTag.kDataView, byte_offset=off, byte_length=ln)
                        case = (off, ln, name, at, little)
                        ctx.case(case)
                        kw = {} if little is None else dict(little_endian=little)
                        order = "<" if little else ">"
                        inside = 0 <= at and at + size <= total
                        val = value_for(r, f)
                        with v.get_buffer() as dv:
                            try:
                                got = getattr(dv, "get_" + name)(at, **kw)
                                if ctx.check(inside, "a read outside the view is refused", lambda: repr(got), case):
                                    want = struct.unpack(order + f, raw[off + at:off + at + size])[0]
                                    ctx.check(same_float(got, want) if f in "efd" else ident(got, want),
                                              "a read gives the addressed bytes in the requested order", lambda: f"{got!r}, expected {want!r}", case)
                            except BoundsJSArrayBufferError:
                                ctx.check(not inside, "a read inside the view succeeds", "", case)
                            try:
                                getattr(dv, "set_" + name)(at, val, **kw)
                                ok = inside
                                ctx.check(inside, "a write outside the view is refused", "", case)
                            except BoundsJSArrayBufferError:
                                ctx.check(not inside, "a write inside the view succeeds", "", case)
                        want = raw
                        if inside:
                            p = struct.pack(order + f, val)
                            want = raw[:off + at] + p + raw[off + at + size:]
                        got = bytes(buf.data)
                        ctx.check(got == want, "a write touches exactly the addressed bytes", lambda: f"{got!r}, expected {want!r}", case)
                # values that do not fit change nothing
                if f not in "efd":
                    for bad in (1 << 8 * size, -(1 << 8 * size)):
                        buf = JSArrayBuffer(raw)
                        v = create_view(buf, ArrayBufferViewTag.kDataView, byte_offset=off, byte_length=ln)
                        with v.get_buffer() as dv:
                            try:
                                getattr(dv, "set_" + name)(0, bad)
                                ctx.fail("a value that does not fit is refused", f"{name} {bad}")
                            except Exception:
                                pass
                        ctx.check(bytes(buf.data) == raw, "a refused write changes nothing", "", (name, bad))


def items(ctx):
    """Typed views: items read and written through the view are those of the buffer, in range only."""
    r = ctx.rng
    codes = dict(kInt8Array="b", kUint8Array="B", kUint8ClampedArray="B", kInt16Array="h", kUint16Array="H", kInt32Array="i",
                 kUint32Array="I", kFloat16Array="e", kFloat32Array="f", kFloat64Array="d", kBigInt64Array="q", kBigUint64Array="Q")
    for tag in VIEW_TAGS:
        if tag.name not in codes:
            continue
        f, size = codes[tag.name], item_size(tag)
        for n in (0, 1, 2, 3, 5):
            for off in range(0, n + 1):
                for ln in [None] + list(range(0, n - off + 1)):
                    raw = b"".join(struct.pack("=" + f, value_for(r, f)) for _ in range(n))
                    buf = JSArrayBuffer(raw)
                    v = create_view(buf, tag, byte_offset=off * size, byte_length=None if ln is None else ln * size)
                    k = n - off if ln is None else ln
                    case = (tag.name, n, off, ln)
                    ctx.case(case)
                    want = list(struct.unpack(f"={k}{f}", raw[off * size:(off + k) * size]))
                    with v.get_buffer() as m:
                        got = list(m)
                        ctx.check(len(got) == k and all((same_float if f in "efd" else ident)(a, b) for a, b in zip(got, want)),
                                  "a view's items are the buffer's", lambda: f"{got}, expected {want}", case)
                        if k:
                            i, x = r.randrange(k), value_for(r, f)
                            m[i] = x
                    if k:
                        exp = raw[:(off + i) * size] + struct.pack("=" + f, x) + raw[(off + i + 1) * size:]
                        ctx.check(bytes(buf.data) == exp, "writing an item touches exactly its bytes", lambda: f"{bytes(buf.data)!r} {exp!r}", case)


def resizing(ctx):
    r = ctx.rng
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        n = r.choice([0, 1, 4, 8, 17])
        mx = n + r.choice([0, 1, 5, 20])
        raw = bytes(r.randrange(1, 256) for _ in range(n))
        buf = JSArrayBuffer(raw, max_byte_length=mx, resizable=True) if r.random() < 0.5 else JSArrayBuffer(raw, max_byte_length=mx)
        views = []
        for _ in range(3):
            t = r.choice(VIEW_TAGS)
            size = item_size(t)
            io, il = r.randrange(4), r.choice([None, 0, 1, 2])
            views.append((ArrayBufferViewStructFormat(t).view_type(buf, item_offset=io, item_length=il), io * size, None if il is None else il * size, size))
        model = raw
        ops = []
        for _ in range(r.randrange(1, 8)):
            to = r.choice([-1, 0, 1, mx - 1, mx, mx + 1, r.randrange(mx + 1), -2 ** 40, 2 ** 40])
            ops.append(to)
            ctx.case((n, mx, tuple(ops)))
            try:
                buf.resize(to)
                ctx.check(0 <= to <= mx, "resizing outside zero to the maximum is refused", "", (n, mx, ops))
                model = model[:to] + bytes(max(0, to - len(model)))
            except V8SerializeError:
                ctx.check(not 0 <= to <= mx, "resizing within the maximum succeeds", "", (n, mx, ops))
            ctx.check(bytes(buf.data) == model and buf.max_byte_length == mx and buf.resizable, "resizing keeps the prefix and zero-fills growth",
                      lambda: f"{bytes(buf.data)!r}, expected {model!r}", (n, mx, ops))
            for v, off, ln, size in views:
                check_view(ctx, v, model, off, ln, size, (n, mx, ops, type(v).__name__, off, ln))
            if r.random() < 0.5 and model:
                i = r.randrange(len(model))
                with buf.data as m:
                    m[i] = 7
                model = model[:i] + b"\x07" + model[i + 1:]
    for mk in (lambda: JSArrayBuffer(b"abc"), lambda: JSArrayBuffer(3), lambda: JSArrayBuffer(b"abc", readonly=True), lambda: JSArrayBuffer(b"abc", resizable=False),
               lambda: JSArrayBuffer(memoryview(b"abc"), copy_data=False)):
        for to in (0, 2, 3, 4):
            b = mk()
            was = bytes(b.data)
            ctx.case(("fixed", to))
            try:
                b.resize(to)
                ctx.fail("a fixed buffer cannot be resized", f"{to}")
            except V8SerializeError:
                pass
            ctx.check(bytes(b.data) == was, "a refused resize changes nothing")
    for n, mx in ((0, 0), (3, 3), (3, 10), (3, 2), (1, 0)):
        ctx.case(("new", n, mx))
        try:
            b = JSArrayBuffer(bytes(n), max_byte_length=mx)
            ctx.check(n <= mx and b.resizable and b.max_byte_length == mx and len(b.data) == n, "a buffer starts within its maximum", lambda: repr(b))
        except V8SerializeError:
            ctx.check(n > mx, "a buffer within its maximum can be made")


PARTS = parts(regions, constructors, data_view, items, resizing)
