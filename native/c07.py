"""C07: buffers and views round-trip with extent, resizability and sharing."""
from array import array
from native.common import *
from native.graph import roundtrip, iso, LOADED, WIRE
from native.wire import Ref, Bad, WireGen, vi
from v8serialize import dumps, loads, V8SerializeError
from v8serialize.encode import default_encode_steps
from v8serialize.decode import ReadableTagStream

RES = SerializationFeature.ResizableArrayBuffers
F16 = SerializationFeature.Float16Array
SETS = (None, RES, F16, RES | F16)


def tags(f):
    return [t for t in VIEW_TAGS if t.name != "kFloat16Array" or (f and f & F16)]


def region(v):
    return type(v), v.view_tag, v.byte_offset, v.byte_length, v.item_offset


def same(ctx, v, o, f, case):
    b, c = v.backing_buffer, o.backing_buffer
    on = bool(f and f & RES)
    ok = type(v) is type(o) and v.byte_offset == o.byte_offset and v.byte_length == o.byte_length
    ctx.check(ok, "a view loads as the same type over the same region", lambda: f"{region(v)} -> {region(o)}", case)
    ctx.check(bytes(b.data) == bytes(c.data), "the buffer keeps its bytes", lambda: f"{bytes(b.data)!r} -> {bytes(c.data)!r}", case)
    want = b.resizable and on
    ctx.check(c.resizable == want and c.max_byte_length == (b.max_byte_length if want else len(b.data)),
              "the buffer keeps its resizability exactly with the feature", lambda: f"{b!r} -> {c!r}", case)
    ctx.check(bool(o.is_length_tracking) == bool(v.is_length_tracking and on), "length tracking is kept exactly with the feature",
              lambda: f"{v!r} -> {o!r}", case)
    if o.is_length_tracking:
        for n in (0, 3, len(c.data), c.max_byte_length):
            if n <= c.max_byte_length:
                keep = len(b.data), bytes(b.data)
                b.resize(n)
                c.resize(n)
                ctx.check(v.byte_length == o.byte_length and v.byte_offset == o.byte_offset, "a tracking view follows its buffer",
                          lambda: f"after resizing to {n}: {region(v)} vs {region(o)}", case)
                b.resize(keep[0])
                memoryview(b.data)[:] = keep[1]
                c.resize(keep[0])
                memoryview(c.data)[:] = keep[1]


def regions(ctx):
    """Every view type over every small region, fixed and resizable buffers, all feature sets."""
    for f in SETS:
        for tag in tags(f):
            size = item_size(tag)
            for n in (0, size, 3 * size, 3 * size + size // 2):
                for mx in (None, n, n + 5):
                    raw = bytes(range(1, n + 1))
                    for off in range(0, n + 1, size):
                        for ln in [None] + list(range(0, n - off + 1, size)):
                            if ln is None and mx is None and n % size:
                                continue
                            b = JSArrayBuffer(raw) if mx is None else JSArrayBuffer(raw, max_byte_length=mx, resizable=True)
                            v = create_view(b, tag, byte_offset=off, byte_length=ln)
                            ctx.case((str(f), tag.name, n, mx, off, ln))
                            o = loads(dumps(v, features=f))
                            same(ctx, v, o, f, (str(f), tag.name, n, mx, off, ln))


def words(raw):
    """The same bytes as items of another size."""
    return array("I" if len(raw) % 4 == 0 else "H" if len(raw) % 2 == 0 else "b", raw)


def buffers(ctx):
    for f in SETS:
        for n in (0, 1, 2, 127, 128, 129, 300, 16383, 16384):
            raw = bytes(i * 7 & 255 for i in range(n))
            for mx in (None, n, n + 1, n + 300):
                for mk in (lambda: JSArrayBuffer(raw) if mx is None else JSArrayBuffer(raw, max_byte_length=mx, resizable=True),) + (
                        (lambda: raw, lambda: bytearray(raw), lambda: memoryview(raw), lambda: memoryview(b"!" + raw + b"?")[1:-1],
                         lambda: JSArrayBuffer(raw, readonly=True), lambda: JSArrayBuffer(memoryview(raw), copy_data=False),
                         lambda: JSArrayBuffer(words(raw), copy_data=False), lambda: JSArrayBuffer(words(raw)),
                         lambda: JSArrayBuffer(memoryview(words(raw)), copy_data=False, readonly=True), lambda: memoryview(words(raw)),
                         lambda: memoryview(b"".join(bytes([x, 1]) for x in raw))[::2]) if mx is None else ()):
                    b = mk()
                    ctx.case((str(f), n, mx, type(b).__name__))
                    o = loads(dumps([b, 5, b], features=f)).array
                    res = bool(mx is not None and f and f & RES)
                    ok = type(o[0]) is JSArrayBuffer and bytes(o[0].data) == raw and o[0].resizable == res and \
                        o[0].max_byte_length == (mx if res else n) and o[0] is o[2] and o[1] == 5
                    ctx.check(ok, "a buffer keeps its bytes and resizability", lambda: f"{b!r:.200} -> {o[0]!r:.200} {o[2]!r:.50}", (n, mx))


def sharing(ctx):
    """Several views of one buffer, with the buffer before, between or after them."""
    r = ctx.rng
    for i in range(ctx.scale(4000)):
        if ctx.late:
            break
        f = r.choice(SETS)
        bufs = []
        for _ in range(r.randrange(1, 3)):
            raw = bytes(r.randrange(256) for _ in range(r.choice([0, 8, 16, 24])))
            bufs.append(JSArrayBuffer(raw) if r.random() < 0.5 else
                        JSArrayBuffer(raw, max_byte_length=len(raw) + r.choice([0, 8]), resizable=True))
        vals = []
        for _ in range(r.randrange(1, 7)):
            b = r.choice(bufs)
            k = r.random()
            if k < 0.25:
                vals.append(b)
            elif k < 0.35 and vals:
                vals.append(r.choice(vals))
            elif k < 0.45:
                vals.append(JSObject(a=b))
            elif k < 0.5:
                vals.append(JSErrorData("m", cause=b))
            else:
                t = r.choice(tags(f))
                s = item_size(t)
                n = len(b.data)
                off = s * r.randrange(n // s + 1)
                ln = None if r.random() < 0.4 else s * r.randrange((n - off) // s + 1)
                nv = create_view(b, t, byte_offset=off, byte_length=ln)
                same_v = [x for x in vals if type(x) is type(nv) and x == nv and same_object(x, nv)]
                vals.append(same_v[0] if same_v else nv)
        ctx.case((str(f), vals))
        roundtrip(ctx, vals, "buffers and views", features=f)
        out = loads(dumps(vals, features=f)).array
        # writing through one view is seen through all others of the same buffer
        seen = {}
        for v, o in zip(vals, out):
            if isinstance(v, JSArrayBufferView):
                ctx.check(seen.setdefault(id(v.backing_buffer), o.backing_buffer) is o.backing_buffer,
                          "views sharing a buffer still share it", lambda: safe_repr(out), vals)


def shrunk(ctx):
    """Views after their buffer was resized: in range or not, fixed or tracking."""
    for f in SETS:
        for tag in tags(f):
            s = item_size(tag)
            for off in (0, s, 2 * s):
                for ln in (None, 0, s, 2 * s):
                    for n2 in sorted({0, 1, s, 2 * s, 3 * s, 4 * s, 4 * s + 1}):
                        b = JSArrayBuffer(bytes(range(4 * s)), max_byte_length=4 * s + 3, resizable=True)
                        v = create_view(b, tag, byte_offset=off, byte_length=ln)
                        b.resize(n2)
                        ctx.case((str(f), tag.name, off, ln, n2))
                        o = loads(dumps(v, features=f))
                        same_region = o.byte_length == v.byte_length and o.byte_offset == v.byte_offset and type(o) is type(v)
                        if ln is None and not v.is_in_range and f and f & RES and not same_region:
                            if "K-oob-tracking" not in ctx.known:
                                ctx.known.append("K-oob-tracking")
                            continue
                        ctx.check(same_region, "a view of a resized buffer keeps its current region",
                                  lambda: f"{region(v)} -> {region(o)}", (tag.name, off, ln, n2))
                        ctx.check(bytes(o.backing_buffer.data) == bytes(b.data), "the buffer keeps its bytes", "", (tag.name, off, ln, n2))


def foreign(ctx):
    """Buffers and views as V8 writes them, in versions 13 to 15."""
    r = ctx.rng
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        w = WireGen(r, version=r.choice([13, 14, 15]), kinds=["buf", "rbuf", "view", "arr", "ids"]).make(r.choice(["buf", "rbuf", "view", "arr"]))
        ctx.case(w)
        try:
            iso(Ref(w).load(), WIRE, loads(w), LOADED)
        except Mismatch as e:
            ctx.fail("buffers and views load as described", f"{e}; {w!r:.400}", w)
    # views over buffers whose bytes are elsewhere
    for mk, c in ((JSSharedArrayBuffer, "u"), (JSArrayBufferTransfer, "t")):
        v = create_view(mk(4), ArrayBufferViewTag.kUint16Array, byte_offset=4, byte_length=2)
        o = loads(dumps(v))
        ctx.check(type(o) is type(v) and type(o.backing_buffer) is mk, "a view over a shared or transferred buffer keeps its type",
                  lambda: f"{v!r} -> {o!r}")
        x = loads(b"\xff\x0f" + c.encode() + b"\x05VW\x04\x02\x00")
        ctx.check(x.item_offset == 2 and x.item_length == 1, "a view over a shared or transferred buffer is read with its region",
                  lambda: repr(x))
        if o.item_offset != v.item_offset or o.item_length != v.item_length:
            if "K-shared-view" not in ctx.known:
                ctx.known.append("K-shared-view")


def alike(ctx):
    """Views with equal contents over different regions, buffers, or of different extents, in one message."""
    r = ctx.rng
    for _ in range(ctx.scale(3000)):
        if ctx.late:
            break
        f = r.choice(SETS)
        raw = r.choice([b"abab" * 4, bytes(16), b"abcdefgh" * 2])
        mk = lambda: r.choice([lambda: raw, lambda: JSArrayBuffer(raw), lambda: JSArrayBuffer(raw, readonly=True),
                               lambda: JSArrayBuffer(raw, max_byte_length=len(raw) + 4, resizable=True)])()
        bufs = [mk() for _ in range(2)]
        vals = []
        for _ in range(r.randrange(2, 6)):
            b, t = r.choice(bufs), r.choice(tags(f))
            s = item_size(t)
            off = s * r.randrange(len(raw) // s + 1)
            ln = None if r.random() < 0.4 else s * r.randrange((len(raw) - off) // s + 1)
            vals.append(create_view(b, t, byte_offset=off, byte_length=ln))
        ctx.case((str(f), vals))
        out = loads(dumps(vals, features=f)).array
        for v, o in zip(vals, out):
            ctx.check(type(v) is type(o) and v.byte_offset == o.byte_offset and v.byte_length == o.byte_length and
                      v.get_buffer_as_memoryview().tobytes() == o.get_buffer_as_memoryview().tobytes(),
                      "a view keeps its own region next to views of equal contents", lambda: f"{region(v)} -> {region(o)}", vals)
            b, c = v.backing_buffer, o.backing_buffer
            want = bool(getattr(b, "resizable", False) and f and f & RES)
            ctx.check(c.resizable == want and c.max_byte_length == (b.max_byte_length if want else len(raw)),
                      "the buffer of a view keeps its resizability next to buffers of equal contents", lambda: f"{b!r} -> {c!r}", vals)
            ctx.check(bool(o.is_length_tracking) == bool(v.is_length_tracking and want),
                      "length tracking is kept next to views of equal contents", lambda: f"{v!r} -> {o!r}", vals)


def elsewhere(ctx):
    """Views over Python buffers other than bytes, bytearray and memoryview (known finding)."""
    for raw in (b"abcdefgh", b"", b"abc"):
        v = create_view(words(raw), ArrayBufferViewTag.kInt8Array)
        ctx.case(raw)
        try:
            x = loads(dumps([v, 1])).array
            ok = type(x[0]) is type(v) and x[0].byte_length == len(raw) and bytes(x[0].backing_buffer.data) == raw and x[1] == 1
        except V8SerializeError:
            ok = False
        if not ok and "K-foreign-buffer" not in ctx.known:
            ctx.known.append("K-foreign-buffer")


PARTS = parts(elsewhere, regions, buffers, sharing, shrunk, foreign, alike)
