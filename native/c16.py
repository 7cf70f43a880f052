"""C16: Node.js buffer host objects round-trip and match Node's layout."""
from native.common import *
from native.wire import Ref, Bad, vi, NODE_VIEWS
from v8serialize import dumps, loads, default_encode_steps, DecodeV8SerializeError, V8SerializeError, TagReader, Decoder
from v8serialize.encode import UnhandledValueEncodeV8SerializeError
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object as step
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler

F = SerializationFeature
CODES = {"kInt8Array": 0, "kUint8Array": 1, "kUint8ClampedArray": 2, "kInt16Array": 3, "kUint16Array": 4, "kInt32Array": 5, "kUint32Array": 6,
         "kFloat32Array": 7, "kFloat64Array": 8, "kDataView": 9, "kBigInt64Array": 11, "kBigUint64Array": 12}
KIND = {c: t for t, c in CODES.items()} | {10: "kUint8Array"}
STEPS = [step, *default_encode_steps]
STEPS2 = [default_encode_steps[0], step, *default_encode_steps[1:]]


def write(ctx):
    """Every view kind over every region of buffers of many lengths."""
    r = ctx.rng
    lengths = [0, 1, 2, 3, 7, 8, 9, 16, 24, 127, 128, 129, 200] + ([1000, 16384, 20000] if ctx.thorough else [16384])
    for n in lengths:
        raw = bytes(r.randrange(256) for _ in range(n))
        for t in VIEW_TAGS:
            size = item_size(t)
            regions = []
            for off in {0, size, 2 * size, (n // size) * size, 3 * size}:
                if off > n:
                    continue
                k = (n - off) // size
                for ln in {0, size, k * size, k // 2 * size, max(0, k - 1) * size}:
                    if off + ln <= n:
                        regions.append((off, ln))
                if (n - off) % size == 0:
                    regions.append((off, None))
            for off, ln in regions:
                for res in (False, True):
                    buf = JSArrayBuffer(raw, max_byte_length=n + 10, resizable=True) if res else JSArrayBuffer(raw)
                    v = create_view(buf, t, byte_offset=off, byte_length=ln)
                    if ln is None:
                        e = (n - off) // size * size
                        e = n - off if t.name == "kDataView" else e
                    else:
                        e = ln
                    want = raw[off:off + e]
                    case = (t.name, n, off, ln, res)
                    ctx.case(case)
                    if t.name == "kFloat16Array":
                        one(ctx, v, case)
                        continue
                    d = dumps(v, encode_steps=STEPS)
                    exp = b"\xff\x0f\\" + vi(CODES[t.name]) + vi(len(want)) + want
                    ctx.check(d == exp, "a host object is the tag, Node's code, the length and exactly the exposed bytes",
                              lambda: f"{case}: {d[:60]!r}, expected {exp[:60]!r}", case)
                    for how, out in (("default", loads(d)), ("nodejs", loads(d, nodejs=True)), ("data after", loads(d + b"tail"))):
                        ctx.check(type(out) is type(v) and view_bytes(out) == want and not out.is_length_tracking | out.is_backing_buffer_resizable
                                  and out.byte_offset == 0,
                                  "a host object loads as a view of the same kind with the same bytes", lambda: f"{case} {how}: {safe_repr(out)}", case)


def view_bytes(v):
    with v.get_buffer_as_memoryview() as m:
        return bytes(m)


def one(ctx, v, case):
    """Half floats have no code: passed on to the ordinary encoding."""
    try:
        a = dumps(v, encode_steps=STEPS)
    except V8SerializeError as e:
        a = type(e)
    try:
        b = dumps(v)
    except V8SerializeError as e:
        b = type(e)
    ctx.check(a == b, "kinds without a code are passed on to the ordinary encoding", lambda: f"{case}: {a!r:.100} {b!r:.100}", case)
    fs = F.Float16Array | F.ResizableArrayBuffers
    a, b = dumps(v, encode_steps=STEPS, features=fs), dumps(v, features=fs)
    ctx.check(a == b, "kinds without a code are passed on to the ordinary encoding", lambda: f"{case}: {a!r:.100} {b!r:.100}", case)
    seen = []

    def next_step(value, /, ctx, next):
        seen.append(value)
        return ctx.stream.write_uint32(1)
    dumps(v, encode_steps=[step, next_step])
    ctx.check(len(seen) == 1 and seen[0] is v, "kinds without a code are passed on", lambda: repr(seen), case)


def mixed(ctx):
    """Host objects among other values, shared and repeated."""
    r = ctx.rng
    for i in range(ctx.scale(500)):
        if ctx.late:
            break
        g = Gen(r, size=15, kinds=["view", "buf", "list", "map", "obj", "rview", "date", "set"], features=False)
        vs = []

        def views(x, depth=0):
            if isinstance(x, JSArrayBufferView):
                vs.append(x)
        v = [g.value() for _ in range(4)]
        v += [p for p in g.pool if isinstance(p, JSArrayBufferView)]
        v += v[:2] if r.random() < 0.5 else []
        ctx.case((i, safe_repr(v)))
        for sts in (STEPS2,):
            d = dumps(v, encode_steps=sts)
            try:
                n = Ref(d).load()
            except Bad as e:
                ctx.fail("data with host objects is well formed", f"{e} {d!r:.400}", i)
                continue
            out = loads(d)
            for x, y in zip(v, out.array):
                if isinstance(x, JSArrayBufferView):
                    ctx.check(type(x) is type(y) and view_bytes(x) == view_bytes(y), "a host object loads as a view of the same kind with the same bytes",
                              lambda: f"{safe_repr(x)} {safe_repr(y)}", i)
            first = {}
            for x, y in zip(v, out.array):
                if isinstance(x, (JSArrayBufferView, JSObject, JSMap)):
                    ctx.check(first.setdefault(id(x), y) is y, "values repeated around host objects stay the same value", lambda: safe_repr(v), i)


def read(ctx):
    """All codes and lengths when reading."""
    r = ctx.rng
    hosts = {"default": {}, "nodejs": dict(nodejs=True), "handler": dict(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler()),
             "steps": dict(decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])}
    codes = list(range(40)) + [63, 98, 66, 67, 119, 104, 127, 128, 200, 255, 256, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
    for code in codes:
        for have in (0, 1, 2, 7, 8, 9, 16, 130):
            for extra in (0, 1, 2, 8, 2 ** 31, 2 ** 32 - 1 - have, -1, -3, -8):
                ln = have + extra
                if ln < 0:
                    continue
                raw = bytes(r.randrange(256) for _ in range(have))
                for how, kw in hosts.items():
                    for pre in (b"\xff\x0f\\", b"\xff\x0d\\", b"\xff\x0fA\x02T\\", b"\xff\x0eo" + b"S\x01a\\"):
                        d = pre + vi(code) + vi(ln) + raw
                        ctx.case((code, ln, have, pre))
                        try:
                            out = loads(d, **kw)
                            ok = True
                        except DecodeV8SerializeError:
                            ok = False
                        bad = code not in KIND or ln > have
                        if bad:
                            ctx.check(not ok, "an unknown code or a length exceeding the data is rejected", lambda: f"{d!r:.200} -> {safe_repr(out)}", d)
                            continue
                        if len(pre) > 3:        # truncated container or data following: only rejects or reads on
                            continue
                        size = item_size(ArrayBufferViewTag[KIND[code]])
                        if ln % size:
                            # not item-aligned: Node exposes whole items only
                            if ok and isinstance(out, JSTypedArray):
                                ctx.check(len(view_bytes(out)) <= ln and raw.startswith(view_bytes(out)), "a host object exposes only its bytes", lambda: f"{d!r}", d)
                            continue
                        ctx.check(ok and view_kind(out) == KIND[code] and view_bytes(out) == raw[:ln],
                                  "a host object loads as a view of its kind with its bytes", lambda: f"{d!r:.200} -> {safe_repr(out) if ok else 'rejected'}", d)
    for code in KIND:       # followed by data; inside containers
        size = item_size(ArrayBufferViewTag[KIND[code]])
        for k in range(6):
            raw = bytes(range(k * size))
            d = b"\xff\x0fA\x03\\" + vi(code) + vi(len(raw)) + raw + b"S\x01z^\x01$\x00\x03"
            ctx.case(d)
            a = loads(d).array
            ctx.check(view_kind(a[0]) == KIND[code] and view_bytes(a[0]) == raw and a[1] == "z" and a[2] is a[0],
                      "reading continues after the host object's bytes", lambda: safe_repr(a), d)
            try:
                loads(d, nodejs=False)
                ctx.fail("host objects are rejected without Node.js support", repr(d))
            except DecodeV8SerializeError:
                pass
    for d in (b"\xff\x0f\\", b"\xff\x0f\\\x01", b"\xff\x0f\\\x81", b"\xff\x0f\\\x01\x80", b"\xff\x0f\\\xff\xff\xff\xff\xff\xff\x01"):
        ctx.case(d)
        try:
            ctx.fail("a truncated host object is rejected", safe_repr(loads(d)))
        except DecodeV8SerializeError:
            pass


def view_kind(v):
    return getattr(v.view_tag, "name", None)


PARTS = parts(write, mixed, read)
