"""C05: writers and readers number objects identically."""
import re
from native.common import *
from native.graph import roundtrip, iso, WRITTEN, LOADED, WIRE
from native.wire import Ref, Bad, WireGen, vi
from v8serialize import dumps, loads, DecodeV8SerializeError
from v8serialize.encode import default_encode_steps
from v8serialize.decode import ReadableTagStream
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object as node_views

ALL = ~SerializationFeature(0)
NODE = [default_encode_steps[0], node_views, *default_encode_steps[1:]]


def samples():
    buf = lambda: JSArrayBuffer(b"12345678")
    rbuf = lambda: JSArrayBuffer(b"12345678", max_byte_length=16, resizable=True)
    return dict(
        null=lambda: None, undefined=lambda: JSUndefined, true=lambda: True, int=lambda: 7, big=lambda: 2 ** 80,
        float=lambda: 1.5, str=lambda: "s",
        obj=JSObject, obj1=lambda: JSObject(a=JSObject(b=1)), arr=JSArray, arr1=lambda: JSArray([JSArray([1])]),
        sparse=lambda: JSArray([JSHole] * 50 + [JSObject()]), map=JSMap, map1=lambda: JSMap([(JSObject(), JSObject())]),
        set=JSSet, set1=lambda: JSSet([JSObject(), 1]), list=lambda: [[]], dict=lambda: {"a": []},
        err=lambda: JSErrorData("m"), err0=lambda: JSErrorData(), err_cause=lambda: JSErrorData("m", cause=JSObject()),
        err_prim=lambda: JSErrorData("m", name="TypeError", stack="s", cause=1), jserr=lambda: JSError("x", cause=JSObject()),
        exc=lambda: ValueError("x"), re=lambda: JSRegExp("a"), pyre=lambda: re.compile("zz+"),
        date=lambda: datetime(2020, 1, 2, 3, 4, 5), p_true=lambda: JSPrimitiveObject(True),
        p_false=lambda: JSPrimitiveObject(False), p_num=lambda: JSPrimitiveObject(1.5), p_str=lambda: JSPrimitiveObject("s"),
        p_big=lambda: JSPrimitiveObject(2 ** 90), buf=buf, rbuf=rbuf, bytes=lambda: b"abc", bytearray=lambda: bytearray(b"abc"),
        mv=lambda: memoryview(b"abcd"),
        view=lambda: create_view(buf(), ArrayBufferViewTag.kUint8Array), rview=lambda: create_view(rbuf(), ArrayBufferViewTag.kInt16Array),
        dview=lambda: create_view(buf(), ArrayBufferViewTag.kDataView), sab=lambda: JSSharedArrayBuffer(3),
        sabview=lambda: create_view(JSSharedArrayBuffer(4), ArrayBufferViewTag.kUint8Array, byte_offset=0, byte_length=2),
        xferview=lambda: create_view(JSArrayBufferTransfer(4), ArrayBufferViewTag.kUint8Array, byte_offset=0, byte_length=2),
        xfer=lambda: JSArrayBufferTransfer(3), shared=lambda: V8SharedObjectReference(5))


def probe(ctx, vals, label, **kw):
    """vals followed by a marker object twice: the reference must find the marker."""
    mark = JSObject(mark=1)
    v = list(vals) + [mark, mark]
    data = dumps(v, **kw)
    out = loads(data)
    a, b = out.array[len(v) - 2], out.array[len(v) - 1]
    ctx.check(isinstance(a, JSObject) and a is b and a.get("mark") == 1, label, lambda: f"{safe_repr(v)} -> {safe_repr(out)}; {data!r:.300}", vals)
    return v, data, out


def each_kind(ctx):
    """One, two and three values of every kind before a repeated object, with and without features and Node views."""
    S = samples()
    for f in (None, ALL):
        for n1, m1 in S.items():
            for steps in (default_encode_steps, NODE):
                ctx.case((n1, bool(f), len(steps)))
                a = m1()
                v, data, out = probe(ctx, [a], f"a {n1} takes the same number of object numbers when written and read", features=f, encode_steps=steps)
                # the same value twice, then the marker
                v, data, out = probe(ctx, [a, a], f"a repeated {n1} keeps the numbering", features=f, encode_steps=steps)
                if not isinstance(a, (type(None), bool, int, float, str, JSPrimitiveObject)) and a is not JSUndefined:
                    ctx.check(out.array[0] is out.array[1], f"a {n1} occurring twice loads as one object", lambda: f"{data!r:.300}", n1)
                if steps is default_encode_steps and not n1 in ("exc", "pyre", "mv", "jserr"):
                    roundtrip(ctx, v, f"a repeated {n1}", features=f)
        for n1, m1 in S.items():
            for n2, m2 in S.items():
                ctx.case((n1, n2, bool(f)))
                probe(ctx, [m1(), m2()], f"{n1} then {n2} keep the numbering", features=f)


def nested(ctx):
    """Every kind as member of every kind of container, before a repeated object."""
    S = samples()
    boxes = dict(obj=lambda x: JSObject(a=x), arr=lambda x: JSArray([x]), sparse=lambda x: JSArray([JSHole] * 50 + [x]),
                 arrprop=lambda x: sp(x), mapk=lambda x: JSMap([(x, 1)]), mapv=lambda x: JSMap([(1, x)]), set=lambda x: JSSet([x]),
                 list=lambda x: [x], dict=lambda x: {"a": x}, err=lambda x: JSErrorData(cause=x),
                 err2=lambda x: JSErrorData("m", name="RangeError", stack="s", cause=x))
    for f in (None, ALL):
        for nb, mb in boxes.items():
            for n1, m1 in S.items():
                ctx.case((nb, n1, bool(f)))
                x = m1()
                box = mb(x)
                v, data, out = probe(ctx, [box, x, box], f"a {n1} in a {nb} keeps the numbering", features=f)
                ctx.check(out.array[0] is out.array[2], f"a {nb} occurring twice loads as one object", lambda: repr(data)[:300], (nb, n1))


def sp(x):
    a = JSArray([1])
    a["p"] = x
    return a


def cycles(ctx):
    """Values that contain themselves directly or through every other container."""
    def obj():
        o = JSObject()
        return o, lambda x: o.__setitem__("a", x), lambda y: y["a"]

    def arr():
        o = JSArray()
        return o, o.array.append, lambda y: y.array[0]

    def sparse():
        o = JSArray()
        return o, lambda x: o.__setitem__(5000, x), lambda y: y[5000]

    def prop():
        o = JSArray()
        return o, lambda x: o.__setitem__("p", x), lambda y: y["p"]

    def mapv():
        o = JSMap()
        return o, lambda x: o.__setitem__("a", x), lambda y: y["a"]

    def mapk():
        o = JSMap()
        return o, lambda x: o.__setitem__(x, 1), lambda y: list(y)[0]

    def set_():
        o = JSSet()
        return o, o.add, lambda y: list(y)[0]

    def lst():
        o = []
        return o, o.append, lambda y: y.array[0]

    def dct():
        o = {}
        return o, lambda x: o.__setitem__("a", x), lambda y: y["a"]

    def err():
        o = JSErrorData("m")
        return o, lambda x: setattr(o, "cause", x), lambda y: y.cause
    makers = [obj, arr, sparse, prop, mapv, mapk, set_, lst, dct, err]
    for m in makers:
        for pre in (0, 1, 3):
            o, put, get = m()
            put(o)
            ctx.case((m.__name__, pre))
            out = loads(dumps([JSObject()] * pre + [JSObject(), o], features=ALL)).array[pre + 1]
            ctx.check(get(out) is out, f"a {m.__name__} containing itself loads as a cycle", lambda: safe_repr(get(out)))
            o, put, get = m()
            put(o)
            out = loads(dumps(o, features=ALL))
            ctx.check(get(out) is out, f"a top-level {m.__name__} containing itself loads as a cycle", lambda: safe_repr(get(out)))
    for m in makers:
        for n in makers:
            for extra in (False, True):
                o, put, get = m()
                p, put2, get2 = n()
                put(p)
                put2(o)
                ctx.case((m.__name__, n.__name__, extra))
                v = [b"x" * 3, o, p] if extra else o
                out = loads(dumps(v, features=ALL))
                x = out.array[1] if extra else out
                ctx.check(get2(get(x)) is x and (not extra or out.array[2] is get(x)),
                          f"a {m.__name__} and a {n.__name__} containing each other load as a cycle", lambda: safe_repr(x))


def graphs(ctx):
    for _ in range(ctx.scale(4000)):
        if ctx.late:
            break
        g = Gen(ctx.rng, size=ctx.rng.choice([10, 30, 60]))
        v = [g.value(0) for _ in range(ctx.rng.randrange(1, 5))]
        for _ in range(ctx.rng.randrange(4)):
            if g.pool:
                v.append(ctx.rng.choice(g.pool))
        ctx.case(v)
        roundtrip(ctx, v, "numbering in random graphs", features=ALL)


def backing(ctx):
    """Views over the same buffer, whatever kind of buffer, and the buffer itself, in every order."""
    rest = dict(bytes=lambda: b"0123456789abcdef", bytearray=lambda: bytearray(b"0123456789abcdef"), mv=lambda: memoryview(b"0123456789abcdef"),
                mva=lambda: memoryview(bytearray(b"0123456789abcdef")), buf=lambda: JSArrayBuffer(b"0123456789abcdef"),
                rbuf=lambda: JSArrayBuffer(b"0123456789abcdef", max_byte_length=32, resizable=True),
                sab=lambda: JSSharedArrayBuffer(3), xfer=lambda: JSArrayBufferTransfer(3))
    tags = [ArrayBufferViewTag.kUint8Array, ArrayBufferViewTag.kInt32Array, ArrayBufferViewTag.kDataView]
    for f in (None, ALL):
        for n, mk in rest.items():
            for order in ("vb", "bv", "vv", "vvb", "vbv", "bvv", "vBv", "VVb"):
                b = mk()
                vals, i = [], 0
                for o in order:
                    if o == "b":
                        vals.append(b)
                    elif o == "B":      # inside a collection of its own
                        vals.append([b])
                    else:
                        t = tags[(i + len(n)) % 3] if o == "v" else tags[0]
                        vals.append(create_view(b, t, byte_offset=4 * i, byte_length=4))
                        i += 1
                ctx.case((n, order, bool(f)))
                v, data, out = probe(ctx, vals, "views of one buffer keep the numbering", features=f)
                got = [x.backing_buffer if isinstance(x, JSArrayBufferView) else x.array[0] if isinstance(x, JSArray) else x
                       for x in list(out.array)[:len(vals)]]
                ctx.check(all(x is got[0] for x in got), "views of one buffer and the buffer load as one buffer",
                          lambda: f"{n} {order}: {safe_repr(out)}; {data!r:.300}", (n, order))
            # repeated views, and the same view in two places
            b = mk()
            w = create_view(b, tags[0], byte_offset=0, byte_length=4)
            ctx.case((n, "same view", bool(f)))
            v, data, out = probe(ctx, [w, [w], w, b], "views of one buffer keep the numbering", features=f)
            a = out.array
            ctx.check(a[0] is a[2] and a[1].array[0] is a[0] and a[0].backing_buffer is a[3], "one view loads as one view",
                      lambda: f"{n}: {safe_repr(out)}; {data!r:.300}", n)


def foreign(ctx):
    """References in data from other writers; numbers not assigned (yet) are rejected."""
    r = ctx.rng
    for _ in range(ctx.scale(4000)):
        if ctx.late:
            break
        g = WireGen(r, version=r.choice([13, 14, 15]), size=15)
        body = g.make()[2:]
        while g.out[-1:] == b"":
            break
        ver = g.version
        n = g.count
        head = b"\xff" + vi(ver)
        # renumber: wrap as [ref?] would shift ids, so put the extra element after
        ctx.case(body)
        try:
            want = Ref(head + body).load()
        except Bad:
            continue
        try:
            iso(want, WIRE, loads(head + body), LOADED)
        except Mismatch as e:
            ctx.fail("references resolve to the object V8 numbers so", f"{e}; {(head + body)!r:.500}", body)
    kinds = ["obj", "arr", "sparse", "map", "set", "err", "date", "wrapped", "regexp", "buf", "rbuf", "ids", "node"]
    for k in kinds:
        for _ in range(ctx.scale(40)):
            g = WireGen(r, size=6)
            g.out += b"\xff\x0f"
            g.w(b"A" + vi(2))
            g.count = 1
            getattr(g, k)(1)
            pre = bytes(g.out)
            for i in (g.count, g.count + 1, g.count + 7, 127, 128, 2 ** 32 - 1):
                if i < g.count:
                    continue
                x = pre + b"^" + vi(i) + b"$\x00\x02"
                ctx.case(x)
                try:
                    out = loads(x)
                except DecodeV8SerializeError:
                    continue
                ctx.fail("a reference to an unassigned number is rejected", f"id {i} of {g.count}: {safe_repr(out)}; {x!r:.400}", x)
            x = pre + b"^" + vi(g.count - 1) + b"$\x00\x02"
            try:
                iso(Ref(x).load(), WIRE, loads(x), LOADED)
            except Mismatch as e:
                ctx.fail("the last number assigned is the last object's", f"{e}; {x!r:.400}", x)
    for x in (b"^\x00", b"A\x01^\x01$\x00\x01", b"A\x02^\x01o{\x00$\x00\x02", b"o^\x00", b";^\x01^\x00:\x02", b"'^\x01,\x01",
              b"rc^\x01.", b"^\xff\xff\xff\xff\x0f", b"A\x02B\x00^\x02$\x00\x02"):
        ctx.case(x)
        try:
            out = loads(b"\xff\x0f" + x)
        except DecodeV8SerializeError:
            continue
        ctx.fail("a reference to an unassigned number is rejected", f"{x!r} -> {safe_repr(out)}", x)


def host(ctx):
    """Host objects written and read with custom code."""
    class Thing:
        def __init__(self, n):
            self.n = n

    def ser(*, stream, value):
        stream.write_varint(value.n)

    def de(*, stream):
        return Thing(stream.read_varint())

    def step(value, /, ctx, next):
        if isinstance(value, Thing):
            return ctx.stream.write_host_object(value, serializer=ser)
        return next(value)
    steps = [default_encode_steps[0], step, *default_encode_steps[1:]]
    S = samples()
    for n1, m1 in S.items():
        t, o = Thing(5), JSObject(m=1)
        v = [m1(), t, o, t, o]
        ctx.case(n1)
        out = loads(dumps(v, encode_steps=steps), host_object_deserializer=de)
        a = out.array
        ctx.check(isinstance(a[1], Thing) and a[1].n == 5 and a[1] is a[3] and a[2] is a[4] and a[2]["m"] == 1,
                  "host objects take one number", lambda: safe_repr(out), n1)

    # known finding: objects inside host object data are numbered before the host object when read
    def ser2(*, stream, value):
        stream.write_js_date(datetime(2020, 1, 1))

    def de2(*, stream):
        stream.read_js_date(tag=True)
        return Thing(1)

    def step2(value, /, ctx, next):
        if isinstance(value, Thing):
            return ctx.stream.write_host_object(value, serializer=ser2)
        return next(value)
    t = Thing(1)
    steps = [default_encode_steps[0], step2, *default_encode_steps[1:]]
    out = loads(dumps([t, t], encode_steps=steps), host_object_deserializer=de2)
    if not out.array[0] is out.array[1]:
        ctx.known.append("K-host-nested")


def many(ctx):
    """Hashable objects occurring again after hundreds of others."""
    for n in (100, 127, 128, 129, 130, 300, 1100):
        for mk in (lambda i: JSRegExp(f"r{i}"), lambda i: b"%d" % i, lambda i: JSSharedArrayBuffer(i), lambda i: (i,), lambda i: JSPrimitiveObject(f"{i}"),
                   lambda i: frozenset([i]), lambda i: datetime(2020, 1, 1) + timedelta(seconds=i), lambda i: create_view(JSArrayBuffer(b"%d" % i), ArrayBufferViewTag.kUint8Array)):
            a, b = mk(0), mk(0)
            rest = [mk(i) for i in range(1, n + 1)]
            ctx.case((n, repr(a)))
            mark = JSObject(mark=1)
            v = [a, b, *rest, b, a, mark, *rest, mark, b]
            out = loads(dumps(v)).array
            ctx.check(out[1] is out[n + 2] and out[0] is out[n + 3] and out[n + 4] is out[2 * n + 5] and out[1] is out[2 * n + 6] or isinstance(a, JSPrimitiveObject),
                      "an object occurring again after many others is the same object", lambda: f"{n} after {a!r}", (n, repr(a)))
            ctx.check(all(out[2 + i] is out[n + 5 + i] or isinstance(a, JSPrimitiveObject) for i in range(n)),
                      "objects occurring again after many others are the same objects", lambda: f"{n} of {rest[0]!r}", (n, repr(a)))
            ctx.check(out[2 * n + 5].get("mark") == 1, "an object occurring again after many others is the same object", lambda: f"{n} after {a!r}", (n, repr(a)))


PARTS = parts(many, each_kind, nested, cycles, graphs, backing, foreign, host)
