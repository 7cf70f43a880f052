"""C15: only strings and numbers are ever written or accepted as object keys."""
import enum
import re
from native.common import *
from native.wire import Ref, Bad, vi
from v8serialize import dumps, loads, default_encode_steps, DecodeV8SerializeError, TagReader
from v8serialize.encode import EncodeV8SerializeError, DefaultEncodeContext, WritableTagStream, TagWriter
from v8serialize.decode import ReadableTagStream, DefaultDecodeContext
from v8serialize.constants import SerializationTag, SerializationFeature

KEY_TAGS = set('IUNS"c')
WRAPPED = set("ns")         # wrapped numbers and strings read as the number or string


class IntSub(int):
    pass


class StrSub(str):
    pass


class Col(enum.IntEnum):
    A = 3


def candidates(r):
    out = [None, True, False, JSUndefined, JSHole, *INTS, *FLTS, *STRS, IntSub(7), StrSub("s"), Col.A, 2 ** 300, -2 ** 300,
           b"b", bytearray(b"b"), memoryview(b"m"), [], [1], (), (1,), {}, {"a": 1}, set(), {1}, frozenset([2]),
           JSObject(), JSObject(a=1), JSArray([1]), JSArray(), JSMap(), JSMap([(1, 2)]), JSSet([1]), JSErrorData("m"), JSError("m"), ValueError("x"),
           JSRegExp("a"), re.compile("a"), datetime(2020, 1, 1), JSArrayBuffer(b"ab"), JSArrayBuffer(b"a", max_byte_length=4, resizable=True),
           JSSharedArrayBuffer(1), JSArrayBufferTransfer(2), V8SharedObjectReference(3),
           create_view(JSArrayBuffer(b"abcd"), ArrayBufferViewTag.kUint8Array, byte_offset=0, byte_length=2),
           JSPrimitiveObject(True), JSPrimitiveObject(False), JSPrimitiveObject(1.5), JSPrimitiveObject("s"), JSPrimitiveObject(2 ** 80),
           JSPrimitiveObject(5, tag=SerializationTag.kBigIntObject), object(), range(3), iter([]), type, 1j]
    return out + [r.getrandbits(r.choice([8, 33, 54, 70])) * r.choice([1, -1]) for _ in range(10)]


def allowed(k):
    """True must be written, False must fail, None either."""
    if isinstance(k, bool):
        return False
    if isinstance(k, (int, float, str)):
        return True
    if isinstance(k, JSPrimitiveObject) and k.tag.name in ("kNumberObject", "kStringObject"):
        return None
    return False


def write_forms():
    def obj(s, c, k, v):
        s.write_js_object([(k, v)], c)

    def two(s, c, k, v):
        s.write_js_object([("first", JSObject(q=1)), (k, v)], c)

    def dense(s, c, k, v):
        s.write_js_array_dense([1, True], c, properties=[(k, v)], identity=object())

    def sparse(s, c, k, v):
        s.write_js_array_sparse([(k, v)], c, length=10)
    return dict(obj=obj, two=two, dense=dense, sparse=sparse)


VALUES = [None, True, JSUndefined, 2 ** 70, b"bytes", JSObject(a=None), JSMap([(None, True)]), [None, 2 ** 70], JSErrorData("m", cause=True),
          datetime(2021, 1, 1), JSRegExp("x"), JSSet([True])]


def first_key_tag(data, form):
    x = Ref(b"\xff\x0f" + bytes(data))
    x.header()
    t = x.tag()
    if form == "two":
        assert t == "o"
        x.value()
        x.value()
    elif form == "dense":
        x.varint()
        x.value()
        x.value()
    elif form == "sparse":
        x.varint()
    return x.tag(), x


def keys(ctx):
    """Every kind of key in every place a property key is written."""
    r = ctx.rng
    ks = candidates(r)
    for form, write in write_forms().items():
        for k in ks:
            for v in VALUES if ctx.thorough or r.random() < 0.15 else VALUES[:3]:
                ctx.case((form, safe_repr(k), safe_repr(v)))
                c = DefaultEncodeContext()
                s = c.stream
                want = allowed(k)
                try:
                    write(s, c, k, v)
                    ok = True
                except EncodeV8SerializeError as e:
                    ok = False
                except OverflowError:
                    ok = None
                case = (form, safe_repr(k))
                if want is not None:
                    ctx.check(ok == want, "keys that are strings or numbers are written and all others fail with an encode error",
                              lambda: f"{safe_repr(k)} as {form} key: {'written' if ok else 'failed'} {bytes(s.data)!r:.200}", case)
                if ok:
                    t, x = first_key_tag(s.data, form)
                    ctx.check(t in KEY_TAGS or (want is None and t in WRAPPED), "only strings and numbers reach the output as keys",
                              lambda: f"{safe_repr(k)} written with tag {t!r}: {bytes(s.data)!r:.200}", case)
                    if want:
                        got = x.plain(t).v
                        if isinstance(k, int) and not -SAFE <= k <= SAFE:
                            ctx.check(got == str(int(k)), "integers too large for a number are written as their decimal text", lambda: f"{k} -> {got!r}", case)
                        elif isinstance(k, str):
                            ctx.check(got == k, "the key written is the key given", lambda: f"{k!r} -> {got!r}", case)
                        else:
                            ctx.check(isinstance(got, (int, float)) and (got == k or got != got and k != k), "the key written is the key given",
                                      lambda: f"{k!r} -> {got!r}", case)
                # whatever happened, later writes are not restricted
                for later in VALUES:
                    pos = s.pos
                    try:
                        c.encode_object(later)
                    except Exception as e:
                        ctx.fail("the restriction on keys is lifted afterwards", f"after {safe_repr(k)} as {form} key: {later!r}: {type(e).__name__}: {e}", case)
                        break
                    if isinstance(later, int) and not isinstance(later, bool):
                        ctx.check(chr(s.data[pos]) == "Z", "later integers are written as integers", lambda: repr(bytes(s.data[pos:])), case)


def steps(ctx):
    """Custom steps that write keys themselves, fail, catch failures and recover, at any nesting."""
    r = ctx.rng
    T = SerializationTag

    def const(tag):
        return lambda s, c: s.write_constant(tag)
    direct = {
        "null": const(T.kNull), "true": const(T.kTrue), "false": const(T.kFalse), "hole": const(T.kTheHole), "undefined": const(T.kUndefined),
        "bigint": lambda s, c: s.write_bigint(5), "map": lambda s, c: s.write_jsmap([], c, identity=object()),
        "set": lambda s, c: s.write_jsset([], c, identity=object()), "object": lambda s, c: s.write_js_object([], c, identity=object()),
        "nested object": lambda s, c: s.write_js_object([("a", 1)], c, identity=object()),
        "dense": lambda s, c: s.write_js_array_dense([], c, identity=object()), "sparse": lambda s, c: s.write_js_array_sparse([], c, length=0, identity=object()),
        "date": lambda s, c: s.write_js_date(datetime(2020, 1, 1)), "regexp": lambda s, c: s.write_js_regexp(JSRegExp("a")),
        "error": lambda s, c: s.write_js_error(JSErrorData("m"), c), "buffer": lambda s, c: s.write_js_array_buffer(JSArrayBuffer(b"a")),
        "shared": lambda s, c: s.write_v8_shared_object_reference(V8SharedObjectReference(1)),
        "bool object": lambda s, c: s.write_js_primitive_object(JSPrimitiveObject(True)),
        "bigint object": lambda s, c: s.write_js_primitive_object(JSPrimitiveObject(2 ** 80)),
        "reference": lambda s, c: s.write_object_reference(serialized_id=0),
        "host": lambda s, c: s.write_host_object(object(), serializer=lambda *, stream, value: None),
        "header": lambda s, c: s.write_header(),
    }
    good = {"int32": (lambda s, c: s.write_int32(-5), "I"), "uint32": (lambda s, c: s.write_uint32(5), "U"), "double": (lambda s, c: s.write_double(1.5), "N"),
            "one": (lambda s, c: s.write_string_onebyte("k"), '"'), "two": (lambda s, c: s.write_string_twobyte("k"), "c"),
            "utf8": (lambda s, c: s.write_string_utf8("k"), "S")}
    containers = [lambda k, v: JSObject([("KEY" + k, v)]), lambda k, v: arr(k, v), lambda k, v: sparse(k, v)]

    def arr(k, v):
        a = JSArray([1, None])
        a["KEY" + k] = v
        return a

    def sparse(k, v):
        a = JSArray()
        a[5000] = True
        a["KEY" + k] = v
        return a
    for name, w in list(direct.items()) + [(n, x[0]) for n, x in good.items()]:
        for mk in containers:
            for recover in (None, "raise", "good", "skip value"):
                ctx.case((name, recover))
                caught = []

                def step(value, /, ctx_, next):
                    if isinstance(value, str) and value.startswith("KEY"):
                        return w(ctx_.stream, ctx_)
                    if recover and value == "VALUE":
                        return ctx_.stream.write_constant(T.kNull)
                    return next(value)

                def outer(value, /, ctx, next):
                    # recovers from a failing object by writing another value in its place
                    if recover and isinstance(value, JSObject) and value.get("wrap") is None:
                        before = len(ctx.stream.data)
                        try:
                            return next(value)
                        except EncodeV8SerializeError:
                            del ctx.stream.data[before:]
                            caught.append(1)
                            if recover == "raise":
                                raise
                            ctx.stream.write_constant(T.kTrue)
                            ctx.encode_object([None, 2 ** 70])
                            del ctx.stream.data[before + 1:]
                            return
                    return next(value)
                inner_step = lambda value, /, ctx, next: step(value, ctx, next)
                sts = [default_encode_steps[0], outer, inner_step, *default_encode_steps[1:]]
                c = DefaultEncodeContext(sts, stream=WritableTagStream())
                c.stream.write_header()
                try:
                    c.encode_object([JSObject(), mk(name, "VALUE"), None, 2 ** 70, JSObject(x=None, wrap=1)])
                    ok = True
                except EncodeV8SerializeError:
                    ok = False
                case = (name, recover)
                if name in good:
                    ctx.check(ok and not caught, "strings and numbers written by a step are allowed as keys", lambda: f"{name}: {ok} {bytes(c.stream.data)!r:.200}", case)
                elif recover in ("good", "skip value"):
                    ctx.check(ok and caught, "a key of any other kind fails with an encode error", lambda: f"{name}: {ok} {bytes(c.stream.data)!r:.200}", case)
                else:
                    ctx.check(not ok, "a key of any other kind fails with an encode error", lambda: f"{name}: {ok} {bytes(c.stream.data)!r:.200}", case)
                if ok:
                    try:
                        out = loads(c.stream.data)
                        n = Ref(c.stream.data).load()
                        ctx.check(out.array[2] is None and out.array[3] == 2 ** 70 and out.array[4]["x"] is None and out.array[4]["wrap"] == 1,
                                  "values after a key are not restricted", lambda: safe_repr(out), case)
                    except Bad as e:
                        ctx.fail("what was written is well formed", f"{e} {bytes(c.stream.data)!r:.300}", case)
                try:
                    c.encode_object(None)
                    c.encode_object(2 ** 80)
                    c.encode_object(JSObject(q=None))
                except Exception as e:
                    ctx.fail("the restriction on keys is lifted afterwards", f"{name} {recover}: {type(e).__name__} {e}", case)


def raising(ctx):
    """Steps or items that raise any error while a key or value is being written."""
    class Boom(BaseException):
        pass
    for err in (Boom, ValueError, KeyboardInterrupt, StopIteration, EncodeV8SerializeError):
        for where in ("key", "value", "iter"):
            for form, write in write_forms().items():
                ctx.case((err.__name__, where, form))

                def step(value, /, ctx, next):
                    if value == "BOOM":
                        raise err("x")
                    return next(value)
                c = DefaultEncodeContext([step, *default_encode_steps])
                k, v = ("BOOM", 1) if where == "key" else ("a", "BOOM")
                try:
                    if where == "iter":
                        def items():
                            yield "a", None
                            raise err("x")
                        c.stream.write_js_object(items(), c)
                    else:
                        write(c.stream, c, k, v)
                    ctx.fail("an error raised by a step reaches the caller", repr((err, where, form)))
                except BaseException as e:
                    if not isinstance(e, (err, RuntimeError)):
                        raise
                for later in VALUES:
                    try:
                        c.encode_object(later)
                    except Exception as e:
                        ctx.fail("the restriction on keys is lifted afterwards", f"{err.__name__} at {where}: {type(e).__name__} {e}", (err.__name__, where))
                        break


def nested(ctx):
    """Random nested objects with bad keys at random places."""
    r = ctx.rng
    bad = [None, True, JSUndefined, b"x", [1], JSObject(), JSMap(), JSHole]

    class Obj:
        def __init__(self, items, form):
            self.items, self.form = items, form

    def make(d):
        n = r.choice([0, 1, 2, 3])
        items = []
        for _ in range(n):
            k = r.choice(bad) if r.random() < 0.06 else r.choice(["a", "b", 1, -1, 2.5, 2 ** 60, "é", -2 ** 70])
            v = make(d + 1) if d < 4 and r.random() < 0.5 else r.choice(VALUES + ["v", 1])
            items.append((k, v))
        return Obj(items, r.choice("oda"))

    def has_bad(o):
        return any(allowed(k) is False or (isinstance(v, Obj) and has_bad(v)) for k, v in o.items)

    def step(value, /, ctx, next):
        if isinstance(value, Obj):
            s = ctx.stream
            if value.form == "o":
                return s.write_js_object(value.items, ctx, identity=value)
            if value.form == "d":
                return s.write_js_array_dense([None], ctx, properties=value.items, identity=value)
            return s.write_js_array_sparse(value.items, ctx, length=0, identity=value)
        return next(value)
    for i in range(ctx.scale(800)):
        if ctx.late:
            break
        v = make(0)
        ctx.case(i)
        c = DefaultEncodeContext([step, *default_encode_steps])
        c.stream.write_header()
        try:
            c.encode_object(v)
            ok = True
        except EncodeV8SerializeError:
            ok = False
        ctx.check(ok == (not has_bad(v)), "encoding fails exactly when a key is not a string or number", lambda: repr((ok, bytes(c.stream.data)))[:600])
        if ok:
            try:
                Ref(c.stream.data).load()       # rejects any other kind of key
            except Bad as e:
                ctx.fail("only strings and numbers reach the output as keys", f"{e} {bytes(c.stream.data)!r:.400}")
        c.encode_object(None)


def readers(ctx):
    """Objects and arrays whose key starts with each possible tag byte."""
    r = ctx.rng
    body = {"I": b"\x02", "U": b"\x01", "N": struct.pack("<d", 1.5), "S": b"\x01k", '"': b"\x01k", "c": b"\x02k\x00", "n": struct.pack("<d", 2.0),
            "s": b"\x01k", "Z": b"\x02\x01", "z": b"\x02\x01", "D": struct.pack("<d", 0.0), "o": b"{\x00", "A": b"\x00$\x00\x00", "a": b"\x00@\x00\x00",
            ";": b":\x00", "'": b",\x00", "B": b"\x01a", "~": b"\x01\x02a", "t": b"\x01", "u": b"\x01", "p": b"\x01", "r": b".", "R": b"S\x01a\x00",
            "^": b"\x00", "\\": b"\x01\x01a", "V": b"B\x00\x00\x00"}
    starts = {"o": (b"o", b"{\x01"), "A": (b"A\x00", b"$\x01\x00"), "a": (b"a\x05", b"@\x01\x05"), "A2": (b"A\x01T", b"$\x01\x01")}
    after = {"o": (b"oS\x01aT", b"{\x02"), "A": (b"A\x00S\x01aT", b"$\x02\x00")}
    for which, table in (("first", starts), ("second", after)):
        for name, (pre, post) in table.items():
            for code in range(256):
                t = chr(code)
                for v in (13, 14, 15):
                    for pad in (b"", b"\0"):
                        d = b"\xff" + vi(v) + b"A\x02o{\x00" + pre + pad + bytes([code]) + body.get(t, b"") + b"F" + post + b"$\x00\x02"
                        ctx.case(d)
                        if code == 0:
                            continue
                        end = {"o": "{", "A": "$", "a": "@", "A2": "$"}[name]
                        if t == end:
                            continue
                        try:
                            out = loads(d)
                            ok = True
                        except DecodeV8SerializeError:
                            ok = False
                        if t in WRAPPED:
                            continue
                        ctx.check(ok == (t in KEY_TAGS), "a reader accepts exactly strings and numbers as keys",
                                  lambda: f"{name} key tag {t!r}: {'accepted' if ok else 'rejected'} {d!r}", d)
    # readers used directly, with steps that read keys as other types
    def step(tag, /, ctx, next):
        x = next(tag)
        return {"none": None, "list": [], "bytes": b"x", "tuple": (1,)}.get(x, x) if isinstance(x, str) else x
    for k in ("none", "list", "bytes", "tuple"):
        raw = k.encode()
        for pre, post in starts.values():
            d = b"\xff\x0f" + pre + b"S" + vi(len(raw)) + raw + b"T" + post
            ctx.case(d)
            try:
                out = loads(d, decode_steps=[step, TagReader()])
                ctx.fail("object data whose key is of another kind is rejected", f"{d!r} -> {safe_repr(out)}", d)
            except (DecodeV8SerializeError, TypeError):
                pass


PARTS = parts(keys, steps, raising, nested, readers)
