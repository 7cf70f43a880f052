"""C18: encode and decode steps run in order; unhandled values are reported."""
import io
import itertools
from datetime import timezone
from native.common import *
from native.wire import vi
from v8serialize import (dumps, loads, default_encode_steps, default_decode_steps, Encoder, Decoder, TagReader,
                         DecodeV8SerializeError, UnhandledTagDecodeV8SerializeError, UnhandledValueEncodeV8SerializeError)
from v8serialize.encode import EncodeV8SerializeError, TagWriter, DefaultEncodeContext, WritableTagStream
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.constants import SerializationTag, JS_CONSTANT_TAGS

TAGS = list(SerializationTag)


class Boom(Exception):
    pass


class Unhandled(Exception):
    pass


ACTIONS = ["pass", "pass", "change", "wrap", "handle", "twice", "nest", "nestpass", "boom", "swallow"]


def program(r, n):
    """one action per (step, value class): what each step does with what it is offered"""
    return [{k: r.choice(ACTIONS if r.random() < .6 else ["pass", "wrap"]) for k in range(5)} for _ in range(n)]


def act(i, a, v, nxt, restart, log):
    """What a step does; nxt(v) passes on, restart(v) starts a nested value."""
    log.append(("in", i, v))
    try:
        if a == "pass":
            out = nxt(v)
        elif a == "change":
            out = nxt((v + 7 * (i + 1)) % 50)
        elif a == "wrap":
            out = (i, v, nxt(v))
        elif a == "handle":
            out = ("handled", i, v)
        elif a == "twice":
            out = (nxt(v), nxt((v + 1) % 50))
        elif a == "nest":
            out = ("nest", restart(v // 2) if v > 1 else v)
        elif a == "nestpass":
            out = (restart(v // 3) if v > 2 else 0, nxt(v))
        elif a == "boom":
            raise Boom(i, v)
        else:
            try:
                out = nxt(v)
            except (Boom, Unhandled, EncodeV8SerializeError, DecodeV8SerializeError) as e:
                out = ("swallowed", type(e).__name__ == "Boom", i)
    except BaseException as e:
        log.append(("err", i, v, type(e).__name__ == "Boom"))
        raise
    log.append(("out", i, v, out))
    return out


class Thing:
    """An arbitrary Python value carrying a number."""

    def __init__(self, v):
        self.v = v


def actual_encode(r, prog, v0, via):
    log, kinds = [], []

    def mk(i, kind):
        def step(value, /, ctx, next):
            if kinds and ctx is not kinds[0]:
                log.append("wrong ctx")
            return act(i, prog[i][value.v % 5], value.v, lambda w: next(value if w == value.v else Thing(w)),
                       lambda w: ctx.encode_object(Thing(w)), log)
        if kind == "fn":
            return step
        if kind == "obj":
            class O:
                def encode(self, value, /, ctx, next):
                    return step(value, ctx=ctx, next=next)
            return O()
        if kind == "slot":
            o = type("P", (), {})()
            o.encode = step
            return o

        class C:            # both callable and with .encode: the callable form is a plain step function
            def __call__(self, value, /, ctx, next):
                return step(value, ctx=ctx, next=next)
        return C()
    steps = [mk(i, r.choice(["fn", "obj", "slot", "call"])) for i in range(len(prog))]
    if via == "iter":
        c = DefaultEncodeContext(iter(steps))
    elif via == "tuple":
        c = DefaultEncodeContext(tuple(steps), stream=WritableTagStream())
    else:
        c = DefaultEncodeContext(steps)
    kinds.append(c)
    n = len(c.stream.data)
    try:
        return ("ok", c.encode_object(Thing(v0))), log, c
    except UnhandledValueEncodeV8SerializeError as e:
        return ("unhandled", e.value.v), log, c
    except Boom as e:
        return ("boom", e.args), log, c


def actual_decode(r, prog, v0, via):
    log, kinds = [], []
    tag_of = TAGS.__getitem__
    num = {t: i for i, t in enumerate(TAGS)}

    def mk(i, kind):
        def step(tag, /, ctx, next):
            if kinds and ctx is not kinds[0]:
                log.append("wrong ctx")
            v = num[tag]
            return act(i, prog[i][v % 5], v, lambda w: next(tag_of(w % len(TAGS))), lambda w: ctx.decode_object(tag=tag_of(w)), log)
        if kind == "fn":
            return step
        if kind == "obj":
            class O:
                def decode(self, tag, /, ctx, next):
                    return step(tag, ctx=ctx, next=next)
            return O()

        class C:
            def __call__(self, tag, /, ctx, next):
                return step(tag, ctx=ctx, next=next)
        return C()
    steps = [mk(i, r.choice(["fn", "obj", "call"])) for i in range(len(prog))]
    data = b"\xff\x0f" + TAGS[v0].value.to_bytes(1, "little") + b"rest"
    s = ReadableTagStream(data)
    s.pos = 2
    c = DefaultDecodeContext(stream=s, decode_steps=iter(steps) if via == "iter" else steps)
    kinds.append(c)
    try:
        if via == "given":
            s.pos = 3
            out = c.decode_object(tag=TAGS[v0])
        else:
            out = c.decode_object()
        return ("ok", out), log, s
    except UnhandledTagDecodeV8SerializeError as e:
        if not (e.tag is TAGS[num[e.tag]] and e.position == 3 and bytes(e.data) == data):
            log.append("wrong error contents")
        return ("unhandled", num[e.tag]), log, s
    except Boom as e:
        return ("boom", e.args), log, s


def order(ctx):
    """Random lists of steps with random behaviour against a direct reading of the rule."""
    r = ctx.rng
    m = len(TAGS)
    for _ in range(ctx.scale(2500)):
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        prog = program(r, n)
        v0 = r.randrange(min(m, 50))
        want, log = expected_mod(prog, v0, 50)
        if want is not None:
            via = r.choice(["iter", "tuple", "list"])
            ctx.case(("encode", prog, v0, via))
            got, glog, c = actual_encode(r, prog, v0, via)
            ctx.check(got == want and glog == log, "encode steps run in order, pass on values and results, and restart for nested values",
                      lambda: f"{prog} from {v0} ({via}): {got} {glog}, expected {want} {log}", (prog, v0, via))
        want, log = expected_mod(prog, v0, m)
        if want is not None:
            via = r.choice(["iter", "list", "given"]) if TAGS[v0].name != "kPadding" else "given"
            ctx.case(("decode", prog, v0, via))
            got, glog, s = actual_decode(r, prog, v0, via)
            ctx.check(got == want and glog == log and s.pos == 3, "decode steps run in order, pass on tags and results, and restart for nested values",
                      lambda: f"{prog} from {v0} ({via}): {got} {glog} at {s.pos}, expected {want} {log}", (prog, v0, via))


def expected_mod(prog, v0, m):
    """expected() where the values passed on wrap at m"""
    log = []
    budget = [2000]

    def at(i, v):
        budget[0] -= 1
        if budget[0] < 0:
            raise RecursionError
        if i == len(prog):
            raise Unhandled(v)
        return act(i, prog[i][v % 5], v, lambda w: at(i + 1, w % m), lambda w: at(0, w), log)
    try:
        return ("ok", at(0, v0)), log
    except Unhandled as e:
        return ("unhandled", e.args[0]), log
    except Boom as e:
        return ("boom", e.args), log
    except RecursionError:
        return None, None


def nested(ctx):
    """Members of every collection are offered to the first step again, in both directions."""
    mk = [lambda: JSObject(a=11, b=12), lambda: JSArray([11, 12]), lambda: JSMap([(11, 12)]), lambda: JSSet([11, 12]), lambda: [11, 12],
          lambda: {11: 12}, lambda: {11, 12}, lambda: JSErrorData("m", cause=11), lambda: JSArray([JSHole] * 40 + [11, 12])]
    for f in mk:
        seen = {}

        def first(value, /, ctx, next):
            seen.setdefault("first", []).append(value)
            next(value)

        def second(value, /, ctx, next):
            seen.setdefault("second", []).append(value)
            next(value)
        v = f()
        ctx.case(safe_repr(v))
        d = dumps(v, encode_steps=[first, *default_encode_steps[:1], second, *default_encode_steps[1:]])
        ctx.check(d == dumps(f()), "steps that only pass on change nothing", lambda: f"{safe_repr(v)}: {d!r}", safe_repr(v))
        for k in ("first", "second"):
            got = [x for x in seen[k] if type(x) is int and x < 40]     # 40, 41 are the sparse array's keys
            want = [11] if isinstance(v, JSErrorData) else [11, 12]
            ctx.check(seen[k][0] is v and got == want, "nested values start again at the first step", lambda: f"{k} step saw {safe_repr(seen[k])}", safe_repr(v))
        tags = []

        def dfirst(tag, /, ctx, next):
            tags.append(tag.name)
            out = next(tag)
            return out + 100 if type(out) is int and out < 40 else out
        out = loads(d, decode_steps=[dfirst, *default_decode_steps])
        n = sum(t in ("kInt32", "kUint32") for t in tags)
        want = loads(dumps(bump(v)))
        ok = safe_repr(out) == safe_repr(want) and n >= (1 if isinstance(v, JSErrorData) else 2)
        ctx.check(ok, "nested tags start again at the first step, whose result is used", lambda: f"{safe_repr(out)} from {tags}, expected {safe_repr(want)}", safe_repr(v))


def bump(v):
    b = lambda x: x + 100 if type(x) is int else x
    if isinstance(v, JSErrorData):
        return JSErrorData(v.message, cause=v.cause + 100)
    if isinstance(v, JSArray):
        return _bump_array(v)
    if isinstance(v, JSObject):
        return JSObject({k: b(x) for k, x in v.items()})
    if isinstance(v, (JSMap, dict)):
        return JSMap([(b(k), b(x)) for k, x in v.items()])
    if isinstance(v, list):
        return JSArray([b(x) for x in v])
    return JSSet([b(x) for x in v])


def _bump_array(v):
    out = JSArray()
    for k, x in v.items():
        out[k] = x + 100
    return out


def unhandled(ctx):
    """An error carrying the value or tag when every step passes it on."""
    vals = [object(), Thing(3), 1j, type, len, iter([1]), Ellipsis, NotImplemented, Boom, lambda: 1, io.StringIO(), slice(1, 2)]
    for v in vals:
        wraps = dict(alone=lambda: v, object=lambda: JSObject(a=1, b=v), array=lambda: JSArray([1, v]), list=lambda: [v], map=lambda: JSMap([(1, v)]),
                     key=lambda: JSMap([(v, 1)]), set=lambda: JSSet([1, v]), sparse=lambda: JSArray([JSHole] * 50 + [v]), cause=lambda: JSErrorData("m", cause=v))
        for how, w in wraps.items():
            x = w()
            for name, f in (("dumps", lambda: dumps(x)), ("Encoder", lambda: Encoder().encode(x)), ("TagWriter only", lambda: dumps(x, encode_steps=[TagWriter()])),
                            ("no steps", lambda: dumps(x, encode_steps=[]))):
                ctx.case((safe_repr(v), how, name))
                want = x if name == "no steps" else v
                try:
                    d = f()
                    got = None
                except UnhandledValueEncodeV8SerializeError as e:
                    got, d = e, None
                ctx.check(got is not None and got.value is want and isinstance(got, EncodeV8SerializeError) and isinstance(got, ValueError),
                          "an unhandled value raises the unhandled error carrying it",
                          lambda: f"{how} {safe_repr(v)} with {name}: {got!r:.200} {d!r:.100}", (how, safe_repr(v), name))
    for v in [1, "s", None, True, 1.5, JSObject(), [], {}, JSUndefined, JSHole, b"x", datetime(2020, 1, 1)]:
        ctx.case(("no steps", safe_repr(v)))
        try:
            d = dumps(v, encode_steps=())
            got = None
        except UnhandledValueEncodeV8SerializeError as e:
            got = e
        ctx.check(got is not None and got.value is v, "an unhandled value raises the unhandled error carrying it", lambda: f"no steps, {v!r}: {got!r}", safe_repr(v))
    for t in TAGS:
        for steps in ([], [lambda tag, /, ctx, next: next(tag)], [lambda tag, /, ctx, next: next(tag)] * 3):
            for wrap in (b"", b"A\x01"):
                ctx.case((t.name, len(steps), wrap))
                if wrap and t.name == "kPadding":
                    continue
                d = b"\xff\x0f" + wrap + bytes([t.value]) + b"\x01\x01\x01"
                ss = list(steps)
                if wrap:
                    class Only:
                        def decode(self, tag, /, ctx, next):
                            if tag is SerializationTag.kBeginDenseJSArray and not hasattr(self, "n"):
                                self.n = 1
                                ctx.stream.read_varint()
                                return ctx.decode_object()
                            return next(tag)
                    ss = [Only(), *ss]
                try:
                    got = None
                    out = loads(d, decode_steps=ss)
                except UnhandledTagDecodeV8SerializeError as e:
                    got = e
                except DecodeV8SerializeError as e:
                    ctx.check(t.name == "kPadding", "an unhandled tag raises the unhandled error carrying it", lambda: f"{t.name}: {e!r}", t.name)
                    continue
                if t.name == "kPadding":
                    continue
                ctx.check(got is not None and got.tag is t and got.position == 3 + len(wrap),
                          "an unhandled tag raises the unhandled error carrying it", lambda: f"{t.name} {wrap}: {got!r}", t.name)
    # tags the default reader has no reader for
    for t in TAGS:
        if t.name in ("kEndJSMap", "kEndJSSet", "kEndJSObject", "kEndDenseJSArray", "kEndSparseJSArray", "kVersion", "kVerifyObjectCount", "kTheHole",
                      "kSharedArrayBuffer") and TagReader().tag_readers.match(t) is None:
            ctx.case(("default", t.name))
            try:
                got = None
                loads(b"\xff\x0f" + bytes([t.value]) + b"\x01\x01")
            except UnhandledTagDecodeV8SerializeError as e:
                got = e
            ctx.check(got is not None and got.tag is t, "an unhandled tag raises the unhandled error carrying it", lambda: f"{t.name}: {got!r}", t.name)


def real_steps(ctx):
    """The library's own steps at any place of the list, with recording steps between them."""
    r = ctx.rng
    reg = TagReader().tag_readers
    known = [t for t in TAGS if reg.match(t) is not None]

    def reader(own):
        """a TagReader that reads the tags in own only, and what it read"""
        class Some(TagReader):
            def register_tag_readers(self, tag_readers):
                for t in own:
                    tag_readers.register(t, lambda self, tag, ctx: ("read", id(self), tag))
        return Some()

    def overriding(own):
        """a default TagReader whose readers for own are replaced"""
        from v8serialize.decode import TagReaderRegistry
        g = TagReaderRegistry()
        for t in own:
            g.register(t, lambda self, tag, ctx: ("read", id(self), tag))
        return TagReader(tag_readers=g)
    for _ in range(ctx.scale(1500)):
        if ctx.late:
            break
        tag = r.choice([t for t in TAGS if t.name != "kPadding"])
        steps, seen, want, done = [], [], [], None
        for i in range(r.randrange(1, 6)):
            k = r.randrange(4)
            if k < 2:
                steps.append((lambda i: lambda tag, /, ctx, next: (seen.append((i, tag)), next(tag))[1])(i))
                if done is None:
                    want.append((i, tag))
                continue
            own = r.sample(TAGS, r.randrange(12))
            if k == 3 and r.random() < .4 and (tag in own or tag not in known):
                s = overriding(own)
            else:
                s = reader(own)
            steps.append(s)
            if done is None and tag in own:
                done = ("read", id(s), tag)
        d = b"\xff\x0f" + bytes([tag.value]) + b"\x01\x01"
        ctx.case((tag.name, len(steps), done is None))
        try:
            got = loads(d, decode_steps=steps)
        except UnhandledTagDecodeV8SerializeError as e:
            got = None if e.tag is tag else e
        ctx.check(got == done and seen == want, "the library's tag reader passes on exactly the tags it has no reader for",
                  lambda: f"{tag.name} with {len(steps)} steps: {got!r:.200} seen {seen}, expected {done} {want}", (tag.name, len(want)))
    # the value writer and the reference writer, with recorders before, between and after
    vals = [object(), 1j, Thing(2), 5, "s", None, JSObject(), [1], iter([1]), len, Ellipsis, datetime(2020, 1, 1),
            create_view(JSArrayBuffer(b"12345678"), _float16(), byte_offset=0, byte_length=4)]
    for _ in range(ctx.scale(800)):
        if ctx.late:
            break
        v = r.choice(vals)
        writes = v is None or isinstance(v, (int, str, JSObject, list, datetime))
        steps, seen, want, done = [], [], [], False
        for i in range(r.randrange(1, 7)):
            k = r.randrange(4)
            if k < 2:
                steps.append((lambda i: lambda value, /, ctx, next: (seen.append((i, value)) if value is v else None, next(value))[1])(i))
                if not done:
                    want.append((i, v))
            elif k == 2:
                steps.append(default_encode_steps[0])
            else:
                steps.append(TagWriter())
                done = done or writes
        ctx.case((safe_repr(v), len(steps), done))
        try:
            dumps(v, encode_steps=steps)
            got = True
        except UnhandledValueEncodeV8SerializeError as e:
            got = False if e.value is v or isinstance(v, list) else repr(e)
        ctx.check(got == done and [i for i, _ in seen] == [i for i, _ in want] and all(x is v for _, x in seen),
                  "the library's writer passes on exactly the values it does not write",
                  lambda: f"{safe_repr(v)} with {steps}: {got} seen {seen}, expected {done} {want}", safe_repr(v))


def _float16():
    from v8serialize.constants import ArrayBufferViewTag
    return ArrayBufferViewTag.kFloat16Array


OPTIONS = dict(nodejs=[True, False], jsmap_type=[dict, JSMap], jsset_type=[set, JSSet], js_object_type=[dict, JSObject], js_array_type=[JSArray, list],
               js_constants=[{}, {SerializationTag.kNull: 1}], host_object_deserializer=[lambda *, stream: None],
               js_error_builder=[lambda *a, **k: None, JSError.builder], default_timezone=[timezone.utc])


def options(ctx):
    """An explicit step list with any other option is refused, whatever the data."""
    names = list(OPTIONS)
    datas = [b"\xff\x0f0", b"", b"bad", b"\xff\x0fo{\x00"]
    for k in (1, 2, len(names)):
        for combo in itertools.combinations(names, k):
            for vals in itertools.product(*(OPTIONS[n] if k == 1 else OPTIONS[n][:1] if k == 2 and not ctx.thorough else OPTIONS[n][-1:] for n in combo)):
                kw = dict(zip(combo, vals))
                for steps in (default_decode_steps, [TagReader()], [], (), iter([])):
                    for d in datas:
                        ctx.case((combo, str(vals)[:60], str(type(steps)), d))
                        try:
                            loads(d, decode_steps=steps, **kw)
                            ok = "loaded"
                        except TypeError:
                            ok = True
                        except DecodeV8SerializeError as e:
                            ok = repr(e)
                        ctx.check(ok is True, "a step list together with another option is refused", lambda: f"{kw} with {steps}: {ok}", (combo, str(vals)))
    for kw in ({}, *({n: None} for n in names), {n: None for n in names}):
        ctx.case(("none", str(kw)))
        ctx.check(loads(b"\xff\x0f0", decode_steps=default_decode_steps, **kw) is None and loads(b"\xff\x0f0", decode_steps=None, **kw) is None,
                  "a step list on its own is accepted", str(kw), str(kw))
        ctx.check(Decoder(decode_steps=None).decodes(b"\xff\x0f0") is None and Decoder().decodes(b"\xff\x0f0") is None
                  and Encoder(encode_steps=None).encode(None) == Encoder().encode(None) == dumps(None),
                  "with no steps configured the default steps are used", "Decoder(decode_steps=None), Encoder(encode_steps=None)")
        ctx.check(loads(b"\xff\x0f0", decode_steps=[lambda tag, /, ctx, next: ("mine", tag)], **kw) == ("mine", SerializationTag.kNull),
                  "the steps given are the ones used", str(kw), str(kw))


def header(ctx):
    """Exactly versions 13 to 15 are accepted; exactly one header is written."""
    vs = list(range(0, 400)) + [2 ** k + d for k in range(7, 33) for d in (-3, -1, 0, 1, 13, 14, 15)] + [ctx.rng.getrandbits(32) for _ in range(300)]
    for v in vs:
        for body, want in ((b"I\x02", 1), (b"\x00\x000", None)):
            ctx.case((v, body))
            d = b"\xff" + vi(v) + body
            for how, f in (("loads", lambda: loads(d)), ("Decoder", lambda: Decoder().decodes(d)), ("fp", lambda: Decoder().decode(io.BytesIO(d))),
                           ("steps", lambda: loads(d, decode_steps=default_decode_steps))):
                try:
                    out = f()
                    ok = True
                except DecodeV8SerializeError:
                    ok, out = False, None
                ctx.check(ok == (13 <= v <= 15), "exactly versions 13 to 15 are accepted", lambda: f"version {v} with {how}: {'accepted' if ok else 'refused'}", (v, how))
                ctx.check(not ok or out == want and type(out) is type(want), "the value after the header is loaded", lambda: f"version {v} {body}: {out!r}", (v, how))
    for t in range(256):
        if t != 0xff:
            d = bytes([t, 15]) + b"0"
            ctx.case(("tag", t))
            try:
                loads(d)
                ok = t == 0 and False
            except DecodeV8SerializeError:
                ok = True
            ctx.check(ok, "a stream that does not start with a header is rejected", lambda: f"{d!r} loaded", d)
    r = ctx.rng
    e = Encoder()
    for _ in range(ctx.scale(300)):
        v = Gen(r, features=False).value()
        ctx.case(safe_repr(v))
        try:
            d = dumps(v)
        except V8Error:
            continue
        ctx.check(d[:2] == b"\xff\x0f" and type(d) is bytes, "a message starts with the header", lambda: f"{d[:10]!r}", safe_repr(v))
        ctx.check(bytes(e.encode(v)) == d and bytes(e.encode(v)) == d, "an encoder is reusable: every message is complete on its own",
                  lambda: f"{bytes(e.encode(v))[:80]!r} {d[:80]!r}", safe_repr(v))
        c = DefaultEncodeContext(default_encode_steps)
        c.encode_object(v)
        body = bytes(c.stream.data)
        if b'c' not in body:      # two-byte padding depends on the parity of the position only
            ctx.check(b"\xff\x0f" + body == d, "the header is written exactly once, before the value", lambda: f"{d[:80]!r} {body[:80]!r}", safe_repr(v))


from v8serialize import V8SerializeError as V8Error
PARTS = parts(order, nested, real_steps, unhandled, options, header)
