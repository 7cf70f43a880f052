"""C03: the three string encodings at any position; two-byte alignment; one-byte rejection."""
from native.common import *
from native.wire import vi
from v8serialize import dumps, loads
from v8serialize.constants import SerializationTag as T
from v8serialize.encode import WritableTagStream, default_encode_steps
from v8serialize.decode import ReadableTagStream
from v8serialize.jstypes import JSArray, JSObject

FORMS = dict(onebyte=("latin1", T.kOneByteString), twobyte=("utf-16-le", T.kTwoByteString), utf8=("utf-8", T.kUtf8String))


def latin(s):
    return all(ord(c) < 256 for c in s)


def texts(r, n):
    out = ["", "a", "é", "ÿ", "Ā", "日本", "💥", "\x00", "\x00\x00", "a\x00b", "\ufffe", "\ufeffx", "\u2028", "\U0010ffff", "\ud7ff\ue000"]
    out += ["x" * k for k in (1, 2, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384)]
    out += ["é" * k for k in (63, 64, 127, 128)] + ["日" * k for k in (42, 43, 63, 64)] + ["💥" * k for k in (31, 32, 33)]
    pools = [range(0, 128), range(0, 256), range(0xa0, 0x180), [0x3b1, 0x20ac, 0xd7ff, 0xe000, 0xffff], [0x10000, 0x1f600, 0x10ffff, 0x41]]
    for _ in range(n):
        p = r.choice(pools)
        out.append("".join(chr(r.choice(p)) for _ in range(r.choice([1, 2, 3, 5, 20, 62, 63, 64, 65, 126, 127, 128, 129, 130]))))
    return out


def write(s, form, text, tagged):
    getattr(s, "write_string_" + form)(text, **({} if tagged else dict(tag=None)))


def form(name):
    def part(ctx):
        r = ctx.rng
        codec, tag = FORMS[name]
        for text in texts(r, ctx.scale(250)):
            if ctx.late:
                break
            for pre in (0, 1, 2, 3, 5, 127, 128):
                for tagged in (True, False):
                    prefix, suffix = bytes(r.randrange(256) for _ in range(pre)), r.choice([b"", b"\x00", b"abc", bytes(40)])
                    case = (name, text, pre, tagged)
                    ctx.case(case)
                    s = WritableTagStream(data=bytearray(prefix))
                    if name == "onebyte" and not latin(text):
                        try:
                            write(s, name, text, tagged)
                            ctx.fail("text outside latin1 is rejected", f"{bytes(s.data)!r:.200}", case)
                        except ValueError:
                            pass
                        ctx.check(bytes(s.data) == prefix, "nothing is written when the one-byte form is rejected", lambda: repr(bytes(s.data))[:200], case)
                        continue
                    write(s, name, text, tagged)
                    got = bytes(s.data)
                    raw = text.encode(codec)
                    tail = vi(len(raw)) + raw
                    ctx.check(got.startswith(prefix) and got.endswith(tail), "prefix kept, length and characters written", lambda: repr(got)[:300], case)
                    mid = got[pre:len(got) - len(tail)]
                    ctx.check(mid.lstrip(b"\0") == (bytes([tag]) if tagged else b"") and (tagged or not mid), "only padding and the tag precede the length", lambda: repr(mid), case)
                    if name == "twobyte" and tagged:
                        ctx.check((len(got) - len(raw)) % 2 == 0, "two-byte character data starts at an even offset", lambda: f"{len(got) - len(raw)}", case)
                    rd = ReadableTagStream(got + suffix, pos=pre)
                    back = getattr(rd, "read_string_" + name)(tag=tagged)
                    ctx.check(type(back) is str and back == text, "the same text is read back", lambda: f"{text!r:.100} -> {back!r:.100}", case)
                    ctx.check(rd.pos == len(got), "the reader stops exactly at the end", lambda: f"{rd.pos} != {len(got)}", case)
                    # truncated anywhere: an error, never shorter text
                    if len(got) - pre < 40 and tagged:
                        for cut in range(pre, len(got)):
                            try:
                                getattr(ReadableTagStream(got[:cut], pos=pre), "read_string_" + name)(tag=True)
                                ctx.fail("a truncated string is an error", f"cut at {cut} of {got!r}", case)
                            except Exception as e:
                                from v8serialize import V8SerializeError
                                ctx.check(isinstance(e, V8SerializeError), "a truncated string raises the library's error", lambda: repr(e), case)
    part.__name__ = name
    return part


def message(ctx):
    """Each form in whole messages, at both parities, behind any number of other values, with sharing afterwards."""
    r = ctx.rng

    def step(value, /, ctx, next):
        if isinstance(value, tuple) and len(value) == 2 and value[0] in FORMS:
            getattr(ctx.stream, "write_string_" + value[0])(value[1])
        else:
            next(value)
    steps = [step, *default_encode_steps]
    ts = texts(r, ctx.scale(600))
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        items, want = [], []
        for _ in range(r.randrange(1, 7)):
            t = r.choice(ts)
            f = r.choice(list(FORMS))
            if f == "onebyte" and not latin(t):
                f = "twobyte"
            if r.random() < 0.3:
                v = r.choice([1, 300, None, 2.5, "k"])
                items.append(v)
                want.append(v)
            items.append((f, t))
            want.append(t)
        ctx.case(items)
        mark = JSObject(m=1)
        v = items + [mark, mark]
        data = dumps(v, encode_steps=steps)
        out = loads(data)
        for i, w in enumerate(want):
            ctx.check(ident(w, out.array[i]), "strings of any form load as the same text", lambda: f"{w!r:.80} -> {out.array[i]!r:.80}", items)
        ctx.check(out.array[len(want)] is out.array[len(want) + 1] and out.array[len(want)]["m"] == 1, "what follows the strings is intact", lambda: repr(data)[:300], items)
        # as object keys
        o = JSObject()
        obj = {f"k{i}": t for i, t in enumerate(want)}
        ks = [(x if isinstance(x, tuple) else (("utf8", str(x)))) for x in items]
        s = WritableTagStream()
        s.write_header()
        from v8serialize.encode import DefaultEncodeContext
        c = DefaultEncodeContext(steps, stream=s)
        s.write_js_object([(k, i) for i, k in enumerate(ks)], ctx=c)
        out = loads(bytes(s.data))
        exp = JSObject()
        for i, (_, k) in enumerate(ks):
            exp[k] = i
        ctx.check(list(out.items()) == list(exp.items()), "strings of any form work as keys", lambda: f"{list(out.items())!r:.200}", ks)


PARTS = parts(form("onebyte"), form("twobyte"), form("utf8"), message)
