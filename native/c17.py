"""C17: regexp flags map consistently between JavaScript, the wire and Python."""
import itertools
import re
from native.common import *
from native.wire import Ref, vi
from v8serialize import dumps, loads, DecodeV8SerializeError, V8SerializeError

BITS = {"d": 7, "g": 0, "i": 1, "l": 6, "m": 2, "s": 5, "u": 4, "v": 8, "y": 3}
NAMES = dict(d="HasIndices", g="Global", i="IgnoreCase", l="Linear", m="Multiline", s="DotAll", u="Unicode", v="UnicodeSets", y="Sticky")
PY = {"i": re.IGNORECASE, "m": re.MULTILINE, "s": re.DOTALL, "u": re.UNICODE, "v": re.UNICODE}
SOURCES = ["", "a", "(?:)", "é+", "日本", "💥", "a/b", "x" * 200, "\\d+\n"]
ALLF = SerializationFeature.RegExpUnicodeSets


def letters(bits):
    return [c for c in sorted(BITS) if bits >> BITS[c] & 1]


def build(chars):
    f = JSRegExpFlag.NoFlag
    for c in chars:
        f |= JSRegExpFlag[NAMES[c]]
    return f


def wire(ctx):
    """All 512 combinations, written and read, in every spelling."""
    for bits in range(512):
        chars = letters(bits)
        f = build(chars)
        ctx.case(bits)
        ctx.check(int(f) == bits and JSRegExpFlag(bits) == f, "flags have V8's bit assignment", lambda: f"{chars}: {int(f)} != {bits}", bits)
        ctx.check(str(f) == "".join(chars), "flags print as JavaScript's letters", lambda: f"{bits}: {f}", bits)
        ctx.check(sorted(x.name for x in f) == sorted(NAMES[c] for c in chars), "flags list their members", lambda: repr((bits, list(f))), bits)
        both = "u" in chars and "v" in chars
        try:
            JSRegExp("a", f)
            made = True
        except ValueError:
            made = False
        ctx.check(made != both, "the unicode flags are mutually exclusive", lambda: repr((chars, made)), bits)
        for src in SOURCES if made and bits % 37 == 0 else ["a", ""]:
            raw = (src or "(?:)").encode()
            if made:
                x = JSRegExp(src, f)
                ctx.check(x.source == (src or "(?:)"), "an empty source is an empty non-capturing group", lambda: repr(x.source), bits)
                for fs in (None, ALLF):
                    d = dumps(x, features=fs)
                    ref = Ref(d)
                    n = ref.load()
                    ctx.check(n.kind == "regexp" and n.data == (src or "(?:)", bits) and ref.p == len(d), "flags are written with V8's bit assignment",
                              lambda: f"{chars} {src!r}: {d!r:.100}", bits)
                    ctx.check(d.endswith(vi(bits)), "flags are written with V8's bit assignment and no others", lambda: f"{chars} {src!r}: {d!r:.100}", bits)
                    y = loads(d)
                    ctx.check(type(y) is JSRegExp and y.source == x.source and y.flags == f and int(y.flags) == bits and y == x,
                              "flags are read back identically", lambda: f"{chars}: {y!r}", bits)
            for junk in (0, 1 << 9, 1 << 10, 1 << 15, 0b11 << 9, 1 << 30, 1 << 31, (2 ** 32 - 1) & ~511):
                s = src.encode()
                for v in (13, 15):
                    d = b"\xff" + vi(v) + b"RS" + vi(len(s)) + s + vi(bits | junk)
                    try:
                        y = loads(d)
                        ok = True
                    except DecodeV8SerializeError:
                        ok = False
                    if both:
                        ctx.check(not ok, "data with both unicode flags is rejected", lambda: repr(d), bits)
                        continue
                    if not ctx.check(ok, "only bits V8 does not define are ignored", lambda: repr(d), bits):
                        continue
                    again = dumps(y)
                    ctx.check(y.source == (src or "(?:)") and int(y.flags) & 511 == bits and again.endswith(vi(bits)) and Ref(again).load().data[1] == bits
                              and y.flags.canonical == f and str(y.flags) == "".join(chars),
                              "only bits V8 does not define are ignored", lambda: f"{d!r}: {y!r} {again!r}", bits)


def js_to_python(ctx):
    for bits in range(512):
        chars = letters(bits)
        f = build(chars)
        ctx.case(bits)
        want = re.NOFLAG if hasattr(re, "NOFLAG") else re.RegexFlag(0)
        for c in chars:
            want |= PY.get(c, 0)
        try:
            got = f.as_python_flags()
        except V8SerializeError:
            got = None
        soft = f.as_python_flags(throw=False)
        if "l" in chars:
            ctx.check(got is None and soft is None, "linear is refused", lambda: repr((chars, got, soft)), bits)
        else:
            ctx.check(got == want and soft == want, "JavaScript flags convert to the Python flags with the same meaning",
                      lambda: f"{chars}: {got!r} {soft!r}, expected {want!r}", bits)
        if "u" in chars and "v" in chars:
            continue
        x = JSRegExp("a+", f)
        try:
            p = x.as_python_pattern()
        except V8SerializeError:
            p = None
        q = x.as_python_pattern(throw=False)
        if "l" in chars:
            ctx.check(p is None and q is None, "linear is refused", lambda: repr((chars, p, q)), bits)
        else:
            # text patterns always have Python's UNICODE
            ctx.check(p is not None and p.pattern == "a+" and p.flags == int(want | re.UNICODE) and q == p,
                      "a Python pattern has the same source and flags", lambda: f"{chars}: {p!r}", bits)


def python_to_js(ctx):
    pyflags = [re.IGNORECASE, re.MULTILINE, re.DOTALL, re.UNICODE, re.VERBOSE]
    back = {re.IGNORECASE: "i", re.MULTILINE: "m", re.DOTALL: "s", re.UNICODE: "v"}
    for k in range(6):
        for combo in itertools.combinations(pyflags, k):
            flags = re.RegexFlag(0)
            for f in combo:
                flags |= f
            ctx.case(int(flags))
            want = build([back[f] for f in combo if f in back])
            try:
                got = JSRegExpFlag.from_python_flags(flags)
            except V8SerializeError:
                got = None
            if re.VERBOSE in combo:
                ctx.check(got is None, "verbose is refused", lambda: repr((combo, got)), int(flags))
            else:
                ctx.check(got == want, "Python flags convert to the JavaScript flags with the same meaning", lambda: f"{combo}: {got!r}, expected {want!r}", int(flags))
                ctx.check(got.as_python_flags() == flags, "and back", lambda: f"{combo}: {got!r} {got.as_python_flags()!r}", int(flags))
            for src in ("a+", "", "é"):
                for pat in (src, src.encode()):
                    if isinstance(pat, bytes) and re.UNICODE in combo:
                        continue
                    p = re.compile(pat, flags)
                    pf = re.RegexFlag(p.flags)
                    want2 = build([c for f, c in back.items() if f & pf])
                    for name, call in (("from", lambda: JSRegExp.from_python_pattern(p)), ("dumps", lambda: loads(dumps(p)))):
                        try:
                            x = call()
                        except V8SerializeError:
                            x = None
                        if re.VERBOSE in combo:
                            ctx.check(x is None, "verbose is refused", lambda: f"{name} {p!r}: {x!r}", int(flags))
                        else:
                            ctx.check(x is not None and x.source == (src or "(?:)") and x.flags == want2, "a Python pattern converts to the same source and flags",
                                      lambda: f"{name} {p!r}: {x!r}", int(flags))
                    y = JSRegExp.from_python_pattern(p, throw=False)
                    ctx.check((y is None) == (re.VERBOSE in combo), "verbose is refused", lambda: f"{p!r}: {y!r}", int(flags))
                    if y is not None and isinstance(pat, str) and src:
                        z = y.as_python_pattern()
                        ctx.check(z.pattern == p.pattern and z.flags == p.flags, "a pattern converts there and back", lambda: f"{p!r}: {z!r}", int(flags))


PARTS = parts(wire, js_to_python, python_to_js)
