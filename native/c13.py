"""C13: format features are written only when enabled, and by V8 version."""
import itertools
from packaging.version import Version
from native.common import *
from native.graph import roundtrip
from native.wire import Ref, Bad
from v8serialize import dumps, loads, Encoder, V8SerializeError
from v8serialize.constants import SymbolicVersion
from v8serialize.encode import WritableTagStream, DefaultEncodeContext

F = SerializationFeature
ONE = {"RegExpUnicodeSets": F.RegExpUnicodeSets, "ResizableArrayBuffers": F.ResizableArrayBuffers,
       "CircularErrorCause": F.CircularErrorCause, "Float16Array": F.Float16Array}
FIRST = {"RegExpUnicodeSets": (10, 7, 123), "ResizableArrayBuffers": (11, 0, 193), "CircularErrorCause": (12, 1, 109)}
BASE = (10, 0, 29)
ALL = F.RegExpUnicodeSets | F.ResizableArrayBuffers | F.CircularErrorCause | F.Float16Array
NONE = F.MaxCompatibility
SUBSETS = [sum_ for sum_ in ()]
for k in range(5):
    for c in itertools.combinations(ONE, k):
        f = NONE
        for n in c:
            f |= ONE[n]
        SUBSETS.append((frozenset(c), f))


class CycGen(Gen):
    """Also errors that can be reached from their own cause, and v-flag regular expressions."""

    def k_err(self, d):
        if self.r.random() < 0.5:
            return super().k_err(d)
        o = self.r.choice([JSErrorData, JSError])(self.r.choice(["m", ""]), name="TypeError")
        self.pool.append(o)
        o.cause = self.value(d + 1)
        return o


def used(data):
    x = Ref(data)
    x.load()
    return x.used


def check_all(ctx, v, what):
    """v is written under every feature set; only enabled features may appear."""
    try:
        needs = used(dumps(v, features=ALL))
    except Bad as e:
        ctx.fail("data is well formed", f"{e}: {what}", what)
        return
    for names, f in SUBSETS:
        must_refuse = ("Float16Array" in needs and "Float16Array" not in names) or \
            ("CircularErrorCause" in needs and "CircularErrorCause" not in names)
        try:
            data = dumps(v, features=f)
        except V8SerializeError as e:
            ctx.check(must_refuse, "a value is refused only when it needs a disabled feature",
                      lambda: f"{type(e).__name__}: {e}; needs {needs}, enabled {sorted(names)}; {what}", what)
            continue
        u = used(data) - {"RegExpUnicodeSets"}      # see known finding K-unicode-sets
        ctx.check(not must_refuse, "half-float views and self-referencing causes are refused without their feature",
                  lambda: f"needs {needs}, enabled {sorted(names)}; {what}; {data!r:.300}", what)
        ctx.check(u <= names, "data uses only enabled features", lambda: f"used {u}, enabled {sorted(names)}; {what}; {data!r:.300}", what)
        if "ResizableArrayBuffers" in names:
            ctx.check(("ResizableArrayBuffers" in u) == ("ResizableArrayBuffers" in needs), "an enabled feature is used",
                      lambda: f"used {u}, needs {needs}; {what}", what)


def values(ctx):
    """Hand-picked values around each feature."""
    def rb(n=8, m=16):
        return JSArrayBuffer(bytes(n), max_byte_length=m, resizable=True)
    for n, m in ((0, 0), (0, 5), (8, 8), (8, 16)):
        for wrap in (lambda x: x, lambda x: [x, x], lambda x: JSErrorData("m", cause=x), lambda x: JSMap([(x, 1)])):
            b = rb(n, m)
            ctx.case((n, m))
            check_all(ctx, wrap(b), f"resizable buffer {n} {m}")
            for t in VIEW_TAGS:
                for off, ln in ((0, None), (0, 0), (0, 8), (8, None), (8, 0)):
                    if off > n or (ln or 0) + off > n:
                        continue
                    for bb in (b, JSArrayBuffer(bytes(n)), JSSharedArrayBuffer(1), JSArrayBufferTransfer(1)):
                        v = create_view(bb, t, byte_offset=off, byte_length=ln)
                        ctx.case((n, m, t, off, ln, type(bb).__name__))
                        check_all(ctx, wrap(v), f"view {t.name} {off} {ln} of {type(bb).__name__} {n} {m}")
    for cls in (JSErrorData, JSError):
        for depth in range(4):
            for inner in (lambda e: e, lambda e: [e], lambda e: JSMap([(1, e)]), lambda e: JSSet([e]), lambda e: JSObject(a=e),
                          lambda e: JSErrorData(cause=e), lambda e: [1], lambda e: None):
                e = cls("m")
                x = inner(e)
                for _ in range(depth):
                    x = JSErrorData("mid", cause=x)
                e.cause = x
                ctx.case((cls.__name__, depth))
                for v in (e, [e, e], JSObject(a=JSObject(), b=e)):
                    check_all(ctx, v, f"error {depth}")
                o = JSObject(e=e)
                if isinstance(x, list):
                    x.append(o)
                check_all(ctx, o, f"error in object {depth}")
    import re as _re
    d = dumps(JSRegExp("a", JSRegExpFlag.UnicodeSets))
    if "RegExpUnicodeSets" in used(d):
        ctx.known.append("K-unicode-sets")


def graphs(ctx):
    r = ctx.rng
    for i in range(ctx.scale(1200)):
        if ctx.late:
            break
        g = CycGen(r, size=r.choice([3, 8, 20]), kinds=r.choice([None, ["rbuf", "rview", "view", "buf", "list", "obj"],
                                                                     ["err", "list", "map", "obj"], ["err", "rview", "list", "sparse"]]))
        v = g.value()
        if not isinstance(v, (JSObject, JSMap, JSSet, list, dict, JSErrorData, JSError)):
            v = [v, g.value()]
        ctx.case((i, safe_repr(v)))
        check_all(ctx, v, safe_repr(v))


def streams(ctx):
    """Streams and encoders enable nothing unless asked."""
    ctx.case("defaults")
    ctx.check(WritableTagStream().features == NONE and Encoder().features == NONE, "no feature is enabled by default")
    for mk in (lambda: WritableTagStream(), lambda: WritableTagStream(features=NONE)):
        s = mk()
        s.write_header()
        s.write_js_array_buffer(JSArrayBuffer(b"abcd", max_byte_length=10, resizable=True))
        ctx.check("ResizableArrayBuffers" not in used(s.data), "a stream writes only enabled features", lambda: repr(s.data))
        b = JSArrayBuffer(b"abcd", max_byte_length=10, resizable=True)
        for t in VIEW_TAGS:
            s = mk()
            s.write_header()
            s.write_js_array_buffer(b)
            before = bytes(s.data)
            v = create_view(b, t, byte_offset=0, byte_length=None)
            try:
                s.write_js_array_buffer_view(v)
                ctx.check(t.name != "kFloat16Array", "half-float views are refused by the stream", lambda: repr(s.data))
                ctx.check(not used(s.data), "a stream writes only enabled features", lambda: repr(s.data))
            except V8SerializeError:
                ctx.check(t.name == "kFloat16Array" and s.data == before, "a refused view writes nothing", lambda: repr((t, s.data)))
    for v in (JSArrayBuffer(b"abcd", max_byte_length=10, resizable=True),):
        for d in (dumps(v), bytes(Encoder().encode(v)), dumps(v, features=None, v8_version=None), dumps(v, features=NONE)):
            ctx.check(not used(d), "no feature is enabled by default", lambda: repr(d))
    for names, f in SUBSETS:
        for e in (Encoder(features=f), Encoder(features=f, v8_version="10.0.29")):
            ctx.check(e.features == f, "exactly the requested features are enabled", lambda: repr((f, e.features)))


def rank(v):
    """Features of a release number, from the table above."""
    n = NONE
    for name, first in FIRST.items():
        if v >= first:
            n |= ONE[name]
    return n


def expect(ctx, version, want, case):
    """want: None for refused."""
    ctx.case(case)
    got = []
    for call in (lambda: F.supported_by(v8_version=version), lambda: Encoder(v8_version=version).features,
                 lambda: Encoder(v8_version=version, features=None).features):
        try:
            got.append(call())
        except (LookupError, ValueError) as e:
            got.append(None)
    ctx.check(all(g == want for g in got), "a minimum version enables exactly the features introduced by then",
              lambda: f"{version!r}: {got}, expected {want}", case)
    for names, f in SUBSETS[:: 1 if ctx.thorough else 5]:
        try:
            g = Encoder(v8_version=version, features=f).features
        except (LookupError, ValueError):
            g = None
        ctx.check(g == (None if want is None else want | f), "the union with requested features is used",
                  lambda: f"{version!r} with {f}: {g}", case)


def versions(ctx):
    r = ctx.rng
    near = []
    for a, b, c in [BASE, *FIRST.values()]:
        for x, y, z in itertools.product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)):
            if a + x >= 0 and b + y >= 0 and c + z >= 0:
                near.append((a + x, b + y, c + z))
        near += [(a,), (a, b), (a, b, c, 0), (a, b, c, 1), (a, b, c, 17, 3), (a, b, c - 1, 99), (a + 1,), (a, b + 1), (a, b, c * 10)]
    near += [(0,), (1,), (9, 9, 999), (10,), (13,), (100, 0, 0), (12, 1, 1090), (12, 10, 1), (11, 10), (10, 70, 0)]
    for _ in range(ctx.scale(300)):
        near.append(tuple(r.choice([0, 1, 5, 7, 9, 10, 11, 12, 13, 29, 109, 123, 193, 254, 300]) for _ in range(r.choice([2, 3, 3, 4, 4]))))
        near.append((r.choice([10, 11, 12, 13]), r.randrange(12), r.randrange(300)))
    last = []
    for v in near:
        if ctx.late:
            break
        s = ".".join(map(str, v))
        t = tuple(v) + (0,) * (5 - len(v))
        want = None if t < BASE + (0, 0) else rank(t)
        if want is not None:
            last.append((t, want))
        for form in (s, Version(s), s + "-rusty", s + "-node.33", s + "-electron.0", s + "+local", "v" + s, " " * 0 + s + ".0"):
            expect(ctx, form, want, (str(form), type(form).__name__))
    for pre in ("a1", "b2", "rc1", ".dev1"):
        for name, first in {"": BASE, **FIRST}.items():
            s = ".".join(map(str, first))
            before = {"": None, "RegExpUnicodeSets": NONE, "ResizableArrayBuffers": F.RegExpUnicodeSets,
                      "CircularErrorCause": F.RegExpUnicodeSets | F.ResizableArrayBuffers}[name]
            expect(ctx, s + pre, before, s + pre)
            expect(ctx, Version(s + pre), before, s + pre)
    expect(ctx, SymbolicVersion.Unreleased, ALL, "unreleased")
    last.sort(key=lambda x: x[0])
    for (a, fa), (b, fb) in zip(last, last[1:]):
        ctx.check(fa | fb == fb, "a later version never enables fewer features", lambda: repr((a, fa, b, fb)))
    v = JSArrayBuffer(b"ab", max_byte_length=10, resizable=True)
    for s, ok in (("11.0.192", False), ("11.0.193", True), ("10.0.29", False), ("12.9.202.2-rusty", True)):
        d = dumps(v, v8_version=s)
        ctx.check(bool(used(d)) == ok, "dumps uses the features of the version", lambda: repr((s, d)))
        d = dumps(v, v8_version=s, features=F.ResizableArrayBuffers)
        ctx.check(bool(used(d)), "dumps uses the union of the features", lambda: repr((s, d)))
    for bad in ("", "abc", "latest", "12.x", "-rusty"):
        try:
            x = F.supported_by(v8_version=bad)
            ctx.fail("text that is not a version is refused", repr((bad, x)))
        except (LookupError, ValueError):
            pass


PARTS = parts(values, graphs, streams, versions)
