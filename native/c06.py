"""C06: errors, regexps, dates, wrapped primitives and shared references keep their data."""
import itertools
import os
import time
from datetime import timezone, timedelta, tzinfo
from native.common import *
from native.graph import roundtrip, iso, WRITTEN, LOADED, WIRE
from native.wire import Ref, Bad, WireGen, vi
from v8serialize import dumps, loads, DecodeV8SerializeError, V8SerializeError

ALL = ~SerializationFeature(0)
CYC = SerializationFeature.CircularErrorCause
KNOWN = ["EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError"]
NAMES = KNOWN + ["Error", "", "Custom", "error", "Typeerror", "E", "T", "AggregateError"]


def name_of(n):
    return n if n in KNOWN else "Error"


def fields(ctx):
    """Every combination of error fields, for both error representations."""
    texts = [None, "", "m", "é", "日本💥", "x" * 200]
    causes = [None, 0, "c", False, JSUndefined, JSObject(a=1), JSErrorData("inner", stack="st"), [1]]
    for name, msg, stack in itertools.product(NAMES, texts, [None, "", "s", "日"]):
        for cause in causes if name in ("Error", "TypeError") else [None, "c"]:
            ctx.case((name, msg, stack, safe_repr(cause)))
            for f in (None, CYC):
                e = JSErrorData(msg, name=name, stack=stack, cause=cause)
                data = dumps(e, features=f)
                o = loads(data, js_error_builder=JSErrorData.builder)
                ok = (type(o) is JSErrorData and str(getattr(o.name, "value", o.name)) == name_of(name)
                      and o.message == msg and type(o.message) is type(msg) and o.stack == stack and type(o.stack) is type(stack)
                      and o.cause == loads(dumps(cause)) and (o.cause is None) == (cause is None))
                ctx.check(ok, "an error keeps its name, message, stack and cause", lambda: f"{e} -> {o}; {data!r:.300}", (name, msg, stack))
                x = loads(data)
                ok = (type(x) is JSError and str(getattr(x.name, "value", x.name)) == name_of(name) and x.message == (msg or "")
                      and x.stack == stack and x.cause == loads(dumps(cause)))
                ctx.check(ok, "an error loaded as an exception keeps its fields", lambda: f"{e} -> {x!r}", (name, msg, stack))
                e2 = JSError(msg, name=name, stack=stack, cause=cause)
                y = loads(dumps(e2, features=f))
                ok = y.message == (msg or "") and y.stack == stack and str(getattr(y.name, "value", y.name)) == name_of(name)
                ctx.check(ok, "a JSError keeps its fields", lambda: f"{e2!r} -> {y!r}", (name, msg, stack))
                if msg is None:
                    roundtrip(ctx, [e, e], "errors without a message", features=f)


    o = loads(b"\xff\x0frU.", js_error_builder=JSErrorData.builder)
    if o.name == "UriError" and loads(dumps(JSErrorData("m", name="URIError"))).name == "Error":
        ctx.known.append("K-urierror")
    n = o.name
    x = loads(dumps(JSErrorData("m", name=n)))
    ctx.check(x.name == n and n in ("UriError", "URIError"), "the name V8's URI error loads with is kept", lambda: repr((n, x.name)))


def old_order(ctx):
    """Stack after the cause, as written by older V8; with every string form and cause."""
    def s(form, t):
        raw = t.encode({"S": "utf-8", '"': "latin1", "c": "utf-16-le"}[form])
        return form.encode() + vi(len(raw)) + raw
    tags = {"": "Error", "E": "EvalError", "R": "RangeError", "F": "ReferenceError", "S": "SyntaxError", "T": "TypeError"}
    causes = [None, (b"0", None), (b"I\x02", 1), (s("S", "c"), "c"), (b"o{\x00", JSObject()), (b"rmS\x01i.", None), (b"A\x00$\x00\x00", None),
              (b"^\x00", "self"), (b"B\x01a", None)]
    for t, m, st, c, pos, form, v in itertools.product(tags, [None, "", "m"], [None, "", "st"], causes, "ab", 'S"c', (13, 15)):
        b = b"r" + t.encode()
        if m is not None:
            b += s(form, m)[:0] + b"m" + s(form, m)
        if st is not None and pos == "b":
            b += b"s" + s(form, st)
        if c:
            b += b"c" + c[0]
        if st is not None and pos == "a":
            b += b"s" + s(form, st)
        b += b"."
        ctx.case(b)
        for tail in (b"", b"extra"):
            d = b"\xff" + vi(v) + b
            o = loads(d + tail, js_error_builder=JSErrorData.builder)
            ok = (str(getattr(o.name, "value", o.name)) == tags[t] and o.message == m and o.stack == st)
            if c and c[1] == "self":
                ok = ok and o.cause is o
            elif c and c[1] is not None:
                ok = ok and o.cause == c[1] and type(o.cause) is type(c[1])
            elif c is None:
                ok = ok and o.cause is None
            ctx.check(ok, "an error in either field order loads with the same fields",
                      lambda: f"{d!r} -> {(o.name, o.message, o.stack, safe_repr(o.cause))}", d)
            iso_check(ctx, d)


def iso_check(ctx, d):
    try:
        n = Ref(d).load()
        iso(n, WIRE, loads(d), LOADED)
    except Mismatch as e:
        ctx.fail("data loads as described", f"{e}; {d!r:.300}", d)
    except Bad:
        pass


def self_cause(ctx):
    """Errors reachable from their own cause."""
    def direct(e):
        return e
    wraps = dict(direct=direct, list=lambda e: [e], obj=lambda e: JSObject(a=e), map=lambda e: JSMap([(1, e)]),
                 mapk=lambda e: JSMap([(e, 1)]), set=lambda e: JSSet([e]), err=lambda e: JSErrorData("mid", cause=e),
                 deep=lambda e: [JSObject(a=[JSErrorData("mid", cause=JSMap([(1, e)]))])], arr=lambda e: JSArray([1, e]))
    for cls in (JSErrorData, JSError):
        for n, w in wraps.items():
            for pre in (0, 1, 2):
                e = cls("top", name="TypeError", stack="s")
                e.cause = w(e)
                v = [JSObject()] * (pre > 0) + [JSErrorData("done", cause=1)] * (pre > 1) + [e]
                ctx.case((cls.__name__, n, pre))
                for value in (v, e):
                    try:
                        d = dumps(value)
                        ctx.fail("an error that refers to itself in its cause is rejected without the feature", f"{n}: {d!r:.200}", n)
                    except V8SerializeError:
                        pass
                out = loads(dumps(v, features=CYC)).array[len(v) - 1]
                x = out.cause
                for _ in range(6):
                    if x is out:
                        break
                    x = (x.array[len(x.array) - 1] if isinstance(x, JSArray) else x["a"] if isinstance(x, JSObject) else
                         (list(x.items())[0][0 if n == "mapk" else 1]) if isinstance(x, JSMap) else list(x)[0] if isinstance(x, JSSet) else x.cause)
                ctx.check(x is out and out.message == "top", "an error cycle is preserved with the feature", lambda: safe_repr(out), n)
    # after rejecting, or after finishing an error, the same error may occur again
    e = JSErrorData("again", cause=JSObject(x=1))
    for f in (None, CYC):
        out = loads(dumps([e, e, [e], JSErrorData("o", cause=e)], features=f))
        a = out.array
        ctx.check(a[0] is a[1] and a[2].array[0] is a[0] and a[3].cause is a[0], "a finished error can be referenced again", lambda: safe_repr(out))
    # sibling causes sharing an object
    for f in (None, CYC):
        o = JSObject()
        e1, e2 = JSErrorData("1", cause=o), JSErrorData("2", cause=[o])
        out = loads(dumps([e1, e2, o], features=f)).array
        ctx.check(out[0].cause is out[2] and out[1].cause.array[0] is out[2], "errors share their causes", lambda: safe_repr(out))

def regexps(ctx):
    r = ctx.rng
    F = [m for m in JSRegExpFlag.__members__.values() if int(m).bit_count() == 1 and int(m) < 512]
    for n in range(512):
        f = JSRegExpFlag(n)
        if f & JSRegExpFlag.Unicode and f & JSRegExpFlag.UnicodeSets:
            continue
        for src in ("a", "", "é", "日本", "x/y", "(?:)"):
            ctx.case((n, src))
            x = JSRegExp(src, f)
            roundtrip(ctx, [x, x, JSObject()], "regular expressions")
            o = loads(dumps(x))
            ctx.check(type(o) is JSRegExp and o.source == (src or "(?:)") and o.flags == f, "a regexp keeps source and flags", lambda: f"{x} -> {o}")


def dates(ctx):
    r = ctx.rng
    base = [datetime(1970, 1, 1), datetime(2000, 2, 29, 12, 30, 15, 999000), datetime(1999, 12, 31, 23, 59, 59, 1000),
            datetime(1900, 1, 1), datetime(9999, 12, 30), datetime(1, 1, 3), datetime(2024, 1, 1, 0, 0, 0, 123456)]
    zones = [None, timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-11))]
    for i in range(ctx.scale(2000)):
        if i < len(base) * len(zones):
            d = base[i % len(base)].replace(tzinfo=zones[i // len(base)])
        else:
            d = datetime(r.randrange(2, 9998), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60),
                         r.choice([0, 1000 * r.randrange(1000), r.randrange(10 ** 6)]), tzinfo=r.choice(zones))
        if ctx.late:
            break
        ctx.case(d)
        for tz in (None, timezone.utc, zones[2]):
            o = loads(dumps(d), default_timezone=tz)
            ctx.check(isinstance(o, datetime) and abs(o.timestamp() - d.timestamp()) <= 0.0005 and
                      (o.tzinfo is None if tz is None else o.utcoffset() == tz.utcoffset(None)),
                      "a date keeps its instant to the millisecond", lambda: f"{d!r} -> {o!r} ({o.timestamp() - d.timestamp()})", d)
    roundtrip(ctx, [base[1], base[1], JSObject()], "repeated dates")


class Folding(tzinfo):
    """A zone whose clock is set back an hour every day at 02:00 standard time (a repeated hour each day)."""

    def utcoffset(self, dt):
        if dt is None:
            return timedelta(0)
        first = dt.hour < 1 or dt.hour == 1 and not dt.fold
        return timedelta(hours=1 if first else 0)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return "Folding"


def clock_changes(ctx):
    """Instants around clock changes, naive in several local zones and aware, both times a repeated hour occurs."""
    r = ctx.rng
    old = os.environ.get("TZ")
    utc = timezone.utc
    try:
        for z in ("EST5EDT,M3.2.0,M11.1.0", "GMT0BST,M3.5.0/1,M10.5.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "UTC0", "NZST-12NZDT,M9.5.0,M4.1.0/3"):
            os.environ["TZ"] = z
            time.tzset()
            for _ in range(ctx.scale(120)):
                if ctx.late:
                    break
                k = r.randrange(3)
                if k == 0:      # near a change of the local zone
                    y, m = r.randrange(1975, 2036), r.choice([3, 4, 9, 10, 11])
                    d = datetime(y, m, r.randrange(1, 31), r.randrange(4), r.randrange(60), r.randrange(60), 1000 * r.randrange(1000), fold=r.randrange(2))
                elif k == 1:
                    d = datetime.fromtimestamp(r.randrange(0, 2 ** 31) + r.randrange(1000) / 1000)
                else:
                    d = datetime(r.randrange(1975, 2036), r.randrange(1, 13), r.randrange(1, 29), r.randrange(3), r.randrange(60), fold=r.randrange(2),
                                 tzinfo=Folding())
                for fold in (0, 1):
                    d = d.replace(fold=fold)
                    ctx.case((z, d, fold))
                    for tz in (None, utc):
                        o = loads(dumps([1, d]), default_timezone=tz).array[1]
                        ctx.check(isinstance(o, datetime) and abs(o.timestamp() - d.timestamp()) <= 0.0005,
                                  "a date keeps its instant to the millisecond", lambda: f"{d!r} in {z} -> {o!r} ({o.timestamp() - d.timestamp()})", (z, d, fold))
            # every change of the year in this zone, found by scanning the hours
            t0 = datetime(2024, 1, 1).timestamp()
            prev = None
            for h in range(366 * 24):
                off = time.localtime(t0 + 3600 * h).tm_gmtoff
                if prev is not None and off != prev:
                    for mi in range(-180, 181, 15):
                        d = datetime.fromtimestamp(t0 + 3600 * h + 60 * mi)
                        ctx.case((z, d, d.fold))
                        o = loads(dumps(d))
                        ctx.check(abs(o.timestamp() - d.timestamp()) <= 0.0005, "a date keeps its instant to the millisecond",
                                  lambda: f"{d!r} in {z} -> {o!r} ({o.timestamp() - d.timestamp()})", (z, d, d.fold))
                prev = off
            # both times a repeated hour occurs, in one message
            pairs = [datetime(2024, 3, 5, 1, r.randrange(60), fold=r.randrange(2), tzinfo=Folding()) for _ in range(4)]
            pairs += [d.replace(fold=1 - d.fold) for d in pairs]
            pairs += [datetime(2024, m, d, h, 30, fold=fold) for m in (4, 10, 11) for d in (3, 6, 7, 27) for h in (1, 2) for fold in (0, 1)]
            r.shuffle(pairs)
            ctx.case((z, pairs))
            out = loads(dumps(pairs), default_timezone=utc).array
            for d, o in zip(pairs, out):
                ctx.check(abs(o.timestamp() - d.timestamp()) <= 0.0005, "a date keeps its instant next to one that Python finds equal",
                          lambda: f"{d!r} in {z} -> {o!r}", (z, pairs))
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def wrapped(ctx):
    vals = [True, False, 0.0, -0.0, 1.5, math.inf, -math.inf, math.nan, 0, 42, -7, SAFE, -SAFE, 2 ** 60, -2 ** 100, "", "s", "é", "日本💥", "x" * 300]
    from v8serialize.constants import SerializationTag as T
    from v8serialize.decode import ReadableTagStream
    from v8serialize.encode import WritableTagStream
    for v in vals:
        tags = [None]
        if isinstance(v, int) and not isinstance(v, bool):
            tags.append(T.kBigIntObject)
        for t in tags:
            p = JSPrimitiveObject(v) if t is None else JSPrimitiveObject(v, tag=t)
            ctx.case((v, t))
            roundtrip(ctx, [p, JSObject(a=p), p], "wrapped primitives")
            out = loads(dumps([p, p, 1])).array
            want = float(v) if p.tag is T.kNumberObject else v
            ctx.check(ident(out[0], want) and ident(out[1], want), "a wrapped primitive keeps its value", lambda: f"{p} -> {out[0]!r}", v)
            w = WritableTagStream()
            w.write_js_primitive_object(p)
            _, q = ReadableTagStream(bytes(w.data)).read_js_primitive_object()
            ctx.check(type(q) is JSPrimitiveObject and q.tag is p.tag and ident(q.value, want), "reading gives the wrapper back", lambda: f"{p} -> {q}", v)


def wrapped_alike(ctx):
    """Wrapped primitives that Python finds equal, in one message."""
    r = ctx.rng
    pool = [0.0, -0.0, 0, False, 1, 1.0, True, "1", "", -1, -1.0, 2 ** 60, float(2 ** 60)]
    for _ in range(ctx.scale(1500)):
        vals = [r.choice(pool) for _ in range(r.randrange(2, 7))]
        ctx.case(vals)
        out = loads(dumps([JSPrimitiveObject(v) for v in vals])).array
        for v, got in zip(vals, out):
            want = float(v) if JSPrimitiveObject(v).tag.name == "kNumberObject" else v
            ctx.check(ident(got, want), "a wrapped primitive keeps its value next to equal ones", lambda: f"{vals!r} -> {safe_repr(out)}", vals)


def ids(ctx):
    for n in [0, 1, 127, 128, 16383, 16384, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1] + [ctx.rng.getrandbits(32) for _ in range(50)]:
        for mk, at in ((JSSharedArrayBuffer, "buffer_id"), (JSArrayBufferTransfer, "transfer_id"), (V8SharedObjectReference, "shared_value_id")):
            ctx.case((mk.__name__, n))
            x = mk(n)
            roundtrip(ctx, [x, JSObject(), x], "shared references")
            o = loads(dumps(x))
            ctx.check(type(o) is mk and getattr(o, at) == n, "a shared reference keeps its id", lambda: f"{x} -> {o}", n)


def graphs(ctx):
    kinds = ["err", "re", "date", "prim", "shared", "sab", "xfer", "list", "obj", "map"]
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        g = Gen(ctx.rng, size=20, kinds=kinds)
        v = [getattr(g, "k_" + ctx.rng.choice(kinds))(0) for _ in range(3)]
        ctx.case(v)
        roundtrip(ctx, v, "errors and other leaf objects", features=CYC)
        w = WireGen(ctx.rng, version=ctx.rng.choice([13, 14, 15]), kinds=["err", "date", "wrapped", "regexp", "ids", "obj", "arr"]).make(
            ctx.rng.choice(["err", "arr", "wrapped", "regexp", "ids", "date"]))
        ctx.case(w)
        iso_check(ctx, w)


PARTS = parts(fields, old_order, self_cause, regexps, dates, clock_changes, wrapped, wrapped_alike, ids, graphs)
