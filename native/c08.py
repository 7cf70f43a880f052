"""C08: malformed or truncated data only raises the library's own errors; nothing is read past the end."""
import itertools
from native.common import *
from native.graph import iso, LOADED, WIRE
from native.wire import Ref, Bad, WireGen, vi
from v8serialize import dumps, loads, V8SerializeError
from v8serialize.decode import ReadableTagStream

ALL = ~SerializationFeature(0)


def trial(ctx, data, label, compare=True):
    """loads() returns what a reference reader sees, or raises the library's error."""
    try:
        ref, why = Ref(data).load(), None
    except Bad as e:
        ref, why = None, str(e)
    except RecursionError:
        return
    try:
        got = loads(data)
    except V8SerializeError:
        return False
    except (RecursionError, MemoryError):
        return
    except BaseException as e:
        ctx.fail(f"{label}: only the library's errors are raised", f"{type(e).__name__}: {e}\nbytes: {data!r:.600}", data)
        return
    if why == "truncated":
        ctx.fail(f"{label}: data that ends early is an error", f"loaded {safe_repr(got)} from {data!r:.600}", data)
    elif ref is not None and compare:
        try:
            iso(ref, WIRE, got, LOADED)
        except Mismatch as e:
            ctx.fail(f"{label}: what is returned is what the bytes say", f"{e}\nbytes: {data!r:.600}", data)
    return True


def messages(ctx, size=15):
    r = ctx.rng
    if r.random() < 0.5:
        return WireGen(r, size=size, version=r.choice([13, 14, 15])).make()
    g = Gen(r, size=size)
    return dumps([g.value(0) for _ in range(r.randrange(1, 3))], features=ALL)


def truncated(ctx):
    """Every prefix of valid messages."""
    for _ in range(ctx.scale(600)):
        if ctx.late:
            break
        data = messages(ctx, 8)
        if len(data) > 400:
            continue
        for cut in range(len(data)):
            ctx.case(data[:cut])
            trial(ctx, data[:cut], "prefix of a valid message")


def mutated(ctx):
    """Valid messages with bytes changed, inserted, removed, doubled or spliced."""
    r = ctx.rng
    tags = b"\x00-_0TFIUNZ\"cS^o{A$a@D:;'ByxnzsRVutwpr\\~,"
    special = [b"\xff\xff\xff\xff\x0f", b"\x80\x80\x80\x80\x10", b"\xff\xff\xff\xff\xff\xff\x01", b"\x80", b"\xff", b"\xff\x7f",
               b"\x80\x80\x80\x80\x08", b"\x00", b"\x80\x00", b"\xed\xa0\x80", b"\x00\xd8", b"\xff\xff\xff\xff\x7f",
               b"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01"]
    for _ in range(ctx.scale(25000)):
        if ctx.late:
            break
        d = bytearray(messages(ctx, r.choice([2, 5, 12])))
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            i = r.randrange(2 if r.random() < 0.95 else 0, len(d) + 1) if len(d) > 2 else len(d)
            k = r.randrange(7)
            if k == 0 and i < len(d):
                d[i] = r.randrange(256)
            elif k == 1 and i < len(d):
                d[i] = (d[i] + r.choice([1, -1, 2, 128])) & 255
            elif k == 2:
                d.insert(i, r.choice(tags))
            elif k == 3 and i < len(d):
                del d[i:i + r.choice([1, 1, 2, 4])]
            elif k == 4:
                d[i:i + r.choice([0, 1])] = r.choice(special)
            elif k == 5 and i < len(d):
                d[i] = r.choice(tags)
            else:
                j = r.randrange(len(d) + 1)
                d[i:i] = d[min(i, j):max(i, j)][:20]
        data = bytes(d)
        ctx.case(data)
        trial(ctx, data, "changed message", compare=False)


def short(ctx):
    """All short bodies, and random tag-heavy ones."""
    r = ctx.rng
    for v in (13, 14, 15):
        h = b"\xff" + bytes([v])
        trial(ctx, h, "header only")
        for a in range(256):
            ctx.case((v, a))
            trial(ctx, h + bytes([a]), "one byte")
    for a, b in itertools.product(range(256), range(256)):
        ctx.case((a, b))
        trial(ctx, b"\xff\x0f" + bytes([a, b]), "two bytes", compare=False)
    pool = b"\x00-_0TFIUNZ\"cS^o{A$a@D:;'ByxnzsRVutwpr\\~,mscE." + bytes(range(8)) + b"\x80\xff"
    for _ in range(ctx.scale(60000)):
        if ctx.late:
            break
        body = bytes(r.choice(pool) for _ in range(r.randrange(3, 12)))
        ctx.case(body)
        trial(ctx, b"\xff" + bytes([r.choice([13, 14, 15])]) + body, "random tags", compare=False)
    for _ in range(ctx.scale(5000)):
        if ctx.late:
            break
        body = r.randbytes(r.randrange(0, 20))
        ctx.case(body)
        trial(ctx, body, "random bytes", compare=False)
    for v in (0, 1, 12, 16, 127, 128, 15 + 128, 2 ** 32 + 15, 2 ** 33):
        for tail in (b"", b"0"):
            try:
                loads(b"\xff" + vi(v) + tail)
                ctx.fail("an unsupported version is rejected", str(v))
            except V8SerializeError:
                pass


LENGTHS = [b'"%s', b"c%s", b"S%s", b"Z%s", b"B%s", b"~%s\xff\xff\xff\xff\x0f", b"z%s", b"s%s", b"R\"%s", b"rm\"%s", b"rs\"%s", b"\\\x01%s", b"\\\x09%s",
           b"o\"%s", b"RS\x01a%s", b"A%s", b"^%s", b"p%s", b"t%s", b"u%s", b"I%s", b"U%s", b"a%s"]


def lengths(ctx):
    """Length fields larger than what is left, in every element that has one."""
    for pat in LENGTHS:
        big = pat[:1] in b"Zz"
        for extra in (0, 1, 2, 3, 7, 8, 9, 100):
            for n in (1, 2, 3, 4, 8, 9, 16, 17, 101, 127, 128, 2 ** 14, 2 ** 20, 2 ** 30, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 34, 2 ** 35 - 1, 2 ** 40):
                for wrap in (b"%s", b"A\x01%s", b"o\"\x01k%s", b";%s"):
                    field = vi(n)
                    data = b"\xff\x0f" + wrap.replace(b"%s", pat.replace(b"%s", field)) + b"\x01" * extra
                    if pat == b"A%s" and n > 2 ** 20 and extra:
                        continue
                    ctx.case((pat, n, extra, wrap))
                    trial(ctx, data, "length field", compare=False)
    # one item short or long for the exact amount of data
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256]:
        for pat, unit in ((b'"%s', 1), (b"c%s", 2), (b"S%s", 1), (b"B%s", 1), (b"\\\x01%s", 1), (b"s%s", 1), (b"~%s\xff\xff\x03", 1)):
            d = b"\xff\x0f" + pat.replace(b"%s", vi(n * unit))
            for have in {max(0, n * unit - 2), max(0, n * unit - 1), n * unit}:
                ctx.case((pat, n, have))
                ok = trial(ctx, d + b"a" * have, "exact length")
                ctx.check(ok == (have >= n * unit), "a length is accepted exactly when the data is present", lambda: f"{pat} {n} {have}")
        for pat in (b"Z%s", b"z%s"):
            for have in {max(0, n - 1), n, n + 1}:
                ok = trial(ctx, b"\xff\x0f" + pat.replace(b"%s", vi(n * 2)) + b"\x01" * have, "bigint length")
                ctx.check(ok == (have >= n), "a bigint is accepted exactly when its digits are present", lambda: f"{pat} {n} {have}")


def inputs(ctx):
    """Whatever the kind of binary input; data after the value is not consumed."""
    r = ctx.rng
    for _ in range(ctx.scale(1500)):
        if ctx.late:
            break
        data = messages(ctx, 8)
        if r.random() < 0.5 and len(data) > 2:
            data = data[:r.randrange(len(data))]
        ctx.case(data)
        res = []
        import array as arr
        forms = [lambda: data, lambda: bytearray(data), lambda: memoryview(data), lambda: memoryview(b"x" + data + b"y")[1:-1], lambda: arr.array("B", data)]
        for f in forms:
            try:
                res.append(("ok", loads(f())))
            except V8SerializeError:
                res.append(("error", None))
            except RecursionError:
                res.append(("error", None))
            except BaseException as e:
                ctx.fail("any binary input raises only the library's errors", f"{type(e).__name__}: {e}", data)
                return
        ctx.check(len({a for a, _ in res}) == 1, "all kinds of binary input load alike", lambda: f"{[a for a, _ in res]} {data!r:.300}", data)
        if res[0][0] == "ok":
            for _, v in res[1:]:
                try:
                    iso(res[0][1], LOADED, v, LOADED)
                except Mismatch as e:
                    ctx.fail("all kinds of binary input load alike", f"{e}; {data!r:.300}", data)


def readers(ctx):
    """Each primitive reader, called directly near the end of the data."""
    r = ctx.rng
    for _ in range(ctx.scale(20000)):
        if ctx.late:
            break
        n = r.randrange(0, 12)
        data = bytes(r.choice([0, 1, 2, 3, 4, 127, 128, 129, 255, 0x49, 0x55, 0x4e, 0x5a, 0x22, 0x63, 0x53, r.randrange(256)]) for _ in range(n))
        pos = r.randrange(n + 1)
        name, kw = r.choice([("read_varint", {}), ("read_varint", dict(max_bits=32)), ("read_zigzag", {}), ("read_double", {}), ("read_string_onebyte", {}),
                             ("read_string_twobyte", {}), ("read_string_utf8", {}), ("read_bigint", {}), ("read_int32", {}), ("read_uint32", {}),
                             ("read_tag", {}), ("read_header", {}), ("read_bytes", dict(count=r.randrange(15))), ("read_int32", dict(tag=True)),
                             ("read_uint32", dict(tag=True)), ("read_double", dict(tag=True)), ("read_bigint", dict(tag=True))])
        s = ReadableTagStream(data, pos=pos)
        ctx.case((name, kw, data, pos))
        try:
            getattr(s, name)(**kw)
        except V8SerializeError:
            continue
        except BaseException as e:
            ctx.fail(f"{name} raises only the library's errors", f"{type(e).__name__}: {e}", (name, kw, data, pos))
            continue
        ctx.check(pos <= s.pos <= len(data), f"{name} stays inside the data", lambda: f"{pos} -> {s.pos} of {len(data)}", (name, kw, data, pos))
    for fn in ("read_double", "read_tag"):
        s = ReadableTagStream(b"")
        try:
            getattr(s, fn)()
            ctx.fail(f"{fn} on no data is an error")
        except V8SerializeError:
            pass


PARTS = parts(truncated, mutated, short, lengths, inputs, readers)
