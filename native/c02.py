"""C02: scalars survive dumps/loads with exact value and type, alone and next to other values."""
from native.common import *
from native.graph import roundtrip
from v8serialize import dumps, loads
from v8serialize.jstypes import JSObject, JSArray, JSMap, JSSet


def want(v):
    return expect_int(v) if isinstance(v, int) and not isinstance(v, bool) else v


def one(ctx, v):
    ctx.case(v)
    out = loads(dumps(v))
    ctx.check(ident(want(v), out), "a scalar alone loads back exactly",
              lambda: f"{v!r} ({type(v).__name__}) -> {out!r} ({type(out).__name__})", v)


def edges():
    out = [None, JSUndefined, JSHole, True, False]
    for e in (0, 6, 7, 8, 13, 14, 15, 16, 30, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 127, 128, 255, 256, 1000):
        for d in range(-3, 4):
            out += [2 ** e + d, -(2 ** e) + d]
    import struct
    for b in (0, 1, 2 ** 52, 2 ** 52 - 1, 0x7fe << 52, (0x7ff << 52) - 1, 0x7ff << 52, 0x7ff8 << 48, 0x3ff << 52):
        for s in (0, 2 ** 63):
            out.append(struct.unpack("<d", struct.pack("<Q", b | s))[0])
    out += [float(2 ** e + d) for e in (31, 32, 53) for d in (-1, 0, 1)]
    out += [chr(c) for c in list(range(0, 0x300)) + [0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]]
    out += ["a" * n for n in (1, 2, 126, 127, 128, 129, 16383, 16384)] + ["é" * n for n in (63, 64, 127, 128)]
    out += STRS + FLTS + INTS
    return out


def alone(ctx):
    for v in edges():
        one(ctx, v)
    for _ in range(ctx.scale(15000)):
        if ctx.late:
            break
        one(ctx, scalars(ctx.rng))


def together(ctx):
    """Equal values of different types and zeros of both signs in one message."""
    r = ctx.rng
    groups = [[0, 0.0, -0.0, False, ""], [1, 1.0, True, "1"], [-1, -1.0], [2 ** 31, float(2 ** 31)], [None, JSUndefined],
              [2 ** 53, float(2 ** 53), 2 ** 53 + 1], [math.nan, -math.nan], [math.inf, -math.inf],
              ["a", "a" * 1], [10 ** 20, float(10 ** 20), str(10 ** 20)], [SAFE, float(SAFE), -SAFE]]
    for _ in range(ctx.scale(4000)):
        if ctx.late:
            break
        vals = []
        for _ in range(r.randrange(1, 9)):
            vals.append(r.choice(r.choice(groups)) if r.random() < 0.7 else scalars(r))
        ctx.case(vals)
        out = loads(dumps(vals))
        for i, v in enumerate(vals):
            got = out.array[i]
            ctx.check(ident(want(v), got), "a scalar among others loads back exactly",
                      lambda: f"element {i}: {v!r} -> {got!r}", vals)
        # as object values, map keys and values
        ctx.case(("obj", vals))
        o = loads(dumps(JSObject([(f"k{i}", v) for i, v in enumerate(vals) if v is not JSHole])))
        for i, v in enumerate(vals):
            if v is not JSHole:
                ctx.check(ident(want(v), o[f"k{i}"]), "a property value loads back exactly",
                          lambda: f"{v!r} -> {o[f'k{i}']!r}", vals)
        m = JSMap()
        for v in vals:
            m[v] = [v]
        ctx.case(("map", vals))
        lm = list(loads(dumps(m)).items())
        ctx.check(len(lm) == len(m), "map entries keep their number", lambda: f"{m!r} -> {lm!r}", vals)
        for (k, v), (k2, v2) in zip(m.items(), lm):
            ctx.check(ident(want(k), k2) and ident(want(v[0]), v2.array[0]), "map keys and values load back exactly",
                      lambda: f"{k!r}: {v!r} -> {k2!r}: {v2!r}", vals)


def mixed(ctx):
    """Scalars within random object graphs, also next to wrapped primitives and buffers of equal contents."""
    for _ in range(ctx.scale(1500)):
        if ctx.late:
            break
        g = Gen(ctx.rng, size=30)
        v = [g.value(0) for _ in range(ctx.rng.randrange(1, 6))]
        ctx.case(v)
        roundtrip(ctx, v, "scalars within a graph", features=~SerializationFeature(0))


PARTS = parts(alone, together, mixed)
