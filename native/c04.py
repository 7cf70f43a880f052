"""C04: collections round-trip in order; counts are enforced."""
from native.common import *
from collections import abc, deque, namedtuple
from native.graph import roundtrip, same_data, iso, WRITTEN, WRITTEN_FIXED, LOADED, WIRE
from native.wire import Ref, Bad, WireGen, vi
from v8serialize import dumps, loads, DecodeV8SerializeError
from v8serialize.jstypes import JSObject, JSArray, JSMap, JSSet


def graphs(ctx):
    kinds = ["obj", "arr", "sparse", "map", "set", "list", "dict", "pyset"]
    for _ in range(ctx.scale(3000)):
        if ctx.late:
            break
        g = Gen(ctx.rng, size=ctx.rng.choice([5, 15, 40]), kinds=kinds, cyc=ctx.rng.random() < 0.5)
        v = getattr(g, "k_" + ctx.rng.choice(kinds))(0)
        ctx.case(v)
        roundtrip(ctx, v, "collections")


def wide(ctx):
    """Member counts and lengths around one- and two-byte varints; deep values."""
    sizes = [0, 1, 2, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 300] + ([16383, 16384, 20000] if ctx.thorough else [])
    for n in sizes:
        for mk in (lambda: JSMap((i, str(i)) for i in range(n)), lambda: JSSet(range(n)),
                   lambda: JSObject((f"k{n - i}", i) for i in range(n)), lambda: JSObject((n - i, i) for i in range(n)),
                   lambda: JSArray(range(n)), lambda: list(range(n)), lambda: {i: i for i in range(n)},
                   lambda: JSArray([JSHole] * n), lambda: JSArray([JSHole] * n + [1]), lambda: [JSHole] * n,
                   lambda: JSArray([1 if i % 3 else JSHole for i in range(n)] + [JSHole]),
                   lambda: holey(n), lambda: named(n)):
            ctx.case((n, mk.__code__.co_firstlineno))
            roundtrip(ctx, mk(), f"collections of {n} members")
    v = []
    for _ in range(60):
        v = [v, JSMap([(1, v)])]
        if len(v) > 1:
            v = v[:1]
    roundtrip(ctx, v, "deep nesting")


def holey(n):
    a = JSArray()
    a[n * 7] = "last"
    a[n] = "mid"
    a["x"] = 1
    return a


def named(n):
    a = JSArray(range(3))
    for i in range(n):
        a[f"p{i}"] = i
    return a


def lengths(ctx):
    """Array lengths and storage switching around the sparse thresholds."""
    for length in (0, 1, 2, 3, 4, 5, 10, 100, 127, 128, 2 ** 14 - 1, 2 ** 14, 2 ** 14 + 1, 2 ** 21, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1):
        for used in (0, 1, 2, 3, 5):
            for extra in ((), ("a",), ("b", "01", "a")):
                a = JSArray()
                for i in range(min(used, length)):
                    a[i * 2 if i * 2 < length else i] = f"v{i}"
                if length:
                    if length - 1 not in a or a[length - 1] is JSHole:
                        a[length - 1] = JSHole
                for k in extra:
                    a[k] = k
                ctx.case((length, used, extra))
                data = roundtrip(ctx, a, "array of a given length")
                out = loads(data)
                ctx.check(len(out.array) == len(a.array) == length, "arrays keep their length",
                          lambda: f"{length}: {len(a.array)} -> {len(out.array)}")
    for n in list(range(0, 40)):
        for used in range(0, n + 1, max(1, n // 6)):
            a = JSArray([f"v{i}" if i < used else JSHole for i in range(n)])
            ctx.case(("density", n, used))
            roundtrip(ctx, a, "array of a given density")


COUNTED = {";": 1, ",": 1, "{": 1, "@": 2, "$": 2}


def counts(ctx):
    """Changing a trailing count or length is always rejected."""
    r = ctx.rng
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        n = r.choice([0, 1, 2, 3, 10, 64])
        kind = r.randrange(6)
        val = [None, 1, "x", [1], {"a": 1}]
        if kind == 0:
            v, body = JSMap((i, r.choice(val)) for i in range(n)), [2 * n]
        elif kind == 1:
            v, body = JSSet(range(n)), [n]
        elif kind == 2:
            v, body = JSObject((f"k{i}", r.choice(val)) for i in range(n)), [n]
        elif kind == 3:
            v = JSArray([r.choice(val) for _ in range(n)])
            p = r.randrange(3)
            for i in range(p):
                v[f"p{i}"] = i
            body = [p, n]
        elif kind == 4:
            v, body = [r.choice(val) for _ in range(n)], [0, n]
        else:
            v = JSArray()
            v[1000 + n] = 1
            for i in range(n):
                v[f"p{i}"] = i
            body = [n + 1, 1001 + n]
        data = dumps(v)
        tail = b"".join(vi(b) for b in body)
        if not data.endswith(tail):
            continue        # written in another form; the round-trip parts judge that
        ctx.case((kind, n))
        loads(data)
        j = r.randrange(len(body))
        delta = r.choice([-2, -1, 1, 2, 3, 127, 128, 2 ** 31])
        if body[j] + delta < 0:
            delta = 1
        bad = list(body)
        bad[j] += delta
        bent = data[:len(data) - len(tail)] + b"".join(vi(b) for b in bad)
        # embedded in a larger value too
        for where, x in (("alone", bent), ("in an array", b"\xff\x0fA\x01" + bent[2:] + b"$\x00\x01")):
            try:
                got = loads(x)
            except DecodeV8SerializeError:
                continue
            ctx.fail("a wrong trailing count or length is rejected",
                     f"{where}: counts {body} -> {bad} accepted as {safe_repr(got)}; bytes {x!r:.400}", v)
        if kind == 5:       # leading length changed instead
            lead = vi(1001 + n)
            x = data.replace(b"a" + lead, b"a" + vi(1002 + n), 1)
            try:
                loads(x)
                ctx.fail("a sparse array whose lengths disagree is rejected", repr(x)[:300], v)
            except DecodeV8SerializeError:
                pass


def foreign(ctx):
    """Well-formed data from other writers (padding, any array form, any string form) loads as described."""
    r = ctx.rng
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        start = r.choice(["obj", "arr", "sparse", "map", "set"])
        w = WireGen(r, version=r.choice([13, 14, 15]), kinds=["obj", "arr", "sparse", "map", "set"]).make(start)
        ctx.case(w)
        n = Ref(w).load()
        try:
            iso(n, WIRE, loads(w), LOADED)
        except Mismatch as e:
            ctx.fail("well-formed collections load as described", f"{e}; bytes {w!r:.500}", w)


class FrozenList(abc.Sequence):
    """A user's immutable sequence, compared by its members."""

    def __init__(self, *items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)

    def __eq__(self, other):
        return isinstance(other, FrozenList) and self.items == other.items

    def __hash__(self):
        return hash(self.items)


Pair = namedtuple("Pair", "x y")


def immutable(ctx):
    """Immutable Python collections, also ones that are equal although their members are different values."""
    r = ctx.rng
    equals = [[0, 0.0, -0.0, False], [1, 1.0, True], [-1, -1.0], [7, 7.0], ["s"], [None], [JSUndefined], [2 ** 60, float(2 ** 60)]]
    lists = dict(tuple=lambda xs: tuple(xs), pair=lambda xs: Pair(*(list(xs) + [None, None])[:2]), deque=lambda xs: deque(xs),
                 own=lambda xs: FrozenList(*xs), deep=lambda xs: tuple((x,) for x in xs), holding=lambda xs: (*xs, [1], {"a": 2}))
    sets = dict(frozenset=frozenset, keys=lambda xs: dict.fromkeys(xs).keys())
    flat = lambda name, v: [list(x.array)[0] for x in v.array] if name == "deep" else list(v.array)
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        kind = r.choice(list(lists) + list(sets))
        mk = lists.get(kind) or sets[kind]
        groups = [r.choice(equals) for _ in range(r.randrange(4))]
        vals = [mk([r.choice(g) for g in groups]) for _ in range(r.randrange(1, 5))]
        order = [r.choice(range(len(vals))) for _ in range(r.randrange(1, 6))]
        ctx.case((kind, vals, order))
        out = loads(dumps([vals[i] for i in order])).array
        for i, got in zip(order, out):
            if kind in sets:
                ctx.check(isinstance(got, JSSet), "a set loads as a set", lambda: repr(got), vals)
                have, want = list(got), list(vals[i])
            elif kind == "holding":
                have, want = list(got.array)[:-2], list(vals[i])[:-2]
                ctx.check(len(got.array) == len(vals[i]) and list(got.array[len(want)].array) == [1] and dict(got.array[len(want) + 1]) == {"a": 2},
                          "a member that is not hashable loads too", lambda: safe_repr(got), vals)
            else:
                ctx.check(isinstance(got, JSArray), "a sequence loads as an array", lambda: repr(got), vals)
                have = flat(kind, got)
                want = [x[0] for x in vals[i]] if kind == "deep" else list(vals[i])
            ctx.check(len(have) == len(want) and all(same_data(loaded_scalar(a), b) for a, b in zip(want, have)),
                      "an immutable collection keeps its own members, whatever equals it",
                      lambda: f"{vals[i]!r} -> {safe_repr(got)}", (vals, order))
        for n, i in enumerate(order):
            if kind != "pair" and [j for j in order[:n] if vals[j] is vals[i]]:
                first = [m for m in range(n) if vals[order[m]] is vals[i]][0]
                ctx.check(out[first] is out[n] or vals[i] == (), "an object occurring twice loads as one object",
                          lambda: f"{vals!r} at {order}", (vals, order))


def loaded_scalar(v):
    if type(v) is int and not -2 ** 31 <= v < 2 ** 32 and abs(v) < 2 ** 53:
        return float(v)
    return v


PARTS = parts(graphs, wide, lengths, counts, foreign, immutable)
