"""C11: JSMap and JSSet against an insertion-ordered mapping over same-value-zero identity."""
import enum
from decimal import Decimal
from fractions import Fraction
from native.common import *
from v8serialize.jstypes import same_value_zero
from v8serialize import dumps, loads


class Num(enum.IntEnum):
    ONE = 1
    SEVEN = 7


class Str(str):
    pass


class Fl(float):
    pass


class In(int):
    pass


class Weird:
    """Equal to everything, with a constant hash."""

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class Unhash:
    __hash__ = None

    def __eq__(self, o):
        return True


def kid(v):
    """Identity of a key by the property's statement."""
    if isinstance(v, bool):
        return ("bool", bool(v))
    if isinstance(v, (int, float)):
        if isinstance(v, float) and math.isnan(v):
            return ("nan",)
        return ("num", float(v) if isinstance(v, float) else int(v))      # == and hash are exact across int and float
    if isinstance(v, str):
        return ("str", str.__str__(v) + "")
    if isinstance(v, bytes):
        return ("bytes", bytes(v))
    if v is None or v is JSUndefined:
        return ("const", str(v))
    return ("object", id(v))


def pool():
    a, b = [1], [1]
    t1, t2 = (1, 2), tuple([1, 2])
    nan2 = struct.unpack("<d", struct.pack("<Q", 0xfff8000000000001))[0]
    w1, w2 = Weird(), Weird()
    ba, bb = bytearray(b"x"), bytearray(b"x")
    big = 2 ** 2000
    return [0, 0.0, -0.0, False, True, 1, 1.0, Num.ONE, Num.SEVEN, 7, 7.0, -1, -1.0, math.nan, float("nan"), nan2, -math.nan, math.inf, -math.inf, Fl("nan"), Fl(0.0), Fl(7), In(7), In(0), Fl("inf"),
            2 ** 53, 2.0 ** 53, 2 ** 53 + 1, 2 ** 64, 2.0 ** 64, big, big + 1, int(str(2 ** 64)), 10 ** 400, "", "1", "a", "".join(["a"]), Str("a"), "b", b"a", b"", bytes([97]),
            None, JSUndefined, JSHole, a, b, t1, t2, (), w1, w2, Unhash(), ba, bb, {}, {}, JSObject(), JSObject(), JSMap(), JSSet(), JSArray(), object(),
            1 + 0j, Decimal(1), Fraction(1), Decimal("nan"), int, JSRegExp("a"), JSRegExp("a"), JSPrimitiveObject(1), JSPrimitiveObject(1), datetime(2020, 1, 1), frozenset(), (math.nan,),
            (bool, True), (float, 1), (id(a),), (id(None),), (True,), JSBuf(), JSBuf(), "nan", "undefined", "null"]


def JSBuf():
    return JSArrayBuffer(b"a")


def identity(ctx):
    """All pairs of keys: same_value_zero, map lookup and set membership agree with the rule."""
    p = pool()
    for x in p:
        for y in p:
            same = kid(x) == kid(y)
            ctx.case((safe_repr(x), safe_repr(y)))
            sx, sy = same_value_zero(x), same_value_zero(y)
            ctx.check((sx == sy) is same and (not same or hash(sx) == hash(sy)), "same_value_zero follows the rule", lambda: f"{safe_repr(x)} / {safe_repr(y)}: {safe_repr(sx)} {safe_repr(sy)}", (safe_repr(x), safe_repr(y)))
            m, s = JSMap([(x, 1)]), JSSet([x])
            ctx.check((y in m) == same and m.get(y, 2) == (1 if same else 2), "map lookup follows the rule", lambda: f"{safe_repr(x)} / {safe_repr(y)}", (safe_repr(x), safe_repr(y)))
            ctx.check((y in s) == same, "set membership follows the rule", lambda: f"{safe_repr(x)} / {safe_repr(y)}", (safe_repr(x), safe_repr(y)))
            m[y] = 3
            s.add(y)
            ctx.check(len(m) == len(s) == (1 if same else 2) and m[x] == (3 if same else 1) and m[y] == 3, "inserting follows the rule", lambda: f"{safe_repr(x)} / {safe_repr(y)}", (safe_repr(x), safe_repr(y)))


class MapModel:
    def __init__(self, pairs=()):
        self.d = {}
        self.update(pairs)

    def set(self, k, v):
        self.d[kid(k)] = (k, v)

    def get(self, k):
        return self.d[kid(k)][1]

    def getd(self, k, d=None):
        return self.d.get(kid(k), (None, d))[1]

    def has(self, k):
        return kid(k) in self.d

    def delete(self, k):
        del self.d[kid(k)]

    def pop(self, k, *d):
        if kid(k) not in self.d and d:
            return d[0]
        return self.d.pop(kid(k))[1]

    def setdefault(self, k, d=None):
        if kid(k) not in self.d:
            self.set(k, d)
        return self.d[kid(k)][1]

    def update(self, pairs=(), kw=()):
        for k, v in [*pairs, *dict(kw).items()]:
            self.set(k, v)

    def clear(self):
        self.d.clear()


class KeysOnly:
    """What supports only keys() and [] can be given to update."""

    def __init__(self, pairs):
        self.pairs = pairs

    def keys(self):
        return [k for k, _ in self.pairs]

    def __getitem__(self, key):
        return next(v for k, v in reversed(self.pairs) if k is key)


def mapdo(o, op, a):
    if isinstance(o, MapModel):
        return getattr(o, op)(*[x.pairs if isinstance(x, KeysOnly) else x.items() if op == "update" and isinstance(x, (dict, JSMap)) and x is a[0] else x for x in a])
    if op == "set":
        o[a[0]] = a[1]
    elif op == "get":
        return o[a[0]]
    elif op == "getd":
        return o.get(*a)
    elif op == "has":
        return a[0] in o
    elif op == "delete":
        del o[a[0]]
    elif op == "update" and len(a) == 2:
        return o.update(a[0], **a[1])
    else:
        return getattr(o, op)(*a)


def out(f, *a):
    try:
        return ("value", f(*a))
    except KeyError:
        return ("missing", None)


def eqv(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, str, tuple)) and a == b)


def show(h):
    return safe_repr([(op, [safe_repr(x)[:60] for x in a]) for op, a in h])[:1500]


def maps(ctx):
    r = ctx.rng
    pools = [pool() for _ in range(20)]
    for _ in range(ctx.scale(1400)):
        if ctx.late:
            break
        p = r.sample(pools[_ % 20], r.choice([3, 6, 12])) + [0, 0.0, 1, True, math.nan]
        start = [(r.choice(p), i) for i in range(r.randrange(5))]
        form = r.randrange(3)
        mm = MapModel(start)
        m = JSMap(start) if form == 0 else JSMap(JSMap(start)) if form == 1 else JSMap(iter(start))
        if r.random() < 0.2:
            m = JSMap(start, key1=5, k0=6)
            mm.update([("key1", 5), ("k0", 6)])
        hist = [("start", start)]
        for step in range(r.choice([2, 6, 15, 30])):
            k, v = r.choice(p), r.choice([step, "v", None])
            x = r.randrange(20)
            if x < 7:
                op = ("set", (k, v))
            elif x < 10:
                op = ("delete", (k,))
            elif x < 11:
                op = ("get", (k,))
            elif x < 12:
                op = ("getd", (k, "d"))
            elif x < 13:
                op = ("has", (k,))
            elif x < 15:
                op = ("pop", (k,) if r.random() < 0.5 else (k, "d"))
            elif x < 17:
                op = ("setdefault", (k, v))
            elif x < 19:
                pairs = [(r.choice(p), step) for _ in range(r.randrange(5))]
                more = r.choice([pairs, tuple(pairs), JSMap(pairs), KeysOnly(pairs), {f"k{i}": i for i in range(2)}])
                op = ("update", (more,) if r.random() < 0.7 else (more, {x: step for x in r.sample(["k0", "k1", "key1", "a"], 2)}))
            else:
                op = ("clear", ()) if r.random() < 0.3 else ("popitem", ()) if r.random() < 0.6 else ("getd", (k,))
            hist.append(op)
            if op[0] == "popitem":
                # which entry is taken is not said
                want = got = out(m.popitem)
                if got[0] == "value":
                    k1, v1 = got[1]
                    if not ctx.check(mm.has(k1) and eqv(mm.get(k1), v1), "map: popitem gives an entry", lambda: f"{safe_repr(got)}; {show(hist)}", show(hist)):
                        return
                    mm.delete(k1)
                else:
                    want = ("missing" if not mm.d else "value", None)
            else:
                want, got = out(mapdo, mm, *op), out(mapdo, m, *op)
            if not ctx.check(got[0] == want[0] and (op[0] == "popitem" or eqv(got[1], want[1])), f"map: result of {op[0]}", lambda: f"{safe_repr(got)} instead of {safe_repr(want)}; {show(hist)}", show(hist)):
                return
            items = list(m.items())
            ok = len(items) == len(mm.d) and all(kid(k1) == k2 and eqv(v1, v2) for (k1, v1), (k2, (_, v2)) in zip(items, mm.d.items()))
            ok = ok and len(m) == len(mm.d) and [kid(k) for k in m] == list(mm.d) and [kid(k) for k in m.keys()] == list(mm.d) and all(eqv(a, b[1]) for a, b in zip(m.values(), mm.d.values()))
            if not ctx.check(ok, "map: contents and order", lambda: f"{safe_repr(items)} instead of {safe_repr(mm.d)}; {show(hist)}", show(hist)):
                return
            for k in p:
                if not ctx.check((k in m) == mm.has(k) and eqv(m.get(k, "none"), mm.getd(k, "none")), "map: membership and lookup", lambda: f"{safe_repr(k)}; {show(hist)}", show(hist)):
                    return
        ctx.case(show(hist))


def sets(ctx):
    r = ctx.rng
    pools = [pool() for _ in range(20)]
    for _ in range(ctx.scale(1400)):
        if ctx.late:
            break
        p = r.sample(pools[_ % 20], r.choice([3, 6, 12])) + [0, 0.0, 1, True, math.nan]
        start = [r.choice(p) for _ in range(r.randrange(5))]
        s = JSSet(start if r.random() < 0.5 else iter(start))
        d = {}
        for x in start:
            d[kid(x)] = x
        hist = [("start", start)]
        for _ in range(r.choice([2, 6, 15, 30])):
            v = r.choice(p)
            other = [r.choice(p) for _ in range(r.randrange(5))]
            other = r.choice([other, JSSet(other), JSSet(other)])
            ok = {kid(x) for x in other}
            x = r.randrange(18)
            want = got = None
            if x < 5:
                hist.append(("add", (v,)))
                got = s.add(v)
                d[kid(v)] = v
            elif x < 7:
                hist.append(("discard", (v,)))
                got = s.discard(v)
                d.pop(kid(v), None)
            elif x < 9:
                hist.append(("remove", (v,)))
                want, got = out(lambda: (d.pop(kid(v)), None)[1]), out(lambda: s.remove(v))
            elif x == 9:
                hist.append(("pop", ()))
                if d:
                    q = s.pop()
                    if not ctx.check(kid(q) in d, "set: pop returns a member", show(hist), show(hist)):
                        return
                    del d[kid(q)]
                else:
                    want, got = ("missing", None), out(s.pop)
            elif x < 12:
                hist.append(("|=", other))
                s |= other
                for y in other:
                    d[kid(y)] = y
            elif x == 12:
                hist.append(("&=", other))
                s &= other
                d = {k: y for k, y in d.items() if k in ok}
            elif x == 13:
                hist.append(("-=", other))
                s -= other
                d = {k: y for k, y in d.items() if k not in ok}
            elif x == 14:
                hist.append(("^=", other))
                s ^= other
                new = {kid(y): y for y in other}
                d = {**{k: y for k, y in d.items() if k not in new}, **{k: y for k, y in new.items() if k not in d}}
            elif x == 15:
                o = JSSet(other)
                hist.append(("binary", other))
                mine, new = set(d), {kid(y) for y in other}
                for name, f, w in (("|", lambda: s | o, mine | new), ("&", lambda: s & o, mine & new), ("-", lambda: s - o, mine - new), ("^", lambda: s ^ o, mine ^ new)):
                    g = f()
                    if not ctx.check(type(g) is JSSet and {kid(y) for y in g} == w and len(g) == len(w), f"set: {name}", lambda: f"{safe_repr(g)}; {show(hist)}", show(hist)):
                        return
                rel = (s <= o, s >= o, s < o, s > o, s.isdisjoint(o))
                if not ctx.check(rel == (mine <= new, mine >= new, mine < new, mine > new, not mine & new), "set: comparisons", lambda: f"{rel}; {show(hist)}", show(hist)):
                    return
            elif x == 16 and r.random() < 0.3:
                hist.append(("clear", ()))
                s.clear()
                d = {}
            members = list(s)
            same_order = [kid(y) for y in members] == list(d) if not any(h[0] == "^=" for h in hist) else {kid(y) for y in members} == set(d)
            if not ctx.check(got == want and len(s) == len(d) == len(members) and same_order, "set: contents and order", lambda: f"{safe_repr(members)} instead of {safe_repr(d)}; got {got} want {want}; {show(hist)}", show(hist)):
                return
            for y in p:
                if not ctx.check((y in s) == (kid(y) in d), "set: membership", lambda: f"{safe_repr(y)}; {show(hist)}", show(hist)):
                    return
        ctx.case(show(hist))


def loaded(ctx):
    """Maps and sets of loaded values keep members that are equal but distinct objects."""
    r = ctx.rng
    for n in range(0, 6):
        m = loads(dumps(JSMap((JSObject(a=1), i) for i in range(n))))
        ctx.case(n)
        ctx.check(len(m) == n and list(m.values()) == list(range(n)) and all(m[k] == i for i, k in enumerate(m)), "distinct equal objects are distinct map keys", lambda: repr(m))
        s = loads(dumps(JSSet(JSArray([1]) for _ in range(n))))
        ctx.check(len(s) == n and all(x in s for x in s), "distinct equal objects are distinct members", lambda: repr(s))


PARTS = parts(identity, maps, sets, loaded)
