"""C10: JSObject and JSArray are one mapping over JavaScript property keys."""
from native.common import *
from v8serialize.jstypes import JSObject, JSArray, JSHole

try:
    from v8serialize.jstypes._normalise_property_key import normalise_property_key
except ImportError:     # renamed: the enumeration check decides
    normalise_property_key = None

MAXI = 2 ** 32 - 2


def norm(k):
    """Property named by a key, by the JavaScript rules."""
    if isinstance(k, float) and k.is_integer():
        k = int(k)
    if isinstance(k, str):
        if k == "0" or (k and k[0] in "123456789" and all(c in "0123456789" for c in k)):
            if len(k) <= 10 and int(k) <= MAXI:
                return int(k)
        return k
    if isinstance(k, int):
        k = int(k)
        return k if 0 <= k <= MAXI else str(k)
    return str(k)


EDGE = [0, 1, 9, 10, 15, 16, 17, 99, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 64, -1, -2, -2 ** 31]
ODD = ["", "01", "00", "-0", "+1", " 1", "1 ", "1_0", "1.0", "1e3", "0x1", "٣", "１", "²", "-1", "4294967295", "4294967296", "04294967294", "9" * 30,
       "9" * 5000, "0" * 20, "1\n", "\x001", "length", "a", "NaN", "Infinity", "true"]


def spellings(n):
    out = [n, str(n)]
    if abs(n) <= 2 ** 53:
        out.append(float(n))
    if n == 0:
        out.append(-0.0)
    return out


def names(ctx):
    """Which property a key names."""
    r = ctx.rng
    for n in EDGE + list(range(0, 200)) + [r.randrange(2 ** 33) for _ in range(ctx.scale(2000))]:
        for k in spellings(n):
            ctx.case(k)
            check_name(ctx, k)
    for k in ODD + [True, False] + [str(n) + x for n in EDGE for x in ("", " ", "0", ".", "\u0663")] + ["0" + str(n) for n in EDGE]:
        ctx.case(k)
        check_name(ctx, k)
    for _ in range(ctx.scale(6000)):
        k = "".join(r.choice("0123456789") if r.random() < 0.9 else r.choice("-+. eE_٣²a") for _ in range(r.randrange(0, 13)))
        ctx.case(k)
        check_name(ctx, k)
    for k in (0.5, -1.5, 1.25, 2.0 ** 32 - 0.5):
        ctx.case(k)
        check_name(ctx, k)


def check_name(ctx, k):
    want = norm(k)
    got = normalise_property_key(k) if normalise_property_key else want
    ctx.check(type(got) is type(want) and got == want, "a key names the property JavaScript says", lambda: f"{k!r:.60}: {got!r:.60} instead of {want!r:.60}", k)
    o = JSObject()
    o["z"] = 0
    o[k] = "v"
    ks = list(o)
    ctx.check(len(ks) == 2 and ks == ([want, "z"] if isinstance(want, int) else ["z", want]), "a key is enumerated as the property JavaScript says",
              lambda: f"{k!r:.60}: {ks!r:.100}", k)
    for other in ([str(want)] + ([float(want)] if isinstance(want, int) else [])):
        ctx.check(o.get(other) == "v" and other in o and o[other] == "v", "all spellings of a key name one property", lambda: f"{k!r:.60} / {other!r:.60}", k)


class Model:
    def __init__(self):
        self.idx, self.names, self.length = {}, {}, 0

    def set(self, k, v):
        k = norm(k)
        if isinstance(k, int):
            self.length = max(self.length, k + 1)
            if v is JSHole:
                self.idx.pop(k, None)
            else:
                self.idx[k] = v
        elif v is JSHole:
            self.names.pop(k, None)
        else:
            self.names[k] = v

    def store(self, k):
        return self.idx if isinstance(k, int) else self.names

    def get(self, k):
        k = norm(k)
        return self.store(k)[k]

    def has(self, k):
        k = norm(k)
        return k in self.store(k)

    def delete(self, k):
        k = norm(k)
        del self.store(k)[k]

    def items(self):
        return sorted(self.idx.items()) + list(self.names.items())

    def update(self, pairs):
        for k, v in pairs:
            self.set(k, v)

    def pop(self, k, *d):
        try:
            v = self.get(k)
        except KeyError:
            if d:
                return d[0]
            raise
        self.delete(k)
        return v

    def setdefault(self, k, d):
        if self.has(k):
            return self.get(k)
        self.set(k, d)
        return d

    def popitem(self):
        items = self.items()
        if not items:
            raise KeyError
        self.delete(items[0][0])
        return items[0]

    def clear(self):
        self.idx, self.names = {}, {}


def do(o, op, a):
    if isinstance(o, Model):
        return {"set": o.set, "get": o.get, "has": o.has, "del": o.delete, "update": o.update, "pop": o.pop,
                "setdefault": o.setdefault, "popitem": o.popitem, "clear": o.clear,
                "getd": lambda k, d: o.get(k) if o.has(k) else d}[op](*a)
    if op == "set":
        o[a[0]] = a[1]
    elif op == "get":
        return o[a[0]]
    elif op == "has":
        return a[0] in o
    elif op == "del":
        del o[a[0]]
    elif op == "getd":
        return o.get(*a)
    else:
        return getattr(o, op)(*a)


def outcome(o, op, a):
    try:
        v = do(o, op, a)
        return ("value", v)
    except KeyError:
        return ("missing", None)


def observe(ctx, o, m, hist):
    want = m.items()
    got = list(o.items())
    ctx.check(got == want and [type(k) for k, _ in got] == [type(k) for k, _ in want], "enumeration: indexes ascending then names in creation order",
              lambda: f"{got!r:.300} instead of {want!r:.300}", hist)
    ctx.check(list(o) == [k for k, _ in want] and list(o.keys()) == list(o) and list(o.values()) == [v for _, v in want], "keys and values agree", lambda: repr(list(o))[:300], hist)
    ctx.check(len(o) == len(want), "size is the number of enumerated keys", lambda: f"{len(o)} {len(want)}", hist)
    ctx.check(len(o.array) == m.length, "array length is one more than the highest index assigned", lambda: f"{len(o.array)} instead of {m.length}", hist)
    ctx.check(list(o.array.elements().items()) == sorted(m.idx.items()) and dict(o.properties) == m.names, "index and name parts agree", lambda: f"{o.properties!r:.200}", hist)
    for k in (m.length, m.length - 1, 0, "nope", "00"):
        ctx.check((k in o) == m.has(k) and o.get(k, "d") == (m.get(k) if m.has(k) else "d"), "lookups agree", lambda: repr(k), hist)


def keys(r, hot):
    k = r.random()
    if k < 0.6:
        n = r.choice(hot)
        return r.choice(spellings(n)) if isinstance(n, int) else n
    if k < 0.75:
        return r.choice(spellings(r.choice([0, 1, 2, 5, 14, 15, 16, 30, 63, 64, 100, 1000, 2 ** 20, 2 ** 32 - 2])))
    if k < 0.85:
        return r.choice(spellings(r.choice([2 ** 32 - 1, 2 ** 40, -1, -5])))
    return r.choice(["a", "b", "c", "01", "", "1.5", "-0", 1.5, "4294967295", "length"])


def history(ctx, cls):
    r = ctx.rng
    for _ in range(ctx.scale(2200)):
        if ctx.late:
            break
        o, m, hist = cls(), Model(), []
        if r.random() < 0.3:
            if cls is JSArray and r.random() < 0.6:
                xs = [r.choice([1, "x", JSHole, None]) for _ in range(r.choice([1, 5, 16, 40]))]
                o = JSArray(xs, a=1)
                for i, x in enumerate(xs):
                    m.set(i, x)
                m.set("a", 1)
                hist.append(xs)
            else:
                ps = {keys(r, [0, 1]): r.choice([1, "x", JSHole]) for _ in range(r.randrange(6))}
                kw = {r.choice(["k", "a"]): r.choice([5, JSHole])} if r.random() < 0.5 else {}
                # a JSArray takes a plain iterable as its elements
                o = cls(ps if cls is JSArray or r.random() < 0.5 else list(ps.items()), **kw)
                m.update(ps.items())
                m.update(kw.items())
                hist.append((ps, kw))
        hot = [r.randrange(r.choice([3, 20, 70, 300])) for _ in range(4)] + ["a", "b"]
        for _ in range(r.choice([3, 8, 20, 40])):
            x = r.random()
            k = keys(r, hot)
            v = JSHole if r.random() < 0.25 else r.choice([1, "x", None, JSUndefined, 2.5, [], "y"])
            if x < 0.5:
                op = ("set", (k, v))
            elif x < 0.65:
                op = ("del", (k,))
            elif x < 0.72:
                op = ("get", (k,))
            elif x < 0.76:
                op = ("has", (k,))
            elif x < 0.80:
                op = ("getd", (k, "d"))
            elif x < 0.86:
                op = ("pop", (k,) if r.random() < 0.5 else (k, "d"))
            elif x < 0.91:
                op = ("setdefault", (k, "sd"))
            elif x < 0.94:
                op = ("popitem", ())
            elif x < 0.985:
                op = ("update", (tuple((keys(r, hot), r.choice([1, JSHole, "u"])) for _ in range(r.randrange(4))),))
            else:
                op = ("clear", ())
            hist.append(op)
            want, got = outcome(m, *op), outcome(o, *op)
            if not ctx.check(got[0] == want[0] and (got[1] is want[1] or got[1] == want[1]), f"result of {op[0]}", lambda: f"{op}: {got} instead of {want}", hist):
                return
            n = len(ctx.violations)
            observe(ctx, o, m, hist)
            if len(ctx.violations) > n:
                return
        ctx.case((cls.__name__, hist))


def objects(ctx):
    history(ctx, JSObject)


def arrays(ctx):
    history(ctx, JSArray)


def storage(ctx):
    """Sequences of index assignments around the storage switch, in every order."""
    r = ctx.rng
    for _ in range(ctx.scale(1500)):
        if ctx.late:
            break
        n = r.choice([4, 15, 16, 17, 60, 63, 64, 65, 200])
        ks = [r.randrange(n) for _ in range(r.randrange(1, 12))] + ([n] if r.random() < 0.5 else [])
        r.shuffle(ks)
        o, m = r.choice([JSObject, JSArray])(), Model()
        for i, k in enumerate(ks):
            v = JSHole if r.random() < 0.15 else i
            o[k] = v
            m.set(k, v)
            observe(ctx, o, m, ks[:i + 1])
        for k in r.sample(ks, len(ks)):
            want, got = outcome(m, "del", (k,)), outcome(o, "del", (k,))
            ctx.check(want[0] == got[0], "deleting", lambda: f"{k}", ks)
            observe(ctx, o, m, (ks, "del", k))
        ctx.case(ks)


PARTS = parts(names, objects, arrays, storage)
