"""An independent reference reader for the V8 serialization format (versions 13-15).

Written from V8's value-serializer.cc, not from /repo: it assigns object numbers
in V8's order and checks every count and extent.  It builds plain nodes, so the
oracle shares no code with the library under test.
"""
from __future__ import annotations

import math
import struct


class Bad(Exception):
    """The bytes are not a well-formed value."""


class N:
    """A node with identity."""
    __slots__ = ("kind", "data", "kids")

    def __init__(self, kind, data=(), kids=()):
        self.kind, self.data, self.kids = kind, data, list(kids)

    def __repr__(self):
        return f"<{self.kind} {self.data} {len(self.kids)}>"


class P:
    """A primitive."""
    __slots__ = ("v", "t")

    def __init__(self, t, v=None):
        self.t, self.v = t, v

    def __repr__(self):
        return f"{self.t}:{self.v!r}"


VIEW_SIZE = {"b": 1, "B": 1, "C": 1, "w": 2, "W": 2, "d": 4, "D": 4, "h": 2, "f": 4, "F": 8, "q": 8, "Q": 8, "?": 1}
NODE_VIEWS = "bBCwWdDfF?BqQ"
ERR = {"E": "EvalError", "R": "RangeError", "F": "ReferenceError", "S": "SyntaxError", "T": "TypeError",
       "U": "URIError"}


class Ref:
    def __init__(self, data, nodejs=True):
        self.d, self.p, self.ids, self.version, self.nodejs = bytes(data), 0, [], 15, nodejs
        self.open_errors = []       # errors whose cause is being read
        self.used = set()           # format features seen

    # -- primitives
    def byte(self):
        if self.p >= len(self.d):
            raise Bad("truncated")
        self.p += 1
        return self.d[self.p - 1]

    def take(self, n):
        if n > len(self.d) - self.p:
            raise Bad("truncated")
        self.p += n
        return self.d[self.p - n:self.p]

    def varint(self, bits=32):
        n = s = 0
        while True:
            b = self.byte()
            n |= (b & 127) << s
            if not b & 128:
                return n
            s += 7
            if s >= bits + 7:
                raise Bad("varint too long")

    def code(self):
        n = self.varint()
        return chr(n) if n < 128 else "bad"

    def header(self):
        if self.byte() != 0xff:
            raise Bad("no header")
        self.version = self.varint()
        if not 13 <= self.version <= 15:
            raise Bad("version")

    def tag(self):
        while True:
            b = self.byte()
            if b:
                return chr(b)

    def peek(self):
        q = self.p
        return chr(self.d[q]) if q < len(self.d) else None

    def string(self, t=None):
        t = t or self.tag()
        if t not in '"cS':
            raise Bad("string expected")
        raw = self.take(self.varint())
        try:
            return raw.decode({'"': "latin1", "c": "utf-16-le", "S": "utf-8"}[t])
        except UnicodeDecodeError:
            raise Bad("bad text")

    def double(self):
        return struct.unpack("<d", self.take(8))[0]

    def bigint(self):
        b = self.varint()
        n = int.from_bytes(self.take(b >> 1 & 2 ** 30 - 1), "little")      # 30 bits of length
        return -n if b & 1 else n

    def new(self, node):
        self.ids.append(node)
        return node

    def load(self):
        self.header()
        return self.value()

    def value(self, t=None):
        t = t or self.tag()
        v = self.plain(t)
        if isinstance(v, N) and v.kind in ("buffer", "shared buffer", "transfer") and t in "B~tu^" and self.peek() == "V":
            self.p += 1
            return self.view(v)
        return v

    def plain(self, t):
        if t == "-":
            return P("hole")
        if t == "_":
            return P("undefined")
        if t == "0":
            return P("null")
        if t in "TF":
            return P("bool", t == "T")
        if t == "I":
            z = self.varint()
            n = (z >> 1) ^ -(z & 1)
            if not -2 ** 31 <= n < 2 ** 31:
                raise Bad("int32")
            return P("int", n)
        if t == "U":
            n = self.varint()
            if n >= 2 ** 32:
                raise Bad("uint32")
            return P("int", n)
        if t == "N":
            return P("float", self.double())
        if t == "Z":
            return P("int", self.bigint())
        if t in '"cS':
            return P("str", self.string(t))
        if t == "^":
            i = self.varint()
            if i >= len(self.ids):
                raise Bad("reference")
            if any(self.ids[i] is e for e in self.open_errors):
                self.used.add("CircularErrorCause")
            return self.ids[i]
        if t == "D":
            return self.new(N("date", (self.double(),)))
        if t in "yx":
            return self.new(N("wrapped", ("bool", t == "y")))
        if t == "n":
            return self.new(N("wrapped", ("float", self.double())))
        if t == "z":
            return self.new(N("wrapped", ("int", self.bigint())))
        if t == "s":
            return self.new(N("wrapped", ("str", self.string("S"))))
        if t == "R":
            n = self.new(N("regexp"))
            src = self.string()
            n.data = (src, self.varint() & 0x1ff)
            if n.data[1] & 0x100:
                self.used.add("RegExpUnicodeSets")
            return n
        if t == "o":
            n = self.new(N("object"))
            self.props(n, "{", {})
            return n
        if t == "A":
            n = self.new(N("array"))
            length = self.varint()
            items = {}
            if length > 10 * len(self.d):
                raise Bad("truncated")
            for i in range(length):
                items[i] = self.value()
            self.props(n, "$", items)
            if self.varint() != length:
                raise Bad("length")
            self.arr(n, length)
            return n
        if t == "a":
            n = self.new(N("array"))
            length = self.varint()
            self.props(n, "@", {})
            if self.varint() != length:
                raise Bad("length")
            self.arr(n, length)
            return n
        if t == ";":
            n = self.new(N("map"))
            c = 0
            while (u := self.tag()) != ":":
                n.kids.append(self.value(u))
                n.kids.append(self.value())
                c += 2
            if self.varint() != c:
                raise Bad("count")
            return n
        if t == "'":
            n = self.new(N("set"))
            c = 0
            while (u := self.tag()) != ",":
                n.kids.append(self.value(u))
                c += 1
            if self.varint() != c:
                raise Bad("count")
            return n
        if t == "B":
            n = self.new(N("buffer"))
            n.data = (self.take(self.varint()), None)
            return n
        if t == "~":
            self.used.add("ResizableArrayBuffers")
            n = self.new(N("buffer"))
            ln, mx = self.varint(), self.varint()
            if ln > mx:
                raise Bad("max length")
            n.data = (self.take(ln), mx)
            return n
        if t == "t":
            return self.new(N("transfer", (self.varint(),)))
        if t == "u":
            return self.new(N("shared buffer", (self.varint(),)))
        if t == "p":
            return self.new(N("shared object", (self.varint(),)))
        if t == "r":
            return self.error()
        if t == "\\" and self.nodejs:
            n = self.new(N("view"))
            code, ln = self.varint(), self.varint()
            if code >= len(NODE_VIEWS):
                raise Bad("node view code")
            raw = self.take(ln)
            tag = NODE_VIEWS[code]
            n.data = (tag, 0, ln, False)
            n.kids = [N("buffer", (raw, None))]
            return n
        raise Bad(f"tag {t!r}")

    def props(self, n, end, items):
        c = 0
        while (t := self.tag()) != end:
            if t not in 'IUN"cS':
                raise Bad("key")
            k = self.value(t)
            items[self.key(k)] = self.value()
            c += 1
        if self.varint() != c:
            raise Bad("count")
        n.data = items
        if end == "{":
            n.data, n.kids = order({k: v for k, v in items.items() if not hole(v)})

    def arr(self, n, length):
        items = n.data
        for k in items:
            if isinstance(k, int):
                length = max(length, k + 1)
        ks, kids = order({k: v for k, v in items.items() if not hole(v)})
        n.data, n.kids = (length,) + ks, kids

    @staticmethod
    def key(k):
        v = k.v
        if isinstance(v, float):
            v = int(v) if math.isfinite(v) and v == math.floor(v) and abs(v) < 1e21 else repr(v)
        s = str(v)
        if s.isascii() and s.isdigit() and len(s) <= 10 and str(int(s)) == s and int(s) < 2 ** 32 - 1:
            return int(s)
        return s

    def error(self):
        n = self.new(N("error"))
        name, f = "Error", {}
        t = self.code()
        if t in ERR:
            name = ERR[t]
            t = self.code()
        if t == "m":
            f["message"] = self.string()
            t = self.code()
        if t == "s":
            f["stack"] = self.string()
            t = self.code()
        cause = None
        if t == "c":
            self.open_errors.append(n)
            cause = self.value()
            self.open_errors.pop()
            t = self.code()
        if t == "s" and "stack" not in f:
            f["stack"] = self.string()
            t = self.code()
        if t != ".":
            raise Bad("error end")
        n.data = (name, f.get("message"), f.get("stack"), cause is not None)
        n.kids = [] if cause is None else [cause]
        return n

    def view(self, buf):
        n = self.new(N("view"))
        tag = self.code()
        if tag not in VIEW_SIZE:
            raise Bad("view tag")
        off, ln = self.varint(), self.varint()
        fl = self.varint() if self.version >= 14 else 0
        track = bool(fl & 1)
        if fl & 3:
            self.used.add("ResizableArrayBuffers")
        if tag == "h":
            self.used.add("Float16Array")
        sz = VIEW_SIZE[tag]
        if buf.kind == "buffer":
            size = len(buf.data[0])
            if off % sz or off > size or (not track and (ln % sz or off + ln > size)):
                raise Bad("view range")
        n.data = (tag, off, 0 if track else ln, track)
        n.kids = [buf]
        return n


def hole(v):
    return isinstance(v, P) and v.t == "hole"


def order(items):
    ks = sorted(k for k in items if isinstance(k, int)) + [k for k in items if isinstance(k, str)]
    return tuple(ks), [items[k] for k in ks]


# ---------------------------------------------------------------------------
# random well-formed wire data, in every form a writer could choose
# ---------------------------------------------------------------------------
def vi(n):
    out = bytearray()
    while n >= 128:
        out.append(n % 128 + 128)
        n //= 128
    out.append(n)
    return bytes(out)


class WireGen:
    def __init__(self, r, size=20, version=15, kinds=None, old_errors=True):
        self.r, self.left, self.out, self.count, self.version = r, size, bytearray(), 0, version
        self.kinds, self.old = kinds, old_errors
        self.bufs = {}
        self.open_errors = 0

    def make(self, start=None):
        self.out += b"\xff" + vi(self.version)
        if start:
            getattr(self, start)(0)
        else:
            self.value(0)
        return bytes(self.out)

    def w(self, b):
        self.out += b

    def pad(self):
        if self.r.random() < 0.05:
            self.w(b"\0" * self.r.randrange(1, 3))

    def text(self):
        r = self.r
        return r.choice(["", "a", "é", "Ā", "日本", "💥", "abc" * 50, "0", "7", "01", "-1", "1.5", "4294967294", "4294967295",
                         "p", "q", "length", "\x00", "-0", "1e3"])

    def s(self, s=None):
        r = self.r
        s = self.text() if s is None else s
        k = r.choice("S\"c")
        if k == '"' and not all(ord(c) < 256 for c in s):
            k = "c"
        raw = s.encode({"S": "utf-8", '"': "latin1", "c": "utf-16-le"}[k])
        if k == "c":
            n = len(self.out) + 1 + len(vi(len(raw)))
            if n & 1:
                self.w(b"\0")
        self.w(k.encode() + vi(len(raw)) + raw)

    def big(self):
        r = self.r
        n = r.getrandbits(r.choice([1, 8, 33, 64, 100]))
        k = (n.bit_length() + 7) // 8 + r.choice([0, 1, 4])
        self.w(vi(2 * k + (r.random() < 0.5)) + n.to_bytes(k, "little"))

    def prim(self):
        r = self.r
        k = r.randrange(9)
        if k < 2:
            self.w(r.choice([b"_", b"0", b"T", b"F"]))
        elif k == 2:
            n = r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 63, 64, -64, -65, r.randrange(-1000, 1000)])
            self.w(b"I" + vi(2 * n if n >= 0 else -2 * n - 1))
        elif k == 3:
            self.w(b"U" + vi(r.choice([0, 1, 127, 128, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 20)])))
        elif k in (4, 5):
            self.w(b"N" + struct.pack("<d", r.choice([0.0, -0.0, 1.5, math.nan, math.inf, -math.inf, 2.0 ** 53, 5e-324, 1e300])))
        elif k == 6:
            self.w(b"Z")
            self.big()
        else:
            self.s()

    def value(self, d):
        r = self.r
        self.left -= 1
        self.pad()
        if self.count and r.random() < 0.2:
            return self.ref()
        if d > 6 or self.left < 0 or r.random() < 0.3:
            return self.prim()
        kinds = self.kinds or ["obj", "arr", "sparse", "map", "set", "err", "date", "wrapped", "regexp", "buf", "rbuf",
                               "ids", "view", "node"]
        getattr(self, r.choice(kinds))(d)

    def new(self):
        self.count += 1
        return self.count - 1

    def ref(self, i=None):
        i = self.r.randrange(self.count) if i is None else i
        self.w(b"^" + vi(i))
        if i in self.bufs and self.r.random() < 0.5:
            self.view_tail(self.bufs[i])

    def n(self):
        return self.r.choice([0, 1, 1, 2, 3])

    def key(self):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            n = r.choice([0, 1, 2, 5, 40, -1, -7])
            self.w(b"I" + vi(2 * n if n >= 0 else -2 * n - 1))
        elif k == 1:
            self.w(b"U" + vi(r.choice([0, 1, 3, 2 ** 32 - 2, 2 ** 32 - 1, 70000])))
        elif k == 2:
            self.w(b"N" + struct.pack("<d", r.choice([0.0, -0.0, 3.0, 1.5, -1.0, 2.0 ** 32 - 2, 2.0 ** 32 - 1, 2.0 ** 40])))
        else:
            self.s()

    def props(self, d, end, n=None, keys=None):
        n = self.n() if n is None else n
        for _ in range(n):
            (keys or self.key)()
            self.value(d + 1)
        self.w(end + vi(n))

    def obj(self, d):
        self.new()
        self.w(b"o")
        self.props(d, b"{")

    def arr(self, d):
        self.new()
        n = self.n()
        self.w(b"A" + vi(n))
        for _ in range(n):
            if self.r.random() < 0.2:
                self.w(b"-")
            else:
                self.value(d + 1)
        self.props(d, b"$", self.r.choice([0, 0, 1, 2]), keys=self.name)
        self.w(vi(n))

    def name(self):
        self.s(self.r.choice(["p", "q", "01", "é", "日"]))

    def sparse(self, d):
        self.new()
        ln = self.r.choice([0, 1, 10, 100, 2 ** 20, 2 ** 32 - 1])
        self.w(b"a" + vi(ln))

        def key():
            if self.r.random() < 0.3:
                return self.name()
            self.w(b"U" + vi(self.r.randrange(ln) if ln else 0)) if ln else self.name()
        self.props(d, b"@", keys=key)
        self.w(vi(ln))

    def map(self, d):
        self.new()
        self.w(b";")
        n = self.n()
        for i in range(n):
            self.s(f"k{i}")
            self.value(d + 1)
        self.pad()
        self.w(b":" + vi(2 * n))

    def set(self, d):
        self.new()
        self.w(b"'")
        n = self.n()
        for i in range(n):
            self.w(b"U" + vi(i * 3))
        self.w(b"," + vi(n))

    def err(self, d):
        r = self.r
        me = self.new()
        self.w(b"r")
        if r.random() < 0.6:
            self.w(r.choice([b"E", b"R", b"F", b"S", b"T", b"U"]))
        if r.random() < 0.6:
            self.w(b"m")
            self.s()
        st = r.random() < 0.5
        late = st and self.old and r.random() < 0.5
        if st and not late:
            self.w(b"s")
            self.s()
        if r.random() < 0.5:
            self.w(b"c")
            if r.random() < 0.3:
                self.w(b"^" + vi(me))
            else:
                self.value(d + 1)
        if late:
            self.w(b"s")
            self.s()
        self.w(b".")

    def date(self, d):
        self.new()
        self.w(b"D" + struct.pack("<d", self.r.choice([0.0, 1.0, 1234567890123.0, -1000.0, 1e12, 86400000.5])))

    def wrapped(self, d):
        r = self.r
        self.new()
        k = r.choice("yxnzs")
        self.w(k.encode())
        if k == "n":
            self.w(struct.pack("<d", r.choice([0.0, -0.0, 1.5])))
        elif k == "z":
            self.big()
        elif k == "s":
            raw = self.text().encode()
            self.w(vi(len(raw)) + raw)

    def regexp(self, d):
        self.new()
        self.w(b"R")
        self.s(self.r.choice(["a", "é+", "日", "(?:)", "x{2}"]))
        f = self.r.randrange(512)
        if f & 16 and f & 256:
            f &= ~256
        self.w(vi(f))

    def raw(self):
        return bytes(self.r.randrange(256) for _ in range(self.r.choice([0, 1, 8, 16, 17])))

    def maybe_view(self, i):
        if self.r.random() < 0.4:
            self.view_tail(self.bufs[i])

    def buf(self, d):
        i = self.new()
        b = self.raw()
        self.w(b"B" + vi(len(b)) + b)
        self.bufs[i] = (len(b), False)
        self.maybe_view(i)

    def rbuf(self, d):
        i = self.new()
        b = self.raw()
        self.w(b"~" + vi(len(b)) + vi(len(b) + self.r.choice([0, 1, 300])) + b)
        self.bufs[i] = (len(b), True)
        self.maybe_view(i)

    def view(self, d):
        self.r.choice([self.buf, self.rbuf])(d)

    def view_tail(self, buf):
        r = self.r
        size, resizable = buf
        self.new()
        t = r.choice([t for t in VIEW_SIZE])
        sz = VIEW_SIZE[t]
        off = sz * r.randrange(size // sz + 1)
        fl = 0
        ln = sz * r.randrange((size - off) // sz + 1)
        if self.version >= 14 and resizable:
            fl = 2
            if r.random() < 0.5:
                fl, ln = 3, 0
        self.w(b"V" + vi(ord(t)) + vi(off) + vi(ln) + (vi(fl) if self.version >= 14 else b""))

    def ids(self, d):
        self.new()
        self.w(self.r.choice([b"t", b"u", b"p"]) + vi(self.r.choice([0, 1, 127, 128, 2 ** 32 - 1])))

    def node(self, d):
        self.new()
        c = self.r.randrange(13)
        sz = VIEW_SIZE[NODE_VIEWS[c]]
        raw = bytes(self.r.randrange(256) for _ in range(sz * self.r.randrange(4)))
        self.w(b"\\" + vi(c) + vi(len(raw)) + raw)
