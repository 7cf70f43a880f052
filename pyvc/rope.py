"""Symbolic byte strings: sequences of segments."""
from __future__ import annotations

import z3
from .core import Unsupported, Infeasible
from .values import Val

I = z3.IntSort()
SH = z3.Function("sh", I, I, I)            # sh(n, i) = n div 128**i
VLEN = z3.Function("vlen", I, I)           # length of the varint of n
SHL = z3.Function("shl", I, I, I)          # x * 2**s
POW2 = z3.Function("pow2", I, I)
BL = z3.Function("bit_length", I, I)
ENCLEN = z3.Function("enclen", I, Val, I)  # encoded length of a str
ENCBYTE = z3.Function("encbyte", I, Val, I, I)
F64BYTE = z3.Function("f64byte", Val, I, I)
LEBYTE = z3.Function("lebyte", I, I, I)
NESTBYTE = z3.Function("nestbyte", Val, I, I, I)
NESTLEN = z3.Function("nestlen", Val, I, I)
NESTCNT = z3.Function("nestcnt", Val, I, I)
NESTVAL = z3.Function("nestval", Val, I, Val)   # what decode_object returns for it

CODECS = {"latin1": 1, "latin-1": 1, "iso-8859-1": 1, "iso8859-1": 1, "utf-16-le": 2,
          "utf-16le": 2, "utf_16_le": 2, "utf-8": 3, "utf8": 3, "utf_8": 3, "ascii": 4}


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x


def kid(E, t):
    """Identity of a term, usable as a key (terms are kept alive)."""
    if isinstance(t, int):
        return ("c", t)
    if not isinstance(t, z3.AstRef):
        return t
    E.keep.append(t)
    return t.get_id()


def simp(e):
    """int when constant."""
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


def zero(e):
    e = simp(e)
    return isinstance(e, int) and e == 0


def sub_all(x, pairs):
    if isinstance(x, int):
        return x
    return z3.substitute(x, *pairs)


# -- varint theory (definitional axioms, instantiated on demand) -------------
def sh(E, n, i):
    """n div 128**i with its defining facts."""
    i = simp(i)
    if isinstance(i, int):
        return zi(n) if i == 0 else zi(n) / (128 ** i)
    t = SH(zi(n), i)
    key = ("sh", kid(E, t))
    if key not in E.axiom_keys:
        E.axiom(key, z3.And(
            z3.Implies(i == 0, t == n),
            z3.Implies(i >= 0, t >= 0),
            z3.Implies(z3.And(i >= 1), SH(zi(n), i - 1) / 128 == t),
            z3.Implies(i >= 4, t <= zi(n) / 128 ** 4),
            z3.Implies(i >= 1, t <= zi(n) / 128),
            z3.Implies(i == 1, t == zi(n) / 128),
        ))
    return t


def vlen(E, n):
    n = simp(n)
    if isinstance(n, int):
        if n < 0:
            raise Unsupported("varint of negative")
        L = 1
        while n >> 7:
            n >>= 7
            L += 1
        return L
    v = VLEN(n)
    E.axiom(("vlen", kid(E, v)), z3.And(
        v >= 1, z3.Implies(n < 128, v == 1), z3.Implies(n >= 128, v >= 2),
        z3.Implies(n < 2 ** 14, v <= 2), z3.Implies(n < 2 ** 21, v <= 3),
        z3.Implies(n < 2 ** 32, v <= 5)))
    return v


def vlen_at(E, n, t):
    """t < vlen(n)-1  <=>  sh(n,t) >= 128   (t >= 0)."""
    v = vlen(E, n)
    s = sh(E, n, t)
    E.axiom(("vlen@", kid(E, v), kid(E, t)),
            z3.Implies(zi(t) >= 0, (zi(t) < v - 1) == (s >= 128)))
    return v, s


def shl(E, x, s):
    s = simp(s)
    if isinstance(s, int):
        return zi(x) * (2 ** s)
    t = SHL(zi(x), s)
    E.axiom(("shl", kid(E, t)), z3.And(z3.Implies(zi(x) == 0, t == 0),
                                    z3.Implies(z3.And(zi(x) >= 0, s >= 0), t >= x),
                                    z3.Implies(s == 0, t == x)))
    return t


def hi(E, n, k):
    """sh(n,k) * 128**k, with hi(n,k) = hi(n,k+1) + (sh(n,k) mod 128) * 128**k."""
    k = simp(k)
    a = sh(E, n, k)
    b = sh(E, n, simp(zi(k) + 1))
    ha = shl(E, a, simp(zi(k) * 7)) if not isinstance(k, int) else a * 128 ** k
    hb = shl(E, b, simp(zi(k) * 7 + 7)) if not isinstance(k, int) else b * 128 ** (k + 1)
    lo = shl(E, a % 128, simp(zi(k) * 7)) if not isinstance(k, int) else (a % 128) * 128 ** k
    E.axiom(("hi", kid(E, n), kid(E, k)), z3.Implies(zi(k) >= 0, ha == hb + lo))
    E.axiom(("hi0", kid(E, n), kid(E, k)), z3.Implies(zi(k) == 0, ha == n))
    # the low part is below 2**(7k)
    p = pow2(E, simp(zi(k) * 7))
    E.axiom(("lo", kid(E, n), kid(E, k)), z3.Implies(z3.And(zi(k) >= 0, zi(n) >= 0),
                                               z3.And(n - ha >= 0, n - ha < p)))
    return ha


def pow2(E, s):
    s = simp(s)
    if isinstance(s, int):
        return z3.IntVal(2 ** s)
    t = POW2(s)
    E.axiom(("pow2", kid(E, t)), z3.Implies(s >= 0, t >= 1))
    return t


# -- segments ----------------------------------------------------------------
class Seg:
    kind = "?"

    def length(self, E):
        raise NotImplementedError

    def byte(self, E, off):
        raise Unsupported(f"byte of {self.kind} segment")

    def subst(self, pairs):
        raise NotImplementedError

    def __repr__(self):
        return f"{self.kind}"


class Lit(Seg):
    kind = "lit"

    def __init__(self, b):
        self.b = bytes(b)

    def length(self, E):
        return len(self.b)

    def byte(self, E, off):
        off = simp(off)
        if isinstance(off, int):
            return self.b[off]
        e = z3.IntVal(self.b[-1])
        for i in range(len(self.b) - 2, -1, -1):
            e = z3.If(off == i, z3.IntVal(self.b[i]), e)
        return e

    def subst(self, pairs):
        return self

    def __repr__(self):
        return f"Lit({self.b!r})"


class B1(Seg):
    kind = "byte"

    def __init__(self, e):
        self.e = e

    def length(self, E):
        return 1

    def byte(self, E, off):
        return self.e

    def subst(self, pairs):
        return B1(sub_all(self.e, pairs))

    def __repr__(self):
        return f"B1({self.e})"


class Arr(Seg):
    """bytes fn(off), ..., fn(off+len-1); every fn value is in 0..255."""
    kind = "arr"

    def __init__(self, fn, off, len_):
        self.fn, self.off, self.len = fn, off, len_

    def length(self, E):
        return self.len

    def byte(self, E, off):
        t = self.fn(simp(zi(self.off) + off))
        E.axiom(("arrbyte", kid(E, t)), z3.And(t >= 0, t <= 255))
        return t

    def subst(self, pairs):
        return Arr(self.fn, sub_all(self.off, pairs), sub_all(self.len, pairs))

    def __repr__(self):
        return f"Arr({self.fn},{self.off},{self.len})"


class Var(Seg):
    kind = "varint"

    def __init__(self, n):
        self.n = n

    def length(self, E):
        return vlen(E, self.n)

    def byte(self, E, off):
        off = simp(off)
        vs = E.memo.setdefault("vars", [])
        if not any(zi(self.n).eq(zi(x)) for x in vs):
            vs.append(self.n)
        v, s = vlen_at(E, self.n, off)
        return z3.If(zi(off) < v - 1, s % 128 + 128, s)

    def subst(self, pairs):
        return Var(sub_all(self.n, pairs))

    def __repr__(self):
        return f"Var({self.n})"


class F64(Seg):
    kind = "f64"

    def __init__(self, v):
        self.v = v

    def length(self, E):
        return 8

    def byte(self, E, off):
        t = F64BYTE(self.v, zi(off))
        E.axiom(("f64", kid(E, t)), z3.And(t >= 0, t <= 255))
        return t

    def subst(self, pairs):
        return F64(z3.substitute(self.v, *pairs))

    def __repr__(self):
        return f"F64({self.v})"


class Enc(Seg):
    kind = "enc"

    def __init__(self, codec, s):
        self.codec, self.s = codec, s

    def length(self, E):
        t = ENCLEN(self.codec, self.s)
        # assumption: texts and buffers are shorter than 2**30 bytes (V8's own limit is lower)
        E.axiom(("enclen", kid(E, t)), z3.And(t >= 0, t < 2 ** 30))
        if self.codec == 2:
            E.axiom(("encleneven", kid(E, t)), t % 2 == 0)
        return t

    def byte(self, E, off):
        t = ENCBYTE(self.codec, self.s, zi(off))
        E.axiom(("encb", kid(E, t)), z3.And(t >= 0, t <= 255))
        return t

    def subst(self, pairs):
        return Enc(self.codec, z3.substitute(self.s, *pairs))

    def __repr__(self):
        return f"Enc({self.codec},{self.s})"


class ILE(Seg):
    """len bytes, little endian, of the non-negative int v (v < 256**len)."""
    kind = "ile"

    def __init__(self, v, len_, order="little"):
        self.v, self.len, self.order = v, len_, order

    def length(self, E):
        return self.len

    def byte(self, E, off):
        at = simp(zi(off) if self.order == "little" else zi(self.len) - 1 - zi(off))
        if isinstance(at, int) and isinstance(simp(self.len), int) and at < 16:
            return zi(self.v) / 256 ** at % 256
        t = LEBYTE(zi(self.v), zi(at))
        E.axiom(("leb", kid(E, t)), z3.And(t >= 0, t <= 255))
        return t

    def subst(self, pairs):
        return ILE(sub_all(self.v, pairs), sub_all(self.len, pairs), self.order)

    def __repr__(self):
        return f"ILE({self.v},{self.len})"


class Nest(Seg):
    """What encode_object wrote for value v when the log held `start` objects (see specs/contracts.py)."""
    kind = "nest"

    def __init__(self, v, start, role=None):
        self.v, self.start, self.role = v, start, role

    def cnt(self, E):
        """Object numbers taken while writing it."""
        t = NESTCNT(self.v, zi(self.start))
        E.axiom(("nestcnt", kid(E, t)), t >= 0)
        return t

    def length(self, E):
        t = NESTLEN(self.v, zi(self.start))
        E.axiom(("nestlen", kid(E, t)), t >= 1)
        return t

    def byte(self, E, off):
        t = NESTBYTE(self.v, zi(self.start), zi(off))
        E.axiom(("nestb", kid(E, t)), z3.And(t >= 0, t <= 255))
        if zero(off) and self.role is not None:
            E.axiom(("nestfirst", kid(E, t), self.role.name), self.role.first(t))
        return t

    def subst(self, pairs):
        return Nest(z3.substitute(self.v, *pairs), sub_all(self.start, pairs), self.role)

    def __repr__(self):
        return f"Nest({self.v},{self.start})"


class Rep(Seg):
    """template(0) ++ ... ++ template(n-1); template is segs over variable kv."""
    kind = "rep"

    def __init__(self, n, kv, segs, pref):
        self.n, self.kv, self.segs, self.pref = n, kv, segs, pref

    def inst(self, j):
        return [s.subst([(self.kv, zi(j))]) for s in self.segs]

    def unit_const(self, E):
        """Length of one unit when it is a constant."""
        t = 0
        for s in self.segs:
            L = simp(s.length(E))
            if not isinstance(L, int):
                return None
            t += L
        return t

    def prefix(self, E, j):
        """Total length of the first j units."""
        u = self.unit_const(E)
        if u is not None:
            return simp(zi(j) * u)
        t = self.pref(zi(j))
        E.axiom(("pref0", kid(E, self.pref)), self.pref(z3.IntVal(0)) == 0)
        E.axiom(("prefnn", kid(E, t)), z3.Implies(zi(j) >= 0, t >= 0))
        return t

    def step(self, E, j):
        """Instantiate prefix(j+1) = prefix(j) + len(template(j))."""
        u = self.unit_const(E)
        if u is not None:
            return
        a, b = self.prefix(E, j), self.prefix(E, simp(zi(j) + 1))
        tot = z3.Sum([zi(s.length(E)) for s in self.inst(j)])
        E.axiom(("prefstep", kid(E, a)), z3.Implies(zi(j) >= 0, b == a + tot))
        # prefixes grow: the whole is at least any shorter prefix
        w = self.pref(zi(self.n))
        E.axiom(("prefmono", kid(E, b), kid(E, self.n)),
                z3.Implies(z3.And(zi(j) + 1 <= zi(self.n), zi(j) >= 0), w >= b))
        if any(isinstance(s, (Nest, Lit, B1, Var, F64)) for s in self.segs):
            # every unit has at least one byte: prefixes grow strictly
            E.axiom(("prefstrict", kid(E, a), kid(E, self.n)),
                    z3.Implies(z3.And(zi(j) >= 0, zi(self.n) >= 0), (zi(j) < zi(self.n)) == (a < w)))

    def length(self, E):
        return self.prefix(E, self.n)

    def byte(self, E, off):
        if len(self.segs) == 1 and self.unit_const(E) == 1:
            return self.inst(off)[0].byte(E, 0)
        raise Unsupported("byte at unknown index of a repeated segment")

    def subst(self, pairs):
        return Rep(sub_all(self.n, pairs), self.kv, [s.subst(pairs) for s in self.segs], self.pref)

    def __repr__(self):
        return f"Rep({self.n},{self.segs})"


def rope_len(E, segs):
    tot = 0
    parts = []
    for s in segs:
        L = s.length(E)
        L = simp(L)
        if isinstance(L, int):
            tot += L
        else:
            parts.append(L)
    if not parts:
        return tot
    return simp(z3.Sum(parts + [z3.IntVal(tot)]))


def add(a, b):
    return simp(zi(a) + zi(b))


def norm(E, segs):
    """Merge adjacent literals, drop empty ones."""
    out = []
    for s in segs:
        if isinstance(s, B1):
            e = simp(s.e)
            if isinstance(e, int):
                s = Lit(bytes([e]))
        if isinstance(s, Lit):
            if not s.b:
                continue
            if out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].b + s.b)
                continue
        out.append(s)
    return out


def locate(E, segs, pos):
    """(index, start offset of that segment, offset inside). 0 <= pos < len known."""
    c = 0
    pos = simp(pos)
    for i, s in enumerate(segs):
        L = simp(s.length(E))
        end = add(c, L)
        if isinstance(pos, int) and isinstance(end, int):
            inside = pos < end
        else:
            inside = E.branch(zi(pos) < zi(end))
        if inside:
            off = simp(zi(pos) - zi(c))
            if not isinstance(off, int) and not isinstance(s, Arr) and E.entails(off == 0):
                off = 0
            return i, c, off
        c = end
    raise Infeasible


def expand_rep(E, segs, i, off):
    """Position `off` is inside Rep segment i: split at a known unit boundary."""
    r = segs[i]
    rs = E.memo.setdefault("reps", [])
    if not any(r is x for x in rs):
        rs.append(r)
    for j in candidates_index(E)[:12]:
        if r.unit_const(E) is None:
            r.step(E, j)
    for j in candidates_index(E):
        if E.entails(z3.And(zi(j) >= 0, zi(j) < zi(r.n), zi(off) == r.prefix(E, j))):
            return split_rep(E, segs, i, j)
    off = simp(off)
    if isinstance(off, int) and off == 0:
        return split_rep(E, segs, i, 0)
    for j in candidates_index(E)[:12]:
        if r.unit_const(E) is None:
            r.step(E, j)
        nxt = r.prefix(E, simp(zi(j) + 1))
        if E.entails(z3.And(zi(j) >= 0, zi(j) < zi(r.n), zi(off) >= r.prefix(E, j), zi(off) < nxt)):
            return split_rep(E, segs, i, j)
    return None


def candidates_index(E):
    out = [0]
    for k in reversed(getattr(E, "index_terms", [])):
        out.append(k)
    return out


def split_rep(E, segs, i, j):
    r = segs[i]
    r.step(E, j)
    u = r.unit_const(E)
    before = Rep(j, r.kv, r.segs, r.pref)
    j1 = simp(zi(j) + 1)
    rest = Rest(r, j1)
    return segs[:i] + ([] if zero(j) else [before]) + r.inst(j) + [rest] + segs[i + 1:]


class Rest(Seg):
    """Units j.. of a Rep."""
    kind = "rest"

    def __init__(self, rep, j):
        self.rep, self.j = rep, j

    def length(self, E):
        return simp(zi(self.rep.length(E)) - zi(self.rep.prefix(E, self.j)))

    def byte(self, E, off):
        r = self.rep
        # start of unit j
        if E.entails(zi(off) == 0):
            r.step(E, self.j)
            return r.inst(self.j)[0].byte(E, 0)
        raise Unsupported("byte inside the rest of a repeated segment")

    def subst(self, pairs):
        raise Unsupported("subst of rest")


def at(E, segs, pos):
    """Byte at pos; 0 <= pos < length is already established."""
    i, c, off = locate(E, segs, pos)
    if isinstance(segs[i], Rep) and not (len(segs[i].segs) == 1 and segs[i].unit_const(E) == 1):
        new = expand_rep(E, segs, i, off)
        if new is None:
            raise Unsupported("index into a repeated segment")
        return at(E, new, pos)
    return segs[i].byte(E, off)


def cut(E, segs, pos):
    """Split at pos (0 <= pos <= len known): (before, after)."""
    pos = simp(pos)
    c = 0
    for i, s in enumerate(segs):
        if zero(zi(pos) - zi(c)) or E.entails(zi(pos) == zi(c)):
            return segs[:i], segs[i:]
        L = simp(s.length(E))
        end = add(c, L)
        if isinstance(pos, int) and isinstance(end, int):
            inside = pos < end
        else:
            inside = E.branch(zi(pos) < zi(end))
        if inside:
            off = simp(zi(pos) - zi(c))
            if E.entails(zi(off) == 0):
                return segs[:i], segs[i:]
            a, b = cut_seg(E, segs, i, off)
            if a is None:
                new = b
                return cut(E, new, pos)
            return segs[:i] + [a], [b] + segs[i + 1:]
        c = end
    return segs, []


def cut_seg(E, segs, i, off):
    s = segs[i]
    if isinstance(s, Lit) and isinstance(off, int):
        return Lit(s.b[:off]), Lit(s.b[off:])
    if isinstance(s, Arr):
        return (Arr(s.fn, s.off, off),
                Arr(s.fn, simp(zi(s.off) + off), simp(zi(s.len) - off)))
    if isinstance(s, Rep):
        new = expand_rep(E, segs, i, off)
        if new is not None:
            return None, new
    return Sub(s, 0, off), Sub(s, off, simp(zi(s.length(E)) - zi(off)))


class Sub(Seg):
    """Part of another segment."""
    kind = "sub"

    def __init__(self, seg, off, len_):
        if isinstance(seg, Sub):
            off = simp(zi(off) + zi(seg.off))
            seg = seg.seg
        self.seg, self.off, self.len = seg, off, len_

    def length(self, E):
        return self.len

    def byte(self, E, off):
        return self.seg.byte(E, simp(zi(off) + zi(self.off)))

    def subst(self, pairs):
        return Sub(self.seg.subst(pairs), sub_all(self.off, pairs), sub_all(self.len, pairs))

    def __repr__(self):
        return f"Sub({self.seg},{self.off},{self.len})"


def slice_(E, segs, a, b):
    """0 <= a <= b <= len known."""
    _, rest = cut(E, segs, a)
    mid, _ = cut(E, rest, simp(zi(b) - zi(a)))
    return mid


def seg_same(E, a, b):
    """Entailed structural equality of two segments, or None if not comparable."""
    if type(a) is not type(b):
        return None
    if a is b:
        return True
    if isinstance(a, Lit):
        return a.b == b.b
    if isinstance(a, B1):
        return E.entails(zi(a.e) == zi(b.e))
    if isinstance(a, Arr):
        return a.fn is b.fn and E.entails(z3.And(zi(a.off) == zi(b.off), zi(a.len) == zi(b.len)))
    if isinstance(a, Var):
        return E.entails(zi(a.n) == zi(b.n))
    if isinstance(a, F64):
        return E.entails(a.v == b.v)
    if isinstance(a, Enc):
        return a.codec == b.codec and E.entails(a.s == b.s)
    if isinstance(a, ILE):
        return a.order == b.order and E.entails(z3.And(zi(a.v) == zi(b.v), zi(a.len) == zi(b.len)))
    if isinstance(a, Nest):
        return a.role is b.role and E.entails(z3.And(a.v == b.v, zi(a.start) == zi(b.start)))
    if isinstance(a, Rep):
        if not E.entails(zi(a.n) == zi(b.n)) or len(a.segs) != len(b.segs):
            return False
        j = E.fresh("j")
        sa, sb = a.inst(j), b.inst(j)
        return all(seg_same(E, x, y) for x, y in zip(sa, sb))
    if hasattr(a, "same"):
        return a.same(E, b)
    if isinstance(a, Sub):
        return seg_same(E, a.seg, b.seg) and E.entails(
            z3.And(zi(a.off) == zi(b.off), zi(a.len) == zi(b.len)))
    return None


def rope_byte_term(E, segs, t):
    """A term for byte t (0 <= t < len assumed)."""
    c = 0
    parts = []
    for s in segs:
        L = s.length(E)
        parts.append((c, L, s))
        c = add(c, L)
    e = None
    for c, L, s in reversed(parts):
        b = zi(s.byte(E, simp(zi(t) - zi(c))))
        e = b if e is None else z3.If(zi(t) < zi(add(c, L)), b, e)
    return z3.IntVal(-1) if e is None else e


def prove_equal(E, a, b, label):
    """Obligation(s): ropes a and b are the same byte string."""
    a, b = norm(E, a), norm(E, b)
    # strip equal heads and tails
    while a and b:
        r = seg_same(E, a[0], b[0])
        if r:
            a, b = a[1:], b[1:]
            continue
        if isinstance(a[0], Lit) and isinstance(b[0], Lit):
            n = min(len(a[0].b), len(b[0].b))
            if a[0].b[:n] == b[0].b[:n]:
                x, y = a[0].b[n:], b[0].b[n:]
                a = ([Lit(x)] if x else []) + a[1:]
                b = ([Lit(y)] if y else []) + b[1:]
                continue
        break
    while a and b and seg_same(E, a[-1], b[-1]):
        a, b = a[:-1], b[:-1]
    if not a and not b:
        E.prove(True, label)
        return
    for x in a + b:
        if isinstance(x, Var):
            for k in getattr(E, "index_terms", []):
                for j in (zi(k) - 1, zi(k), zi(k) + 1):
                    vlen_at(E, x.n, simp(j))
    E.prove(zi(rope_len(E, a)) == zi(rope_len(E, b)), label + " (length)")
    t = E.fresh("t")
    L = rope_len(E, a)
    ta, tb = rope_byte_term(E, a, t), rope_byte_term(E, b, t)
    E.prove(z3.Implies(z3.And(t >= 0, t < zi(L)), ta == tb), label)
