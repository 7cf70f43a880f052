"""Model of memoryview over bytes and bytearray, and of struct for single items.

A memoryview is a window (offset, bytes, item format) on an owner.  Over a bytearray it
is live: reads see later writes, writes change the bytearray.  Trusted: the windows are
one-dimensional and contiguous, and no bytearray is resized while a window on it is open
(CPython refuses that with BufferError).
"""
from __future__ import annotations

import struct

import z3

from . import rope as R
from .core import Unsupported
from .interp import METHODS, MODELS, PyRaise, ie, is_intlike, has_sym, method, mkbool, mkint, model, pyclass  # noqa: F401
from .rope import zi, simp
from .values import *
from .values import Val

FULL_RO = 284        # the flags memoryview() passes to __buffer__
INTS = "bBhHiIlLqQ"
FLOATS = "efd"


class SMem(Heap):
    __slots__ = ("base", "off", "n", "fmt", "ro", "obj", "dead", "all")
    pytype = memoryview

    def __init__(self, base, off, n, fmt, ro, obj, all_=False, uid=None):
        self.base, self.off, self.n, self.fmt, self.ro, self.obj = base, off, n, fmt, ro, obj
        self.dead = False
        self.all = all_         # the window is the whole owner
        self.uid = uid

    def __repr__(self):
        return f"SMem({self.base},{self.off},{self.n},{self.fmt})"

    def snapshot(self):
        return self.dead

    def restore(self, v):
        self.dead = v


def item(m):
    return struct.calcsize(m.fmt)


def open_(I, v):
    """A window on the whole of v."""
    if isinstance(v, SMem):
        alive(I, v)
        return I.reg(SMem(v.base, v.off, v.n, v.fmt, v.ro, v.obj, v.all))
    if isinstance(v, memoryview):
        if v.ndim != 1 or not v.contiguous:
            raise Unsupported("memoryview")
        return I.reg(SMem(SBytes([R.Lit(bytes(v))]), 0, v.nbytes, v.format, v.readonly, v.obj, True))
    if isinstance(v, SByteArray):
        return I.reg(SMem(v, 0, R.rope_len(I.E, v.segs), "B", False, v, True))
    if isinstance(v, (SBytes, bytes)):
        segs = I.segs_of(v)
        return I.reg(SMem(SBytes(segs), 0, R.rope_len(I.E, segs), "B", True, v, True))
    if isinstance(v, SObj):
        f = I.class_lookup(v.cls, "__buffer__")
        if callable(f):
            return open_(I, I.call(I.bind(f, v, v.cls), [FULL_RO]))
    c = pyclass(v)
    if c is not None and not (isinstance(v, SVal) and v.cls is None):
        I.raise_(TypeError, "memoryview: a bytes-like object is required")
    raise Unsupported(f"memoryview({v!r})")


def alive(I, m):
    if m.dead:
        I.raise_(ValueError, "operation forbidden on released memoryview object")


@model(memoryview)
def _memoryview(I, a, k):
    return open_(I, a[0] if a else k["object"])


def _buffer(I, v, a, k):
    return open_(I, v)


for _c in (bytes, bytearray, memoryview, SBytes, SByteArray, SMem):
    METHODS[(_c, "__buffer__")] = _buffer


def segs(I, m):
    alive(I, m)
    if m.all:
        return list(m.base.segs)
    return R.slice_(I.E, m.base.segs, m.off, simp(zi(m.off) + zi(m.n)))


@method(SMem, "__segs__")
def _segs(I, m, a, k):
    return segs(I, m)


def count(m):
    w = item(m)
    return m.n if w == 1 else simp(zi(m.n) / w)


@method(SMem, "__len__")
def _len(I, m, a, k):
    alive(I, m)
    return mkint(zi(count(m)))


@method(SMem, "tobytes")
def _tobytes(I, m, a, k):
    return SBytes(segs(I, m))


@method(SMem, "toreadonly")
def _toreadonly(I, m, a, k):
    alive(I, m)
    return I.reg(SMem(m.base, m.off, m.n, m.fmt, True, m.obj, m.all))


@method(SMem, "release", "__exit__")
def _release(I, m, a, k):
    I.touch(m)
    m.dead = True


@method(SMem, "__enter__")
def _enter(I, m, a, k):
    alive(I, m)
    return m


@method(SMem, "cast")
def _cast(I, m, a, k):
    alive(I, m)
    fmt = a[0]
    if len(a) > 1 or k or not isinstance(fmt, str):
        raise Unsupported("memoryview.cast with a shape")
    size = struct.calcsize(fmt) if len(fmt) == 1 and fmt in INTS + FLOATS + "c?" else None
    if size is None or (m.fmt not in ("B", "b", "c") and fmt not in ("B", "b", "c")):
        I.raise_(TypeError if size else ValueError, "memoryview: cannot cast between two non-byte formats")
    if size > 1 and not I.E.branch(zi(m.n) % size == 0):
        I.raise_(TypeError, "memoryview: length is not a multiple of itemsize")
    return I.reg(SMem(m.base, m.off, m.n, fmt, m.ro, m.obj, m.all))


def _attr(name):
    def get(I, m):
        alive(I, m)
        if name == "nbytes":
            return mkint(zi(m.n))
        if name == "itemsize":
            return item(m)
        if name == "ndim":
            return 1
        if name == "format":
            return m.fmt
        if name == "readonly":
            return m.ro
        if name == "obj":
            return m.obj
        if name == "contiguous":
            return True
        if name == "strides":
            return (item(m),)
        return (mkint(zi(count(m))),)
    return get


ATTRS = {n: _attr(n) for n in ("nbytes", "itemsize", "ndim", "format", "readonly", "obj", "contiguous", "strides", "shape")}


def use(I):
    for n, h in ATTRS.items():
        I.attr_hook[(SMem, n)] = h


@method(SMem, "__getitem__")
def _getitem(I, m, a, k):
    alive(I, m)
    i = a[0]
    n = count(m)
    w = item(m)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported("memoryview slice with a step")
        lo = I.clamp(i.start, n, 0)
        hi = I.clamp(i.stop, n, n)
        if not I.E.branch(zi(lo) <= zi(hi)):
            hi = lo
        whole = m.all and R.zero(lo) and simp(zi(hi) - zi(n)) == 0 and w == 1
        return I.reg(SMem(m.base, simp(zi(m.off) + zi(lo) * w), simp((zi(hi) - zi(lo)) * w), m.fmt, m.ro, m.obj, whole))
    p = I.norm_index(i, n)
    at = simp(zi(m.off) + zi(p) * w)
    return unpack_one(I, "@" + m.fmt, R.slice_(I.E, m.base.segs, at, simp(zi(at) + w)))


@method(SMem, "__setitem__")
def _setitem(I, m, a, k):
    alive(I, m)
    i, v = a
    if m.ro:
        I.raise_(TypeError, "cannot modify read-only memory")
    w = item(m)
    n = count(m)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported("memoryview slice with a step")
        lo = I.clamp(i.start, n, 0)
        hi = I.clamp(i.stop, n, n)
        if not I.E.branch(zi(lo) <= zi(hi)):
            hi = lo
        new = I.segs_of(v)
        if new is None:
            raise Unsupported("memoryview slice assignment")
        if not I.E.branch(zi(R.rope_len(I.E, new)) == (zi(hi) - zi(lo)) * w):
            I.raise_(ValueError, "memoryview assignment: lvalue and rvalue have different structures")
        store(I, m, simp(zi(lo) * w), list(new))
        return
    p = I.norm_index(i, n)
    store(I, m, simp(zi(p) * w), pack_one(I, "@" + m.fmt, v, mem=True))


def store(I, m, at, new):
    """Overwrite the bytes from `at` of the window (bounds already established)."""
    b = m.base
    if not isinstance(b, SByteArray):
        raise Unsupported("write to an immutable owner")
    lo = simp(zi(m.off) + zi(at))
    size = R.rope_len(I.E, new)
    head, rest = R.cut(I.E, b.segs, lo)
    _, tail = R.cut(I.E, rest, size)
    I.touch(b)
    b.segs = list(head) + list(new) + list(tail)


# -- items ---------------------------------------------------------------------------
FLTBYTE = z3.Function("fltbyte", z3.StringSort(), Val, z3.IntSort(), z3.IntSort())
NARROW = z3.Function("narrowed", z3.StringSort(), Val, Val)      # the float that is read back
FLTRANGE = z3.Function("float_too_large_for", z3.StringSort(), Val, z3.BoolSort())


class Flt(R.Seg):
    """A float in format e, f or d, in the given byte order."""
    kind = "flt"

    def __init__(self, fmt, v, big):
        self.fmt, self.v, self.big = fmt, v, big

    def length(self, E):
        return struct.calcsize("<" + self.fmt)

    def byte(self, E, off):
        t = FLTBYTE(z3.StringVal(self.fmt), self.v, zi(self.length(E)) - 1 - zi(off) if self.big else zi(off))
        t = z3.simplify(t)
        E.axiom(("flt", R.kid(E, t)), z3.And(t >= 0, t <= 255))
        return t

    def subst(self, pairs):
        return Flt(self.fmt, z3.substitute(self.v, *pairs), self.big)

    def same(self, E, other):
        return self.fmt == other.fmt and self.big == other.big and E.entails(self.v == other.v)

    def __repr__(self):
        return f"Flt({self.fmt},{self.v},{self.big})"


def parse(fmt):
    """(big endian?, item letter) of a format with one item."""
    if not isinstance(fmt, str):
        raise Unsupported("struct format")
    order, f = (fmt[0], fmt[1:]) if fmt[:1] in "<>!=@" else ("@", fmt)
    if len(f) != 1 or f not in INTS + FLOATS + "c":
        raise Unsupported(f"struct format {fmt!r}")
    return order in ">!", f, struct.calcsize(fmt)


def pack_one(I, fmt, v, mem=False):
    big, f, w = parse(fmt)
    bad = (TypeError, ValueError) if mem else (struct.error, struct.error)
    if f in INTS:
        if not is_intlike(v):
            if pyclass(v) is None:
                raise Unsupported("packing a value of unknown type")
            I.raise_(bad[0], "required argument is not an integer")
        e = ie(v)
        lo, hi = (-(2 ** (8 * w - 1)), 2 ** (8 * w - 1)) if f.islower() else (0, 2 ** (8 * w))
        if not I.E.branch(z3.And(e >= lo, e < hi)):
            I.raise_(bad[1], "argument out of range")
        if f.islower():
            e = z3.If(e < 0, e + 2 ** (8 * w), e)
        e = simp(e)
        if w == 1:
            return R.norm(I.E, [R.B1(e)])
        if isinstance(e, int):
            return [R.Lit(e.to_bytes(w, "big" if big else "little"))]
        return [R.ILE(e, w, "big" if big else "little")]
    if f == "c":
        s = I.segs_of(v)
        if s is None or not I.E.branch(zi(R.rope_len(I.E, s)) == 1):
            I.raise_(bad[0], "char format requires a bytes object of length 1")
        return list(s)
    if isinstance(v, float) and not isinstance(v, Sym):
        try:
            return [R.Lit(struct.pack(fmt, v))]
        except Exception as x:
            raise PyRaise(x)
    if is_intlike(v):
        raise Unsupported("packing an int as a float")
    if pyclass(v) is not float:
        if pyclass(v) is None:
            raise Unsupported("packing a value of unknown type")
        I.raise_(bad[0], "required argument is not a float")
    e = I.as_val(v)
    if f != "d" and not I.E.branch(z3.Not(FLTRANGE(z3.StringVal(f), e))):
        I.raise_(OverflowError, "float too large to pack")
    return [R.F64(e) if f == "d" and not big else Flt(f, e, big)]


ITEMBYTES = {w: z3.Function(f"float_of_{w}_bytes", *([z3.IntSort()] * w), Val) for w in (2, 4, 8)}


def unpack_one(I, fmt, s):
    big, f, w = parse(fmt)
    s = R.norm(I.E, s)
    if f == "c":
        return SBytes(s)
    one = s[0] if len(s) == 1 else None
    if isinstance(one, R.Lit):
        try:
            return struct.unpack(fmt, one.b)[0]
        except struct.error as x:
            raise PyRaise(x)
    if f in FLOATS:
        if isinstance(one, R.F64) and f == "d" and not big:
            return SVal(one.v, float)
        if isinstance(one, Flt) and one.fmt == f and one.big == big:
            return SVal(one.v if f == "d" else NARROW(z3.StringVal(f), one.v), float)
        bs = [zi(R.at(I.E, s, i)) for i in range(w)]
        return SVal(ITEMBYTES[w](*(bs[::-1] if big else bs)), float)
    if isinstance(one, R.ILE) and one.order == ("big" if big else "little"):
        e = zi(one.v)
    else:
        e = z3.IntVal(0)
        for i in range(w):
            e = e + zi(R.at(I.E, s, i)) * 256 ** (w - 1 - i if big else i)
    if f.islower():
        e = z3.If(e >= 2 ** (8 * w - 1), e - 2 ** (8 * w), e)
    return mkint(e)


def struct_pack(I, a, k):
    if not has_sym(a):
        return I.native(struct.pack, a, k)
    if len(a) != 2:
        I.raise_(struct.error, "pack expected 1 item")
    return SBytes(pack_one(I, a[0], a[1]))


def bounds(I, m, off, w, what):
    n = zi(count(m)) if item(m) == 1 else zi(m.n)
    e = ie(off)
    if I.E.branch(e < 0):
        if not I.E.branch(e + w <= 0) or not I.E.branch(e + n >= 0):
            I.raise_(struct.error, f"{what}: offset out of range")
        e = e + n
    if not I.E.branch(e + w <= n):
        I.raise_(struct.error, f"{what} requires a buffer of at least more bytes")
    return simp(e)


@model(struct.pack_into)
def _pack_into(I, a, k):
    fmt, buf, off = a[0], a[1], a[2]
    w = parse(fmt)[2]
    m = buf if isinstance(buf, SMem) else open_(I, buf)
    alive(I, m)
    if m.ro:
        I.raise_(TypeError, "argument must be read-write bytes-like object")
    at = bounds(I, m, off, w, "pack_into")
    if len(a) != 4:
        I.raise_(struct.error, "pack_into expected 1 item")
    store(I, m, at, pack_one(I, fmt, a[3]))


@model(struct.unpack_from)
def _unpack_from(I, a, k):
    fmt, buf = a[0], a[1]
    off = a[2] if len(a) > 2 else k.get("offset", 0)
    w = parse(fmt)[2]
    m = buf if isinstance(buf, SMem) else open_(I, buf)
    alive(I, m)
    at = bounds(I, m, off, w, "unpack_from")
    lo = simp(zi(m.off) + zi(at))
    return (unpack_one(I, fmt, R.slice_(I.E, m.base.segs, lo, simp(zi(lo) + w))),)


@model(struct.unpack)
def _unpack(I, a, k):
    if not has_sym(a):
        return I.native(struct.unpack, a, k)
    fmt, w = a[0], parse(a[0])[2]
    s = I.segs_of(a[1])
    if not I.E.branch(zi(R.rope_len(I.E, s)) == w):
        I.raise_(struct.error, "unpack requires a buffer of another size")
    return (unpack_one(I, fmt, s),)
