"""Lemma programs: ordinary Python functions over the real code, executed twice.

* symbolically by pyvc, where every `prove` is an obligation for all inputs;
* natively by CPython, where `prove` is a run-time assertion.  This is used to
  replay solver models, to search for a concrete failing input when an
  obligation fails, and as a cross-check of the engine's model of Python.

The names exported here form the specification vocabulary of the lemmas.
"""
from __future__ import annotations

import math
import struct
import types

import z3

from . import rope as R
from .core import Unsupported, Infeasible
from .interp import model, MODELS, PyRaise, ie, mkint, mkbool, is_intlike, has_sym, pyclass
from .rope import zi, simp
from .values import *
from .values import Val


# ---------------------------------------------------------------------------
# native meaning
# ---------------------------------------------------------------------------
class Skip(Exception):
    """assume() failed: this concrete input is outside the lemma's domain."""


def show(x, n=300):
    """repr that survives huge ints."""
    try:
        return repr(x)[:n]
    except ValueError:
        if isinstance(x, (tuple, list)):
            return "(" + ", ".join(show(y, n) for y in x) + ")"
        if isinstance(x, int):
            return f"{hex(x)[:60]}...({x.bit_length()} bits)"
        return f"<{type(x).__name__}>"


class Violated(Exception):
    def __init__(self, label, info=""):
        super().__init__(f"{label} {info}")
        self.label, self.info = label, info


def assume(cond):
    if not cond:
        raise Skip


def prove(cond, label, *info):
    if not cond:
        raise Violated(label, " ".join(show(x) for x in info))


def cover(label):
    """This point must be reachable (checked over all paths)."""
    COVERED[label] = True


COVERED = {}


def same_bytes(actual, *parts, label):
    want = b"".join(bytes(p) for p in parts)
    if bytes(actual) != want:
        raise Violated(label, f"got {bytes(actual)[-80:]!r}, want {want[-80:]!r}")


def varint(n):
    out = bytearray()
    while n >= 128:
        out.append(n % 128 + 128)
        n //= 128
    out.append(n)
    return bytes(out)


def f64(v):
    return struct.pack("<d", v)


def le_bytes(n, length):
    return bytes((n >> (8 * i)) & 255 for i in range(length))


def min_le_len(n):
    """bit_length(n) + 8) // 8 (one byte more than needed when full)."""
    return (abs(n).bit_length() + 8) // 8


def fbits(v):
    return struct.pack("<d", v)


def identical(a, b):
    """Same type and same value; floats bit for bit."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return fbits(a) == fbits(b) or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (int, str, bytes)) or a is None:
        return a == b
    return a is b


def length(b):
    return len(b)


def enc_len(codec, s):
    return len(s.encode(codec))


def text(codec, s):
    return s.encode(codec)


def zeros(n):
    return bytes(n)


def instantiate_loops_at(n):
    """Proof hint: every loop met later passed its first n iterations' tests (no native meaning)."""


# ---------------------------------------------------------------------------
# symbolic meaning
# ---------------------------------------------------------------------------
@model(assume)
def _assume(I, a, k):
    t = I.truth_term(a[0])
    if isinstance(t, bool):
        if not t:
            raise Infeasible
        return None
    I.E.assume_feasible(t)


@model(prove)
def _prove(I, a, k):
    t = I.truth_term(a[0])
    I.E.prove(t, a[1])


@model(cover)
def _cover(I, a, k):
    I.E.stats.covers[a[0]] = True


@model(same_bytes)
def _same_bytes(I, a, k):
    segs = I.segs_of(a[0])
    want = []
    for p in a[1:]:
        s = I.segs_of(p)
        if s is None:
            raise Unsupported(f"same_bytes of {p!r}")
        want += s
    R.prove_equal(I.E, segs, want, k["label"])


@model(varint)
def _varint(I, a, k):
    e = simp(ie(a[0]))
    if isinstance(e, int):
        return varint(e)
    return SBytes([R.Var(e)])


@model(f64, fbits)
def _f64(I, a, k):
    if not has_sym(a):
        return f64(*a)
    v = a[0]
    if is_intlike(v):
        return SBytes([R.F64(I.fval(v))])
    return SBytes([R.F64(I.as_val(v))])


@model(le_bytes)
def _le_bytes(I, a, k):
    if not has_sym(a):
        return le_bytes(*a)
    return SBytes([R.ILE(simp(ie(a[0])), simp(ie(a[1])))])


@model(text)
def _text(I, a, k):
    if not has_sym(a):
        return text(*a)
    return SBytes([R.Enc(R.CODECS[a[0]], I.as_val(a[1]))])


@model(enc_len)
def _enc_len(I, a, k):
    if not has_sym(a):
        return enc_len(*a)
    return mkint(R.Enc(R.CODECS[a[0]], I.as_val(a[1])).length(I.E))


@model(zeros)
def _zeros(I, a, k):
    if not has_sym(a):
        return zeros(*a)
    kv = z3.Int("zeros_kv")
    return SBytes([R.Rep(simp(ie(a[0])), kv, [R.Lit(b"\0")], None)])


@model(instantiate_loops_at)
def _inst(I, a, k):
    I.E.memo.setdefault("inst", []).append(simp(ie(a[0])))


@model(identical)
def _identical(I, a, k):
    x, y = a
    if x is y:
        return True
    cx, cy = pyclass(x), pyclass(y)
    if cx is None or cy is None:
        if isinstance(x, SVal) and isinstance(y, SVal):
            return mkbool(x.e == y.e)
        raise Unsupported("identical() on a value of unknown type")
    if cx is not cy:
        return False
    if not has_sym(a):
        return identical(x, y)
    if issubclass(cx, int) and is_intlike(x) and is_intlike(y):
        return mkbool(ie(x) == ie(y))
    if cx in (float, str):
        return mkbool(I.as_val(x) == I.as_val(y))
    if isinstance(x, SVal) and isinstance(y, SVal):
        return mkbool(x.e == y.e)
    if cx in (bytes, bytearray):
        return I.eq(x, y)
    return False


# ---------------------------------------------------------------------------
# input domains
# ---------------------------------------------------------------------------
class Dom:
    def sym(self, I, name):
        raise NotImplementedError

    def edges(self):
        return []

    def deep(self):
        return []

    def rand(self, r):
        raise NotImplementedError

    def from_model(self, m):
        return m


class Int(Dom):
    def __init__(self, lo=None, hi=None, big=200, far=40000):
        self.lo, self.hi, self.big, self.far = lo, hi, big, far

    def sym(self, I, name):
        return I.int_(name, self.lo, self.hi)

    def ok(self, v):
        return (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi)

    def edges(self):
        out = {0, 1, -1, 2, 127, 128, 129, 255, 256}
        for b in (7, 8, 14, 15, 16, 21, 28, 30, 31, 32, 35, 42, 49, 53, 56, 63, 64, 70, 128):
            for d in (-2, -1, 0, 1, 2):
                out |= {2 ** b + d, -(2 ** b) + d}
        if self.lo is not None:
            out |= {self.lo, self.lo + 1}
        if self.hi is not None:
            out |= {self.hi, self.hi - 1}
        return sorted((v for v in out if self.ok(v)), key=abs)

    def deep(self):
        """Edges far out, for the search after a failed proof and a few samples otherwise."""
        out = set()
        for b in (255, 256, 1023, 1024, 1030, 2047, 4096, 8191, 16383, 32767, 32768, 65527, 65528, 65535, 65536,
                  131071, 262143, 524287, 1048575, 2 ** 21 + 7):
            if b > self.far:
                continue
            for d in (-8, -1, 0, 1, 7, 8):
                out |= {1 << (b + d), -(1 << (b + d)), (1 << (b + d)) - 1, -(1 << (b + d)) + 1}
        return sorted((v for v in out if self.ok(v)), key=abs)

    def rand(self, r):
        lo, hi = self.lo, self.hi
        for _ in range(50):
            b = r.choice([3, 7, 8, 14, 16, 31, 32, 33, 53, 64, self.big])
            v = r.getrandbits(b) * (1 if lo is not None and lo >= 0 else r.choice([1, -1]))
            if self.ok(v):
                return v
        return r.randint(lo if lo is not None else -2 ** 70, hi if hi is not None else 2 ** 70)


def Nat(hi=None):
    return Int(0, hi)


class Bits(Int):
    """An int from 0, of which the low bits are looked at one by one."""

    def __init__(self, n, hi):
        super().__init__(0, hi)
        self.n = n

    def sym(self, I, name):
        on = [I.E.fresh(f"{name}.{k}", z3.BoolSort()) for k in range(self.n)]
        high = I.E.fresh(f"{name}.high")
        I.E.assume(z3.And(high >= 0, high <= self.hi // 2 ** self.n))
        e = I.of_bits(on, high)
        I.E.assume(e <= self.hi)
        I.E.inputs[name] = lambda m: m.eval(e, True).as_long()
        return mkint(e)

    def edges(self):
        return super().edges() + [1 << k for k in range(self.n)] + [3 << k for k in range(self.n)] + [2 ** self.n - 1, self.hi]

    def rand(self, r):
        return r.getrandbits(self.n) | (r.getrandbits(self.hi.bit_length()) >> self.n << self.n if r.random() < 0.5 else 0)


class Small(Int):
    """Like Int, natively drawn small (sizes, indexes)."""

    def deep(self):
        return []

    def edges(self):
        return [v for v in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17) if self.ok(v)]

    def rand(self, r):
        return r.randint(max(self.lo or 0, 0), min(self.hi if self.hi is not None else 40, 40))


class Bool(Dom):
    def sym(self, I, name):
        return I.bool_(name)

    def edges(self):
        return [False, True]

    def rand(self, r):
        return r.random() < 0.5


class Data(Dom):
    """Arbitrary bytes."""

    def __init__(self, minlen=0):
        self.minlen = minlen

    def sym(self, I, name):
        return SBytes([I.data(name, self.minlen)])

    def edges(self):
        return [b for b in (b"", b"\x00", b"\xff", b"\x00\x00", b"0\x80") if len(b) >= self.minlen]

    def rand(self, r):
        return bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)])
                     for _ in range(r.randrange(self.minlen, self.minlen + 9)))

    def from_model(self, m):
        return bytes(m)


FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, 0.1, math.pi, 2.0 ** 31, 2.0 ** 32, 2.0 ** 53, -2.0 ** 53, 1e21,
          1e308, 5e-324, -5e-324, 2.2250738585072014e-308, math.inf, -math.inf, math.nan]


class Float(Dom):
    def sym(self, I, name):
        return I.val(name, float)

    def edges(self):
        return list(FLOATS)

    def rand(self, r):
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]


STRS = ["", "a", "é", "ÿ", "Ā", "abc", "\x00", "日本", "💥", "a💥b", "x" * 127, "x" * 128,
        "é" * 100, "ü" * 64, "Ā" * 63, "Ā" * 64, "﻿x", "￾", "\ud7ff\ue000", "1", "01", "-0",
        "__proto__", "\x7f\x80\x9f"]


class Str(Dom):
    def __init__(self, latin1=False):
        self.latin1 = latin1

    def sym(self, I, name):
        from .models import LATIN1, SURR
        v = I.val(name, str)
        I.E.assume(z3.Not(SURR(v.e)))
        if self.latin1:
            I.E.assume(LATIN1(v.e))
        return v

    def edges(self):
        return [s for s in STRS if not self.latin1 or all(ord(c) < 256 for c in s)]

    def rand(self, r):
        hi = r.choice([127, 255] if self.latin1 else [127, 255, 0xffff, 0x10ffff])
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, r.randrange(300)])):
            c = r.randint(0, hi)
            if 0xd800 <= c < 0xe000:
                c = 0x20
            out.append(chr(c))
        return "".join(out)


class Choice(Dom):
    """One of finitely many concrete values: the lemma is proved for each."""

    def __init__(self, *values):
        self.values = values

    def sym(self, I, name):
        if len(self.values) == 1:
            return self.values[0]
        i = I.E.choose(len(self.values))
        I.E.inputs[name] = lambda m, i=i: {"choice": i}
        return self.values[i]

    def edges(self):
        return list(self.values)

    def rand(self, r):
        return r.choice(self.values)

    def from_model(self, m):
        return self.values[m["choice"]] if isinstance(m, dict) else self.values[0]


def raised_by_spec(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "/specs/" in tb.tb_frame.f_code.co_filename


class Lemma:
    def __init__(self, name, fn, doms, **opts):
        self.name, self.fn, self.doms = name, fn, doms
        self.native = opts.pop("native", True)      # may run natively
        self.symbolic = opts.pop("symbolic", True)
        self.setup = opts.pop("setup", None)        # (I) -> None, per path
        self.quick = opts.pop("quick", True)
        self.samples = opts.pop("samples", 300)
        self.timeout_ms = opts.pop("timeout_ms", 8000)
        self.budget_s = opts.pop("budget_s", 100)
        self.unroll = opts.pop("unroll", None)      # bounded fallback unwinding
        self.max_paths = opts.pop("max_paths", 4000)
        self.exact = opts.pop("exact", True)        # sat answers are definite
        self.covers = opts.pop("covers", [])        # labels which must be reached
        self.statement = opts.pop("statement", (fn.__doc__ or "").strip())
        assert not opts, opts

    def body(self, I):
        if self.setup:
            self.setup(I)
        args = [d.sym(I, n) for n, d in self.doms.items()]
        try:
            I.call(self.fn, args)
        except PyRaise as e:
            I.E.prove(False, f"{self.name}: no exception escapes (got {e.cls.__name__})",
                      detail=repr(getattr(e.exc, "attrs", e.exc)))

    def run_native(self, args):
        """None, 'skip' or (label, info)."""
        try:
            self.fn(*args)
        except Skip:
            return "skip"
        except Violated as e:
            return (e.label, e.info)
        except RecursionError:
            return "skip"
        except Exception as e:
            if isinstance(e, AttributeError) and raised_by_spec(e):
                return "skip"       # the lemma names something the code no longer has
            return (f"{self.name}: no exception escapes (got {type(e).__name__})", str(e)[:300])
        return None


def lemma(registry, name, **kw):
    doms = {k: v for k, v in kw.items() if isinstance(v, Dom)}
    opts = {k: v for k, v in kw.items() if not isinstance(v, Dom)}

    def deco(fn):
        registry.append(Lemma(name, fn, doms, **opts))
        return fn
    return deco
