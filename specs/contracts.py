"""Contracts that stand for callee bodies in the proofs of their callers.

Every contract here is itself proved from the callee's current source by the
lemma named in `PROVED_BY` (which every property using it also runs).
"""
import z3

from pyvc import rope as R
from pyvc.core import Unsupported
from pyvc.interp import ie, is_intlike, mkint
from pyvc.rope import zi, simp
from pyvc.values import *

from v8serialize.encode import WritableTagStream
from v8serialize.decode import ReadableTagStream


def _fn(cls, name):
    return cls.__dict__.get(name)


def write_varint(I, a, k):
    """requires n int; n < 0 -> ValueError, data unchanged; else data == old(data) ++ varint(n).
    Proved by lemma write_varint."""
    self, n = (list(a) + [k.get("n")])[:2]
    if not is_intlike(n):
        raise Unsupported("write_varint of a non-int")
    e = ie(n)
    if not I.E.branch(e >= 0):
        I.raise_(ValueError, "varint must be non-negative")
    data = I.getattr(self, "data")
    if not isinstance(data, SByteArray):
        raise Unsupported("stream data")
    I.touch(data)
    e = simp(e)
    if isinstance(e, int):
        out = bytearray()
        while e >= 128:
            out.append(e % 128 + 128)
            e //= 128
        out.append(e)
        data.segs = data.segs + [R.Lit(bytes(out))]
    else:
        data.segs = data.segs + [R.Var(e)]
    return None


def read_varint(I, a, k):
    """If data[pos:] starts with varint(n) (and n < 2**32 when max_bits is 32): returns n and
    pos advances by len(varint(n)).  Proved by lemma read_varint.  At any other position the
    body is executed."""
    self = a[0]
    bits = a[1] if len(a) > 1 else k.get("max_bits")
    data, pos = I.getattr(self, "data"), I.getattr(self, "pos")
    segs = I.segs_of(data)
    if segs is not None and is_intlike(pos):
        _, rest = R.cut(I.E, segs, simp(ie(pos)))
        if rest and isinstance(rest[0], R.Var):
            n = rest[0].n
            if bits is None or I.E.entails(zi(n) < 2 ** 32):
                I.setattr(self, "pos", mkint(ie(pos) + zi(rest[0].length(I.E))))
                return mkint(n)
    return I.call_body(_fn(ReadableTagStream, "read_varint"), a, k)


def use_varints(I):
    for cls, nm, h in ((WritableTagStream, "write_varint", write_varint),
                       (ReadableTagStream, "read_varint", read_varint)):
        f = _fn(cls, nm)
        if f is not None:
            I.contracts[f] = h
