"""Run-time contract checks on the real code: context, value generators, oracles.

These are bounded by construction: they search for concrete inputs on which a
contract fails (counterexample search and cross-check of the verifier).
"""
from __future__ import annotations

import math
import os
import random
import struct
import time
import traceback
from datetime import datetime, timezone, timedelta

from v8serialize.jstypes import JSObject, JSArray, JSMap, JSSet, JSUndefined, JSHole, JSRegExp
from v8serialize.jstypes import JSPrimitiveObject, JSError, JSErrorData
from v8serialize.jstypes.jsbuffers import (
    JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer, JSArrayBufferView, JSDataView,
    JSTypedArray, ArrayBufferViewStructFormat, create_view)
from v8serialize.jstypes import jsbuffers
from v8serialize.jstypes._v8 import V8SharedObjectReference
from v8serialize.constants import ArrayBufferViewTag, JSRegExpFlag, SerializationFeature


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, pid, part, tier, seed, budget):
        self.pid, self.part, self.tier, self.seed = pid, part, tier, seed
        self.rng = random.Random(f"{seed}:{pid}:{part}")
        self.deadline = time.time() + budget
        self.thorough = tier == "thorough"
        self.runs = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.known = []
        self.current = None

    def scale(self, n):
        return n * (10 if self.thorough else 1)

    @property
    def late(self):
        return time.time() > self.deadline

    def case(self, key):
        self.runs += 1
        self.current = key
        k = hash(repr(key)[:4000])
        if k not in self.distinct:
            self.distinct.add(k)
            if len(self.samples) < 3:
                self.samples.append(repr(key)[:300])

    def fail(self, label, info="", case=None):
        if len(self.violations) < 3:
            self.violations.append(dict(label=label, info=str(info)[:1500], case=repr(case)[:3000]))
        else:
            raise Stop

    def check(self, cond, label, info="", case=None):
        if not cond:
            self.fail(label, info() if callable(info) else info, case)
        return bool(cond)


def guarded(fn):
    """Run a part; an unexpected exception in the code under test is a violation."""
    def run(ctx):
        try:
            fn(ctx)
        except Stop:
            pass
        except Exception as e:
            tb, inside = e.__traceback__, False
            src = os.environ.get("VERIF_REPO_SRC", "/repo/src")
            while tb is not None:
                inside = inside or tb.tb_frame.f_code.co_filename.startswith(src)
                tb = tb.tb_next
            if not inside:
                raise
            last = traceback.format_exc()[-1200:]
            try:
                ctx.fail(f"unexpected {type(e).__name__} from the code under test", last, ctx.current)
            except Stop:
                pass
    run.__name__ = fn.__name__
    return run


def parts(*fns):
    return {f.__name__: guarded(f) for f in fns}


# ---------------------------------------------------------------------------
# exact comparison
# ---------------------------------------------------------------------------
def same_float(a, b):
    return struct.pack("<d", a) == struct.pack("<d", b) or (math.isnan(a) and math.isnan(b))


def ident(a, b):
    """same type and value"""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return same_float(a, b)
    if a is b:
        return True
    if isinstance(a, (int, str, bytes)):
        return a == b
    return False


SAFE = 2 ** 53 - 1


def expect_int(n):
    """What an int loads as."""
    if -2 ** 31 <= n < 2 ** 32:
        return n
    if -SAFE <= n <= SAFE:
        return float(n)
    return n


class Mismatch(Exception):
    pass


def match(inp, out, path="$", seen=None, resizable=True, numbers=True):
    """`out` is what loading the serialized form of `inp` must give; checks aliasing too."""
    if seen is None:
        seen = ({}, {}, [])

    def bad(msg):
        raise Mismatch(f"at {path}: {msg}: wrote {safe_repr(inp)}, loaded {safe_repr(out)}")

    def sub(a, b, p):
        match(a, b, path + p, seen, resizable, numbers)

    if inp is None or inp is JSUndefined or inp is JSHole or isinstance(inp, bool):
        if out is not inp:
            bad("constant differs")
        return
    if isinstance(inp, int):
        if not ident(expect_int(inp) if numbers else inp, out):
            bad("int differs")
        return
    if isinstance(inp, (float, str)):
        if not ident(inp, out):
            bad("scalar differs")
        return
    if isinstance(inp, JSPrimitiveObject):
        v = inp.value
        want = float(v) if (inp.tag.name == "kNumberObject" and not isinstance(v, bool)) else v
        if not ident(want, out):
            bad("wrapped primitive differs")
        return
    # objects: identity is preserved both ways
    a, b, keep = seen
    keep.append((inp, out))
    if id(inp) in a:
        if a[id(inp)] is not out:
            bad("an object occurring twice loaded as two objects")
        return
    if id(out) in b and b[id(out)] is not inp:
        bad("two objects loaded as one")
    a[id(inp)] = out
    b[id(out)] = inp
    if isinstance(inp, JSArray):
        if type(out) is not JSArray:
            bad("not a JSArray")
        if len(inp.array) != len(out.array):
            bad(f"array length {len(inp.array)} -> {len(out.array)}")
        pairs(inp, out, sub, bad)
        return
    if isinstance(inp, JSObject):
        if type(out) is not JSObject:
            bad("not a JSObject")
        pairs(inp, out, sub, bad)
        return
    if isinstance(inp, (JSMap, dict)):
        if type(out) is not JSMap:
            bad("not a JSMap")
        pairs(inp, out, sub, bad)
        return
    if isinstance(inp, (JSSet, set, frozenset)):
        if type(out) is not JSSet:
            bad("not a JSSet")
        x, y = list(inp), list(out)
        if len(x) != len(y):
            bad("set sizes differ")
        for i, (p, q) in enumerate(zip(x, y)):
            sub(p, q, f"<{i}>")
        return
    if isinstance(inp, (list, tuple)):
        if type(out) is not JSArray or len(out.array) != len(inp):
            bad("not the same array")
        if len(out) != sum(1 for x in inp if x is not JSHole):
            bad("extra properties")
        for i, x in enumerate(inp):
            sub(x, out.array[i], f"[{i}]")
        return
    if isinstance(inp, (JSErrorData, JSError)):
        if type(out) is not JSError:
            bad("not a JSError")
        from v8serialize.constants import JSErrorName
        names = {e.value for e in JSErrorName} | set(JSErrorName.__members__)
        want = inp.name if inp.name in {str(e.value) for e in JSErrorName} else None
        if want is not None and out.name != want:
            bad(f"error name {inp.name!r} -> {out.name!r}")
        if want is None and out.name != "Error":
            bad(f"unknown error name {inp.name!r} -> {out.name!r}")
        if (inp.message or "") != (out.message or ""):
            bad("error message differs")
        for f in ("stack",):
            if not (ident(getattr(inp, f), getattr(out, f)) or
                    (getattr(inp, f) is None and getattr(out, f) is None)):
                bad(f"error {f} differs")
        if inp.cause is None:
            if out.cause is not None:
                bad("error cause appeared")
        else:
            sub(inp.cause, out.cause, ".cause")
        return
    if isinstance(inp, JSRegExp):
        if type(out) is not JSRegExp or inp.source != out.source or inp.flags != out.flags:
            bad("regexp differs")
        return
    if isinstance(inp, datetime):
        if not isinstance(out, datetime):
            bad("not a datetime")
        if abs(inp.timestamp() - out.timestamp()) > 0.0005:
            bad("date differs")
        return
    if isinstance(inp, JSArrayBuffer):
        if type(out) is not JSArrayBuffer:
            bad("not a JSArrayBuffer")
        if bytes(inp.data) != bytes(out.data):
            bad("buffer bytes differ")
        if resizable and inp.resizable:
            if not out.resizable or out.max_byte_length != inp.max_byte_length:
                bad("resizability lost")
        elif out.resizable:
            bad("buffer became resizable")
        return
    if isinstance(inp, JSSharedArrayBuffer):
        if type(out) is not JSSharedArrayBuffer or out.buffer_id != inp.buffer_id:
            bad("shared buffer differs")
        return
    if isinstance(inp, JSArrayBufferTransfer):
        if type(out) is not JSArrayBufferTransfer or out.transfer_id != inp.transfer_id:
            bad("transferred buffer differs")
        return
    if isinstance(inp, V8SharedObjectReference):
        if type(out) is not V8SharedObjectReference or out.shared_value_id != inp.shared_value_id:
            bad("shared object differs")
        return
    if isinstance(inp, JSArrayBufferView):
        if type(out) is not type(inp):
            bad("not the same view type")
        sub(inp.backing_buffer, out.backing_buffer, ".buffer")
        if inp.byte_offset != out.byte_offset or (inp.byte_length or 0) != (out.byte_length or 0):
            bad(f"view region ({inp.byte_offset}, {inp.byte_length}) -> ({out.byte_offset}, {out.byte_length})")
        if isinstance(inp.backing_buffer, JSArrayBuffer):
            tracking = inp.is_length_tracking and resizable
            if bool(out.is_length_tracking) != bool(tracking):
                bad(f"length tracking {inp.is_length_tracking} -> {out.is_length_tracking}")
        return
    if isinstance(inp, (bytes, bytearray, memoryview)):
        if type(out) is not JSArrayBuffer or bytes(out.data) != bytes(inp) or out.resizable:
            bad("bytes differ")
        return
    bad(f"no expectation for {type(inp)}")


def safe_repr(v):
    try:
        return repr(v)[:200]
    except BaseException as e:
        return f"<{type(v).__name__}: {type(e).__name__}>"


def pairs(inp, out, sub, bad):
    x, y = list(inp.items()), list(out.items())
    if len(x) != len(y):
        bad(f"sizes differ ({len(x)} -> {len(y)})")
    for i, ((k1, v1), (k2, v2)) in enumerate(zip(x, y)):
        if isinstance(inp, JSObject):
            if k1 != k2 or isinstance(k1, str) != isinstance(k2, str):
                bad(f"key {k1!r} -> {k2!r}")
        else:
            sub(k1, k2, f"<key {i}>")
        sub(v1, v2, f"[{k1!r}]" if isinstance(k1, (str, int, float)) else f"<value {i}>")


# ---------------------------------------------------------------------------
# generators
# ---------------------------------------------------------------------------
INTS = [0, 1, -1, 127, 128, -64, -65, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32,
        SAFE, SAFE + 1, -SAFE, -SAFE - 1, 2 ** 63, 2 ** 64, -2 ** 64, 2 ** 200, 255, 256, 65535, -255]
FLTS = [0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, math.inf, -math.inf, math.nan, 2.0 ** 31, 4294967295.0, 2.0 ** 53]
STRS = ["", "a", "é", "Ā", "日本語", "💥", "x" * 130, "length", "0", "00", "-1", "1.5", "4294967295",
        "__proto__", "\x00"]

VIEW_TAGS = list(ArrayBufferViewTag)


def item_size(tag):
    return ArrayBufferViewStructFormat(tag).view_type.data_format.byte_length


def scalars(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([None, JSUndefined, True, False])
    if k in (1, 2, 3):
        return r.choice(INTS) if r.random() < 0.5 else r.getrandbits(r.choice([8, 31, 32, 33, 53, 54, 80])) * r.choice([1, -1])
    if k in (4, 5):
        return r.choice(FLTS) if r.random() < 0.5 else struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    return r.choice(STRS) if r.random() < 0.6 else "".join(chr(r.choice([r.randrange(32, 127), r.randrange(160, 255), 0x3b1, 0x1F600])) for _ in range(r.randrange(6)))


def same_object(x, y):
    """Two equal values of an immutable kind are the same value to JavaScript, so that one may stand for both."""
    if isinstance(x, JSArrayBufferView):
        return x.backing_buffer is y.backing_buffer and x.view_tag is y.view_tag and \
            (x.item_offset, x.item_length, x.is_length_tracking) == (y.item_offset, y.item_length, y.is_length_tracking)
    if isinstance(x, JSPrimitiveObject):
        return x.tag is y.tag and repr(x.value) == repr(y.value)
    if isinstance(x, datetime):
        return x.fold == y.fold
    return True


class Gen:
    """Random object graphs with sharing and cycles."""

    def __init__(self, r, size=25, kinds=None, cyc=True, features=True, holes=True):
        self.r, self.left, self.pool, self.cyc = r, size, [], cyc
        self.kinds = kinds
        self.features = features
        self.uid = 0
        self.made = []      # immutable values compare by value: keep them distinct

    def key(self):
        r = self.r
        return r.choice(["a", "b", "c", "k1", "é", "x" * 5]) if r.random() < 0.5 else r.choice([0, 1, 2, 3, 7, 50, "01", "4294967295"])

    def value(self, depth=0):
        r = self.r
        self.left -= 1
        if self.pool and r.random() < 0.22:
            return r.choice(self.pool)
        if self.left <= 0 or depth > 6 or r.random() < 0.35:
            return scalars(r)
        kinds = self.kinds or ["obj", "arr", "sparse", "map", "set", "list", "dict", "pyset", "err", "re", "date",
                               "prim", "buf", "rbuf", "view", "rview", "sab", "xfer", "shared", "bytes", "bytearray"]
        return getattr(self, "k_" + r.choice(kinds))(depth)

    def reg(self, v):
        # values that are the same value to JavaScript may be one object to the serializer (see DESIGN.md)
        if getattr(v, "__hash__", None) is not None and not isinstance(v, (JSObject, JSMap, JSSet)):
            try:
                hash(v)
            except Exception:
                pass
            else:
                for o in self.made:
                    try:
                        if o == v and same_object(o, v):
                            return o
                    except Exception:
                        pass
                self.made.append(v)
        self.pool.append(v)
        return v

    def n(self):
        return self.r.choice([0, 1, 1, 2, 3, 5])

    def k_obj(self, d):
        o = JSObject()
        if self.cyc:
            self.reg(o)
        for _ in range(self.n()):
            o[self.key()] = self.value(d + 1)
        return o if self.cyc else self.reg(o)

    def k_arr(self, d):
        o = JSArray()
        if self.cyc:
            self.reg(o)
        for _ in range(self.n()):
            if self.r.random() < 0.2:
                o.array.append(JSHole)
            else:
                o.array.append(self.value(d + 1))
        if self.r.random() < 0.3:
            o[self.r.choice(["x", "y", "01", "-1"])] = self.value(d + 1)
        return o if self.cyc else self.reg(o)

    def k_sparse(self, d):
        o = JSArray()
        if self.cyc:
            self.reg(o)
        for _ in range(self.r.randrange(4)):
            o[self.r.choice([0, 1, 5, 40, 300, 2 ** 14 - 1, 2 ** 14, 2 ** 20, 2 ** 32 - 2])] = self.value(d + 1)
        if self.r.random() < 0.4:
            o["p"] = self.value(d + 1)
        if self.r.random() < 0.4:
            o[self.r.choice([10, 100, 20000])] = JSHole
        return o if self.cyc else self.reg(o)

    def mapkey(self, d):
        # loaded wrapped primitives are unwrapped, so as keys they can merge with primitives
        while True:
            v = self.value(d + 1)
            if not isinstance(v, JSPrimitiveObject):
                return v

    def k_map(self, d):
        o = JSMap()
        if self.cyc:
            self.reg(o)
        for _ in range(self.n()):
            o[self.mapkey(d)] = self.value(d + 1)
        return o if self.cyc else self.reg(o)

    def k_set(self, d):
        o = JSSet()
        if self.cyc:
            self.reg(o)
        for _ in range(self.n()):
            o.add(self.mapkey(d))
        return o if self.cyc else self.reg(o)

    def k_list(self, d):
        o = []
        if self.cyc:
            self.reg(o)
        for _ in range(self.n()):
            o.append(self.value(d + 1))
        return o if self.cyc else self.reg(o)

    def k_dict(self, d):
        o = {}
        if self.cyc:
            self.reg(o)
        for _ in range(self.n()):
            o[self.r.choice(["a", "b", 1, 2.5, None, "k"])] = self.value(d + 1)
        return o if self.cyc else self.reg(o)

    def k_pyset(self, d):
        return self.reg({self.r.choice(["a", "b", 3, 2.5, None, "k", True and "t"]) for _ in range(self.n())})

    def k_err(self, d):
        r = self.r
        o = JSErrorData(
            name=r.choice(["Error", "TypeError", "RangeError", "EvalError", "ReferenceError", "SyntaxError",
                           "UriError", "Custom", "error"]),
            message=r.choice([None, "", "m", "é", "💥"]), stack=r.choice([None, "", "s"]))
        if r.random() < 0.5:
            # a cause may not refer to the error itself without the feature
            pool, self.pool = self.pool, [p for p in self.pool if not self.has_open_err(p)]
            o.cause = self.value(d + 1) if r.random() < 0.8 else None
            self.pool = pool + [p for p in self.pool if not any(p is q for q in pool)]
        return self.reg(o)

    def has_open_err(self, p):
        return isinstance(p, (JSErrorData,)) and False

    def k_re(self, d):
        r = self.r
        f = JSRegExpFlag(0)
        for m in ("Global", "IgnoreCase", "Multiline", "Sticky", "DotAll", "HasIndices"):
            if r.random() < 0.3:
                f |= JSRegExpFlag[m]
        return self.reg(JSRegExp(r.choice(["a", "", "é+", "x*"]), f))

    def k_date(self, d):
        r = self.r
        return self.reg(datetime.fromtimestamp(r.choice([0, 1, 1.5, 1234567890.123, 1e9, -1.0])))

    def k_prim(self, d):
        r = self.r
        return self.reg(JSPrimitiveObject(r.choice([True, False, 1.5, 0.0, -0.0, "s", "é", 42, 0, 1, 1.0, math.inf])))

    def bytes_(self):
        if self.r.random() < 0.15:
            return b"abab" * self.r.choice([2, 4])
        return bytes(self.r.randrange(256) for _ in range(self.r.choice([0, 1, 4, 8, 16, 24])))

    def k_bytes(self, d):
        # equal bytes are one object to the serializer: keep them unique
        return self.reg(self.bytes_() + struct.pack("<d", self.r.random()))

    def k_bytearray(self, d):
        return self.reg(bytearray(self.bytes_()))

    def k_buf(self, d):
        return self.reg(JSArrayBuffer(self.bytes_()))

    def k_rbuf(self, d):
        b = self.bytes_()
        return self.reg(JSArrayBuffer(b, max_byte_length=len(b) + self.r.choice([0, 1, 8]), resizable=True))

    def k_sab(self, d):
        return self.reg(JSSharedArrayBuffer(self.r.randrange(300)))

    def k_xfer(self, d):
        return self.reg(JSArrayBufferTransfer(self.r.randrange(300)))

    def k_shared(self, d):
        return self.reg(V8SharedObjectReference(self.r.randrange(300)))

    def view_of(self, buf, track=False):
        r = self.r
        tags = [t for t in VIEW_TAGS if self.features or t.name != "kFloat16Array"]
        t = r.choice(tags)
        size = item_size(t)
        n = len(buf.data)
        if n % size and t.name != "kDataView":
            t, size = ArrayBufferViewTag.kUint8Array, 1
        off = size * r.randrange(n // size + 1)
        length = None if track else size * r.randrange((n - off) // size + 1)
        return create_view(buf, t, byte_offset=off, byte_length=length)

    def k_view(self, d):
        bufs = [p for p in self.pool if isinstance(p, JSArrayBuffer)]
        b = self.r.choice(bufs) if bufs and self.r.random() < 0.6 else self.k_buf(d)
        return self.reg(self.view_of(b))

    def k_rview(self, d):
        bufs = [p for p in self.pool if isinstance(p, JSArrayBuffer) and p.resizable]
        b = self.r.choice(bufs) if bufs and self.r.random() < 0.6 else self.k_rbuf(d)
        return self.reg(self.view_of(b, track=self.r.random() < 0.6))
