"""Compares values by structure, sharing and cycles: library values, written values and wire nodes."""
from __future__ import annotations

import math
import struct
from datetime import datetime

from native.common import (
    JSObject, JSArray, JSMap, JSSet, JSUndefined, JSHole, JSRegExp, JSPrimitiveObject, JSError, JSErrorData,
    JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer, JSArrayBufferView, V8SharedObjectReference,
    expect_int, safe_repr, Mismatch)
from native.wire import N, P, order, hole

NAMES = {"EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "URIError"}


def keyed(items):
    """(key, value) pairs in mapping order, integers first."""
    return tuple(k for k, _ in items), [v for _, v in items]


class Abs:
    """How one side of the comparison is read: kind, data, kids; or a primitive."""

    def __init__(self, written=False, resizable=True, unwrap=True, absent_message=True):
        self.written, self.resizable, self.unwrap = written, resizable, unwrap
        self.absent = absent_message

    def __call__(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, N):
            if v.kind == "wrapped" and self.unwrap:
                return P(*v.data)
            if v.kind == "date":
                return N("date", (round_ms(v.data[0]),))
            if v.kind == "regexp":
                return N("regexp", (v.data[0] or "(?:)", v.data[1]))
            if v.kind == "error":
                d = v.data
                # a null cause and no cause are the same to the library
                kids = [] if v.kids and isinstance(v.kids[0], P) and v.kids[0].t == "null" else v.kids
                return N("error", (d[0], (d[1] or "") if self.absent else d[1], d[2], bool(kids)), kids)
            if v.kind == "view" and v.data[3] and v.kids[0].kind == "buffer" and v.kids[0].data[1] is None:
                return N("view", v.data[:1] + (v.data[1], 0, True), v.kids)
            return v
        if v is None:
            return P("null")
        if v is JSUndefined:
            return P("undefined")
        if v is JSHole:
            return P("hole")
        if isinstance(v, bool):
            return P("bool", v)
        if isinstance(v, int):
            if self.written:
                v = expect_int(v)
                if isinstance(v, float):
                    return P("float", v)
            return P("int", v)
        if isinstance(v, float):
            return P("float", v)
        if isinstance(v, str):
            return P("str", str(v))
        if isinstance(v, JSPrimitiveObject):
            x = v.value
            if v.tag.name == "kNumberObject":
                x = float(x)
            t = {bool: "bool", int: "int", float: "float", str: "str"}[type(x)]
            return P(t, x) if self.unwrap else N("wrapped", (t, x))
        if isinstance(v, JSArray):
            ks, kids = keyed(list(v.items()))
            return N("array", (len(v.array),) + ks, kids)
        if isinstance(v, JSObject):
            return N("object", *keyed(list(v.items())))
        if isinstance(v, (JSErrorData, JSError)):
            name = str(getattr(v.name, "value", v.name))
            name = "URIError" if name == "UriError" else name
            m = v.message
            if self.absent:
                m = m or ""
            return N("error", (name if name in NAMES else "Error", m, v.stack, v.cause is not None),
                     [] if v.cause is None else [v.cause])
        if isinstance(v, JSRegExp):
            return N("regexp", (v.source, int(v.flags) & 0x1ff))
        if isinstance(v, datetime):
            return N("date", (round_ms(v.timestamp() * 1000),))
        if isinstance(v, JSArrayBuffer):
            return N("buffer", (bytes(v.data), v.max_byte_length if v.resizable and self.resizable else None))
        if isinstance(v, JSSharedArrayBuffer):
            return N("shared buffer", (v.buffer_id,))
        if isinstance(v, JSArrayBufferTransfer):
            return N("transfer", (v.transfer_id,))
        if isinstance(v, V8SharedObjectReference):
            return N("shared object", (v.shared_value_id,))
        if isinstance(v, JSArrayBufferView):
            b = v.backing_buffer
            track = bool(v.is_length_tracking)
            ln = v.byte_length or 0
            if track and self.resizable:
                ln = 0
            return N("view", (chr(v.view_tag.value), v.byte_offset, ln, track and self.resizable), [b])
        if isinstance(v, JSMap) or (self.written and isinstance(v, dict)):
            kids = []
            for k, x in v.items():
                kids += [k, x]
            return N("map", (), kids)
        if isinstance(v, JSSet) or (self.written and isinstance(v, (set, frozenset))):
            return N("set", (), list(v))
        if self.written and isinstance(v, (list, tuple)):
            ks, kids = order({i: x for i, x in enumerate(v) if x is not JSHole})
            return N("array", (len(v),) + ks, kids)
        if self.written and isinstance(v, (bytes, bytearray, memoryview)):
            return N("buffer", (bytes(v), None))
        raise Mismatch(f"no reading of {type(v)}")


def round_ms(ms):
    return ms if math.isnan(ms) else round(ms)


def same_data(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (math.isnan(a) and math.isnan(b))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_data(x, y) for x, y in zip(a, b))
    return a == b


def iso(x, fx, y, fy, by_value=True):
    """Raises Mismatch unless x (read by fx) and y (read by fy) are the same graph."""
    fwd, bwd, keep = {}, {}, []
    todo = [(x, y, "$")]
    while todo:
        a, b, path = todo.pop()
        p, q = fx(a), fy(b)
        if isinstance(p, P) or isinstance(q, P):
            if not (isinstance(p, P) and isinstance(q, P)) or p.t != q.t or not same_data(p.v, q.v):
                raise Mismatch(f"at {path}: {safe_repr(p)} vs {safe_repr(q)}")
            continue
        keep.append((a, b))
        if id(a) in fwd or id(b) in bwd:
            if fwd.get(id(a)) != id(b) or bwd.get(id(b)) != id(a):
                raise Mismatch(f"at {path}: shared differently: {safe_repr(a)} vs {safe_repr(b)}")
            continue
        fwd[id(a)], bwd[id(b)] = id(b), id(a)
        if p.kind != q.kind or not same_data(tuple(p.data), tuple(q.data)) or len(p.kids) != len(q.kids):
            raise Mismatch(f"at {path}: {p.kind} {p.data!r:.300} ({len(p.kids)}) vs {q.kind} {q.data!r:.300} ({len(q.kids)})")
        for i, (c, d) in enumerate(zip(p.kids, q.kids)):
            todo.append((c, d, f"{path}.{i}"))


WRITTEN = Abs(written=True)
WRITTEN_FIXED = Abs(written=True, resizable=False)
LOADED = Abs()
WIRE = Abs()


def roundtrip(ctx, v, label, features=None, nodejs=True, **kw):
    """dumps -> reference reader agrees; loads -> agrees with what was written.  Returns the bytes."""
    from v8serialize import dumps, loads
    from v8serialize.constants import SerializationFeature as SF
    from native.wire import Ref, Bad
    on = features is not None and bool(features & SF.ResizableArrayBuffers)
    fx = WRITTEN if on else WRITTEN_FIXED
    data = dumps(v, features=features, **kw)
    try:
        ref = Ref(data, nodejs=nodejs)
        n = ref.load()
        if ref.p != len(data):
            raise Mismatch(f"{len(data) - ref.p} bytes left over")
        iso(v, fx, n, WIRE)
    except (Bad, Mismatch) as e:
        ctx.fail(f"{label}: what was written", f"{type(e).__name__}: {e}\nbytes: {data!r:.600}", v)
        return data
    try:
        iso(v, fx, loads(data), LOADED)
    except Mismatch as e:
        ctx.fail(f"{label}: what was loaded", f"{e}\nbytes: {data!r:.600}", v)
    return data
