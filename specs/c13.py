"""C13: format features are written only when enabled, and by V8 version."""
import functools

import z3
from packaging.version import Version

from pyvc.core import Unsupported
from pyvc.dual import *
from pyvc.interp import mkbool, mkint, ie, model
from pyvc.rope import zi
from pyvc.values import *
from v8serialize import Encoder, V8SerializeError, dumps
from v8serialize.constants import ArrayBufferViewTag, SerializationFeature, SerializationTag
from v8serialize.encode import DefaultEncodeContext, TagWriter, WritableTagStream
from v8serialize.jstypes import (JSArrayBuffer, JSArrayBufferTransfer, JSErrorData, JSSharedArrayBuffer, create_view)

from specs import c01, c07
from specs import contracts as C
from specs.c07 import KINDS, SIZES, Few, Long
from specs.nested import *

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]

F = SerializationFeature
SETS, RESIZABLE, CIRCULAR, HALF = 1, 2, 4, 8
#: when V8 introduced each feature
FIRST = ((SETS, (10, 7, 123, 0)), (RESIZABLE, (11, 0, 193, 0)), (CIRCULAR, (12, 1, 109, 0)))
BASE = (10, 0, 29, 0)


class Features(Dom):
    """Any set of features."""

    def sym(self, I, name):
        e = I.of_bits([I.E.fresh(f"{name}.{k}", z3.BoolSort()) for k in range(4)])
        I.E.inputs[name] = lambda m: m.eval(e, True).as_long()
        return SEnum(F, e)

    def from_model(self, m):
        return F(m)

    def edges(self):
        return [F(m) for m in range(16)]

    def rand(self, r):
        return F(r.randrange(16))


# ---------------------------------------------------------------------------
# versions
# ---------------------------------------------------------------------------
class Release(Dom):
    """Any release a.b.c.d of V8: before it (a release candidate), itself, or with a local part."""
    SUFFIX = ("rc1", "", "+local")

    def sym(self, I, name):
        parts = [I.int_(f"{name}.{k}", 0, 10 ** 6 - 1) for k in range(4)]
        i = I.E.choose(3)
        I.E.inputs[name] = lambda m: [m.eval(zi(ie(p)), True).as_long() for p in parts] + [i]
        return I.reg(SObj(Version, {"parts": tuple(parts), "suffix": i}))

    def from_model(self, m):
        return Version(".".join(map(str, m[:4])) + self.SUFFIX[m[4]])

    def edges(self):
        out = []
        for first in (BASE,) + tuple(v for _, v in FIRST):
            for k in range(4):
                for d in (-1, 0, 1):
                    v = list(first)
                    v[k] += d
                    if v[k] >= 0:
                        out += [self.from_model(v + [i]) for i in range(3)]
        return out

    def rand(self, r):
        return self.from_model([r.choice([9, 10, 11, 12, 13]), r.randrange(12), r.randrange(300), r.choice([0, 0, 17]), r.choice([0, 1, 1, 2])])


def rank(v):
    """An int ordered as Version orders: release first, then candidates before, local parts after."""
    if isinstance(v, SObj) and v.cls is Version and "parts" in v.attrs:
        parts, mark = [zi(ie(p)) for p in v.attrs["parts"]], v.attrs["suffix"] - 1
    elif isinstance(v, Version):
        if v.epoch or len(v.release) > 4 or v.dev is not None or v.post is not None or max(v.release) >= 10 ** 6:
            raise Unsupported("order of this version")
        if v.pre is not None and v.pre != ("rc", 1) or v.local not in (None, "local"):
            raise Unsupported("order of this version")
        parts, mark = list(v.release) + [0] * (4 - len(v.release)), -1 if v.pre else 1 if v.local else 0
    else:
        return None
    r = z3.IntVal(0)
    for p in parts:
        r = r * 10 ** 6 + p
    return r * 4 + mark


def _ordered(name, op):
    base = getattr(Version, name)

    @model(base, name=f"packaging.version.Version.{name}")
    def handler(I, a, k):
        x, y = rank(a[0]), rank(a[1])
        if x is None or y is None:
            return NotImplemented
        return mkbool(op(x, y))


for _n, _op in (("__lt__", lambda x, y: x < y), ("__le__", lambda x, y: x <= y), ("__gt__", lambda x, y: x > y), ("__ge__", lambda x, y: x >= y),
                ("__eq__", lambda x, y: x == y)):
    _ordered(_n, _op)


def versions(I):
    C.use_varints(I)
    I.values.add(Version)
    I.inline_ok.add("functools")        # total_ordering


def at_least(version, first):
    """version is that release or a later one."""
    return version >= Version(".".join(map(str, first)))


def expected(version):
    out = 0
    for bit, first in FIRST:
        if at_least(version, first):
            out = out + bit
    return out


@lemma(LEMMAS, "supported_by", setup=versions, version=Release())
def supported_by(version):
    """A version enables exactly the features introduced at or before it; too old versions are refused."""
    got = None
    try:
        got = F.supported_by(v8_version=version)
    except (LookupError, ValueError):
        pass
    prove((got is None) == (not at_least(version, BASE)), "exactly the versions before the first supporting one are refused")
    if got is not None:
        prove(got == F(expected(version)), "a version enables exactly the features introduced at or before it")


@lemma(LEMMAS, "later versions", setup=versions, earlier=Release(), later=Release())
def later_versions(earlier, later):
    """Later versions never enable fewer features."""
    assume(earlier <= later)
    assume(at_least(earlier, BASE))
    a, b = F.supported_by(v8_version=earlier), F.supported_by(v8_version=later)
    prove(a & b == a, "later versions never enable fewer features")


def bits_of(features):
    return 0 if features is None else features.value


class Sees:
    """An encode step recording the features of the stream."""

    def __init__(self):
        self.features = None

    def encode(self, value, /, ctx, next):
        self.features = ctx.stream.features




@lemma(LEMMAS, "chosen features", setup=versions, version=Release(), with_version=Choice(True, False), features=Features(),
       with_features=Choice(True, False), how=Choice("dumps", "Encoder", "encoder features"))
def chosen(version, with_version, features, with_features, how):
    """The features enabled are the requested ones and those of the version, and no others."""
    step = Sees()
    got = None
    v, f = version if with_version else None, features if with_features else None
    try:
        if how == "dumps":
            dumps(0, encode_steps=[step], features=f, v8_version=v)
            got = step.features
        else:
            e = Encoder(encode_steps=[step], features=f, v8_version=v)
            if how == "Encoder":
                e.encode(0)
                got = step.features
            else:
                got = e.features
    except (LookupError, ValueError):
        pass
    prove((got is None) == (with_version and not at_least(version, BASE)), "exactly the versions before the first supporting one are refused")
    if got is not None:
        want = F(expected(version)) if with_version else F(0)
        if with_features:
            want = want | features
        prove(got == want, "the union with the requested features is enabled, and nothing else")


@lemma(LEMMAS, "nothing by default", how=Choice("stream", "Encoder"))
def default_features(how):
    """Nothing is enabled unless asked for."""
    got = WritableTagStream().features if how == "stream" else Encoder().features
    prove(got == F(0), "no feature is enabled by default")


# ---------------------------------------------------------------------------
# what is written
# ---------------------------------------------------------------------------
def has(features, bit):
    return features.value & bit == bit


@lemma(LEMMAS, "buffers", setup=nested, kind=Choice("bytes", "fixed", "resizable", "shared", "transfer"), data=Data(), room=Small(0), features=Features(),
       pre=Data(), n=Small(0))
def buffers(kind, data, room, features, pre, n):
    """The resizable encoding is used exactly for resizable buffers with the feature."""
    assume(len(data) < 2 ** 30)
    assume(room < 2 ** 30)
    if kind == "bytes":
        value = data
    elif kind == "fixed":
        value = JSArrayBuffer(data)
    elif kind == "resizable":
        value = JSArrayBuffer(data, max_byte_length=len(data) + room, resizable=True)
    elif kind == "shared":
        value = JSSharedArrayBuffer(room)
    else:
        value = JSArrayBufferTransfer(room)
    w = c07.writer(features, pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    first = w.data[len(pre)]
    resizable = first == 0x7E
    prove(resizable == (kind == "resizable" and has(features, RESIZABLE)), "the resizable encoding is used exactly for resizable buffers with the feature")
    if kind == "shared":
        prove(first == 0x75, "a shared buffer has its tag")
    elif kind == "transfer":
        prove(first == 0x74, "a transferred buffer has its tag")
    elif not resizable:
        same_bytes(w.data[len(pre):], b"B", varint(len(data)), data, label="without the feature a buffer is written as a fixed one")


@lemma(LEMMAS, "views", setup=nested, data=Long(), room=Small(0), resizable=Choice(False, True), kind=Choice(*KINDS),
       first=Few(0), count=Few(0), tracking=Choice(False, True), direct=Choice(False, True), features=Features(), pre=Data(), n=Small(0), budget_s=300)
def views(data, room, resizable, kind, first, count, tracking, direct, features, pre, n):
    """View flags are written only with the feature; half-float views are refused without theirs."""
    size = SIZES[kind]
    assume(len(data) < 2 ** 30)
    assume(room < 2 ** 30)
    assume((first + count) * size <= len(data))
    if tracking:
        assume(resizable)
        assume((len(data) - first * size) % size == 0)
    buffer = c07.make(data, room, resizable)
    value = create_view(buffer, kind, byte_offset=first * size, byte_length=None if tracking else count * size)
    w = c07.writer(features, pre, n)
    refused = False
    start = None
    try:
        if direct:
            w.write_js_array_buffer(buffer)
            start = len(w.data)
            w.write_js_array_buffer_view(value)
        else:
            encode_whole(DefaultEncodeContext(stream=w), value)
    except V8SerializeError:
        refused = True
    half = kind is ArrayBufferViewTag.kFloat16Array
    prove(refused == (half and not has(features, HALF)), "half-float views are refused exactly without their feature")
    if refused:
        if direct:
            prove(len(w.data) == start, "a refused view writes nothing")
        else:
            same_bytes(w.data, pre, label="a refused view writes nothing")
        return
    flags = w.data[len(w.data) - 1]
    want = 0
    if has(features, RESIZABLE):
        want = (1 if tracking else 0) + (2 if resizable else 0)
    prove(flags == want, "resizable view flags are written exactly with the feature")


# ---------------------------------------------------------------------------
# errors
# ---------------------------------------------------------------------------
class Refers:
    """An encode step which, for the marked value, tries to refer to the error."""

    def __init__(self, marked, error, depth):
        self.marked, self.error, self.depth, self.outcome = marked, error, depth, None

    def encode(self, value, /, ctx, next):
        if value is self.error:
            return ctx.stream.write_js_error(value, ctx)
        if self.depth > 0:
            self.depth = self.depth - 1
            # another value of the cause, which contains the rest of it
            inner = JSErrorData("inner", cause=self.marked)
            return ctx.stream.write_js_error(inner, ctx)
        before = len(ctx.stream.data)
        try:
            ctx.stream.write_object_reference(obj=self.error)
            self.outcome = "written"
        except Exception as e:
            self.outcome = "refused" if len(ctx.stream.data) == before else "half written"
            raise


@lemma(LEMMAS, "self-referencing causes", setup=C.use_varints, depth=Choice(0, 1, 2), features=Features(), message=Str(), data=Data())
def self_causes(depth, features, message, data):
    """While its cause is written an error can be referred to exactly with the feature; afterwards always."""
    marked = object()
    error = JSErrorData(message, cause=marked)
    step = Refers(marked, error, depth)
    w = WritableTagStream(features=features)
    w.data.extend(data)
    ctx = DefaultEncodeContext(stream=w, encode_steps=[step])
    refused = None
    try:
        ctx.encode_object(error)
    except V8SerializeError as e:
        refused = e
    prove((refused is not None) == (not has(features, CIRCULAR)), "a self-referencing cause is refused exactly without the feature")
    prove(step.outcome == ("refused" if not has(features, CIRCULAR) else "written"), "the reference itself is what is refused")


class Plain:
    """An encode step which writes the error, its cause as null."""

    def encode(self, value, /, ctx, next):
        if isinstance(value, JSErrorData):
            return ctx.stream.write_js_error(value, ctx)
        ctx.stream.data.append(0x30)


@lemma(LEMMAS, "references after the cause", setup=C.use_varints, features=Features(), caused=Choice(True, False), message=Str(), data=Data())
def after_cause(features, caused, message, data):
    """Once it is written, an error can be referred to whatever the features."""
    error = JSErrorData(message, cause=5 if caused else None)
    w = WritableTagStream(features=features)
    w.data.extend(data)
    ctx = DefaultEncodeContext(stream=w, encode_steps=[Plain()])
    ctx.encode_object(error)
    start = len(w.data)
    w.write_object_reference(obj=error)
    same_bytes(w.data[start:], b"^\x00", label="an error which is written is referred to by its number")
