"""C18: encode and decode steps run in order and unhandled values are reported."""
import ast
import io

import z3

from pyvc.core import Unsupported
from pyvc.dual import *
from pyvc.interp import Frame, ie, mkint, model
from pyvc.rope import simp, zi
from pyvc.values import *
from v8serialize import (DecodeV8SerializeError, Decoder, Encoder, UnhandledTagDecodeV8SerializeError, dumps, loads)
from v8serialize.constants import SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.encode import DefaultEncodeContext, TagWriter, UnhandledValueEncodeV8SerializeError, WritableTagStream

from specs import c01
from specs import contracts as C
from specs.c15 import Tag
from specs.nested import Nested

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]

T = SerializationTag
KINDS = ("function", "object", "both", "library")


class Arrival:
    """What a step was called with."""

    def __init__(self, index, value, ctx, next):
        self.index, self.value, self.ctx, self.next = index, value, ctx, next


class Failure(Exception):
    """A step failing in its own way."""


class Step:
    """Records what it is offered; returns its own result, or fails."""

    def __init__(self, index, seen, fails):
        self.index, self.seen, self.fails = index, seen, fails

    def take(self, value, ctx, next):
        self.seen.append(Arrival(self.index, value, ctx, next))
        if self.fails:
            raise Failure
        return ("result of", self.index)


class FunctionStep(Step):
    def __call__(self, value, /, ctx, next):
        return self.take(value, ctx, next)


class ObjectStep(Step):
    def encode(self, value, /, ctx, next):
        return self.take(value, ctx, next)

    def decode(self, tag, /, ctx, next):
        return self.take(tag, ctx, next)


class BothStep(FunctionStep):
    """A step which can be called and also has the methods: it is called."""

    def encode(self, value, /, ctx, next):
        raise AssertionError("a step which can be called is called")

    decode = encode


class LibraryStep(ObjectStep, TagReader, TagWriter):
    """A step that is also one of the library's own readers and writers, with the behaviour of a recorder."""

    def __init__(self, index, seen, fails):
        TagReader.__init__(self)
        ObjectStep.__init__(self, index, seen, fails)

    encode, decode = ObjectStep.encode, ObjectStep.decode


CLASS = {"function": FunctionStep, "object": ObjectStep, "both": BothStep, "library": LibraryStep}


def all_steps(n, seen, first, rest, fails):
    """n steps: the first of one kind, the others of another."""
    return [CLASS[first if i == 0 else rest](i, seen, fails) for i in range(n)]


@model(all_steps)
def _all_steps(I, a, k):
    n, seen, first, rest, fails = a
    memo = {}

    def elem(i):
        i = simp(zi(i))
        key = str(i)
        if key not in memo:
            kind = first if I.E.branch(zi(i) == 0) else rest
            memo[key] = I.call(CLASS[kind], [mkint(i), seen, fails])
        return memo[key]
    return I.reg(SSeq(simp(ie(n)), elem))


def later_next(first, j, value, seen):
    """The `next` which step j is given, from the one step 0 is given."""
    out = first
    for _ in range(j):
        try:
            out(value)
        except Failure:
            pass
        out = seen[-1].next
    return out


@model(later_next)
def _later_next(I, a, k):
    """Generalised from step 0's: every int it holds grows with the step. Whether this is what step j
    is given is checked by the lemma's induction (`same_next`); if it is not, nothing is decided."""
    first, j = a[0], a[1]
    return shifted(I, first, ie(j))


def captured(f):
    """The variables of the enclosing call which a nested function uses."""
    names = [n for n in ast.walk(f.node) if isinstance(n, ast.Name)]
    own = {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)} | {n.id for n in names if not isinstance(n.ctx, ast.Load)}
    used = {n.id for n in names} - own
    return {n: x for n, x in f.frame.vars.items() if n in used}


def shifted(I, f, j):
    def sh(x):
        if isinstance(x, (SInt, int)) and not isinstance(x, bool):
            return mkint(ie(x) + j)
        return x
    if isinstance(f, SPartial):
        return SPartial(f.func, [sh(x) for x in f.args], {n: sh(x) for n, x in f.kwargs.items()})
    if isinstance(f, SFunc):
        fr = Frame(f.frame.src, f.frame.glob, f.frame.parent, f.frame.closure, f.frame.uid, f.frame.fn)
        fr.vars = {n: sh(x) for n, x in captured(f).items()}
        return SFunc(f.node, fr, f.glob, [sh(x) for x in f.defaults or ()], {n: sh(x) for n, x in (f.kwdefaults or {}).items()},
                     f.name, f.qual, f.clsname, f.file)
    raise Unsupported("the next function of a step is neither a partial application nor a nested function")


def parts_of(f):
    """(what is called, everything it was given)"""
    if isinstance(f, SPartial):
        return f.func, [*f.args, *sorted(f.kwargs.items())]
    if isinstance(f, SFunc):
        return f.node, [*(f.defaults or ()), *sorted((f.kwdefaults or {}).items()), *sorted(captured(f).items())]
    raise Unsupported("the next function of a later step is not of the assumed form")


def same_next(got, want):
    """(proof step) got is the next function the induction assumed."""


@model(same_next)
def _same_next(I, a, k):
    x, y = a
    if type(x) is type(y):
        (fx, xs), (fy, ys) = parts_of(x), parts_of(y)
        ok = fx is fy or (isinstance(fx, BoundMethod) and isinstance(fy, BoundMethod) and fx.func is fy.func and fx.self is fy.self)
        if ok and len(xs) == len(ys):
            for p, q in zip(xs, ys):
                if isinstance(p, tuple):
                    if p[0] != q[0]:
                        break
                    p, q = p[1], q[1]
                if p is q:
                    continue
                if isinstance(p, (SInt, int)) and isinstance(q, (SInt, int)) and I.E.entails(ie(p) == ie(q)):
                    continue
                break
            else:
                return None
    raise Unsupported("the next function of a later step is not of the assumed form")


class Count(Small):
    def edges(self):
        return [0, 1, 2, 3, 5]

    def rand(self, r):
        return r.randrange(9)


def offered(seen, at, index, value, ctx, label):
    """Arrival number `at` is the value at step `index`, once."""
    prove(len(seen) == at + 1, label + ", once")
    prove(seen[at].index == index, label)
    prove(seen[at].value is value, label + ", as it was passed on")
    prove(seen[at].ctx is ctx, label + ", with the context")


@lemma(LEMMAS, "encode steps in order", setup=C.use_varints, n=Count(0), j=Count(0), first=Choice(*KINDS), rest=Choice(*KINDS),
       fails=Choice(False, True), value=Nested(), passed=Nested(), nested=Nested())
def encode_steps(n, j, first, rest, fails, value, passed, nested):
    """A value goes to step 0; what step j passes on goes to step j + 1; its result or failure comes back; then unhandled."""
    seen = []
    ctx = DefaultEncodeContext(encode_steps=all_steps(n, seen, first, rest, fails), stream=WritableTagStream())
    got, failure, unhandled = None, None, None
    try:
        got = ctx.encode_object(value)
    except Failure as e:
        failure = e
    except UnhandledValueEncodeV8SerializeError as e:
        unhandled = e
    if n == 0:
        prove(unhandled is not None and unhandled.value is value, "a value no step handled is reported with an unhandled error")
        prove(len(seen) == 0, "without steps none is called")
        return
    prove(unhandled is None, "a handled value is not reported")
    offered(seen, 0, 0, value, ctx, "a value is offered to the first step")
    prove((failure is not None) == fails, "a step's failure comes back, and only its own")
    if not fails:
        prove(got[0] == "result of" and got[1] == 0, "a step's result comes back")
    # what step j passes on
    assume(j < n)
    assume(not fails or j == 0)         # (natively a failing step has no later ones)
    next_j = later_next(seen[0].next, j, value, seen)
    before = len(seen)
    got, failure, unhandled = None, None, None
    try:
        got = next_j(passed)
    except Failure as e:
        failure = e
    except UnhandledValueEncodeV8SerializeError as e:
        unhandled = e
    if j + 1 < n:
        offered(seen, before, j + 1, passed, ctx, "what a step passes on is offered to the step after it")
        prove(unhandled is None, "a handled value is not reported")
        prove((failure is not None) == fails, "a later step's failure comes back, and only its own")
        if not fails:
            prove(got[0] == "result of" and got[1] == j + 1, "a later step's result comes back to the one before")
        same_next(seen[before].next, later_next(seen[0].next, j + 1, value, seen))
    else:
        prove(len(seen) == before, "no step runs after the last")
        prove(unhandled is not None and unhandled.value is passed,
              "a value every step passed on is reported with an unhandled error carrying it")
    # a nested value, whenever it is encoded
    before = len(seen)
    try:
        ctx.encode_object(nested)
    except Failure:
        pass
    offered(seen, before, 0, nested, ctx, "a nested value starts again at the first step")


@lemma(LEMMAS, "decode steps in order", setup=C.use_varints, n=Count(0), j=Count(0), first=Choice(*KINDS), rest=Choice(*KINDS),
       fails=Choice(False, True), tag=Tag(), passed=Tag(), nested=Tag(), given=Choice(False, True), data=Data())
def decode_steps(n, j, first, rest, fails, tag, passed, nested, given, data):
    """The same for tags."""
    assume(tag != T.kPadding)           # padding precedes a tag
    seen = []
    buf = bytearray()
    buf.append(tag)
    buf.extend(data)
    stream = ReadableTagStream(buf)
    ctx = DefaultDecodeContext(decode_steps=all_steps(n, seen, first, rest, fails), stream=stream)
    got, failure, unhandled = None, None, None
    try:
        got = ctx.decode_object(tag=tag) if given else ctx.decode_object()
    except Failure as e:
        failure = e
    except UnhandledTagDecodeV8SerializeError as e:
        unhandled = e
    prove(stream.pos == (0 if given else 1), "the tag is read exactly when it was not given")
    if n == 0:
        prove(unhandled is not None and unhandled.tag == tag, "a tag no step handled is reported with an unhandled error")
        prove(len(seen) == 0, "without steps none is called")
        return
    prove(unhandled is None, "a handled tag is not reported")
    prove(len(seen) == 1 and seen[0].index == 0, "a tag is offered to the first step, once")
    prove(seen[0].value == tag, "a tag is offered to the first step as it is")
    prove(seen[0].ctx is ctx, "a tag is offered to the first step with the context")
    prove((failure is not None) == fails, "a step's failure comes back, and only its own")
    if not fails:
        prove(got[0] == "result of" and got[1] == 0, "a step's result comes back")
    assume(j < n)
    assume(not fails or j == 0)
    next_j = later_next(seen[0].next, j, tag, seen)
    before = len(seen)
    got, failure, unhandled = None, None, None
    try:
        got = next_j(passed)
    except Failure as e:
        failure = e
    except UnhandledTagDecodeV8SerializeError as e:
        unhandled = e
    if j + 1 < n:
        offered(seen, before, j + 1, passed, ctx, "what a step passes on is offered to the step after it")
        prove(unhandled is None, "a handled tag is not reported")
        prove((failure is not None) == fails, "a later step's failure comes back, and only its own")
        if not fails:
            prove(got[0] == "result of" and got[1] == j + 1, "a later step's result comes back to the one before")
        same_next(seen[before].next, later_next(seen[0].next, j + 1, tag, seen))
    else:
        prove(len(seen) == before, "no step runs after the last")
        prove(unhandled is not None and unhandled.tag == passed,
              "a tag every step passed on is reported with an unhandled error carrying it")
    before = len(seen)
    try:
        ctx.decode_object(tag=nested)
    except Failure:
        pass
    offered(seen, before, 0, nested, ctx, "a nested value starts again at the first step")


# ---------------------------------------------------------------------------
# the step lists and headers of dumps and loads
# ---------------------------------------------------------------------------
class Writes(Step):
    """Writes its bytes."""

    def __init__(self, seen, data):
        self.seen, self.data = seen, data

    def encode(self, value, /, ctx, next):
        self.seen.append(Arrival(0, value, ctx, next))
        ctx.stream.data.extend(self.data)


class Passes(Step):
    """Passes on another value."""

    def __init__(self, seen, other):
        self.seen, self.other = seen, other

    def __call__(self, value, /, ctx, next):
        self.seen.append(Arrival(1, value, ctx, next))
        return next(self.other)


@lemma(LEMMAS, "dumps with steps", setup=C.use_varints, how=Choice("dumps", "Encoder"), form=Choice("list", "tuple"),
       value=Nested(), other=Nested(), data=Data())
def dumps_steps(how, form, value, other, data):
    """dumps and Encoder run exactly the given steps, after writing the header once."""
    seen = []
    steps = [Passes(seen, other), Writes(seen, data)]
    if form == "tuple":
        steps = (steps[0], steps[1])
    out = dumps(value, encode_steps=steps) if how == "dumps" else Encoder(encode_steps=steps).encode(value)
    same_bytes(out, b"\xff\x0f", data, label="the header is written once, before what the steps write")
    prove(len(seen) == 2 and seen[0].index == 1 and seen[1].index == 0, "exactly the given steps run, in order")
    prove(seen[0].value is value and seen[1].value is other, "the steps get the value and what is passed on")
    prove(type(out) is (bytes if how == "dumps" else bytearray), "the data is bytes")


class Reads(Step):
    """Reads the bytes which follow."""

    def __init__(self, seen):
        self.seen = seen

    def decode(self, tag, /, ctx, next):
        self.seen.append(Arrival(ctx.stream.pos, tag, ctx, next))
        return self


@lemma(LEMMAS, "loads with steps", setup=C.use_varints, how=Choice("loads", "Decoder", "file"), form=Choice("bytes", "bytearray"),
       version=Small(0), tag=Tag(), data=Data())
def loads_steps(how, form, version, tag, data):
    """loads and Decoder accept exactly versions 13 to 15, then run exactly the given steps on the first tag."""
    assume(version < 2 ** 32)
    assume(tag != T.kPadding)
    w = WritableTagStream()
    w.data.append(255)
    w.write_varint(version)
    start = len(w.data)
    w.data.append(tag)
    w.data.extend(data)
    buf = w.data if form == "bytearray" else bytes(w.data)
    seen = []
    last = Reads(seen)
    steps = [Passes(seen, tag), last]
    got = None
    try:
        if how == "loads":
            got = loads(buf, decode_steps=steps)
        elif how == "Decoder":
            got = Decoder(decode_steps=steps).decodes(buf)
        else:
            got = Decoder(decode_steps=steps).decode(File(buf))
    except DecodeV8SerializeError:
        pass
    if version == 13 or version == 14 or version == 15:
        prove(got is last, "the given steps' result is what is loaded")
        prove(len(seen) == 2 and seen[0].index == 1 and seen[1].index == start + 1, "exactly the given steps run, in order, after the tag")
        prove(seen[0].value == tag and seen[1].value == tag, "the steps get the first tag after the header")
    else:
        prove(got is None and len(seen) == 0, "other versions are refused before any step runs")


class File:
    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data


@lemma(LEMMAS, "missing header", setup=C.use_varints, first=Small(0), data=Data())
def missing_header(first, data):
    """Data which does not start with the version tag is refused before any step runs."""
    assume(first < 255)
    assume(first != 0)          # padding precedes a tag
    buf = bytearray()
    buf.append(first)
    buf.extend(data)
    seen = []
    refused = False
    try:
        loads(buf, decode_steps=[Reads(seen)])
    except DecodeV8SerializeError:
        refused = True
    prove(refused and len(seen) == 0, "data without a header is refused")


class Option(Dom):
    """An option left out, or given as something."""

    def __init__(self, *values):
        self.values = (None,) + values

    def sym(self, I, name):
        i = I.E.choose(len(self.values))
        I.E.inputs[name] = lambda m, i=i: i
        return self.values[i]

    def from_model(self, m):
        return self.values[m]

    def edges(self):
        return list(self.values)

    def rand(self, r):
        return r.choice(self.values) if r.random() < 0.3 else None


OPAQUE = dict
EMPTY = {}


@lemma(LEMMAS, "options exclude each other", setup=C.use_varints, steps=Choice(True, False), nodejs=Option(True, False),
       jsmap_type=Option(OPAQUE), jsset_type=Option(OPAQUE), js_object_type=Option(OPAQUE), js_array_type=Option(OPAQUE),
       js_constants=Option(EMPTY), host=Option(OPAQUE), builder=Option(OPAQUE), timezone=Option(OPAQUE), budget_s=200)
def options(steps, nodejs, jsmap_type, jsset_type, js_object_type, js_array_type, js_constants, host, builder, timezone):
    """An explicit step list is refused with any other option, and so are both ways of handling host objects."""
    given = not (nodejs is None and jsmap_type is None and jsset_type is None and js_object_type is None and js_array_type is None
                 and js_constants is None and host is None and builder is None and timezone is None)
    if not steps:
        assume(jsmap_type is None and jsset_type is None and js_object_type is None and js_array_type is None)
    seen = []
    refused = False
    try:
        loads(b"\xff\x0f0", decode_steps=[Reads(seen)] if steps else None, nodejs=nodejs, jsmap_type=jsmap_type,
              jsset_type=jsset_type, js_object_type=js_object_type, js_array_type=js_array_type, js_constants=js_constants,
              host_object_deserializer=host, js_error_builder=builder, default_timezone=timezone)
    except TypeError:
        refused = True
    if steps:
        prove(refused == given, "an explicit step list is refused exactly when another option is given")
        prove(refused or len(seen) == 1, "the step list is used")
    else:
        prove(refused == (nodejs is True and host is not None), "Node.js support and a host object handler exclude each other")


@lemma(LEMMAS, "no steps", setup=C.use_varints, how=Choice("plain", "class"), form=Choice("list", "tuple"), value=Nested(), tag=Tag(), data=Data())
def no_steps(how, form, value, tag, data):
    """An empty step list is a step list: nothing handles the value or tag."""
    assume(tag != T.kPadding)
    steps = [] if form == "list" else ()
    unhandled = None
    try:
        dumps(value, encode_steps=steps) if how == "plain" else Encoder(encode_steps=steps).encode(value)
    except UnhandledValueEncodeV8SerializeError as e:
        unhandled = e
    prove(unhandled is not None and unhandled.value is value, "without encode steps a value is unhandled")
    buf = bytearray()
    buf.extend(b"\xff\x0f")
    buf.append(tag)
    buf.extend(data)
    unhandled = None
    try:
        loads(buf, decode_steps=steps) if how == "plain" else Decoder(decode_steps=steps).decodes(buf)
    except UnhandledTagDecodeV8SerializeError as e:
        unhandled = e
    prove(unhandled is not None and unhandled.tag == tag, "without decode steps a tag is unhandled")
