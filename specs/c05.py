"""C05: writers and readers number objects identically, so references resolve."""
import z3

from pyvc import smap
from pyvc.core import Unsupported
from pyvc.dual import *
from pyvc.interp import ie, mkint, model
from pyvc.rope import zi
from pyvc.values import *
from pyvc.values import Val

from v8serialize import DecodeV8SerializeError
from v8serialize._references import ForwardReference, SerializedObjectLog
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.jstypes import JSHole, JSRegExp, JSUndefined

from specs import c01, c04, c06, c11
from specs.nested import *
from specs.nested import log_size

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]


# ---------------------------------------------------------------------------
# the object log, for any earlier history
# ---------------------------------------------------------------------------
class Log(Dom):
    """A log in any state: any number of earlier objects, any of them looked up again.

    Representation invariant: a Python id known to the log has a number below the count.
    It holds of a new log, and every method keeps it ('log_invariant')."""

    def sym(self, I, name):
        log = I.call(SerializedObjectLog, [])
        n = I.int_(name + "_len", 0)
        lists = [(k, v) for k, v in log.attrs.items() if isinstance(v, (SList, SSeq))]
        dicts = [(k, v) for k, v in log.attrs.items() if isinstance(v, SDict)]
        if len(lists) != 1 or len(dicts) != 1 or len(log.attrs) != 2:
            raise Unsupported("representation of the object log")
        obj = z3.Function(name + "_obj", z3.IntSort(), Val)
        has = z3.Function(name + "_has", z3.IntSort(), z3.BoolSort())
        num = z3.Function(name + "_num", z3.IntSort(), z3.IntSort())
        seq = I.reg(SSeq(n.e, lambda i: SVal(obj(zi(i)), object)))
        d = I.reg(smap.SMap(has, lambda k: mkint(num(k)), I.E.fresh("ids"),
                            inv=lambda I, k: [z3.Implies(has(k), z3.And(num(k) >= 0, num(k) < n.e))]))
        I.setattr_raw(log, lists[0][0], seq)
        I.setattr_raw(log, dicts[0][0], d)
        log.ghost = (seq, d, n)
        I.isinstance_hook = [h for h in I.isinstance_hook if h is not plain] + [plain]
        return log

    def from_model(self, m):
        return filled(min(m, 1000)) if isinstance(m, int) else filled(3)

    def rand(self, r):
        return filled(r.choice([0, 1, 2, r.randrange(40)]))

    def edges(self):
        return []


def plain(I, v, t):
    """The earlier objects of the log are not forward references."""
    if isinstance(v, SVal) and v.cls is object and t is ForwardReference:
        return False
    return None


def filled(n):
    log = SerializedObjectLog()
    for i in range(n):
        log.record_reference(Thing())
    return log


class Thing:
    """An object of its own identity."""


def fresh(log):
    """An object the log does not know."""
    o = Thing()
    assume(o not in log)
    return o


@model(log_size)
def _log_size(I, a, k):
    seq = a[0].ghost[0]
    return mkint(zi(seq.n0) + len(seq.tail))


def unknown(log, obj):
    """obj has no number in this log."""
    try:
        log.get_serialized_id(obj)
    except KeyError:
        return True
    return False


def out_of_range(log, i):
    """Nothing has number i."""
    try:
        log.get_object(i)
    except KeyError:
        return True
    return False


def new_only(I):
    I.contracts.clear()


@lemma(LEMMAS, "record_reference", setup=new_only, log=Log(), j=Small(0), k=Small(0))
def record_reference(log, j, k):
    """A recorded object takes the next number, is found by it and under it, and disturbs no other."""
    n = log_size(log)
    assume(j < n)
    old, me, other = log.get_object(j), fresh(log), Thing()
    was = other in log
    before = None if not was else log.get_serialized_id(other)
    prove(out_of_range(log, n + k), "a number not assigned yet is rejected")
    got = log.record_reference(me)
    prove(got == n, "an object takes the next number")
    prove(log_size(log) == n + 1, "an object takes exactly one number")
    prove(me in log, "a recorded object is in the log")
    prove(log.get_serialized_id(me) == n, "a recorded object is known under its number")
    prove(log.get_object(n) is me, "a number resolves to the object that took it")
    prove(log.get_object(j) is old, "earlier numbers still resolve to the same objects")
    prove(out_of_range(log, n + 1 + k), "a number not assigned yet is rejected")
    prove((other in log) == was, "recording one object records no other")
    if was:
        prove(before < n, "a known object has a number below the count")
        prove(log.get_serialized_id(other) == before, "recording one object renumbers no other")
    else:
        prove(unknown(log, other), "an object not recorded has no number")
    prove(log.record_reference(other) == n + 1, "numbers are consecutive")
    prove(log.get_object(n) is me, "a number resolves to the object that took it")
    prove(log.get_serialized_id(me) == n, "a recorded object keeps its number")


@lemma(LEMMAS, "first_number", setup=new_only, k=Small(0))
def first_number(k):
    """A new log has no numbers and starts at 0."""
    log = SerializedObjectLog()
    me = Thing()
    prove(me not in log, "a new log is empty")
    prove(out_of_range(log, k), "a new log resolves no number")
    prove(unknown(log, me), "an object not recorded has no number")
    prove(log.record_reference(me) == 0, "the first object takes number 0")


@lemma(LEMMAS, "replace_reference", setup=new_only, log=Log(), j=Small(0), i=Small(0))
def replace_reference(log, j, i):
    """The most recent number can be given another object; no other number changes or can."""
    n = log_size(log)
    assume(j < n)
    old, me, other = log.get_object(j), fresh(log), fresh(log)
    log.record_reference(me)
    log.replace_reference(n, other)
    prove(log.get_object(n) is other, "the replaced number resolves to the new object")
    prove(log.get_object(j) is old, "earlier numbers still resolve to the same objects")
    prove(log_size(log) == n + 1, "replacing takes no number")
    prove(log.get_serialized_id(me) == n, "the replaced object keeps its number")
    assume(i != n)
    try:
        log.replace_reference(i, me)
    except ValueError:
        pass
    else:
        prove(False, "only the most recent number can be replaced")
    prove(log.get_object(n) is other, "a refused replacement changes nothing")


class Deliberate(Exception):
    pass


@lemma(LEMMAS, "acyclic_reference", setup=new_only, log=Log(), j=Small(0), fails=Bool(), nested=Bool())
def acyclic_reference(log, j, fails, nested):
    """While an acyclic reference is open its object cannot be referred to; afterwards it can, however it ended."""
    n = log_size(log)
    assume(j < n)
    old, me, inner = log.get_object(j), fresh(log), fresh(log)
    try:
        with log.record_acyclic_reference(me) as number:
            prove(number == n, "an object takes the next number")
            prove(me in log, "a recorded object is in the log")
            prove(log.get_object(j) is old, "earlier numbers still resolve to the same objects")
            if nested:
                with log.record_acyclic_reference(inner) as second:
                    prove(second == n + 1, "numbers are consecutive")
                prove(log.get_serialized_id(inner) == n + 1, "the inner object resolves once its block ends")
            if fails:
                raise Deliberate("")
    except Deliberate:
        prove(fails, "an exception in the block is passed on")
    else:
        prove(not fails, "an exception in the block is passed on")
    prove(log_size(log) == (n + 2 if nested else n + 1), "an acyclic reference takes exactly one number")
    prove(log.get_serialized_id(me) == n, "the object resolves once its block ends")
    prove(log.get_object(j) is old, "earlier numbers still resolve to the same objects")


@lemma(LEMMAS, "illegal_cycle", setup=new_only, log=Log(), nested=Bool())
def illegal_cycle(log, nested):
    """Referring to the object inside its block is an error, and only there."""
    n = log_size(log)
    me, inner = fresh(log), fresh(log)
    refused = False
    try:
        with log.record_acyclic_reference(me):
            if nested:
                with log.record_acyclic_reference(inner):
                    log.get_serialized_id(me)
            else:
                log.get_serialized_id(me)
            prove(False, "referring to an object that must not be referred to is refused")
    except KeyError:
        refused = True
    prove(refused, "an illegal cycle is an error of the library")
    prove(log.get_serialized_id(me) == n, "the object resolves once its block ends")
    prove(log_size(log) == (n + 2 if nested else n + 1), "an acyclic reference takes exactly one number")


# ---------------------------------------------------------------------------
# references on the wire
# ---------------------------------------------------------------------------
@lemma(LEMMAS, "back_reference", setup=nested, items=Values("v", "v"), pre=Data(), post=Data(), n=Small(0), k=Small(0))
def back_reference(items, pre, post, n, k):
    """A value written before is written as a reference, read back as the object read in its place, with no number."""
    assume(n + k < 2 ** 32 - 1)
    value, mine = c04.MapOf(items), Thing()
    w = c04.writer(pre, n)
    w.objects.record_reference(value)
    more(w, k)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    same_bytes(w.data, pre, b"^", varint(n), label="a reference is its tag and the number of the object")
    prove(seen(w) == n + 1 + k, "a reference takes no number")
    r = c04.reader(w, post, len(pre), n)
    r.objects.record_reference(mine)
    more(r, k)
    got = decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader()]))
    prove(got is mine, "a reference loads as the object with that number")
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(r) == n + 1 + k, "a reference takes no number")


@lemma(LEMMAS, "unassigned_reference", setup=nested, i=Nat(2 ** 32 - 1), pre=Data(), post=Data(), n=Small(0))
def unassigned_reference(i, pre, post, n):
    """A reference to a number not assigned yet is rejected with a decode error."""
    assume(i >= n)
    w = c04.writer(pre, n)
    w.data.extend(b"^")
    w.write_varint(i)
    r = c04.reader(w, post, len(pre), n)
    refused = False
    try:
        decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader()]))
    except DecodeV8SerializeError:
        refused = True
    prove(refused, "a reference to a number not assigned is rejected")


@lemma(LEMMAS, "reference_by_number", setup=nested, pre=Data(), i=Small(0), n=Small(0), k=Small(0))
def reference_by_number(pre, i, n, k):
    """Writing a reference by number needs the number to be assigned, and writes nothing otherwise."""
    me = Thing()
    w = c04.writer(pre, n)
    w.objects.record_reference(me)
    more(w, k)
    w.write_object_reference(serialized_id=n)
    same_bytes(w.data, pre, b"^", varint(n), label="a reference is its tag and the number of the object")
    prove(seen(w) == n + 1 + k, "a reference takes no number")
    end = len(w.data)
    try:
        w.write_object_reference(serialized_id=n + 1 + k + i)
    except KeyError:
        prove(len(w.data) == end, "a refused reference writes nothing")
    else:
        prove(False, "a reference to a number not assigned is refused")


# ---------------------------------------------------------------------------
# kinds of values
# ---------------------------------------------------------------------------
@lemma(LEMMAS, "unnumbered", setup=nested, kind=Choice("constant", "int", "float", "text"),
       constant=Choice(None, True, False, JSHole, JSUndefined), i=Int(), f=Float(), s=Str(), pre=Data(), post=Data(),
       n=Small(0))
def unnumbered(kind, constant, i, f, s, pre, post, n):
    """Constants, numbers and strings take no number."""
    value = constant if kind == "constant" else i if kind == "int" else f if kind == "float" else s
    if kind == "int":
        assume((value.bit_length() + 8) // 8 < 2 ** 30)
    w = c04.writer(pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    end = len(w.data)
    prove(seen(w) == n, "a primitive takes no number when written")
    r = c04.reader(w, post, len(pre), n)
    decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader()]))
    prove(seen(r) == n, "a primitive takes no number when read")
    prove(r.pos == end, "reading stops where writing stopped")


# every kind that takes a number takes one, the same one when written and when read
LEMMAS += [l for l in c04.LEMMAS if l.name in ("mapping", "set", "object", "collection")]
LEMMAS += [l for l in c06.LEMMAS if l.name in ("exception error", "old error", "cyclic error", "regexp", "wrapped bool",
                                               "wrapped text", "wrapped float", "wrapped int", "shared reference",
                                               "date")]


# ---------------------------------------------------------------------------
# equal values of immutable kinds are written once; which one stands for them never changes
# ---------------------------------------------------------------------------
def caching(I):
    I.contracts.clear()
    I.memo = True
    I.opaque_eq = c11.opaque_eq


def other_values(ctx):
    """More values than a bounded cache would remember."""
    for i in range(300):
        ctx.deduplicate(JSRegExp(f"other {i}"))


@model(other_values)
def _other_values(I, a, k):
    """(contract) A bounded cache may forget at any moment, an unbounded one never does (pyvc.models.memo)."""


@lemma(LEMMAS, "one stands for all", setup=caching, s=Str(), t=Str(), u=Str(), again=Bool())
def one_stands_for_all(s, t, u, again):
    """A value occurring twice is one object both times, whatever was written before and in between."""
    ctx = DefaultEncodeContext()
    x, y, z = JSRegExp(s), JSRegExp(t), JSRegExp(u)
    ctx.deduplicate(x)
    got = ctx.deduplicate(y)
    prove(got.source == y.source and got.flags == y.flags, "what stands for a value has the same content")
    if again:
        ctx.deduplicate(z)
    other_values(ctx)
    prove(ctx.deduplicate(y) is got, "a value occurring again is written as the same object")
    prove(ctx.deduplicate(got) is got, "an object that stands for others stands for itself")
