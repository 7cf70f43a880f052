"""C04: maps, sets, objects and arrays round-trip in order, with counts enforced."""
from collections import abc

from pyvc.dual import *
from v8serialize.constants import SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize import DecodeV8SerializeError
from v8serialize.jstypes import JSArray, JSHole, JSObject

from specs import c01
from specs.nested import *

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]


LIMIT = 2 ** 30     # entries of one collection; V8's own limits are lower


def writer(pre, n):
    w = WritableTagStream()
    w.data.extend(pre)
    start_log(w, n)
    return w


def reader(w, post, pos, n):
    w.data.extend(post)
    r = ReadableTagStream(w.data)
    r.pos = pos
    start_log(r, n)
    return r


def settled(w, r, start, end, me, mine):
    prove(w.data[start] in VALUE_FIRST, "a collection starts with a tag that starts a value")
    prove(r.pos == end, "reading stops where writing stopped")
    prove(seen(w) == seen(r), "writing and reading number the same objects")
    prove(number_of(w, me) == number_of(r, mine), "the collection takes the same number when written and read")


@lemma(LEMMAS, "jsmap", setup=nested, items=Values("v", "v"), pre=Data(), post=Data(), n=Small(0))
def jsmap(items, pre, post, n):
    """write_jsmap then read_jsmap: every key and value, in order; same object numbers; stops at the end."""
    assume(len(items) < LIMIT)
    w = writer(pre, n)
    w.write_jsmap(items, DefaultEncodeContext(stream=w), identity=items)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    i = 0
    for k, v in r.read_jsmap(DefaultDecodeContext(stream=r), identity=items, tag=True):
        prove(i < len(items), "no map entry is added")
        prove(is_loaded(k, items[i][0]), "map keys load in order")
        prove(is_loaded(v, items[i][1]), "map values load in order")
        i += 1
    prove(i == len(items), "no map entry is lost")
    settled(w, r, len(pre), end, items, items)


@lemma(LEMMAS, "jsset", setup=nested, values=Values("v"), pre=Data(), post=Data(), n=Small(0))
def jsset(values, pre, post, n):
    """write_jsset then read_jsset: every member in order."""
    assume(len(values) < LIMIT)
    w = writer(pre, n)
    w.write_jsset(values, DefaultEncodeContext(stream=w), identity=values)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    i = 0
    for v in r.read_jsset(DefaultDecodeContext(stream=r), identity=values, tag=True):
        prove(i < len(values), "no set member is added")
        prove(is_loaded(v, values[i]), "set members load in order")
        i += 1
    prove(i == len(values), "no set member is lost")
    settled(w, r, len(pre), end, values, values)


@lemma(LEMMAS, "js_object", setup=nested, items=Values("k", "v"), pre=Data(), post=Data(), n=Small(0))
def js_object(items, pre, post, n):
    """write_js_object then read_js_object: every property in order."""
    assume(len(items) < LIMIT)
    w = writer(pre, n)
    w.write_js_object(items, DefaultEncodeContext(stream=w), identity=items)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    i = 0
    for k, v in r.read_js_object(DefaultDecodeContext(stream=r), identity=items, tag=True):
        prove(i < len(items), "no property is added")
        prove(is_loaded(k, items[i][0]), "property names load in order")
        prove(is_loaded(v, items[i][1]), "property values load in order")
        i += 1
    prove(i == len(items), "no property is lost")
    prove(w.allowed_tags is None, "the key constraint is lifted after the properties")
    settled(w, r, len(pre), end, items, items)


@lemma(LEMMAS, "dense_array", setup=nested, values=Values("v"), items=Values("k", "v"), pre=Data(), post=Data(),
       n=Small(0))
def dense_array(values, items, pre, post, n):
    """write_js_array_dense then read_js_array_dense: elements by index, then properties, each in order."""
    assume(len(values) < LIMIT)
    assume(len(items) < LIMIT)
    w = writer(pre, n)
    w.write_js_array_dense(values, DefaultEncodeContext(stream=w), properties=items, identity=values)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    i = 0
    for k, v in r.read_js_array_dense(DefaultDecodeContext(stream=r), identity=values, tag=True):
        if i < len(values):
            prove(k == i, "array elements load at their index")
            prove(is_loaded(v, values[i]), "array elements load in order")
        else:
            prove(i < len(values) + len(items), "no array element or property is added")
            prove(is_loaded(k, items[i - len(values)][0]), "array property names load in order")
            prove(is_loaded(v, items[i - len(values)][1]), "array property values load in order")
        i += 1
    prove(i == len(values) + len(items), "no array element or property is lost")
    prove(w.allowed_tags is None, "the key constraint is lifted after the properties")
    settled(w, r, len(pre), end, values, values)


@lemma(LEMMAS, "sparse_array", setup=nested, items=Values("k", "v"), length=Nat(2 ** 32 - 1), pre=Data(), post=Data(),
       n=Small(0))
def sparse_array(items, length, pre, post, n):
    """write_js_array_sparse then read_js_array_sparse: the length, and every present element and property in order."""
    assume(len(items) < LIMIT)
    w = writer(pre, n)
    w.write_js_array_sparse(items, DefaultEncodeContext(stream=w), length=length, identity=items)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    a = r.read_js_array_sparse(DefaultDecodeContext(stream=r), identity=items, tag=True)
    prove(a.length == length, "the length of a sparse array loads unchanged")
    i = 0
    for k, v in a.items:
        prove(i < len(items), "no element is added")
        prove(is_loaded(k, items[i][0]), "indexes and names load in order")
        prove(is_loaded(v, items[i][1]), "elements and properties load in order")
        i += 1
    prove(i == len(items), "no element is lost")
    prove(w.allowed_tags is None, "the key constraint is lifted after the properties")
    settled(w, r, len(pre), end, items, items)


@lemma(LEMMAS, "refused_length", setup=nested, items=Values("k", "v"), length=Int(), pre=Data(), n=Small(0))
def refused_length(items, length, pre, n):
    """write_js_array_sparse refuses a length no JavaScript array has (outside 0..2**32-1), leaving the data alone."""
    assume(length < 0 or length > 2 ** 32 - 1)
    w = writer(pre, n)
    try:
        w.write_js_array_sparse(items, DefaultEncodeContext(stream=w), length=length, identity=items)
        prove(False, "a length no JavaScript array has is refused")
    except ValueError:
        prove(w.data == pre, "a refused array leaves the data alone")
        prove(seen(w) == n, "a refused array takes no number")


def rejected(gen):
    """Reading it to the end raises DecodeV8SerializeError."""
    try:
        for _ in gen:
            pass
    except DecodeV8SerializeError:
        return True
    return False


@lemma(LEMMAS, "count_mismatch", setup=nested, kind=Choice("map", "set", "object", "sparse"),
       items=Values("k", "v"), count=Nat(2 ** 32 - 1), post=Data(), n=Small(0))
def count_mismatch(kind, items, count, post, n):
    """A trailing count which differs from the number of entries read is rejected."""
    assume(len(items) < LIMIT)
    w = WritableTagStream()
    start_log(w, n)
    ctx = DefaultEncodeContext(stream=w)
    expected = 0
    begin, end = TAGS[kind]
    w.write_tag(begin)
    w.objects.record_reference(items)
    if kind == "sparse":
        w.write_varint(77)
    for k, v in items:
        if kind == "object" or kind == "sparse":
            with w.constrain_tags(JS_OBJECT_KEY_TAGS):
                ctx.encode_object(k)
        else:
            ctx.encode_object(k)
        expected += 1
        if kind != "set":
            ctx.encode_object(v)
        if kind == "map":
            expected += 1
    assume(count != expected)
    w.write_tag(end)
    w.write_varint(count)
    w.write_varint(77)
    r = reader(w, post, 0, n)
    d = DefaultDecodeContext(stream=r)
    if kind == "map":
        gen = r.read_jsmap(d, identity=items, tag=True)
    elif kind == "set":
        gen = r.read_jsset(d, identity=items, tag=True)
    elif kind == "object":
        gen = r.read_js_object(d, identity=items, tag=True)
    else:
        gen = r.read_js_array_sparse(d, identity=items, tag=True).items
    prove(rejected(gen), "a wrong count of entries is rejected")


TAGS = {"map": (SerializationTag.kBeginJSMap, SerializationTag.kEndJSMap),
        "set": (SerializationTag.kBeginJSSet, SerializationTag.kEndJSSet),
        "object": (SerializationTag.kBeginJSObject, SerializationTag.kEndJSObject),
        "sparse": (SerializationTag.kBeginSparseJSArray, SerializationTag.kEndSparseJSArray)}


@lemma(LEMMAS, "length_mismatch", setup=nested, kind=Choice("dense", "sparse"), values=Values("v"),
       items=Values("k", "v"), first=Nat(2 ** 32 - 1), last=Nat(2 ** 32 - 1), props=Nat(2 ** 32 - 1),
       post=Data(), n=Small(0))
def length_mismatch(kind, values, items, first, last, props, post, n):
    """An array whose trailing length (or trailing property count) differs is rejected."""
    assume(len(values) < LIMIT)
    assume(len(items) < LIMIT)
    w = WritableTagStream()
    start_log(w, n)
    ctx = DefaultEncodeContext(stream=w)
    w.objects.record_reference(items)
    if kind == "dense":
        w.write_tag(SerializationTag.kBeginDenseJSArray)
        w.write_varint(len(values))
        first = len(values)
        for v in values:
            ctx.encode_object(v)
    else:
        w.write_tag(SerializationTag.kBeginSparseJSArray)
        w.write_varint(first)
    count = 0
    for k, v in items:
        with w.constrain_tags(JS_OBJECT_KEY_TAGS):
            ctx.encode_object(k)
        ctx.encode_object(v)
        count += 1
    assume(first != last or count != props)
    w.write_tag(SerializationTag.kEndDenseJSArray if kind == "dense" else SerializationTag.kEndSparseJSArray)
    w.write_varint(props)
    w.write_varint(last)
    r = reader(w, post, 0, n)
    d = DefaultDecodeContext(stream=r)
    if kind == "dense":
        prove(rejected(r.read_js_array_dense(d, identity=items, tag=True)), "a wrong array length is rejected")
    else:
        prove(rejected(r.read_js_array_sparse(d, identity=items, tag=True).items), "a wrong array length is rejected")


# ---------------------------------------------------------------------------
# the same through the encode steps (TagWriter) and the decode steps (TagReader)
# ---------------------------------------------------------------------------
class MapOf(abc.Mapping):
    """A mapping with these entries."""
    __hash__ = None

    def __init__(self, entries):
        self.entries = entries

    def items(self):
        return self.entries

    def __len__(self):
        return len(self.entries)

    def __iter__(self):
        raise AssertionError("not used")

    __getitem__ = None


class Received(abc.MutableMapping):
    """Checks what it is filled with."""
    __hash__ = None

    def __init__(self, entries):
        self.entries = entries
        self.count = -1

    def update(self, items):
        entries = self.entries
        i = 0
        for k, v in items:
            prove(i < len(entries), "no entry is added")
            prove(is_loaded(k, entries[i][0]), "keys load in order")
            prove(is_loaded(v, entries[i][1]), "values load in order")
            i += 1
        self.count = i

    def __len__(self):
        return self.count

    def __iter__(self):
        raise AssertionError("not used")

    __getitem__ = __setitem__ = __delitem__ = None


def write_value(pre, n, value):
    w = writer(pre, n)
    encode_whole(DefaultEncodeContext(stream=w), value)
    return w


@lemma(LEMMAS, "mapping", setup=nested, items=Values("v", "v"), pre=Data(), post=Data(), n=Small(0))
def mapping(items, pre, post, n):
    """A Mapping written by the default encode steps is read into jsmap_type() with its entries in order."""
    assume(len(items) < LIMIT)
    value, mine = MapOf(items), Received(items)
    w = write_value(pre, n, value)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader(jsmap_type=lambda: mine)]))
    prove(got is mine, "the value is the one jsmap_type() made")
    prove(mine.count == len(items), "no entry is lost")
    settled(w, r, len(pre), end, value, mine)


class SetOf(abc.Set):
    """A set with these members."""
    __hash__ = None

    def __init__(self, members):
        self.members = members

    def __iter__(self):
        return iter(self.members)

    def __len__(self):
        return len(self.members)

    def __contains__(self, x):
        raise AssertionError("not used")


class ReceivedSet(abc.MutableSet):
    """Checks what it is filled with."""
    __hash__ = None

    def __init__(self, members):
        self.members = members
        self.count = -1

    def __ior__(self, items):
        members = self.members
        i = 0
        for v in items:
            prove(i < len(members), "no member is added")
            prove(is_loaded(v, members[i]), "members load in order")
            i += 1
        self.count = i
        return self

    def __iter__(self):
        raise AssertionError("not used")

    def __len__(self):
        return self.count

    def __contains__(self, x):
        raise AssertionError("not used")

    def add(self, x):
        raise AssertionError("not used")

    discard = add


@lemma(LEMMAS, "set", setup=nested, members=Values("v"), pre=Data(), post=Data(), n=Small(0))
def set_(members, pre, post, n):
    """A Set written by the default encode steps is read into jsset_type() with its members in order."""
    assume(len(members) < LIMIT)
    value, mine = SetOf(members), ReceivedSet(members)
    w = write_value(pre, n, value)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader(jsset_type=lambda: mine)]))
    prove(got is mine, "the value is the one jsset_type() made")
    prove(mine.count == len(members), "no member is lost")
    settled(w, r, len(pre), end, value, mine)


class ObjectOf(JSObject):
    """A JSObject with these properties."""
    __hash__ = None

    def __init__(self, entries):
        self.entries = entries

    def items(self):
        return self.entries


@lemma(LEMMAS, "object", setup=nested, items=Values("k", "v"), pre=Data(), post=Data(), n=Small(0))
def object_(items, pre, post, n):
    """A JSObject written by the default encode steps is read into js_object_type() with its properties in order."""
    assume(len(items) < LIMIT)
    value, mine = ObjectOf(items), Received(items)
    w = write_value(pre, n, value)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader(js_object_type=lambda: mine)]))
    prove(got is mine, "the value is the one js_object_type() made")
    prove(mine.count == len(items), "no property is lost")
    settled(w, r, len(pre), end, value, mine)


class Elements(abc.Collection):
    """Array elements, of which `used` are not holes."""
    __hash__ = None

    def __init__(self, values, used):
        self.values = values
        self.elements_used = used

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __contains__(self, x):
        raise AssertionError("not used")


class ArrayOf(JSArray):
    """A JSArray with these elements and properties; `present` are its items()."""
    __hash__ = None
    array = None
    properties = None

    def __init__(self, values, used, props, present):
        self.array = Elements(values, used)
        self.properties = MapOf(props)
        self.present = present

    def items(self):
        return self.present


class ReceivedArray:
    """Checks what it is filled with."""

    def __init__(self, values, props, present):
        self.values = values
        self.props = props
        self.present = present
        self.sized = None
        self.count = None
        self.dense = False

    def __setitem__(self, key, value):
        prove(value is JSHole, "only a hole is stored before the elements")
        prove(self.count is None, "the array is sized before it is filled")
        self.sized = key

    def update(self, items):
        values, props, present, dense = self.values, self.props, self.present, self.dense
        i = 0
        for k, v in items:
            if dense:
                if i < len(values):
                    prove(k == i, "array elements load at their index")
                    prove(is_loaded(v, values[i]), "array elements load in order")
                else:
                    prove(i < len(values) + len(props), "no element or property is added")
                    prove(is_loaded(k, props[i - len(values)][0]), "property names load in order")
                    prove(is_loaded(v, props[i - len(values)][1]), "property values load in order")
            else:
                prove(i < len(present), "no element is added")
                prove(is_loaded(k, present[i][0]), "indexes and names load in order")
                prove(is_loaded(v, present[i][1]), "elements and properties load in order")
            i += 1
        self.count = i


@lemma(LEMMAS, "collection", setup=nested, values=Values("v"), pre=Data(), post=Data(), n=Small(0))
def collection(values, pre, post, n):
    """A collection written by the default encode steps is read into js_array_type() with its elements in order."""
    assume(len(values) < LIMIT)
    value, mine = Elements(values, 0), ReceivedArray(values, (), ())
    mine.dense = True
    w = write_value(pre, n, value)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    got = decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader(js_array_type=lambda: mine)]))
    prove(got is mine, "the value is the one js_array_type() made")
    prove(mine.count == len(values), "no element is lost")
    settled(w, r, len(pre), end, value, mine)


@lemma(LEMMAS, "array", setup=nested, values=Values("v"), props=Values("k", "v"), present=Values("k", "v"),
       used=Small(0), pre=Data(), post=Data(), n=Small(0))
def array(values, props, present, used, pre, post, n):
    """A JSArray written by the default encode steps, dense or sparse as they choose, is read into js_array_type()."""
    assume(len(values) < LIMIT)
    assume(len(props) < LIMIT)
    assume(len(present) < LIMIT)
    assume(used <= len(values))
    value, mine = ArrayOf(values, used, props, present), ReceivedArray(values, props, present)
    w = write_value(pre, n, value)
    end = len(w.data)
    r = reader(w, post, len(pre), n)
    mine.dense = w.data[len(pre)] == SerializationTag.kBeginDenseJSArray
    got = decode_whole(DefaultDecodeContext(stream=r, decode_steps=[TagReader(js_array_type=lambda: mine)]))
    prove(got is mine, "the value is the one js_array_type() made")
    if mine.dense:
        prove(mine.count == len(values) + len(props), "no element or property is lost")
    else:
        prove(mine.count == len(present), "no element or property is lost")
        if len(values) > 0:
            prove(mine.sized == len(values) - 1, "a sparse array loads with its length")
        else:
            prove(mine.sized is None, "an empty sparse array stays empty")
    settled(w, r, len(pre), end, value, mine)
