"""C10: JavaScript objects and arrays follow JavaScript property rules as mappings."""
from __future__ import annotations

import math
from collections.abc import MutableMapping

import z3

from pyvc.dual import *
from pyvc.dual import Dom
from pyvc import holey, omap, text
from pyvc.core import Unsupported
from pyvc.interp import PyRaise, ie, is_intlike, mkint, model, pyclass
from pyvc.rope import zi
from pyvc.values import *
from native import c10 as N
from specs import c09
from v8serialize._typing import Order
from v8serialize.jstypes import JSArray, JSHole, JSObject
from v8serialize.jstypes._normalise_property_key import normalise_property_key

LEMMAS = []
INDEXES = 2 ** 32 - 1
LONG = 10 ** 600            # Python refuses to write much longer ints in decimal


def texts(I):
    I.int_to_str = text.of_int


class Text(Dom):
    """Any string."""

    def sym(self, I, name):
        e = z3.String(name)
        I.E.inputs[name] = lambda m: m.eval(e, model_completion=True).as_string()
        return text.SText(e)

    def edges(self):
        out = ["", "a", "-", "-0", "-1", "+1", " 1", "1 ", "1_0", "1.0", "1e3", "٣", "²", "①", "0x10", "NaN", "Infinity", "é", "\x00", "日本"]
        for n in (0, 1, 7, 9, 10, 99, 2 ** 31, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 10 ** 10, 10 ** 25):
            out += [str(n), "0" + str(n), "00" + str(n), str(n) + " ", "-" + str(n), str(n) + ".0", str(n) + "٣"]
        return out + ["0" * 12, "1" * 5000, "9" * 10, "9" * 11, "0" * 5000]

    def rand(self, r):
        s = str(r.getrandbits(r.choice([4, 16, 31, 32, 33, 40])))
        if r.random() < 0.4:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(["0", "-", "a", "٣", " ", "_", ".", "\n"]) + s[i:]
        return s


class Real(Dom):
    """Any finite float (symbolically: any real number)."""

    def sym(self, I, name):
        e = z3.Real(name)
        I.E.inputs[name] = lambda m: float(m.eval(e, model_completion=True).as_fraction())
        return SReal(e)

    def edges(self):
        out = [0.0, -0.0, 0.5, -0.5, 1.5, 1e-7, 1e300, -1e300]
        for n in (1, 2, 2 ** 31, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 10 ** 20, 10 ** 21, 10 ** 22):
            out += [float(n), -float(n), n + 0.5, math.nextafter(n, 0)]
        return out

    def rand(self, r):
        return r.choice([r.random(), 1, 2.0 ** 20]) * r.choice([1, -1]) * float(r.getrandbits(r.choice([3, 32, 33, 60])))


def is_index_text(s):
    """s is the decimal text of an array index, without leading zeros or anything else."""
    if len(s) == 0 or len(s) > 10:
        return False
    if not s.isascii():
        return False
    if not s.isdecimal():
        return False
    if s[0] == "0" and len(s) > 1:
        return False
    return int(s) < INDEXES


@lemma(LEMMAS, "integer keys", setup=texts, k=Int(-LONG, LONG))
def integer_keys(k):
    """Integers from 0 to 2**32-2 are array indexes; others are names, their decimal text."""
    r = normalise_property_key(k)
    if 0 <= k < INDEXES:
        prove(type(r) is int and r == k, "an integer from 0 to 2**32-2 is that array index")
    else:
        prove(type(r) is str and r == str(k), "another integer is the name which is its decimal text")


@lemma(LEMMAS, "text keys", setup=texts, s=Text())
def text_keys(s):
    """The canonical text of an array index is that index; any other text is a name."""
    r = normalise_property_key(s)
    if is_index_text(s):
        prove(type(r) is int and r == int(s), "the decimal text of an array index is that index")
    else:
        prove(type(r) is str and r == s, "any other text is itself a name")


@lemma(LEMMAS, "text of integers", setup=texts, k=Int(-LONG, LONG))
def text_of_integers(k):
    """An integer and its decimal text are the same key."""
    a, b = normalise_property_key(k), normalise_property_key(str(k))
    prove(type(a) is type(b) and a == b, "an integer and its decimal text name the same property")


@lemma(LEMMAS, "float keys", setup=texts, x=Real())
def float_keys(x):
    """An integer-valued float is the same key as the integer; any other finite float is a name."""
    assume(-LONG < x < LONG)
    r = normalise_property_key(x)
    if x.is_integer():
        n = normalise_property_key(int(x))
        prove(type(r) is type(n) and r == n, "an integer-valued float and the integer name the same property")
    else:
        prove(type(r) is str and r == str(x), "another float is a name, its text")


# ---------------------------------------------------------------------------
# objects: one operation from any state, over either storage
# ---------------------------------------------------------------------------
NAMES = ["", "a", "b", "length", "01", "-1", "-0", "4294967295", "é"]


class Key(Dom):
    """Any key: natively one spelling of a property; symbolically known by the property it names."""

    def sym(self, I, name):
        if I.E.choose(2):
            i = z3.Int(name)
            I.E.assume(z3.And(i >= 0, i < INDEXES))
            I.E.inputs[name] = lambda m: m.eval(i, model_completion=True).as_long()
            return Spelling(mkint(i))
        return Spelling(a_name(z3.Const(name, Val)))

    def edges(self):
        return [0, "0", 0.0, -0.0, 1, "a", 2 ** 32 - 1, "4294967295"]

    def rand(self, r):
        n = r.choice([0, 1, 2, 3, 5, 8, 14, 15, 16, 17, 40, 63, 64, 65, 100, 1000])
        return r.choice([n, n, str(n), float(n), r.choice(NAMES), -n, "0" + str(n), n + 0.5, 2 ** 32 - 1 + n])


class Spelling(Sym):
    """A key; only normalise_property_key() knows what it names."""
    __slots__ = ("norm",)

    def __init__(self, norm):
        self.norm = norm

    def __repr__(self):
        return f"key of {self.norm!r}"


def a_name(e):
    return SVal(e, str, {"not_none": True})


def prop(key):
    """The property a key names."""
    return N.norm(key)


@model(prop)
def _prop(I, a, k):
    return normalised(I, a, k)


def normalised(I, a, k):
    """Lemmas "integer keys", "text keys", "float keys": an index from 0 to 2**32-2, or a name; these name themselves."""
    x = a[0]
    if isinstance(x, Spelling):
        return x.norm
    if isinstance(x, SVal) and x.cls is str:
        return x                        # only names of the object's own get here
    if is_intlike(x) and not isinstance(x, (bool, SBool)):
        I.E.prove(z3.And(ie(x) >= 0, ie(x) < INDEXES), "indexes stay below 2**32-1")
        return x
    raise Unsupported(f"key {x!r}")


def over_contracts(I):
    c09.setup(I)
    I.contracts[normalise_property_key] = normalised
    # the dicts of array storages have indexes for keys, the others names
    I.dict_factory = lambda I: holey.new_umap(I) if "ArrayProperties" in str(I.E.where[0]) else omap.empty(I, a_name)


class Obj(Dom):
    """A JSObject or JSArray in any state which the representation invariants of its parts admit."""

    def sym(self, I, name):
        cls = (JSObject, JSArray)[I.E.choose(2)]
        array = c09.Storage().sym(I, name + ".array")
        n = z3.Int(name + ".names")
        I.E.assume(n >= 0)
        I.E.assume(n < 2 ** 60)
        K, V = z3.Function(name + ".name", z3.IntSort(), Val), z3.Function(name + ".value", z3.IntSort(), Val)
        pos = z3.Function(name + ".pos", Val, z3.IntSort())

        def elem(I, i):
            i = zi(i)
            I.E.assume(z3.Implies(z3.And(i >= 0, i < n), pos(K(i)) == i))
            return K(i), holey.elem_val(V(i))

        def find(I, e):
            p = pos(e)
            return p if I.E.branch(z3.And(p >= 0, p < n, K(p) == e)) else None
        names = I.reg(omap.OMap(n, elem, find, a_name))
        return I.given(cls, {"array": array, names_in(cls): names, "properties": names})

    def rand(self, r):
        o = r.choice([JSObject, JSArray])()
        if r.random() < 0.5:
            o.array = c09.Storage().rand(r)
        ks = Key()
        for _ in range(r.choice([0, 1, 3, 8])):
            o[ks.rand(r)] = c09.Item().rand(r)
        for k in list(o):
            if r.random() < 0.2:
                del o[k]
        if len(o.array) > 5000:
            o.array.resize(2000)
        return o


def names_in(cls):
    """The attribute in which the current code keeps the names and their values."""
    if cls not in NAMES_IN:
        o = cls()
        o["a name"] = 7
        NAMES_IN[cls] = c09.roles(o, names=lambda v: type(v) is dict and v == {"a name": 7})["names"]
    if NAMES_IN[cls] is None:
        raise Unsupported(f"representation of {cls.__name__}")
    return NAMES_IN[cls]


NAMES_IN = {}


def names(o):
    """A copy of the names and their values, in order of creation."""
    return dict(o.properties)


@model(names)
def _names(I, a, k):
    m = a[0].attrs[names_in(a[0].cls)]
    return I.reg(omap.OMap(m.n, m.elem, m.find, m.wrap))


def represents(o, l, d, label):
    """The object's indexes are the list l, its names the dict d in order, and nothing observable says otherwise."""
    c09.matches(o.array, l, label + ": indexes")
    if [*map(id, o.properties.values())] != [*map(id, d.values())] or list(o.properties) != list(d):
        raise Violated(label + ": names", f"{o.properties!r} want {d!r}")


@model(represents)
def _represents(I, a, k):
    o, l, d, label = a
    E = I.E
    I.call(c09.matches, [o.attrs["array"], l, label + ": indexes"], {})
    m = o.attrs[names_in(o.cls)]
    if not isinstance(m, omap.OMap):
        raise Unsupported("representation of the names")
    if o.attrs["properties"] is not m and getattr(o.attrs["properties"], "attrs", {}).get("of") is not m:
        raise Unsupported("the view of the names")
    E.prove(zi(m.n) == zi(d.n), label + ": number of names")
    i = E.fresh("i")
    E.assume(z3.And(i >= 0, i < zi(d.n)))
    (e, v), (e2, v2) = m.elem(I, i), d.elem(I, i)
    E.prove(e == e2, label + ": order of names")
    if v is JSHole or v2 is JSHole:
        raise Unsupported("a hole as a value")
    E.prove(holey.term(v) == holey.term(v2), label + ": values of names")
    # and lookups agree with the listing
    x = z3.Const("x!", Val)
    p, q = m.find(I, x), d.find(I, x)
    if (p is None) != (q is None):
        E.prove(False, label + ": names found")
    elif p is not None:
        E.prove(zi(p) == zi(q), label + ": names found")


@lemma(LEMMAS, "assign", setup=over_contracts, o=Obj(), key=Key(), v=c09.Item())
def assign(o, key, v):
    """o[key] = v"""
    l, d, k = c09.listing(o.array), names(o), prop(key)
    o[key] = v
    if type(k) is int:
        if k >= len(l):
            l.extend([JSHole] * (k + 1 - len(l)))
        l[k] = v
    elif v is JSHole:
        d.pop(k, None)
    else:
        d[k] = v
    represents(o, l, d, "assigning")


def current(l, d, k):
    """(whether property k is there, its value)"""
    if type(k) is int:
        return (True, l[k]) if k < len(l) and l[k] is not JSHole else (False, None)
    return (True, d[k]) if k in d else (False, None)


@lemma(LEMMAS, "look up", setup=over_contracts, o=Obj(), key=Key())
def look_up(o, key):
    """o[key], key in o, o.get(key)"""
    l, d, k = c09.listing(o.array), names(o), prop(key)
    there, value = current(l, d, k)
    try:
        got = o[key]
        prove(there and got is value, "looking up gives the value of the property")
    except KeyError:
        prove(not there, "only an absent property raises KeyError")
    default = object()
    prove((key in o) == there, "membership")
    prove(o.get(key) is value, "get")
    got = o.get(key, default)
    prove(got is (value if there else default), "get with a default")
    represents(o, l, d, "looking up changes nothing")


@lemma(LEMMAS, "delete", setup=over_contracts, o=Obj(), key=Key())
def delete(o, key):
    """del o[key]"""
    l, d, k = c09.listing(o.array), names(o), prop(key)
    there, value = current(l, d, k)
    try:
        del o[key]
        prove(there, "deleting an absent property raises KeyError")
    except KeyError:
        prove(not there, "deleting a property does not fail")
    if there:
        remove(l, d, k)
    represents(o, l, d, "deleting")


def remove(l, d, k):
    if type(k) is int:
        l[k] = JSHole
    else:
        del d[k]


@lemma(LEMMAS, "pop", setup=over_contracts, o=Obj(), key=Key(), has_default=Choice(True, False))
def pop(o, key, has_default):
    l, d, k = c09.listing(o.array), names(o), prop(key)
    there, value = current(l, d, k)
    default = object()
    try:
        got = o.pop(key, default) if has_default else o.pop(key)
        prove(there or has_default, "popping an absent property raises KeyError")
        prove(got is (value if there else default), "pop gives the value")
    except KeyError:
        prove(not there and not has_default, "popping a property does not fail")
    if there:
        remove(l, d, k)
    represents(o, l, d, "popping")


@lemma(LEMMAS, "set default", setup=over_contracts, o=Obj(), key=Key(), v=c09.Item(False))
def set_default(o, key, v):
    l, d, k = c09.listing(o.array), names(o), prop(key)
    there, value = current(l, d, k)
    got = o.setdefault(key, v)
    prove(got is (value if there else v), "setdefault gives the value")
    if not there:
        if type(k) is int:
            if k >= len(l):
                l.extend([JSHole] * (k + 1 - len(l)))
            l[k] = v
        else:
            d[k] = v
    represents(o, l, d, "setdefault")


@lemma(LEMMAS, "size", setup=over_contracts, o=Obj())
def size(o):
    """the number of indexes which hold a value and names."""
    l, d = c09.listing(o.array), names(o)
    prove(len(o) == filled(l) + len(d), "the size is the number of properties")


def filled(l):
    return sum(x is not JSHole for x in l)


@model(filled)
def _filled(I, a, k):
    return mkint(a[0].pred.total(I))


@lemma(LEMMAS, "enumerate", setup=over_contracts, o=Obj(), how=Choice("iter", "keys", "items", "values"))
def enumerate_(o, how):
    """Indexes in ascending order, then names in order of creation."""
    l, d = c09.listing(o.array), names(o)
    if how == "iter":
        first_then(iter(o), l, d, "keys", "enumeration")
    elif how == "keys":
        first_then(o.keys(), l, d, "keys", "keys()")
    elif how == "items":
        first_then(o.items(), l, d, "items", "items()")
    else:
        first_then(o.values(), l, d, "values", "values()")


def first_then(it, l, d, what, label):
    got = list(it)
    want = [(i, x) for i, x in enumerate(l) if x is not JSHole] + list(d.items())
    want = [x[0] if what == "keys" else x[1] if what == "values" else x for x in want]
    if len(got) != len(want) or any(x is not y and (x != y or what == "values") for x, y in zip(got, want)):
        raise Violated(label, f"{got!r} want {want!r}")
    if what != "values" and [type(x if what == "keys" else x[0]) for x in got] != [type(x if what == "keys" else x[0]) for x in want]:
        raise Violated(label, f"{got!r} want {want!r}")


@model(first_then)
def _first_then(I, a, k):
    it, l, d, what, label = a
    E, parts = I.E, []

    def one(v):
        raise Unsupported("a single key")
    omap.run_captured(I, it, one, parts.append)
    if what == "values":
        if len(parts) != 2:
            raise Unsupported("parts of the enumeration")
        j = E.fresh("j")
        t, u = parts
        E.assume(j >= 0)
        t.facts(I, j)
        u.facts(I, j)
        holey.point(I, l.pred, j)
        there = z3.And(j < zi(l.n), l.pred.has(I, j))
        E.prove(z3.And(j < zi(t.n), t.guard(j)) == there, label + ": indexes with values")
        E.prove(z3.Implies(there, t.key(I, j, holey.term) == l.val(j)), label + ": values of indexes")
        are_names(I, u, d, j, None, holey.term, label)
        return
    key = (lambda v: v[0]) if what == "items" else lambda v: v
    kinds = []
    for t in parts:
        ks = {pyclass(key(v)) for _, _, v in t.cases if v is not None}
        if len(ks) != 1 or not ks <= {int, str}:
            raise Unsupported("a mixed part of the enumeration")
        kinds += ks
    E.prove(kinds in ([int, str], [int], [str], []), label + ": indexes before names")
    if int in kinds:
        c09.are_members(I, parts[0], l, Order.ASCENDING, label + ": indexes", what == "items")
    else:
        E.prove(l.pred.total(I) == 0, label + ": indexes")
    if str in kinds:
        j = E.fresh("j")
        E.assume(j >= 0)
        are_names(I, parts[-1], d, j, lambda v: key(v).e, (lambda v: holey.term(v[1])) if what == "items" else None, label)
    else:
        E.prove(zi(d.n) == 0, label + ": names")


def are_names(I, t, d, j, key, value, label):
    """The template yields the names (values) of d in order: one for every j."""
    E = I.E
    E.prove(zi(t.n) == zi(d.n), label + ": number of names")
    E.assume(j < zi(d.n))
    t.facts(I, j)
    E.prove(t.guard(j), label + ": every name")
    e, v = d.elem(I, j)
    d.find(I, e)
    if key is not None:
        E.prove(t.key(I, j, key) == e, label + ": order of names")
    if value is not None:
        E.prove(t.key(I, j, value) == holey.term(v), label + ": values of names")


@lemma(LEMMAS, "new object", setup=over_contracts, cls=Choice(JSObject, JSArray))
def new_object(cls):
    o = cls()
    l, d = [], {}
    represents(o, c09.as_list(l), d, "a new object")


# ---------------------------------------------------------------------------
# operations which are a sequence of assignments
# ---------------------------------------------------------------------------
class Pairs(Dom):
    """Any number of (key, value), the keys in any spelling."""

    def sym(self, I, name):
        n = z3.Int(name + ".n")
        I.E.assume(n >= 0)
        K, V = z3.Function(name + ".key", z3.IntSort(), Val), z3.Function(name + ".val", z3.IntSort(), Val)
        return I.reg(SSeq(n, lambda i: (SVal(K(zi(i)), None, {"not_none": True, "key": True}), holey.elem_val(V(zi(i))))))

    def rand(self, r):
        return [(Key().rand(r), c09.Item().rand(r)) for _ in range(r.choice([0, 1, 2, 5]))]


def assigns(make, l, pairs, extra, label):
    """make() gives an object with indexes l after assigning the pairs and the extra pairs one after the other, and no other change."""
    o, want = make(), JSObject()
    want.array.extend(l)
    for k, v in [*pairs, *extra]:
        want[k] = v
    represents(o, c09.listing(want.array), names(want), label)


@model(assigns)
def _assigns(I, a, k):
    make, l, pairs, extra, label = a
    E, parts, made = I.E, [], []
    sink = []

    def gen(cb):
        sink.append(cb)
        made.append(I.call(make, [], {}))
    I.contracts[JSObject.__setitem__] = lambda I, a, k: sink[-1]((a[1], a[2]))
    try:
        if pairs == ():
            gen(parts.append)
        else:
            omap.run_captured(I, I.reg(SGen(gen, "assignments")), parts.append, parts.append)
    finally:
        del I.contracts[JSObject.__setitem__]
    if pairs != ():
        if parts and isinstance(parts[0], omap.Template):
            t = parts.pop(0)
            E.prove(zi(t.n) == zi(pairs.n0), label + ": one assignment for each pair")
            j = E.fresh("j")
            E.assume(z3.And(j >= 0, j < zi(pairs.n0)))
            t.facts(I, j)
            E.prove(t.guard(j), label + ": every pair is assigned")
            x = pairs.elem(j)
            for n in (0, 1):
                E.prove(t.key(I, j, lambda v: I.as_val(v[n])) == I.as_val(x[n]), label + ": in order, as they are")
        else:
            E.prove(zi(pairs.n0) == 0, label + ": every pair is assigned")
    E.prove(parts == list(extra), label + ": the extra pairs are assigned, nothing else")
    if l == ():
        l = holey.hlist(I, holey.nothing(I), holey.no_val)
    I.call(represents, [made[0], l, omap.empty(I, a_name), label], {})


@lemma(LEMMAS, "update", setup=over_contracts, cls=Choice(JSObject, JSArray), pairs=Pairs(), how=Choice("pairs", "iterator", "names"))
def update(cls, pairs, how):
    """update() assigns pair after pair."""
    if how == "pairs":
        assigns(lambda: updated(cls, pairs), (), pairs, (), "update")
    elif how == "iterator":
        assigns(lambda: updated(cls, (p for p in pairs)), (), pairs, (), "update")
    else:
        assigns(lambda: updated(cls, pairs, a="x", b="y"), (), pairs, (("a", "x"), ("b", "y")), "update")


def updated(cls, *a, **k):
    o = cls()
    o.update(*a, **k)
    return o


@lemma(LEMMAS, "construct from pairs", setup=over_contracts, pairs=Pairs(), how=Choice("pairs", "iterator", "names", "only names"))
def construct_pairs(pairs, how):
    """JSObject(pairs, name=value, ...) assigns the pairs, then the names."""
    if how == "pairs":
        assigns(lambda: JSObject(pairs), (), pairs, (), "new object")
    elif how == "iterator":
        assigns(lambda: JSObject((p for p in pairs)), (), pairs, (), "new object")
    elif how == "names":
        assigns(lambda: JSObject(pairs, a="x", b="y"), (), pairs, (("a", "x"), ("b", "y")), "new object")
    else:
        assigns(lambda: JSObject(a="x", b="y"), (), (), (("a", "x"), ("b", "y")), "new object")


@lemma(LEMMAS, "construct from elements", setup=over_contracts, l=c09.Holey(), how=Choice("plain", "names"))
def construct_elements(l, how):
    """JSArray(elements, name=value, ...) has the elements and holes for its indexes, then assigns the names."""
    if how == "plain":
        assigns(lambda: JSArray(l), l, (), (), "new array")
    else:
        assigns(lambda: JSArray(l, a="x", b="y"), l, (), (("a", "x"), ("b", "y")), "new array")


def some_key(I, o, cb):
    """Lemma "enumerate", for the first key: a key of the object; none only if it has no property."""
    E = I.E
    n, p, val = E.memo["state", o.attrs["array"].uid]
    d = o.attrs[names_in(o.cls)]
    if E.branch(z3.And(p.total(I) == 0, zi(d.n) == 0)):
        return
    if E.branch(p.total(I) > 0):
        i = E.fresh("first")
        E.assume(z3.And(i >= 0, i < zi(n), p.has(I, i)))
        holey.point(I, p, i)
        cb(mkint(i))
    else:
        cb(a_name(d.elem(I, z3.IntVal(0))[0]))
    raise Unsupported("more than the first key")


def first_keys(I):
    over_contracts(I)
    I.contracts[JSObject.__iter__] = lambda I, a, k: I.reg(SGen(lambda cb: some_key(I, a[0], cb), "keys"))


@lemma(LEMMAS, "pop item", setup=first_keys, o=Obj())
def pop_item(o):
    """popitem() takes out one of the properties; KeyError only without any."""
    l, d = c09.listing(o.array), names(o)
    try:
        k, v = o.popitem()
    except KeyError:
        prove(filled(l) + len(d) == 0, "popitem fails only on an empty object")
    else:
        there, value = current(l, d, k)
        prove(there and v is value, "popitem gives a property and its value")
        remove(l, d, k)
    represents(o, l, d, "popitem")


class Emptying(Obj):
    """An object of which only the number of properties is known; popitem() is known by its lemma."""

    def sym(self, I, name):
        n = z3.Int(name + ".size")
        I.E.assume(n >= 0)
        return I.new((JSObject, JSArray)[I.E.choose(2)], size=mkint(n))


def size_of(o):
    return len(o)


@model(size_of)
def _size_of(I, a, k):
    return a[0].attrs["size"]


def pops(I, a, k):
    """Lemma "pop item"."""
    o = a[0]
    n = ie(o.attrs["size"])
    if not I.E.branch(n > 0):
        raise PyRaise(I.new(KeyError, args=()))
    I.note(("a", o.uid, "size"))
    o.attrs["size"] = mkint(n - 1)
    return (holey.elem_val(I.E.fresh("key", Val)), holey.elem_val(I.E.fresh("value", Val)))


def popping(I):
    over_contracts(I)
    for cls in (JSObject, JSArray):
        I.contracts[cls.popitem] = pops


@lemma(LEMMAS, "clear", setup=popping, o=Emptying())
def clear(o):
    """clear() removes every property."""
    assume(all(c.clear is MutableMapping.clear for c in (JSObject, JSArray)))
    o.clear()
    prove(size_of(o) == 0, "clear removes every property")
