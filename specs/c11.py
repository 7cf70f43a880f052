"""C11: JSMap and JSSet against an insertion-ordered mapping over same-value-zero identity."""
import decimal
import math
from collections.abc import MutableSet

import z3

from native import c11 as N
from pyvc import omap
from pyvc.core import Infeasible, Unsupported
from pyvc.dual import *
from pyvc.interp import METHODS, ie, mkbool, mkint, model
from pyvc.loops import Fn
from pyvc.omap import Surr
from pyvc.rope import simp, zi
from pyvc.values import *
from v8serialize.jstypes import JSArray, JSMap, JSObject, JSSet, JSUndefined, same_value_zero
from v8serialize.jstypes.jsundefined import JSUndefinedEnum

LEMMAS = []

SVZ = z3.Function("identity_of", Val, z3.IntSort())      # same exactly when same-value-zero says so

# ---------------------------------------------------------------------------
# the rule, for every pair of kinds of values
# ---------------------------------------------------------------------------
NAN = z3.Function("is_nan", Val, z3.BoolSort())
INF = z3.Function("is_infinite", Val, z3.IntSort())        # -1, 0, 1
NUM = z3.Function("number_of", Val, z3.RealSort())         # of a finite float
OTHER = (object, list, tuple, dict, bytearray, complex, decimal.Decimal, JSObject, JSArray, frozenset, type)
KINDS = ("bool", "int", "float", "str", "bytes", "none", "undefined") + OTHER


POOL = N.pool() + N.pool()


class Any(Dom):
    """Any Python value; natively one of a pool with many equal and confusable values."""

    def __init__(self, kinds=None):
        self.kinds = kinds

    def sym(self, I, name):
        if self.kinds is None:
            return SVal(z3.Const(name, Val), None, {"not_none": True, "key": True})
        i = I.E.choose(len(self.kinds))
        k = self.kinds[i]
        if k == "bool":
            return I.bool_(name)
        if k == "int":
            return I.int_(name)
        if k == "float":
            v = I.val(name, float)
            I.E.assume(z3.And(INF(v.e) >= -1, INF(v.e) <= 1, z3.Implies(NAN(v.e), INF(v.e) == 0)))
            return v
        if k in ("str", "bytes"):
            return I.val(name, {"str": str, "bytes": bytes}[k])
        if k == "none":
            return None
        if k == "undefined":
            return JSUndefined
        return I.val(name, k)

    def edges(self):
        return []

    def rand(self, r):
        return r.choice(POOL)


def same(x, y):
    """The rule of the statement."""
    return N.kid(x) == N.kid(y)


@model(same)
def _same(I, a, k):
    x, y = a
    if getattr(I, "surrogates", False):
        return mkbool(identity(I, x) == identity(I, y))
    nx, ny = isinstance(x, (SInt, int)) and not isinstance(x, bool), isinstance(y, (SInt, int)) and not isinstance(y, bool)
    fx, fy = pyclass(x) is float, pyclass(y) is float
    if pyclass(x) is bool and pyclass(y) is bool:
        return mkbool(I.truth_term(x) == I.truth_term(y))
    if nx and ny:
        return mkbool(ie(x) == ie(y))
    if fx and fy:
        return mkbool(z3.Or(z3.And(NAN(x.e), NAN(y.e)), float_eq(x, y)))
    if (nx or fx) and (ny or fy):
        return mkbool(float_int(x, y) if fx else float_int(y, x))
    cx, cy = pyclass(x), pyclass(y)
    if cx is not cy or isinstance(x, (SInt, SBool)):
        return False
    if x is y:
        return True
    return mkbool(x.e == y.e)       # str, bytes: by value; objects: by identity


def float_eq(x, y):
    return z3.And(z3.Not(NAN(x.e)), z3.Not(NAN(y.e)), INF(x.e) == INF(y.e), z3.Or(INF(x.e) != 0, NUM(x.e) == NUM(y.e)))


def float_int(f, n):
    return z3.And(z3.Not(NAN(f.e)), INF(f.e) == 0, NUM(f.e) == z3.ToReal(ie(n)))


BY_VALUE = (bool, int, float, str, bytes, type(None), JSUndefinedEnum, tuple)


def opaque_eq(I, a, b):
    """== of builtin values: exact across int and float, NaN equal to nothing."""
    ca, cb = pyclass(a), pyclass(b)
    if not {ca, cb} <= set(BY_VALUE):
        raise Unsupported(f"== of {ca} and {cb}")
    num = (bool, int, float)
    if ca in num and cb in num:
        if ca is float and cb is float:
            if not isinstance(a, SVal) or not isinstance(b, SVal):
                c = a if isinstance(b, SVal) else b
                if c != c:
                    return False
                raise Unsupported("a float literal")
            return mkbool(float_eq(a, b))
        return mkbool(float_int(a, b) if ca is float else float_int(b, a))
    if ca is not cb:
        return False
    if isinstance(a, SVal) and isinstance(b, SVal):
        return mkbool(a.e == b.e)
    raise Unsupported("== of unlike representations")


@model(math.isnan)
def _isnan(I, a, k):
    if not has_sym(a):
        return I.native(math.isnan, a, k)
    if isinstance(a[0], SVal) and a[0].cls is float:
        return mkbool(NAN(a[0].e))
    if is_intlike(a[0]):
        if I.E.branch(z3.And(ie(a[0]) < 2 ** 1024 - 2 ** 970, ie(a[0]) > -2 ** 1024 + 2 ** 970)):
            return False
        I.raise_(OverflowError, "int too large to convert to float")
    raise Unsupported("isnan of something else")


@model(hash)
def _hash(I, a, k):
    """Only whether there is one; that equal builtin values hash equal is Python's own guarantee."""
    def ok(v):
        if isinstance(v, tuple):
            return all(ok(x) for x in v)
        c = pyclass(v)
        if c not in BY_VALUE and c is not type:
            raise Unsupported(f"hash of {c}")
        return True
    v = a[0]
    if pyclass(v) in (list, dict, bytearray, set):
        I.raise_(TypeError, "unhashable type")
    ok(v)
    return mkint(I.E.fresh("hash"))


def the_rule(I):
    I.opaque_eq = opaque_eq
    I.surrogates = False
    I.id_hook = lambda I, v: SInt(I.E.memo.setdefault(("id", repr(v)), z3.Int(f"id of {v!r}")))
    # id() of objects which exist at the same time: different for different objects
    I.E.add(z3.Function("id_val", Val, z3.IntSort())(z3.Const("x", Val)) >= 0)


def distinct_ids(x, y):
    """(fact of Python) two objects that exist have the same id only if they are one."""


@model(distinct_ids)
def _distinct_ids(I, a, k):
    x, y = a
    if isinstance(x, SVal) and isinstance(y, SVal):
        f = z3.Function("id_val", Val, z3.IntSort())
        I.E.assume((f(x.e) == f(y.e)) == (x.e == y.e))
        if x.cls is not y.cls:
            I.E.assume(x.e != y.e)


@lemma(LEMMAS, "same value zero", setup=the_rule, x=Any(KINDS), y=Any(KINDS), samples=3000)
def rule(x, y):
    """The surrogates of two values are equal exactly when same-value-zero says the values are the same; every surrogate is hashable."""
    distinct_ids(x, y)
    sx = same_value_zero(x)
    sy = same_value_zero(y)
    prove((sx == sy) == same(x, y), "surrogates are equal exactly for the same values")
    hash(sx)
    prove(sx == same_value_zero(x), "a surrogate is equal to another of the same value")


# ---------------------------------------------------------------------------
# maps: from any state reached so far, one more operation
# ---------------------------------------------------------------------------
def identity(I, v):
    e = SVZ(I.as_val(v))
    if isinstance(v, str):
        for w, x in I.E.memo.get("literals", ()):       # strings are the same by value
            I.E.axiom(("svz", w, v), (x == e) if w == v else (x != e))
        I.E.memo["literals"] = I.E.memo.get("literals", ()) + ((v, e),)
    return e


def surrogate(I, a, k):
    """same_value_zero(x) == same_value_zero(y) iff x and y are the same. Proved by lemma 'same value zero'."""
    return Surr(identity(I, a[0]))


def collections(I):
    I.surrogates = True
    I.contracts[same_value_zero] = surrogate
    I.dict_factory = omap.empty
    I.for_hook = omap.for_hook
    I.comp_handler = omap.comp_hook
    I.opaque_eq = None
    I.opaque_is = lambda I, a, b: False if type(b) is object else None     # (a new object of the lemma's)


class Entries(Dom):
    """A list of (key, value) of any length: the keys all different (`distinct`), or any."""

    def __init__(self, distinct=True, pairs=True):
        self.distinct, self.pairs = distinct, pairs

    def sym(self, I, name):
        n = z3.Int(name + ".n")
        I.E.assume(n >= 0)
        K, V = z3.Function(name + ".key", z3.IntSort(), Val), z3.Function(name + ".value", z3.IntSort(), Val)
        pos = z3.Function(name + ".pos", z3.IntSort(), z3.IntSort())

        def elem(i):
            i = zi(i)
            if self.distinct:
                I.E.assume(z3.Implies(z3.And(i >= 0, i < n), pos(SVZ(K(i))) == i))
            k, v = SVal(K(i), None, {"not_none": True, "key": True}), SVal(V(i), None, {"not_none": True})
            return (k, v) if self.pairs else k
        s = I.reg(SSeq(n, elem))
        I.E.memo["entries", s.uid] = (n, K, V, pos, self.distinct, name)
        return s

    def edges(self):
        return [[]]

    def rand(self, r):
        out, seen = [], set()
        for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9])):
            k = r.choice(POOL)
            if not self.distinct or N.kid(k) not in seen:
                seen.add(N.kid(k))
                out.append((k, r.choice(POOL[:20])) if self.pairs else k)
        return out


def key_of(x):
    return x[0] if type(x) is tuple and len(x) == 2 else x


class Idx(Small):
    def edges(self):
        return [0, 1, 2]

    def rand(self, r):
        return r.randrange(7)


def where(entries, q, pairs=True):
    """Index of the entry whose key is the same as q, or None."""
    for i, x in enumerate(entries):
        if same(x[0] if pairs else x, q):
            return i
    return None


@model(where)
def _where(I, a, k):
    n, K, V, pos, distinct, name = I.E.memo["entries", a[0].uid]
    e = identity(I, a[1])
    p = pos(e)
    if not distinct:            # the first
        facts(I, a[0], e)
        p = z3.Function(name + ".first", z3.IntSort(), z3.IntSort())(e)
    if I.E.branch(z3.And(p >= 0, p < n, SVZ(K(p)) == e)):
        if distinct:
            I.E.assume(pos(SVZ(K(p))) == p)
        omap.watch(I, p)
        return mkint(p)
    return None


def facts(I, s, e):
    """first(e) and last(e) are the first and the last index of e, for the indexes of interest."""
    n, K, V, pos, distinct, name = I.E.memo["entries", s.uid]
    first, last = (z3.Function(name + x, z3.IntSort(), z3.IntSort()) for x in (".first", ".last"))
    has = z3.And(first(e) >= 0, first(e) <= last(e), last(e) < n, SVZ(K(first(e))) == e, SVZ(K(last(e))) == e)
    I.E.assume(z3.Or(has, z3.And(first(e) == -1, last(e) == -1)))
    omap.query(I, ("where", name), e, lambda I, i, e: I.E.assume(
        z3.Implies(z3.And(i >= 0, i < n, SVZ(K(i)) == e), z3.And(has, first(e) <= i, i <= last(e)))))


def where_last(entries, q, pairs=True):
    """Index of the last entry whose key is the same as q, or None."""
    for i in range(len(entries) - 1, -1, -1):
        if same(entries[i][0] if pairs else entries[i], q):
            return i
    return None


@model(where_last)
def _where_last(I, a, k):
    n, K, V, pos, distinct, name = I.E.memo["entries", a[0].uid]
    if distinct:
        return _where(I, a, k)
    e = identity(I, a[1])
    facts(I, a[0], e)
    p = z3.Function(name + ".last", z3.IntSort(), z3.IntSort())(e)
    if I.E.branch(z3.And(p >= 0, p < n, SVZ(K(p)) == e)):
        omap.watch(I, p)
        return mkint(p)
    return None


def nth(iterable, i):
    """The i-th value of iterating."""
    for j, x in enumerate(iterable):
        if j == i:
            return x
    raise AssertionError("too few values")


@model(nth)
def _nth(I, a, k):
    it, i = a
    found = []
    before = [z3.IntVal(0)]

    def at(n, get):
        if found:
            return
        j = simp(zi(ie(i)) - before[0])
        if I.E.branch(z3.And(zi(j) >= 0, zi(j) < zi(n))):
            found.append(get(zi(j)))
        before[0] = before[0] + zi(n)

    def bulk(t):
        if not t.always:
            raise Unsupported("an element of a filtered iteration")
        at(t.n, t.again)
    omap.run_captured(I, it, lambda v: at(1, lambda j: v), bulk)
    if not found:
        I.E.prove(False, "iteration gives as many values as there are entries")
        raise Infeasible
    return found[0]


def watch(i):
    """(proof hint) entry i of the inputs is spoken about."""


@model(watch)
def _watch(I, a, k):
    if a[0] is not None:
        omap.watch(I, ie(a[0]))


def lookup(m, q):
    """(found, value) of m[q]."""
    try:
        return (True, m[q])
    except KeyError:
        return (False, None)


def agrees(m, q, there, value, label):
    """Lookup of q finds value, or nothing, in every way there is to look."""
    got = lookup(m, q)
    default = object()
    prove(got[0] == there, f"{label}: lookup finds a key exactly when it is there")
    prove((q in m) == there, f"{label}: membership")
    if there:
        prove(got[1] is value, f"{label}: lookup gives the value")
        prove(m.get(q) is value, f"{label}: get gives the value")
        prove(m.get(q, default) is value, f"{label}: get with a default gives the value")
    else:
        prove(m.get(q) is None, f"{label}: get gives None for an absent key")
        prove(m.get(q, default) is default, f"{label}: get gives the default for an absent key")


def entry(m, i, key, value, label):
    """Iteration gives key and value at position i."""
    prove(same(nth(m, i), key), f"{label}: iteration order of keys")
    prove(same(nth(m.keys(), i), key), f"{label}: keys() order")
    prove(nth(m.values(), i) is value, f"{label}: values() order")
    kv = nth(m.items(), i)
    prove(same(kv[0], key) and kv[1] is value, f"{label}: items() order")


def unchanged(m, entries, q, i, label):
    j = where(entries, q)
    prove(len(m) == len(entries), f"{label}: size")
    agrees(m, q, j is not None, entries[j][1] if j is not None else None, label)
    if i < len(entries):
        entry(m, i, entries[i][0], entries[i][1], label)


@lemma(LEMMAS, "map of entries", setup=collections, entries=Entries(), q=Any(), i=Idx(0), how=Choice("list", "iterator", "map"))
def map_init(entries, q, i, how):
    """A map made from entries has them in order."""
    watch(i)
    if how == "list":
        m = JSMap(entries)
    elif how == "iterator":
        m = JSMap((k, v) for k, v in entries)
    else:
        m = JSMap(JSMap(entries))
    unchanged(m, entries, q, i, "a new map")


@lemma(LEMMAS, "map set", setup=collections, entries=Entries(), k=Any(), v=Any(), q=Any(), i=Idx(0))
def map_set(entries, k, v, q, i):
    """m[k] = v replaces the value in place, or adds at the end."""
    watch(i)
    m = JSMap(entries)
    m[k] = v
    assigned(m, entries, k, v, q, i, "after assignment")


def assigned(m, entries, k, v, q, i, label):
    j, p = where(entries, k), where(entries, q)
    n = len(entries)
    prove(len(m) == (n + 1 if j is None else n), f"{label}: size")
    agrees(m, k, True, v, label)
    if same(q, k):
        agrees(m, q, True, v, label)
    else:
        agrees(m, q, p is not None, entries[p][1] if p is not None else None, label)
    if i < n:
        entry(m, i, entries[i][0], v if i == j else entries[i][1], label)
    elif i == n and j is None:
        entry(m, i, k, v, label)


def removed(m, entries, j, q, i, label):
    """Entry j is gone."""
    p = where(entries, q)
    n = len(entries)
    prove(len(m) == n - 1, f"{label}: size")
    there = p is not None and p != j
    agrees(m, q, there, entries[p][1] if there else None, label)
    if i < n - 1:
        o = i if i < j else i + 1
        entry(m, i, entries[o][0], entries[o][1], label)


@lemma(LEMMAS, "map remove", setup=collections, entries=Entries(), k=Any(), q=Any(), i=Idx(0), how=Choice("del", "pop", "pop default"))
def map_remove(entries, k, q, i, how):
    """del m[k], m.pop(k) and m.pop(k, default) remove the entry, or report that there is none and change nothing."""
    watch(i)
    watch(i + 1)
    m = JSMap(entries)
    j = where(entries, k)
    default = object()
    missing, got = False, None
    try:
        if how == "del":
            del m[k]
        elif how == "pop":
            got = m.pop(k)
        else:
            got = m.pop(k, default)
    except KeyError:
        missing = True
    prove(missing == (j is None and how != "pop default"), "removing an absent key is a KeyError, of a present one is not")
    if how == "pop default" and j is None:
        prove(got is default, "pop of an absent key gives the default")
    if how != "del" and j is not None:
        prove(got is entries[j][1], "pop gives the value")
    if j is None:
        unchanged(m, entries, q, i, "after removing nothing")
    else:
        removed(m, entries, j, q, i, "after removal")


@lemma(LEMMAS, "map setdefault", setup=collections, entries=Entries(), k=Any(), v=Any(), q=Any(), i=Idx(0))
def map_setdefault(entries, k, v, q, i):
    """setdefault keeps a value which is there and adds one which is not."""
    watch(i)
    m = JSMap(entries)
    j = where(entries, k)
    got = m.setdefault(k, v)
    if j is None:
        prove(got is v, "setdefault gives the default it added")
        assigned(m, entries, k, v, q, i, "after setdefault of an absent key")
    else:
        prove(got is entries[j][1], "setdefault gives the value there was")
        unchanged(m, entries, q, i, "after setdefault of a present key")


@lemma(LEMMAS, "map popitem", setup=collections, entries=Entries(), q=Any(), i=Idx(0))
def map_popitem(entries, q, i):
    """popitem removes one entry and returns it; an empty map reports it has none."""
    watch(i)
    watch(i + 1)
    m = JSMap(entries)
    empty, kv = False, None
    try:
        kv = m.popitem()
    except KeyError:
        empty = True
    prove(empty == (len(entries) == 0), "popitem of an empty map is a KeyError, and only then")
    if not empty:
        j = where(entries, kv[0])
        prove(j is not None and kv[1] is entries[j][1], "popitem gives an entry of the map")
        removed(m, entries, j, q, i, "after popitem")


@lemma(LEMMAS, "map clear", setup=collections, entries=Entries(), k=Any(), v=Any(), q=Any())
def map_clear(entries, k, v, q):
    """clear removes everything; the map can be used again."""
    m = JSMap(entries)
    m.clear()
    prove(len(m) == 0, "a cleared map is empty")
    agrees(m, q, False, None, "a cleared map")
    m[k] = v
    prove(len(m) == 1, "a cleared map takes entries again")
    agrees(m, q, same(q, k), v, "a cleared map takes entries again")
    entry(m, 0, k, v, "a cleared map takes entries again")


class KeysOnly:
    """What dict.update takes: keys() and []."""

    def __init__(self, map):
        self.map = map

    def keys(self):
        return self.map.keys()

    def __getitem__(self, k):
        return self.map[k]


def updating(entries, more, how):
    if how == "constructor":
        assume(len(entries) == 0)
        return JSMap(more)
    m = JSMap(entries)
    if how == "update":
        m.update(more)
    elif how == "iterator":
        m.update((k, v) for k, v in more)
    elif how == "map":
        m.update(JSMap(more))
    else:
        m.update(KeysOnly(JSMap(more)))
    return m


UPDATES = (("pairs", Entries(distinct=False), Choice("update", "iterator", "constructor")), ("maps", Entries(), Choice("map", "keys")))

for what, source, how in UPDATES:
    @lemma(LEMMAS, f"map update from {what}: lookup", setup=collections, entries=Entries(), more=source, q=Any(), how=how)
    def map_update_lookup(entries, more, q, how):
        """After a bulk update, with keys in any number and order, a key has its last value."""
        m = updating(entries, more, how)
        p, l = where(entries, q), where_last(more, q)
        agrees(m, q, p is not None or l is not None,
               more[l][1] if l is not None else entries[p][1] if p is not None else None, "after an update")
        prove(len(m) >= len(entries), "after an update: no entry is lost")
        prove(len(m) <= len(entries) + len(more), "after an update: no more entries than were given")

    @lemma(LEMMAS, f"map update from {what}: entries there were", setup=collections, entries=Entries(), more=source, i=Idx(0), how=how)
    def map_update_old(entries, more, i, how):
        """Entries there were keep their places, with their last value."""
        watch(i)
        m = updating(entries, more, how)
        assume(i < len(entries))
        o = where_last(more, entries[i][0])
        entry(m, i, entries[i][0], entries[i][1] if o is None else more[o][1], "after an update, an entry there was")

    @lemma(LEMMAS, f"map update from {what}: entries added", setup=collections, entries=Entries(), more=source, i=Idx(0), how=how)
    def map_update_new(entries, more, i, how):
        """What is added has its last value."""
        watch(i)
        m = updating(entries, more, how)
        assume(len(entries) <= i)
        assume(i < len(m))
        k = nth(m, i)
        f = where(more, k)
        prove(f is not None, "after an update: what is added comes from the update")
        prove(where(entries, k) is None, "after an update: no key is there twice")
        entry(m, i, more[f][0], more[where_last(more, k)][1], "after an update, an added entry")

    @lemma(LEMMAS, f"map update from {what}: order of added", setup=collections, entries=Entries(), more=source, i=Idx(0), j=Idx(0), how=how)
    def map_update_order(entries, more, i, j, how):
        """What is added is in the order of its first mention."""
        watch(i)
        watch(j)
        m = updating(entries, more, how)
        assume(len(entries) <= i)
        assume(i < j)
        assume(j < len(m))
        f, g = where(more, nth(m, i)), where(more, nth(m, j))
        prove(f is not None and g is not None, "after an update: what is added comes from the update")
        prove(f < g, "after an update: added entries are in the order of their first mention")


@lemma(LEMMAS, "map keywords", setup=collections, entries=Entries(), v=Any(), w=Any(), q=Any(), i=Idx(0), how=Choice("constructor", "update", "update with both"))
def map_keywords(entries, v, w, q, i, how):
    """Keyword arguments are entries with string keys, after the others."""
    watch(i)
    if how == "constructor":
        m = JSMap(entries, a=v, b=w)
    elif how == "update with both":
        m = JSMap()
        m.update(entries, a=v, b=w)
    else:
        m = JSMap(entries)
        m.update(a=v, b=w)
    n = len(entries)
    a, b, p = where(entries, "a"), where(entries, "b"), where(entries, q)
    prove(len(m) == n + (1 if a is None else 0) + (1 if b is None else 0), "keywords: size")
    agrees(m, "a", True, v, "keywords")
    agrees(m, "b", True, w, "keywords")
    if not same(q, "a") and not same(q, "b"):
        agrees(m, q, p is not None, entries[p][1] if p is not None else None, "keywords, another key")
    if i < n:
        entry(m, i, entries[i][0], v if i == a else w if i == b else entries[i][1], "keywords, an entry there was")
    elif i == n and a is None:
        entry(m, i, "a", v, "keywords, the first added")
    elif i == len(m) - 1 and b is None:
        entry(m, i, "b", w, "keywords, the last added")


# ---------------------------------------------------------------------------
# sets
# ---------------------------------------------------------------------------
Members = lambda distinct=True: Entries(distinct, pairs=False)


def set_unchanged(s, members, q, i, label):
    j = where(members, q, False)
    prove(len(s) == len(members), f"{label}: size")
    prove((q in s) == (j is not None), f"{label}: membership")
    if i < len(members):
        prove(same(nth(s, i), members[i]), f"{label}: order")


@lemma(LEMMAS, "set of members", setup=collections, members=Members(), q=Any(), i=Idx(0), how=Choice("list", "iterator", "set", "|="))
def set_init(members, q, i, how):
    """A set made from members has them in order."""
    watch(i)
    if how == "list":
        s = JSSet(members)
    elif how == "iterator":
        s = JSSet(x for x in members)
    elif how == "set":
        s = JSSet(JSSet(members))
    else:
        s = JSSet()
        s |= members
    set_unchanged(s, members, q, i, "a new set")


@lemma(LEMMAS, "set add", setup=collections, members=Members(), v=Any(), q=Any(), i=Idx(0))
def set_add(members, v, q, i):
    """add puts a new member at the end; a member which is there keeps its place."""
    watch(i)
    s = JSSet(members)
    s.add(v)
    j = where(members, v, False)
    n = len(members)
    if j is not None:
        set_unchanged(s, members, q, i, "after adding a member which is there")
    else:
        prove(len(s) == n + 1, "after adding: size")
        prove(v in s, "after adding: the member is there")
        prove((q in s) == (same(q, v) or where(members, q, False) is not None), "after adding: membership")
        if i < n:
            prove(same(nth(s, i), members[i]), "after adding: order")
        elif i == n:
            prove(same(nth(s, i), v), "after adding: the new member is last")


def set_removed(s, members, j, q, i, label):
    n = len(members)
    p = where(members, q, False)
    prove(len(s) == n - 1, f"{label}: size")
    prove((q in s) == (p is not None and p != j), f"{label}: membership")
    if i < n - 1:
        prove(same(nth(s, i), members[i if i < j else i + 1]), f"{label}: order")


@lemma(LEMMAS, "set remove", setup=collections, members=Members(), v=Any(), q=Any(), i=Idx(0), how=Choice("discard", "remove"))
def set_remove(members, v, q, i, how):
    """discard and remove take a member out; an absent one is ignored or reported, and nothing changes."""
    watch(i)
    watch(i + 1)
    s = JSSet(members)
    j = where(members, v, False)
    missing = False
    try:
        if how == "discard":
            s.discard(v)
        else:
            s.remove(v)
    except KeyError:
        missing = True
    prove(missing == (how == "remove" and j is None), "removing an absent member is a KeyError, discarding it is not")
    if j is None:
        set_unchanged(s, members, q, i, "after removing nothing")
    else:
        set_removed(s, members, j, q, i, "after removal")


@lemma(LEMMAS, "set pop", setup=collections, members=Members(), q=Any(), i=Idx(0))
def set_pop(members, q, i):
    """pop takes out one member; an empty set reports it has none."""
    watch(i)
    watch(i + 1)
    s = JSSet(members)
    empty, v = False, None
    try:
        v = s.pop()
    except KeyError:
        empty = True
    prove(empty == (len(members) == 0), "pop from an empty set is a KeyError, and only then")
    if not empty:
        j = where(members, v, False)
        prove(j is not None, "pop gives a member")
        set_removed(s, members, j, q, i, "after pop")


@lemma(LEMMAS, "set clear", setup=collections, members=Members(), v=Any(), q=Any())
def set_clear(members, v, q):
    """clear removes everything; the set can be used again."""
    s = JSSet(members)
    s.clear()
    prove(len(s) == 0, "a cleared set is empty")
    prove(not (q in s), "a cleared set has no member")
    s.add(v)
    prove(len(s) == 1 and (q in s) == same(q, v), "a cleared set takes members again")


def other_of(more, form):
    return more if form == "list" else JSSet(more)


@lemma(LEMMAS, "set update: membership", setup=collections, members=Members(), more=Members(False), q=Any(), how=Choice("|=", "constructor"))
def set_update(members, more, q, how):
    """Adding many, of any number and order, also of equal ones."""
    if how == "constructor":
        assume(len(members) == 0)
        s = JSSet(more)
    else:
        s = JSSet(members)
        s |= more
    prove((q in s) == (where(members, q, False) is not None or where(more, q, False) is not None), "after |=: membership")
    prove(len(s) >= len(members), "after |=: no member is lost")
    prove(len(s) <= len(members) + len(more), "after |=: no more members than were given")


@lemma(LEMMAS, "set update: order", setup=collections, members=Members(), more=Members(False), i=Idx(0), j=Idx(0))
def set_update_order(members, more, i, j):
    """Members there were keep their places; those added follow in the order of their first mention."""
    watch(i)
    watch(j)
    s = JSSet(members)
    s |= more
    if i < len(members):
        prove(same(nth(s, i), members[i]), "after |=: members there were keep their places")
    else:
        assume(i < j)
        assume(j < len(s))
        f, g = where(more, nth(s, i), False), where(more, nth(s, j), False)
        prove(f is not None and g is not None, "after |=: what is added comes from the update")
        prove(where(members, nth(s, i), False) is None, "after |=: no member is there twice")
        prove(f < g, "after |=: added members are in the order of their first mention")


def combined(op, a, b):
    """a op b, where b may be any iterable."""
    if op == "|":
        return a | b
    if op == "&":
        return a & b
    if op == "-":
        return a - b
    return a ^ b


@lemma(LEMMAS, "set operators", setup=collections, members=Members(), more=Members(), q=Any(), op=Choice("|", "&", "-"), form=Choice("set", "list"))
def set_operators(members, more, q, op, form):
    """|, & and - with a set or another iterable have the members the operation says; the operands are unchanged."""
    a = JSSet(members)
    b = other_of(more, form)
    r = combined(op, a, b)
    p, m = where(members, q, False) is not None, where(more, q, False) is not None
    want = p or m if op == "|" else p and m if op == "&" else p and not m if op == "-" else p != m
    prove((q in a) == p, "an operand of a set operator is unchanged")
    prove(len(a) == len(members), "an operand of a set operator is unchanged")
    if form == "set":
        prove((q in b) == m, "an operand of a set operator is unchanged")
    prove((q in r) == want, f"{op}: membership")


@lemma(LEMMAS, "set operators: no duplicates", setup=collections, members=Members(), more=Members(), i=Idx(0), j=Idx(0), op=Choice("|", "&", "-", "^"))
def set_operators_distinct(members, more, i, j, op):
    """The result of an operator has no member twice, and none from elsewhere."""
    watch(i)
    watch(j)
    r = combined(op, JSSet(members), JSSet(more))
    assume(i < j)
    assume(j < len(r))
    x, y = nth(r, i), nth(r, j)
    prove(not same(x, y), f"{op}: no member is there twice")
    prove(where(members, x, False) is not None or where(more, x, False) is not None, f"{op}: members come from the operands")


@lemma(LEMMAS, "set isdisjoint", setup=collections, members=Members(), more=Members(), q=Any(), form=Choice("set", "list"))
def set_disjoint(members, more, q, form):
    """isdisjoint says whether there is no common member."""
    p = where(more, q, False)
    if p is not None:
        instantiate_loops_at(p)
    a = JSSet(members)
    prove((q in a) == (where(members, q, False) is not None), "membership")
    got = a.isdisjoint(other_of(more, form))
    if p is not None and where(members, q, False) is not None:
        prove(not got, "sets with a common member are not disjoint")


def included(members, more):
    """more, with all of members among them."""
    return more + [x for x in members if where(more, x, False) is None]


@model(included)
def _included(I, a, k):
    few, many = (I.E.memo["entries", s.uid] for s in a)
    on_access(I, a[0], lambda i: member(many, SVZ(few[1](i))))
    I.E.memo["speaks about"] = I.E.memo.get("speaks about", ()) + (many[3],)     # at a key of interest, of its place in more
    I.E.assume(few[0] <= many[0])       # of two sets of different members (pigeonhole principle)
    return a[1]


def apart(members, more):
    """more, without any of members."""
    return [x for x in more if where(members, x, False) is None]


@model(apart)
def _apart(I, a, k):
    for s, o in (a, a[::-1]):
        s, o, seq = I.E.memo["entries", s.uid], I.E.memo["entries", o.uid], s
        on_access(I, seq, lambda i, s=s, o=o: z3.Not(member(o, SVZ(s[1](i)))))
    return a[1]


def on_access(I, seq, fact):
    """fact(i) holds of every entry i."""
    n, elem = seq.n0, seq.elem

    def get(i):
        I.E.assume(z3.Implies(z3.And(zi(i) >= 0, zi(i) < zi(n)), fact(zi(i))))
        return elem(i)
    seq.elem = get


@lemma(LEMMAS, "set disjoint", setup=collections, members=Members(), more=Members(), form=Choice("set", "list"))
def sets_apart(members, more, form):
    """Sets without a common member are disjoint."""
    more = apart(members, more)
    prove(JSSet(members).isdisjoint(other_of(more, form)), "sets without a common member are disjoint")


@lemma(LEMMAS, "subset", setup=collections, members=Members(), more=Members())
def subset(members, more):
    """A set all of whose members are in another is <= it, and < it if they are fewer; and the other way round."""
    more = included(members, more)
    a, b = JSSet(members), JSSet(more)
    fewer = len(members) < len(more)
    prove(a <= b, "<=: all members are in the other")
    prove(b >= a, ">=: all members of the other are in it")
    prove((a < b) == fewer, "<: and there are fewer")
    prove((b > a) == fewer, ">: and there are more")
    if fewer:
        prove(not (b <= a) and not (a >= b), "a set with more members is not <=")


@lemma(LEMMAS, "not a subset", setup=collections, members=Members(), more=Members(), i=Idx(0))
def not_subset(members, more, i):
    """A set with a member which is not in the other is neither <= nor < it; and the other way round."""
    assume(i < len(members))
    assume(where(more, members[i], False) is None)
    watch(i)
    instantiate_loops_at(i)
    a, b = JSSet(members), JSSet(more)
    prove(members[i] in a and members[i] not in b, "membership")
    prove(not (a <= b), "<=: a member is not in the other")
    prove(not (b >= a), ">=: a member of the other is not in it")
    prove(not (a < b), "<: a member is not in the other")
    prove(not (b > a), ">: a member of the other is not in it")


# ---------------------------------------------------------------------------
# in-place operators: the mix-in's loops over the contracts of the single operations
# ---------------------------------------------------------------------------
class Watched(JSSet):
    """A set; symbolically known only by whether one arbitrary value q is a member."""

    def add(self, value):
        super().add(value)

    def discard(self, value):
        super().discard(value)

    def clear(self):
        super().clear()

    def __contains__(self, value):
        return super().__contains__(value)

    def __sub__(self, other):
        return super().__sub__(other)

    def __or__(self, other):
        return super().__or__(other)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)


def watched(members, q, more):
    return Watched(members)


@model(watched)
def _watched(I, a, k):
    E = I.E
    E.memo["q"] = identity(I, a[1])
    E.memo["more"] = more = E.memo["entries", a[2].uid]
    E.memo["walked"] = (more,)
    o = I.new(Watched, q_in=mkbool(member(E.memo["entries", a[0].uid], E.memo["q"])))
    for s in (a[0], a[2]):
        n, K, V, pos, distinct, name = E.memo["entries", s.uid]
        p = pos(E.memo["q"])
        E.assume(z3.Implies(z3.And(p >= 0, p < n, SVZ(K(p)) == E.memo["q"]), pos(SVZ(K(p))) == p))
        omap.watch(I, p)
    return o


def member(entries, e, upto=None):
    """Is e the identity of one of the (first `upto`) entries, all different?"""
    n, K, V, pos = entries[:4]
    p = pos(e)
    return z3.And(p >= 0, p < (n if upto is None else upto), SVZ(K(p)) == e)


def ghost(o):
    if "q_in" not in o.attrs:
        raise Unsupported("a set known otherwise")
    v = o.attrs["q_in"]
    return z3.BoolVal(v) if isinstance(v, bool) else v.e


def becomes(I, o, t):
    I.note(("a", o.uid, "q_in"))
    o.attrs["q_in"] = mkbool(z3.simplify(t))


def w_add(I, a, k):
    """Lemma "set add"."""
    becomes(I, a[0], z3.Or(ghost(a[0]), identity(I, a[1]) == I.E.memo["q"]))


def w_discard(I, a, k):
    """Lemma "set remove"."""
    becomes(I, a[0], z3.And(ghost(a[0]), identity(I, a[1]) != I.E.memo["q"]))


def w_clear(I, a, k):
    """Lemma "set clear"."""
    becomes(I, a[0], z3.BoolVal(False))


def w_contains(I, a, k):
    """Lemma "set of members": membership is a function of the value's identity."""
    g = ghost(a[0])
    return mkbool(z3.If(identity(I, a[1]) == I.E.memo["q"], g, I.E.fresh("other in", z3.BoolSort())))


def w_sub(I, a, k):
    """Lemma "set operators": the members of the difference, all different; q is one as the operands say."""
    E = I.E
    u = E.fresh_id("difference")
    n = z3.Int(f"n:{u}")
    K, pos = z3.Function(f"key:{u}", z3.IntSort(), Val), z3.Function(f"pos:{u}", z3.IntSort(), z3.IntSort())
    d = (n, K, K, pos, True, u)
    g, q = ghost(a[0]), E.memo["q"]
    if a[1] is a[0]:
        there = z3.BoolVal(False)
    elif E.memo["operand"] == a[1].uid:
        there = z3.And(g, z3.Not(member(E.memo["more"], q)))
    else:
        raise Unsupported("difference with another set")
    E.assume(z3.And(n >= 0, member(d, q) == there))

    def elem(i):
        i = zi(i)
        E.assume(z3.Implies(z3.And(i >= 0, i < n), pos(SVZ(K(i))) == i))
        return SVal(K(i), None, {"not_none": True, "key": True})
    E.memo["walked"] = E.memo["walked"] + (d,)
    return I.reg(SSeq(n, elem))


def walk(I, loc, v0, v1, ctx):
    """Candidate invariants of the membership of q, after the first k elements of a sequence of different ones."""
    if loc[0] != "a" or loc[2] != "q_in":
        return None
    out, q = [], I.E.memo["q"]
    t = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.e
    for s in I.E.memo["walked"]:
        out.append(Fn(lambda I, k, v0, s=s: mkbool(z3.And(t(v0), z3.Not(member(s, q, zi(k))))), "removed so far"))
        out.append(Fn(lambda I, k, v0, s=s: mkbool(z3.Xor(t(v0), member(s, q, zi(k)))), "exchanged so far"))
        out.append(Fn(lambda I, k, v0, s=s: mkbool(z3.Or(t(v0), member(s, q, zi(k)))), "added so far"))
    return out


def in_place_setup(I):
    collections(I)
    I.for_hook = None
    I.loop_hints = [walk]
    for f, h in ((Watched.add, w_add), (Watched.discard, w_discard), (Watched.clear, w_clear), (Watched.__contains__, w_contains),
                 (Watched.__sub__, w_sub)):
        I.contracts[f] = h


def operand(o):
    return o


@model(operand)
def _operand(I, a, k):
    I.E.memo["operand"] = a[0].uid
    return a[0]


@lemma(LEMMAS, "set in-place operators", setup=in_place_setup, members=Members(), more=Members(), q=Any(), op=Choice("&", "-", "^"),
       form=Choice("list", "set", "self"))
def set_in_place(members, more, q, op, form):
    """&=, -= and ^= with a set, another iterable or the set itself change the set itself as the operation says."""
    assume(all(getattr(JSSet, f) is getattr(MutableSet, f) for f in ("__iand__", "__isub__", "__ixor__")))
    p, m = where(members, q, False) is not None, where(more, q, False) is not None
    s = watched(members, q, more)
    b = s if form == "self" else operand(other_of(more, form))
    r = s
    if op == "&":
        r &= b
    elif op == "-":
        r -= b
    else:
        r ^= b
    prove(r is s, f"{op}=: it is the set itself that changes")
    if form == "self":
        m = p
    prove((q in s) == (p and m if op == "&" else p and not m if op == "-" else p != m), f"{op}=: membership")


def other_watched(members, form):
    return members if form == "list" else Watched(members)


@model(other_watched)
def _other_watched(I, a, k):
    I.E.memo["operand"] = a[0].uid
    return a[0] if a[1] == "list" else I.new(Watched, q_in=mkbool(member(I.E.memo["more"], I.E.memo["q"])))


def xor_setup(I):
    collections(I)

    def made(I, a, k):
        """Lemma "set of members"."""
        if getattr(a[-1], "uid", None) != I.E.memo["operand"]:
            raise Unsupported("a set made from something else")
        return I.new(Watched, q_in=mkbool(member(I.E.memo["more"], I.E.memo["q"])))
    for f, h in ((Watched.__contains__, w_contains), (Watched._from_iterable.__func__, made),
                 (Watched.__sub__, lambda I, a, k: I.new(Watched, q_in=mkbool(z3.And(ghost(a[0]), z3.Not(ghost(a[1])))))),
                 (Watched.__or__, lambda I, a, k: I.new(Watched, q_in=mkbool(z3.Or(ghost(a[0]), ghost(a[1])))))):
        I.contracts[f] = h


@lemma(LEMMAS, "set operators: ^", setup=xor_setup, members=Members(), more=Members(), q=Any(), form=Choice("set", "list"))
def set_xor(members, more, q, form):
    """^ has the members of exactly one operand, by the lemma "set operators" for its steps."""
    assume(JSSet.__xor__ is MutableSet.__xor__)
    p, m = where(members, q, False) is not None, where(more, q, False) is not None
    s = watched(members, q, more)
    o = other_watched(more, form)
    r = s ^ o
    prove((q in r) == (p != m), "^: membership")
    prove((q in s) == p, "an operand of a set operator is unchanged")
