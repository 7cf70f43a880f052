"""C09: dense and sparse array storage against one list with holes.

The abstract state of a storage is a list of elements and holes.  Each operation of each class is
verified for every state of its representation: the result and the representation afterwards are
those of the list operation.  Operations inherited from the collections.abc mix-ins are verified
once, over the contracts of the operations they call.
"""
import itertools
from collections.abc import MutableSequence, Sequence

import z3

from pyvc import holey, runs
from pyvc.core import Infeasible, Unsupported
from pyvc.dual import *
from pyvc.interp import PyRaise, ie, is_intlike, method, mkbool, mkint, model
from pyvc.loops import Fn
from pyvc.omap import run_captured
from pyvc.rope import simp, zi
from pyvc.values import *
from v8serialize._typing import Order
from v8serialize.jstypes import JSHole
from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties

LEMMAS = []
BOTH = (DenseArrayProperties, SparseArrayProperties)
LIMIT = 2 ** 32 - 1


# ---------------------------------------------------------------------------
# domains
# ---------------------------------------------------------------------------
def contents(r):
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 9, 20])
    p = r.choice([0, .2, .5, .8, 1])
    return [JSHole if r.random() < p else f"e{r.randrange(10 ** 6)}" for _ in range(n)]


class Holey(Dom):
    """A list of elements and holes, of any length up to `limit`."""

    def __init__(self, limit=LIMIT):
        self.limit = limit

    def sym(self, I, name):
        p, val = holey.fresh_list(I, name)
        if self.limit is not None:
            I.E.assume(p.n <= self.limit)
        l = holey.hlist(I, p, val)
        I.E.memo["sources"] = I.E.memo.get("sources", ()) + (l.snapshot(),)
        return l

    def rand(self, r):
        return contents(r)


def roles(o, **tests):
    """role -> the name of o's attribute whose contents pass the role's test, whatever it is called."""
    names = {}
    for c in type(o).__mro__:
        slots = c.__dict__.get("__slots__", ())
        for n in (slots,) if isinstance(slots, str) else slots:
            names[f"_{c.__name__.lstrip('_')}{n}" if n.startswith("__") and not n.endswith("__") else n] = None
    names.update(getattr(o, "__dict__", {}))
    out = {}
    for role, test in tests.items():
        found = []
        for n in names:
            try:
                if test(getattr(o, n)):
                    found.append(n)
            except AttributeError:
                pass
        out[role] = found[0] if len(found) == 1 else None
    return out


def layout(cls):
    """The attributes in which the current code keeps a storage's list or dict, its element count, key order and last index."""
    if cls not in LAYOUT:
        try:
            if cls is DenseArrayProperties:
                LAYOUT[cls] = roles(cls([7, JSHole, 9]), items=lambda v: type(v) is list and v == [7, JSHole, 9],
                                    used=lambda v: type(v) is int and v == 2)
            else:
                o = cls(entries=[(2, 7), (5, 9)], length=9)
                list(o.keys() if hasattr(o, "keys") else o.element_indexes())
                LAYOUT[cls] = roles(o, items=lambda v: type(v) is dict and v == {2: 7, 5: 9}, last=lambda v: type(v) is int and v == 8,
                                    order=lambda v: type(v) is list and v == [2, 5])
        except Exception:
            LAYOUT[cls] = {}
    if not LAYOUT[cls] or None in LAYOUT[cls].values():
        raise Unsupported(f"representation of {cls.__name__}")
    return LAYOUT[cls]


LAYOUT = {}


def new_dense(I, cls, items, used):
    r = layout(cls)
    return I.given(cls, {r["items"]: items, r["used"]: used})


def new_sparse(I, cls, items, order, last):
    r = layout(cls)
    return I.given(cls, {r["items"]: items, r["order"]: order, r["last"]: last})


class Storage(Dom):
    """Any state of a storage which its representation invariant admits."""

    def __init__(self, limit=LIMIT, kinds=BOTH):
        self.limit, self.kinds = limit, kinds

    def sym(self, I, name):
        p, val = holey.fresh_list(I, name)
        I.E.assume(p.n <= self.limit)
        cls = self.kinds[I.E.choose(len(self.kinds))]
        l = (p.n, p, val)
        if cls is DenseArrayProperties:
            o = new_dense(I, cls, holey.hlist(I, p, val), mkint(p.total(I)))
        else:
            cached = I.reg(holey.Asc(p)) if I.E.choose(2) else None
            o = new_sparse(I, cls, I.reg(holey.UMap(p, val)), cached, mkint(p.n - 1))
        I.E.memo["state", o.uid] = l
        return o

    def rand(self, r):
        a = r.choice(self.kinds)(contents(r))
        for _ in range(r.randrange(3)):
            k = r.randrange(4)
            if k == 0:
                list(a.element_indexes())
            elif k == 1 and len(a):
                a[r.randrange(len(a))] = r.choice([JSHole, "s"])
            elif k == 2:
                a.resize(len(a) + r.randrange(3))
            elif len(a):
                a.pop(r.randrange(len(a)))
        return a


class Item(Dom):
    """A hole or an element."""

    def __init__(self, holes=True):
        self.holes = holes

    def sym(self, I, name):
        if self.holes and I.E.choose(2):
            return JSHole
        return holey.elem_val(z3.Const(name, Val))

    def rand(self, r):
        return JSHole if self.holes and r.random() < .4 else f"i{r.randrange(10 ** 6)}"


class Index(Dom):
    def sym(self, I, name):
        return I.int_(name)

    def edges(self):
        return [0, -1, 1]

    def rand(self, r):
        return r.randrange(-8, 9)


# ---------------------------------------------------------------------------
# vocabulary
# ---------------------------------------------------------------------------
def listing(a):
    """The abstract state of a storage: a list of elements and holes."""
    return [a[i] for i in range(len(a))]


@model(listing)
def _listing(I, a, k):
    n, p, val = I.E.memo["state", a[0].uid]
    return holey.hlist(I, p, val)


def matches(a, l, label):
    """The storage represents the list l, and every observation of it says so."""
    if len(a) != len(l):
        raise Violated(label + ": length", f"{len(a)} want {len(l)}")
    got = [a[i] for i in range(len(a))]
    if any(x is not y for x, y in zip(got, l)):
        raise Violated(label + ": elements", f"{got!r} want {l!r}")
    if any(x is not y for x, y in itertools.zip_longest(a, l)):
        raise Violated(label + ": iteration", f"{list(a)!r} want {l!r}")
    idx = [i for i, v in enumerate(l) if v is not JSHole]
    if a.elements_used != len(idx):
        raise Violated(label + ": number of elements", f"{a.elements_used} want {len(idx)}")
    for o, want in ((Order.ASCENDING, idx), (Order.DESCENDING, idx[::-1])):
        got = list(a.element_indexes(order=o))
        if got != want:
            raise Violated(label + ": order of elements", f"{got} want {want}")


@model(matches)
def _matches(I, a, k):
    o, l, label = a
    E = I.E
    r = layout(o.cls)
    at = {k: o.attrs[v] for k, v in r.items() if v in o.attrs}
    if len(at) < len(r):
        raise Unsupported("representation of a storage")
    if o.cls is DenseArrayProperties:
        items = at["items"]
        if not isinstance(items, holey.HList):
            raise Unsupported("representation of the dense storage")
        holey.prove_same_list(I, items, l, label)
        E.prove(ie(at["used"]) == l.pred.total(I), label + ": number of elements")
        return
    items, cached = at["items"], at["order"]
    if not isinstance(items, holey.UMap) or not is_intlike(at["last"]):
        raise Unsupported("representation of the sparse storage")
    E.prove(ie(at["last"]) + 1 == zi(l.n), label + ": length")
    E.prove(items.pred.total(I) == l.pred.total(I), label + ": number of elements")
    x = E.fresh("x")
    for p in (items.pred, l.pred):
        holey.point(I, p, x)
    want = z3.And(x >= 0, x < zi(l.n), l.pred.has(I, x))
    E.prove(items.pred.has(I, x) == want, label + ": holes")
    E.prove(z3.Implies(want, items.val(x) == l.val(x)), label + ": elements")
    if cached is None:
        return
    if isinstance(cached, SList):
        last = z3.IntVal(-1)
        for y in cached.items:
            E.prove(z3.And(ie(y) > last, ie(y) < zi(l.n), l.pred.has(I, ie(y))), label + ": cached keys")
            last = ie(y)
        E.prove(l.pred.total(I) == len(cached.items), label + ": cached keys")
        return
    if not isinstance(cached, holey.Asc):
        raise Unsupported("representation of the cached keys")
    holey.point(I, cached.pred, x)
    E.prove(cached.pred.has(I, x) == want, label + ": cached keys")


def same_list(a, b, label):
    if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
        raise Violated(label, f"{a!r} want {b!r}")


@model(same_list)
def _same_list(I, a, k):
    if not isinstance(a[0], holey.HList):
        raise Unsupported(f"{a[0]!r} is no list with holes")
    holey.prove_same_list(I, *a)


def yields(it, l, label, down=False):
    """Iterating gives the elements and holes of l in order (or in reverse)."""
    got = list(it)
    same_list(got, l[::-1] if down else l, label)


@model(yields)
def _yields(I, a, k):
    it, l, label = a[:3]
    down = a[3] if len(a) > 3 else False
    E, seen = I.E, []

    def bulk(t):
        seen.append(1)
        E.prove(zi(t.n) == zi(l.n), label + ": length")
        j = E.fresh("j")
        E.assume(z3.And(j >= 0, j < zi(l.n)))
        t.facts(I, j)
        x = l.n - 1 - j if down else j
        E.prove(t.guard(j), label + ": length")
        for g, _, v in t.cases:
            g = z3.substitute(g, (t.ix, j))
            if v is I.HOLE:
                E.prove(z3.Implies(g, z3.Not(l.pred.has(I, x))), label + ": holes")
            else:
                E.prove(z3.Implies(g, z3.And(l.pred.has(I, x), z3.substitute(holey.term(v), (t.ix, j)) == l.val(x))), label + ": elements")

    def one(v):
        raise Unsupported("a single element")
    run_captured(I, it, one, bulk)
    if not seen:
        E.prove(zi(l.n) == 0, label + ": length")


def members(it, l, order, label, pairs=False):
    """Iterating gives the indexes of the elements of l in the given order, as (index, element) if pairs."""
    got = list(it)
    want = [(i, v) if pairs else i for i, v in enumerate(l) if v is not JSHole]
    if order is Order.DESCENDING:
        want.reverse()
    if order is Order.UNORDERED:
        got.sort()
    if got != want:
        raise Violated(label, f"{got!r} want {want!r}")


@model(members)
def _members(I, a, k):
    it, l, order, label = a
    pairs = k.get("pairs", False)
    seen = []

    def bulk(t):
        seen.append(t)
        are_members(I, t, l, order, label, pairs)

    def one(v):
        raise Unsupported("a single element")
    I.any_order = order is Order.UNORDERED
    run_captured(I, it, one, bulk)
    if not seen:
        x = I.E.fresh("x")
        I.E.prove(z3.Not(l.pred.has(I, x)), label + ": every element")


def are_members(I, t, l, order, label, pairs):
    """What the template yields is the indexes of the elements of l in order."""
    E = I.E
    of = (lambda v: ie(v[0])) if pairs else ie
    K = lambda j: t.key(I, zi(j), of)
    i, j = E.fresh("i"), E.fresh("j")
    E.assume(z3.And(i >= 0, i < j, j < zi(t.n)))
    for y in (i, j):
        t.facts(I, y)
        x = K(y)
        holey.point(I, l.pred, x)
        E.prove(z3.Implies(t.guard(y), z3.And(x >= 0, x < zi(l.n), l.pred.has(I, x))), label + ": only elements")
        if pairs:
            e = t.key(I, y, lambda v: holey.term(v[1]))
            E.prove(z3.Implies(t.guard(y), e == l.val(x)), label + ": element")
    both = z3.And(t.guard(i), t.guard(j))
    E.prove(z3.Implies(both, K(i) != K(j) if order is Order.UNORDERED else K(i) > K(j) if order is Order.DESCENDING else K(i) < K(j)),
            label + ": order")
    # every element appears: at its own index, or at the mirrored one
    x = E.fresh("x")
    E.assume(z3.And(x >= 0, x < zi(l.n), l.pred.has(I, x)))
    holey.point(I, l.pred, x)
    hit = []
    for y in (x, zi(l.n) - 1 - x, zi(t.n) - 1 - x):
        t.facts(I, y)
        hit.append(z3.And(y >= 0, y < zi(t.n), t.guard(y), K(y) == x))
    E.prove(z3.Or(hit), label + ": every element")


def inherits(cls, name):
    """The class takes this operation from the mix-in, whose text the lemma verifies."""
    return getattr(cls, name) is getattr(MutableSequence, name)


def setup(I):
    I.HOLE = JSHole
    I.opaque_is = lambda I, a, b: False if b is JSHole or b is None else None
    I.comp_handler = holey.comp_hook
    I.for_hook = holey.for_hook
    I.sort_hook = holey.sort_hook
    I.list_hook = holey.list_hook
    I.sum_hook = holey.sum_hook
    I.repeat_hook = holey.repeat_hook
    I.empty_list = lambda I: holey.hlist(I, holey.nothing(I), holey.no_val)
    I.dict_factory = holey.new_umap
    I.dict_from = holey.dict_from
    I.loop_hints = [hints]


def hints(I, loc, v0, v1, ctx):
    """Candidate invariants: prefixes appended, counts of prefixes, removals at the end, exchanged ends."""
    src = I.E.memo.get("sources", ())
    out = []
    if loc[0] in ("l", "a") and is_intlike(v0) and not isinstance(v0, (bool, SBool)):
        for n, p, val in src:
            out.append(Fn(lambda I, k, v0, p=p: mkint(ie(v0) + p.cnt(I, zi(k))), "elements of the prefix"))
    if loc[0] == "h" and isinstance(I.heap[loc[1]], holey.HList):
        for n, p, val in src:
            def appended(I, k, v0, p=p, val=val):
                k, m = zi(k), v0[0]
                q = holey.joined(I, v0[1], holey.resized(I, p, k))
                return (q.n, q, lambda x: z3.If(x < m, v0[2](x), val(x - m)))
            out.append(Fn(appended, "prefix appended"))

        def popped(I, k, v0):
            q = holey.resized(I, v0[1], z3.If(v0[0] - zi(k) > 0, v0[0] - zi(k), 0))
            return (q.n, q, v0[2])
        out.append(Fn(popped, "last elements removed"))

        def swapped(I, k, v0):
            n, p, val = v0
            k = zi(k)
            far = lambda x: z3.Or(x < k, x >= n - k)
            q = holey.unknown(I, n, lambda I, x: z3.If(far(x), p.has(I, n - 1 - x), p.has(I, x)))
            return (q.n, q, lambda x: z3.If(far(x), val(n - 1 - x), val(x)))
        out.append(Fn(swapped, "ends exchanged"))
    return out


# ---------------------------------------------------------------------------
# the counting functions of derived sets
# ---------------------------------------------------------------------------
def counting(kind):
    """(symbolic only) c(0) = 0 and c(x+1) = c(x) + [x in set], members lie in range."""


@model(counting)
def _counting(I, a, k):
    E = I.E
    p, _ = holey.fresh_list(I, "p")
    q, _ = holey.fresh_list(I, "q")
    i, x = E.fresh("i"), E.fresh("x")
    b = E.fresh("b", "bool")
    E.assume(i >= 0)
    kind = a[0]
    if kind in ("removed",):
        E.assume(i < p.n)
    if kind in ("inserted", "from"):
        E.assume(i <= p.n)
    if kind == "minus":         # of a subset
        q = holey.first(I, p, i)
    d = {"put": lambda: holey.put(I, p, i), "drop": lambda: holey.drop(I, p, i), "resized": lambda: holey.resized(I, p, i),
         "removed": lambda: holey.removed(I, p, i), "inserted": lambda: holey.inserted(I, p, i, b),
         "joined": lambda: holey.joined(I, p, q), "stretch": lambda: holey.shifted(I, p, z3.If(i < q.n, i, q.n), q.n),
         "backwards": lambda: holey.backwards(I, p), "first": lambda: holey.first(I, p, i), "after": lambda: holey.after(I, p, i),
         "minus": lambda: holey.minus(I, p, q), "nothing": lambda: holey.nothing(I, i)}[kind]()
    if kind == "stretch":
        E.assume(q.n <= p.n)
    for y in (x, x + 1):
        d.cnt(I, y)
    E.prove(d.cnt(I, z3.IntVal(0)) == 0, f"{kind}: nothing before 0")
    E.prove(z3.Implies(x <= 0, d.cnt(I, x) == 0), f"{kind}: nothing below 0")
    E.prove(d.cnt(I, x + 1) == d.cnt(I, x) + holey.b01(d.has(I, x)), f"{kind}: counting law")
    E.prove(z3.Implies(d.has(I, x), z3.And(x >= 0, x < d.n)), f"{kind}: members in range")


@lemma(LEMMAS, "counting laws", setup=setup, native=False, kind=Choice(
    "put", "drop", "resized", "removed", "inserted", "joined", "stretch", "backwards", "first", "after", "minus", "nothing"))
def counting_laws(kind):
    """the closed forms used below count what they say."""
    counting(kind)


# ---------------------------------------------------------------------------
# single operations
# ---------------------------------------------------------------------------
@lemma(LEMMAS, "get", setup=setup, a=Storage(), i=Index())
def get(a, i):
    """a[i]: the element, or the hole value; IndexError outside -len..len-1; nothing changes."""
    l = listing(a)
    try:
        got = a[i]
    except IndexError:
        prove(i < -len(l) or i >= len(l), "reading fails only out of range")
        matches(a, l, "after a failed read")
        return
    prove(-len(l) <= i and i < len(l), "reading out of range fails")
    prove(got is l[i], "reading gives the element or the hole value")
    matches(a, l, "after reading")


@lemma(LEMMAS, "set", setup=setup, a=Storage(), i=Index(), v=Item())
def set_item(a, i, v):
    """a[i] = v: an element or a hole is stored, the length is kept."""
    l = listing(a)
    try:
        a[i] = v
    except IndexError:
        prove(i < -len(l) or i >= len(l), "setting fails only out of range")
        matches(a, l, "after a failed set")
        return
    prove(-len(l) <= i and i < len(l), "setting out of range fails")
    l[i] = v
    matches(a, l, "after setting")


@lemma(LEMMAS, "delete", setup=setup, a=Storage(), i=Index())
def delete(a, i):
    """del a[i]: later elements move down."""
    l = listing(a)
    try:
        del a[i]
    except IndexError:
        prove(i < -len(l) or i >= len(l), "deleting fails only out of range")
        matches(a, l, "after a failed delete")
        return
    prove(-len(l) <= i and i < len(l), "deleting out of range fails")
    del l[i]
    matches(a, l, "after deleting")


@lemma(LEMMAS, "pop", setup=setup, a=Storage(), i=Index(), last=Choice(True, False))
def pop(a, i, last):
    """a.pop(i): like reading and deleting; the last by default."""
    l = listing(a)
    try:
        got = a.pop() if last else a.pop(i)
    except IndexError:
        prove(len(l) == 0 if last else i < -len(l) or i >= len(l), "popping fails only out of range")
        matches(a, l, "after a failed pop")
        return
    prove(len(l) > 0 if last else -len(l) <= i and i < len(l), "popping out of range fails")
    want = l.pop() if last else l.pop(i)
    prove(got is want, "popping gives the element or the hole value")
    matches(a, l, "after popping")


@lemma(LEMMAS, "insert", setup=setup, a=Storage(LIMIT - 1), i=Index(), v=Item())
def insert(a, i, v):
    """a.insert(i, v): elements from i on move up; past the end it appends; IndexError below -len."""
    l = listing(a)
    try:
        a.insert(i, v)
    except IndexError:
        prove(i < -len(l), "inserting fails only before the start")
        matches(a, l, "after a failed insert")
        return
    prove(-len(l) <= i, "inserting before the start fails")
    l.insert(i, v)
    matches(a, l, "after inserting")


@lemma(LEMMAS, "append", setup=setup, a=Storage(LIMIT - 1), v=Item())
def append(a, v):
    l = listing(a)
    a.append(v)
    l.append(v)
    matches(a, l, "after appending")


@lemma(LEMMAS, "resize", setup=setup, a=Storage(), n=Index())
def resize(a, n):
    """a.resize(n): truncates or adds holes at the end; ValueError outside 0..2**32-1."""
    l = listing(a)
    try:
        a.resize(n)
    except ValueError:
        prove(n < 0 or n > LIMIT, "resizing fails only for lengths out of range")
        matches(a, l, "after a failed resize")
        return
    prove(n >= 0 and n <= LIMIT, "resizing to a length out of range fails")
    if n < len(l):
        del l[n:]
    else:
        l.extend([JSHole] * (n - len(l)))
    matches(a, l, "after resizing")


@lemma(LEMMAS, "sizes", setup=setup, a=Storage())
def sizes(a):
    """len(a) is the length, elements_used the number of elements; asking changes nothing."""
    l = listing(a)
    prove(len(a) == len(l), "length")
    prove(a.elements_used == used(l), "number of elements")
    matches(a, l, "after asking for the sizes")


def used(l):
    return sum(1 for x in l if x is not JSHole)


@model(used)
def _used(I, a, k):
    return mkint(a[0].pred.total(I))


@lemma(LEMMAS, "element indexes", setup=setup, a=Storage(), order=Choice(*Order))
def element_indexes(a, order):
    """the indexes of the elements in the order asked for."""
    l = listing(a)
    members(a.element_indexes(order=order), l, order, "element indexes")
    matches(a, l, "after listing the indexes")


@lemma(LEMMAS, "iterate dense", setup=setup, a=Storage(kinds=(DenseArrayProperties,)))
def iterate_dense(a):
    l = listing(a)
    yields(iter(a), l, "iteration")
    matches(a, l, "after iterating")


# ---------------------------------------------------------------------------
# the mapping of elements
# ---------------------------------------------------------------------------
def item_is(x, l, i, label):
    """x is the i-th item of l, i in range."""
    if x is not l[i]:
        raise Violated(label, f"{x!r} want {l[i]!r}")


@model(item_is)
def _item_is(I, a, k):
    x, l, i, label = a
    i = zi(ie(i))
    for r in I.E.memo.get("runs", ()):
        r.point(I, i)
    has = l.pred.has(I, i)
    if holey.is_hole(I, x):
        I.E.prove(z3.Not(has), label + ": holes")
    else:
        I.E.prove(z3.And(has, holey.term(x) == l.val(i)), label + ": elements")


def setup_runs(I):
    setup(I)
    I.loop_hints = [hints, runs.hints]
    I.for_hook = None


@lemma(LEMMAS, "iterate sparse", setup=setup_runs, a=Storage(kinds=(SparseArrayProperties,)))
def iterate_sparse(a):
    """iter(a): every element and hole in order, made from the runs of neighbouring elements."""
    l = listing(a)
    i = 0
    for x in a:
        prove(i < len(l), "iteration adds nothing")
        item_is(x, l, i, "iteration")
        i += 1
    prove(i == len(l), "iteration leaves nothing out")


@lemma(LEMMAS, "element mapping", setup=setup, a=Storage(), i=Index(), order=Choice(*Order))
def element_mapping(a, i, order):
    """elements() is the mapping of indexes to elements, without the holes."""
    l = listing(a)
    m = a.elements(order=order)
    prove(len(m) == used(l), "size of the element mapping")
    present = i >= 0 and i < len(l) and l[i] is not JSHole
    try:
        got = m[i]
    except KeyError:
        prove(not present, "the element mapping has every element")
        prove(i not in m, "membership in the element mapping")
        return
    prove(present, "the element mapping has only elements")
    prove(got is l[i], "the element mapping gives the element")
    prove(i in m, "membership in the element mapping")
    matches(a, l, "after using the element mapping")


@lemma(LEMMAS, "element items", setup=setup, a=Storage(), order=Choice(*Order))
def element_items(a, order):
    l = listing(a)
    members(iter(a.elements(order=order)), l, order, "keys of the element mapping")
    members(iter(a.elements(order=order).items()), l, order, "items of the element mapping", pairs=True)


# ---------------------------------------------------------------------------
# construction
# ---------------------------------------------------------------------------
@lemma(LEMMAS, "construct", setup=setup, cls=Choice(*BOTH), l=Holey())
def construct(cls, l):
    """both classes take over the values of a list."""
    a = cls(l)
    matches(a, l, "after construction")


@lemma(LEMMAS, "construct empty", setup=setup, cls=Choice(*BOTH))
def construct_empty(cls):
    a = cls()
    l = []
    matches(a, as_list(l), "after construction")


def as_list(l):
    return l


@model(as_list)
def _as_list(I, a, k):
    return holey.hlist(I, holey.nothing(I), holey.no_val)


@lemma(LEMMAS, "construct from entries", setup=setup, l=Holey(), n=Index())
def construct_entries(l, n):
    """entries of a dense storage and a length: what lies below the length; holes after it."""
    d = DenseArrayProperties(l)
    assume(n >= 0 and n <= LIMIT)
    a = SparseArrayProperties(entries=d.elements(), length=n)
    if n < len(l):
        del l[n:]
    else:
        l.extend([JSHole] * (n - len(l)))
    matches(a, l, "after construction from entries")


def stripped(l):
    """The list without the holes after its last element."""
    l = list(l)
    while l and l[-1] is JSHole:
        l.pop()
    return l


@model(stripped)
def _stripped(I, a, k):
    l, E = a[0], I.E
    m = E.fresh("stripped")
    t = l.pred.total(I)
    holey.point(I, l.pred, m - 1)
    E.assume(z3.And(m >= 0, m <= l.n, l.pred.cnt(I, m) == t))
    E.assume(z3.If(t == 0, m == 0, z3.And(m > 0, l.pred.has(I, m - 1))))
    return holey.hlist(I, holey.resized(I, l.pred, m), l.val)


@lemma(LEMMAS, "construct from entries alone", setup=setup, l=Holey(), items=Choice(True, False))
def construct_entries_alone(l, items):
    """entries of a dense storage without a length: the array ends with its last element."""
    d = DenseArrayProperties(l)
    e = d.elements()
    a = SparseArrayProperties(entries=e.items() if items else e)
    matches(a, stripped(l), "after construction from entries alone")


# ---------------------------------------------------------------------------
# operations of the mix-ins, over the contracts above
# ---------------------------------------------------------------------------
@lemma(LEMMAS, "extend", setup=setup, cls=Choice(*BOTH), l=Holey(), m=Holey(), own=Choice(True, False), plus=Choice(True, False))
def extend(cls, l, m, own, plus):
    """extend and += append every value, also the storage's own."""
    assume(inherits(cls, "extend") and inherits(cls, "__iadd__"))
    want = l.copy()
    want.extend(l if own else m)
    f = cls.__iadd__ if plus else cls.extend
    f(l, l if own else m)
    same_list(l, want, "extend appends every value")


@lemma(LEMMAS, "clear", setup=setup, cls=Choice(*BOTH), l=Holey())
def clear(cls, l):
    assume(inherits(cls, "clear"))
    cls.clear(l)
    prove(len(l) == 0, "clear removes everything")


@lemma(LEMMAS, "reverse", setup=setup, cls=Choice(*BOTH), l=Holey())
def reverse(cls, l):
    assume(inherits(cls, "reverse"))
    want = l.copy()
    want.reverse()
    cls.reverse(l)
    same_list(l, want, "reverse")


@lemma(LEMMAS, "reversed", setup=setup, cls=Choice(*BOTH), l=Holey())
def reversed_(cls, l):
    assume(inherits(cls, "__reversed__"))
    yields(cls.__reversed__(l), l, "reversed iteration", True)


# ---------------------------------------------------------------------------
# searching
# ---------------------------------------------------------------------------
EQ = z3.Function("equal_elements", Val, Val, z3.BoolSort())
EQH = z3.Function("equals_a_hole", Val, z3.BoolSort())


def opaque_eq(I, a, b):
    """== of elements: an arbitrary relation."""
    if a is JSHole or b is JSHole:
        return mkbool(EQH(holey.term(b if a is JSHole else a)))
    return mkbool(EQ(holey.term(a), holey.term(b)))


def searching(I):
    setup(I)
    I.opaque_eq = opaque_eq


def hit(l, i, value):
    """There is an element or hole at i which is, or equals, the value."""
    return 0 <= i and i < len(l) and (l[i] is value or l[i] == value)


@lemma(LEMMAS, "index", setup=searching, cls=Choice(*BOTH), l=Holey(), value=Item(), pick=Index(), j=Index())
def index(cls, l, value, pick, j):
    """index() is the first position of an element which is or equals the value, else ValueError."""
    assume(inherits(cls, "index"))
    instantiate_loops_at(j)
    try:
        i = cls.index(l, value)
    except ValueError:
        prove(not hit(l, j, value), "index fails only without such an element")
        return
    prove(hit(l, i, value), "index gives the position of such an element")
    prove(j >= i or not hit(l, j, value), "index gives the first one")


@lemma(LEMMAS, "index within bounds", setup=searching, cls=Choice(*BOTH), l=Holey(), value=Item(), start=Index(), stop=Index(),
       bounded=Choice(True, False), j=Index())
def index_within(cls, l, value, start, stop, bounded, j):
    """index() with bounds, negative ones counted from the end."""
    assume(inherits(cls, "index"))
    low = start if start >= 0 else max(len(l) + start, 0)
    high = len(l) if not bounded else stop if stop >= 0 else stop + len(l)
    instantiate_loops_at(j - low)
    try:
        i = cls.index(l, value, start, stop) if bounded else cls.index(l, value, start)
    except ValueError:
        prove(not (low <= j and j < high and hit(l, j, value)), "index fails only without such an element in the range")
        return
    prove(low <= i and i < high and hit(l, i, value), "index gives the position of such an element in the range")
    prove(j >= i or j < low or not hit(l, j, value), "index gives the first one in the range")


def hits(l, value):
    """The number of elements and holes which are, or equal, the value."""
    return sum(1 for i in range(len(l)) if hit(l, i, value))


@model(hits)
def _hits(I, a, k):
    l, v = a
    hole = v is JSHole

    def has(I, x):
        eq = EQH(l.val(x)) if hole else z3.Or(l.val(x) == holey.term(v), EQ(l.val(x), holey.term(v)))
        return z3.If(l.pred.has(I, x), eq, z3.BoolVal(True) if hole else EQH(holey.term(v)))
    return mkint(holey.unknown(I, l.n, has).total(I))


@lemma(LEMMAS, "count", setup=searching, cls=Choice(*BOTH), l=Holey(), value=Item())
def count(cls, l, value):
    """count() is the number of positions whose element is or equals the value."""
    assume(inherits(cls, "count"))
    want = hits(l, value)
    prove(cls.count(l, value) == want, "count")


@lemma(LEMMAS, "contains", setup=searching, cls=Choice(*BOTH), l=Holey(), value=Item(), j=Index())
def contains(cls, l, value, j):
    """in: is there an element which is or equals the value."""
    assume(inherits(cls, "__contains__"))
    instantiate_loops_at(j)
    if not cls.__contains__(l, value):
        prove(not hit(l, j, value), "an element equal to the value is found")


@method(holey.HList, "index")
def index_contract(I, l, a, k):
    """What the lemma "index" proves, for lists as receivers: the first hit, or ValueError."""
    v, E = a[0], I.E
    hole = v is JSHole
    key = (str(l.n), id(l.pred), "hole" if hole else str(holey.term(v)))
    memo = E.memo.setdefault("index", {})
    if key not in memo:
        i = E.fresh("hit")
        found = E.branch(E.fresh("found", z3.BoolSort()))
        if found:
            E.assume(z3.And(i >= 0, i < l.n))
            hit = EQH(l.val(i)) if hole else z3.Or(l.val(i) == holey.term(v), EQ(l.val(i), holey.term(v)))
            E.assume(z3.If(l.pred.has(I, i), hit, z3.BoolVal(True) if hole else EQH(holey.term(v))))
        memo[key] = i if found else None
    if memo[key] is None:
        raise PyRaise(I.new(ValueError, args=(v,)))
    return mkint(memo[key])


@lemma(LEMMAS, "remove", setup=searching, cls=Choice(*BOTH), l=Holey(), value=Item(), j=Index())
def remove(cls, l, value, j):
    """remove() deletes the first element which is or equals the value, else ValueError and no change."""
    assume(inherits(cls, "remove") and inherits(cls, "index"))
    want = l.copy()
    try:
        i = l.index(value)
    except ValueError:
        i = None
    if i is not None:
        del want[i]
    try:
        cls.remove(l, value)
    except ValueError:
        prove(i is None, "remove fails only without such an element")
    else:
        prove(i is not None, "remove needs such an element")
    same_list(l, want, "remove deletes the first such element")


# ---------------------------------------------------------------------------
# comparison of storages
# ---------------------------------------------------------------------------
def comparing(I):
    searching(I)
    I.any_order = True          # all() of the same tests, in whichever order


@lemma(LEMMAS, "equal storages", setup=comparing, a=Storage(), b=Storage(), j=Index())
def equal_storages(a, b, j):
    """Storages that compare equal have the same length and equal elements in the same places."""
    l, m = listing(a), listing(b)
    instantiate_loops_at(j)
    if a == b:
        prove(len(l) == len(m), "equal storages: length")
        prove(used(l) == used(m), "equal storages: number of elements")
        if 0 <= j and j < len(l) and l[j] is not JSHole:
            prove(l[j] == m[j], "equal storages: elements")
    matches(a, l, "after comparing")
    matches(b, m, "after comparing")


def alike(a, cls):
    """A storage of the other class with elements equal to a's in the same places."""
    return cls([x if x is JSHole else (x + " ")[:-1] for x in listing(a)])


@model(alike)
def _alike(I, a, k):
    E = I.E
    n, p, val = E.memo["state", a[0].uid]
    F = z3.Function(E.fresh_id("alike"), z3.IntSort(), Val)
    j = z3.Int("alike j")
    E.assume(z3.ForAll([j], EQ(val(j), F(j)), patterns=[F(j)]))
    if a[1] is DenseArrayProperties:
        return new_dense(I, a[1], holey.hlist(I, p, lambda x: F(x)), mkint(p.total(I)))
    return new_sparse(I, a[1], I.reg(holey.UMap(p, lambda x: F(x))), None, mkint(p.n - 1))


@lemma(LEMMAS, "alike storages", setup=comparing, a=Storage(), cls=Choice(*BOTH))
def alike_storages(a, cls):
    """Storages of either class with equal elements in the same places compare equal."""
    b = alike(a, cls)
    prove(a == b, "storages with equal elements compare equal")
    prove(not a != b, "storages with equal elements do not differ")
    prove(a == a, "a storage equals itself")
