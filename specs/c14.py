"""C14: comparing cyclic values terminates and leaves no trace behind."""
from __future__ import annotations

import _thread

import z3

from pyvc import omap, tmap
from pyvc.core import Unsupported
from pyvc.dual import *
from pyvc.interp import _MISSING, ie, mkbool, mkint, model
from pyvc.rope import zi
from pyvc.values import *
from specs.c11 import Idx, Surr, collections, identity
from v8serialize._recursive_eq import _RUNNING_EQ_KEYS, recursive_eq
from v8serialize.jstypes import JSMap, JSSet
from v8serialize.jstypes.jserror import JSError, JSErrorData

LEMMAS = []

# ---------------------------------------------------------------------------
# the decorator, entered in any state of the registry of running comparisons
# ---------------------------------------------------------------------------
OUTCOMES = ("equal", "different", "not implemented", "error", "interrupt")


@recursive_eq
class Node:
    """A class whose own comparison does anything: it is known only by its contract."""

    def __eq__(self, other):
        return own_comparison(self, other)


def own_comparison(a, b):
    raise NotImplementedError


def running(I, x, side):
    """What is the partner of x among the running comparisons of this thread, when the call is made?"""
    raise NotImplementedError


class Obj(Dom):
    """An object of the class."""

    def sym(self, I, name):
        return SVal(z3.Const(name, Val), Node)


ID = z3.Function("id_val", Val, z3.IntSort())
THREAD = z3.Int("thread")


def shape_of(side):
    return (True, "#", "#", repr(side))


def invariant(I, m, shape, terms):
    """Running comparisons are pairs: a with b exactly when b with a, seen from the other side."""
    if shape not in (shape_of("self"), shape_of("other")):
        raise Unsupported("the registry of running comparisons has other keys")
    there = shape_of("other" if shape == shape_of("self") else "self")
    h, g = tmap.base(m, shape, terms)
    h2, g2 = tmap.base(m, there, (g, terms[1]))
    I.E.assume(z3.Implies(h, z3.And(h2, g2 == terms[0])))


def registry(I):
    m = I.reg(tmap.TMap("running", invariant))
    I.override[id(_RUNNING_EQ_KEYS)] = m
    I.E.memo["registry"] = m
    I.contracts[_thread.get_ident] = lambda I, a, k: mkint(THREAD)
    I.E.memo["calls"] = ()


@model(own_comparison)
def _own(I, a, k):
    """Contract of the class's own __eq__ (by induction over the comparisons it makes): whatever it
    answers or raises, the registry is afterwards as it was before."""
    x, y = a
    m = I.E.memo["registry"]
    I.E.memo["calls"] = I.E.memo["calls"] + ((x, y, snapshot(I, m)),)
    o = I.E.memo["outcome"]
    if o == "error":
        I.raise_(ValueError, "from a member")
    if o == "interrupt":
        I.raise_(KeyboardInterrupt)
    return {"equal": True, "different": False, "not implemented": NotImplemented}[o]


def snapshot(I, m):
    return list(m.over)


def look(I, m, over, side, i, t):
    """Partner at a state of the registry: a term or None."""
    saved, m.over = m.over, over
    try:
        v = tmap.find(I, m, (mkint(i), mkint(t), side))
    finally:
        m.over = saved
    return None if v is _MISSING else ie(v)


def start(outcome):
    """(the class's own comparison will have this outcome)"""


@model(start)
def _start(I, a, k):
    I.E.memo["outcome"] = a[0]
    I.E.memo["before"] = snapshot(I, I.E.memo["registry"])


def partner(x, side):
    """The object x is being compared with, at the start: its id, or None."""


@model(partner)
def _partner(I, a, k):
    x, side = a
    p = look(I, I.E.memo["registry"], I.E.memo["before"], side, ID(x.e), THREAD)
    return None if p is None else mkint(p)


def ids_differ(*xs):
    """(fact of Python) different objects have different ids."""


@model(ids_differ)
def _ids(I, a, k):
    for i, x in enumerate(a):
        for y in a[:i]:
            I.E.assume((ID(x.e) == ID(y.e)) == (x.e == y.e))


def calls():
    """How often the class's own comparison was called."""


@model(calls)
def _calls(I, a, k):
    return len(I.E.memo["calls"])


def called_with(x, y):
    pass


@model(called_with)
def _called_with(I, a, k):
    x, y, _ = I.E.memo["calls"][0]
    return mkbool(z3.And(x.e == a[0].e, y.e == a[1].e))


def same_registry(when, i, t, side):
    """The registry's answer for any key is that of the start."""


@model(same_registry)
def _same_registry(I, a, k):
    when, i, t, side = a
    m = I.E.memo["registry"]
    over = m.over if when == "end" else I.E.memo["calls"][0][2]
    p = look(I, m, I.E.memo["before"], side, ie(i), ie(t))
    q = look(I, m, over, side, ie(i), ie(t))
    if (p is None) != (q is None):
        return False
    return True if p is None else mkbool(p == q)


def inside(x, side):
    """During the class's own comparison: the partner of x."""


@model(inside)
def _inside(I, a, k):
    x, side = a
    p = look(I, I.E.memo["registry"], I.E.memo["calls"][0][2], side, ID(x.e), THREAD)
    return None if p is None else mkint(p)


def is_this_thread(t):
    pass


@model(is_this_thread)
def _this_thread(I, a, k):
    return mkbool(ie(a[0]) == THREAD)


@lemma(LEMMAS, "recursive comparison", setup=registry, native=False, a=Obj(), b=Obj(), i=Int(), t=Int(),
       side=Choice("self", "other"), outcome=Choice(*OUTCOMES))
def recursive_comparison(a, b, i, t, side, outcome):
    """From any state of the registry: an object equals itself (or its class says what it equals); a pair of which one is being compared already is equal
    exactly if the two are being compared with each other; any other pair is compared by the class, while the
    pair is registered.  In the end, also when an exception passes, the registry is as before."""
    ids_differ(a, b)
    start(outcome)
    pa, pb = partner(a, "self"), partner(b, "other")
    got = raised = None
    try:
        got = Node.__eq__(a, b)
    except ValueError:
        raised = "error"
    except KeyboardInterrupt:
        raised = "interrupt"
    if a is b and calls() == 0:
        prove(got is True, "an object equals itself")
    elif a is not b and (pa is not None or pb is not None):
        prove(calls() == 0, "what is being compared already is not descended into again")
        closes = pa is not None and pb is not None and pa == id(b)
        prove(raised is None and got == closes, "a cycle closes exactly at the pair being compared with each other")
    else:
        prove(calls() == 1 and called_with(a, b), "members are compared once")
        prove(a is b or inside(a, "self") == id(b) and inside(b, "other") == id(a), "the pair is registered while members are compared")
        if not is_this_thread(t) or i != (id(a) if side == "self" else id(b)):
            prove(same_registry("inside", i, t, side), "registering a pair leaves others registered, or not")
        want = {"equal": True, "different": False, "not implemented": NotImplemented}
        if outcome in want:
            prove(raised is None and got is want[outcome], "the answer is the class's own")
        else:
            prove(raised == outcome, "an exception of a member's comparison passes")
    prove(same_registry("end", i, t, side), "a comparison leaves the registry as it was")


# ---------------------------------------------------------------------------
# the ordinary, elementwise answer
# ---------------------------------------------------------------------------
EQ = z3.Function("equal", Val, Val, z3.BoolSort())


def nothing_running(I):
    collections(I)

    def none(I, m, shape, terms):
        I.E.assume(z3.Not(tmap.base(m, shape, terms)[0]))
    m = I.reg(tmap.TMap("running", none))
    I.override[id(_RUNNING_EQ_KEYS)] = m
    I.contracts[_thread.get_ident] = lambda I, a, k: mkint(THREAD)
    I.opaque_eq = lambda I, a, b: mkbool(EQ(a.e, b.e))


class Two(Dom):
    """Two lists of entries (or of members), each of different keys; all equal, one by one, or as they come."""

    def __init__(self, equal, pairs=True):
        self.equal, self.pairs = equal, pairs

    def sym(self, I, name):
        n, out, fs = None, [], []
        INT = z3.IntSort()
        for s in ("1", "2"):
            if s == "1" or not self.equal:
                n = z3.Int(f"{name}{s}.n")
                I.E.assume(n >= 0)
            fs.append((n, z3.Function(f"{name}{s}.key", INT, Val), z3.Function(f"{name}{s}.value", INT, Val), z3.Function(f"{name}{s}.pos", INT, INT)))

        def at(w):
            n, K, V, pos = fs[w]

            def elem(i):
                i = zi(i)
                k, v = SVal(K(i), None, {"not_none": True, "key": True}), SVal(V(i), None, {"not_none": True})
                I.E.assume(z3.Implies(z3.And(i >= 0, i < n), pos(identity(I, k)) == i))
                if self.equal:
                    (_, K1, V1, _), (_, K2, V2, _) = fs
                    I.E.assume(z3.And(EQ(K1(i), K2(i)), EQ(V1(i), V2(i))))
                return (k, v) if self.pairs else k
            return elem
        for w in (0, 1):
            s = I.reg(SSeq(fs[w][0], at(w)))
            I.E.memo["entries", s.uid] = (*fs[w], True, f"{name}{w + 1}")
            out.append(s)
        return tuple(out)

    def edges(self):
        return [([], [])]

    def rand(self, r):
        xs = r.sample(range(20), r.randrange(6))
        xs = [(float(x) if r.random() < 0.5 else x, r.choice("ab")) for x in xs]
        ys = [(type(k)(k) if r.random() < 0.5 else float(k), v) for k, v in xs]
        if not self.equal and r.random() < 0.8:
            c = r.randrange(3)
            if c == 0:
                ys = ys[:r.randrange(len(ys) + 1)]
            elif c == 1:
                r.shuffle(ys)
            else:
                ys = [(k, r.choice("ab")) for k, v in ys]
        return (xs, ys) if self.pairs else ([x for x, _ in xs], [y for y, _ in ys])


def eq(x, y):
    return x == y


def collection(kind, xs):
    return JSMap(xs) if kind == "map" else JSSet(xs)


for kind, pairs in (("map", True), ("set", False)):
    @lemma(LEMMAS, f"{kind}s with equal members", setup=nothing_running, two=Two(True, pairs), kind=Choice(kind))
    def equal_members(two, kind):
        """Maps (sets) with members equal one by one, in order, are equal."""
        a, b = collection(kind, two[0]), collection(kind, two[1])
        prove((a == b) is True, "collections with equal members in the same order are equal")
        prove((a != b) is False, "collections with equal members in the same order are not unequal")

    @lemma(LEMMAS, f"{kind}s with different members", setup=nothing_running, two=Two(False, pairs), i=Idx(0), kind=Choice(kind))
    def different_members(two, i, kind):
        """Maps (sets) that differ in number or at some place are different."""
        xs, ys = two
        if len(xs) == len(ys):
            assume(i < len(xs))
            if kind == "map":
                assume(not (eq(xs[i][0], ys[i][0]) and eq(xs[i][1], ys[i][1])))
            else:
                assume(not eq(xs[i], ys[i]))
            instantiate_loops_at(i)
        a, b = collection(kind, xs), collection(kind, ys)
        prove((a == b) is False, "collections which differ at a place are different")
        prove((a != b) is True, "collections which differ at a place are unequal")


class Member(Dom):
    """Any object."""

    def sym(self, I, name):
        return SVal(z3.Const(name, Val), None, {"not_none": True})

    def edges(self):
        return [0, 0.0, 1, "a", None]

    def rand(self, r):
        return r.choice([0, 1, 0.0, 1.0, True, "a", (0,), (0.0,), None])


@lemma(LEMMAS, "error data", setup=nothing_running, m=Member(), n=Member(), s=Member(), c=Member(), m2=Member(), n2=Member(), s2=Member(), c2=Member())
def error_data(m, n, s, c, m2, n2, s2, c2):
    """Error values are equal exactly if message, name, stack and cause are."""
    a = JSErrorData(m, name=n, stack=s, cause=c)
    b = JSErrorData(m2, name=n2, stack=s2, cause=c2)
    want = eq(m, m2) and eq(n, n2) and eq(s, s2) and eq(c, c2)
    prove((a == b) is want, "errors are equal exactly if their parts are")
    prove((a != b) is not want, "errors are unequal exactly if a part differs")


@lemma(LEMMAS, "errors", setup=nothing_running, m=Str(), n=Member(), s=Member(), c=Member(), m2=Str(), n2=Member(), s2=Member(), c2=Member())
def errors(m, n, s, c, m2, n2, s2, c2):
    """Error exceptions which were not raised are equal exactly if message, name, stack and cause are."""
    a = JSError(m, name=n, stack=s, cause=c)
    b = JSError(m2, name=n2, stack=s2, cause=c2)
    want = m == m2 and eq(n, n2) and eq(s, s2) and eq(c, c2)
    prove((a == b) is want, "errors are equal exactly if their parts are")
    prove((a != b) is not want, "errors are unequal exactly if a part differs")
