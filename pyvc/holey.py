"""Lists with holes, int-keyed dicts and ascending lists of their keys, of symbolic size.

An index set (`Pred`) has a membership term has(x) and a counting term cnt(x) = |{y in set: y < x}|.
An unknown set is a pair of uninterpreted functions; the counting function is constrained by the
instances of  c(0) = 0, c(x+1) = c(x) + [x in set]  and of their consequence, monotonicity, at the
points spoken about.  Sets obtained by an operation (insert, delete, truncate, ...) have closed forms;
that these obey the counting law is an obligation of its own (specs/c09.py, "counting laws").

Trusted: this is what Python's list, dict, sorted and bisect do.
"""
from __future__ import annotations

import bisect
import enum

import z3

from .core import Infeasible, ObligationFailed, Unsupported
from .interp import METHKINDS, METHODS, ConsumerBreak, PyRaise, ReturnX, BreakX, _MISSING, ie, is_intlike, method, mkbool, mkint, model
from .omap import Template, capture_template, isolated, run_captured
from .rope import simp, zi
from .values import *

INT, BOOL = z3.IntSort(), z3.BoolSort()


def b01(t):
    return z3.If(t, z3.IntVal(1), z3.IntVal(0))


class Pred:
    """A set of indexes within [0, n)."""
    __slots__ = ("n", "_has", "_cnt", "u", "sub")

    def __init__(self, I, n, has, cnt, sub=()):
        self.n, self._has, self._cnt = zi(n), has, cnt
        self.u = I.E.fresh_id("set")
        self.sub = tuple(sub)
        I.E.memo["preds"] = I.E.memo.get("preds", ()) + (self,)

    def has(self, I, x):
        return self._has(I, zi(x))

    def cnt(self, I, x):
        return self._cnt(I, zi(x))

    def total(self, I):
        return self.cnt(I, self.n)

    def sel(self, I, r):
        """The r-th member."""
        s = z3.Function(f"sel:{self.u}", INT, INT)(zi(r))
        I.E.axiom(("sel", self.u, zi(r).sexpr()), z3.Implies(
            z3.And(zi(r) >= 0, zi(r) < self.total(I)),
            z3.And(self.has(I, s), self.cnt(I, s) == zi(r), s >= 0, s < self.n)))
        return s


def unknown(I, n, has=None, total=None, sub=()):
    """An arbitrary set, or the set of a given membership term whose counting function is new."""
    n = zi(n)
    u = I.E.fresh_id("idx")
    C = z3.Function(f"count:{u}", INT, INT)
    if has is None:
        F = z3.Function(f"in:{u}", INT, BOOL)

        def h(I, x):
            return z3.And(x >= 0, x < n, F(x))
    else:
        def h(I, x):
            return z3.And(x >= 0, x < n, has(I, x))

    def cnt(I, x):
        x = z3.simplify(x)
        register(I, z3.IntVal(0))
        register(I, z3.simplify(n))
        register(I, x)
        return C(x)

    def register(I, x):
        E = I.E
        name = ("pt", u, x.sexpr())
        if name in E.axiom_keys:
            return
        hx, hp = h(I, x), h(I, z3.simplify(x - 1))
        E.axiom(name, z3.And(
            z3.Implies(x <= 0, C(x) == 0), z3.Implies(x >= n, C(x) == C(n)),
            C(x) >= 0, z3.Implies(x >= 0, C(x) <= x),
            C(z3.simplify(x + 1)) == C(x) + b01(hx), C(x) == C(z3.simplify(x - 1)) + b01(hp),
            C(x) + b01(hx) <= C(n)))
        known = E.memo.get(("pts", u), ())
        for y in known:
            if y.eq(x):
                continue
            hy = h(I, y)
            E.add(z3.And(z3.Implies(x < y, z3.And(C(x) + b01(hx) <= C(y), C(y) - C(x) <= y - x)),
                         z3.Implies(y < x, z3.And(C(y) + b01(hy) <= C(x), C(x) - C(y) <= x - y))))
        E.memo["pts", u] = known + (x,)
    p = Pred(I, n, h, cnt, sub)
    if total is not None:
        I.E.assume(p.total(I) == total)
    return p


def nothing(I, n=0):
    return Pred(I, n, lambda I, x: z3.BoolVal(False), lambda I, x: z3.IntVal(0))


def put(I, p, i, n=None):
    """p with i (0 <= i)."""
    i = zi(i)
    n = z3.If(i < p.n, p.n, i + 1) if n is None else zi(n)
    return Pred(I, z3.simplify(n), lambda I, x: z3.Or(x == i, p.has(I, x)),
                lambda I, x: p.cnt(I, x) + b01(z3.And(x > i, z3.Not(p.has(I, i)))), (p,))


def drop(I, p, i):
    i = zi(i)
    return Pred(I, p.n, lambda I, x: z3.And(x != i, p.has(I, x)),
                lambda I, x: p.cnt(I, x) - b01(z3.And(x > i, p.has(I, i))), (p,))


def resized(I, p, n):
    """p restricted to [0, n), n >= 0."""
    n = zi(n)
    return Pred(I, n, lambda I, x: z3.And(x < n, p.has(I, x)),
                lambda I, x: p.cnt(I, z3.If(x < n, x, n)), (p,))


def removed(I, p, i):
    """The element at 0 <= i < n is taken out, later ones move down."""
    i = zi(i)
    return Pred(I, z3.simplify(p.n - 1), lambda I, x: z3.And(x < p.n - 1, p.has(I, z3.If(x < i, x, x + 1))),
                lambda I, x: z3.If(x <= i, p.cnt(I, x), p.cnt(I, x + 1) - b01(p.has(I, i))), (p,))


def inserted(I, p, i, b):
    """A hole or an element put in at 0 <= i <= n, later ones move up."""
    i = zi(i)
    b = z3.BoolVal(b) if isinstance(b, bool) else b
    return Pred(I, z3.simplify(p.n + 1),
                lambda I, x: z3.If(x < i, p.has(I, x), z3.If(x == i, b, p.has(I, x - 1))),
                lambda I, x: z3.If(x <= i, p.cnt(I, x), p.cnt(I, x - 1) + b01(b)), (p,))


def joined(I, p, q):
    return Pred(I, z3.simplify(p.n + q.n),
                lambda I, x: z3.If(x < p.n, p.has(I, x), q.has(I, x - p.n)),
                lambda I, x: z3.If(x <= p.n, p.cnt(I, x), p.total(I) + q.cnt(I, x - p.n)), (p, q))


def shifted(I, p, a, b):
    """The stretch [a, b) of p, 0 <= a <= b <= n."""
    a, b = zi(a), zi(b)
    return Pred(I, z3.simplify(b - a), lambda I, x: z3.And(x >= 0, x < b - a, p.has(I, x + a)),
                lambda I, x: z3.If(x <= 0, 0, p.cnt(I, z3.If(x < b - a, x + a, b)) - p.cnt(I, a)), (p,))


def backwards(I, p):
    return Pred(I, p.n, lambda I, x: z3.And(x >= 0, x < p.n, p.has(I, p.n - 1 - x)),
                lambda I, x: p.total(I) - p.cnt(I, p.n - z3.If(x < 0, 0, z3.If(x < p.n, x, p.n))), (p,))


def first(I, p, r):
    """The first r members."""
    r = zi(r)
    return Pred(I, p.n, lambda I, x: z3.And(p.has(I, x), p.cnt(I, x) < r),
                lambda I, x: z3.If(r <= 0, 0, z3.If(p.cnt(I, x) < r, p.cnt(I, x), r)), (p,))


def after(I, p, r):
    """All but the first r members, r >= 0."""
    r = zi(r)
    return Pred(I, p.n, lambda I, x: z3.And(p.has(I, x), p.cnt(I, x) >= r),
                lambda I, x: z3.If(p.cnt(I, x) < r, 0, p.cnt(I, x) - r), (p,))


def minus(I, p, q):
    """p without q, a subset of p."""
    return Pred(I, p.n, lambda I, x: z3.And(p.has(I, x), z3.Not(q.has(I, x))),
                lambda I, x: p.cnt(I, x) - q.cnt(I, x), (p, q))


# ---- values ------------------------------------------------------------------
def term(v):
    if isinstance(v, SVal):
        return v.e
    raise Unsupported(f"{v!r} as an array element")


def elem_val(e):
    return SVal(e, None, {"not_none": True, "element": True})


def is_hole(I, v):
    if v is I.HOLE:
        return True
    term(v)
    return False


# ---- a list of elements and holes ---------------------------------------------
class HList(Heap):
    __slots__ = ("n", "pred", "val", "pytype")

    def __init__(self, pred, val, uid=None):
        self.n, self.pred, self.val = pred.n, pred, val
        self.uid = uid
        self.pytype = list

    def snapshot(self):
        return (self.n, self.pred, self.val)

    def restore(self, v):
        self.n, self.pred, self.val = v

    def become(self, I, pred, val):
        I.touch(self)
        self.n, self.pred, self.val = pred.n, pred, val


class UMap(Heap):
    """A dict with int keys in unknown order."""
    __slots__ = ("pred", "val", "pytype")

    def __init__(self, pred, val, uid=None):
        self.pred, self.val = pred, val
        self.uid = uid
        self.pytype = dict

    def snapshot(self):
        return (self.pred, self.val)

    def restore(self, v):
        self.pred, self.val = v


class Asc(Heap):
    """A strictly ascending list of the members of a set."""
    __slots__ = ("pred", "pytype")

    def __init__(self, pred, uid=None):
        self.pred = pred
        self.uid = uid
        self.pytype = list

    def snapshot(self):
        return self.pred

    def restore(self, v):
        self.pred = v


for _k in (HList, UMap, Asc):
    METHKINDS.add(_k)


def hlist(I, pred, val):
    return I.reg(HList(pred, val))


def fresh_list(I, name):
    n = I.E.fresh(name + "_len")
    I.E.assume(n >= 0)
    F = z3.Function(I.E.fresh_id("val"), INT, Val)
    return unknown(I, n), lambda x: F(x)


def no_val(x):
    return z3.Const("no element", Val)


def read(I, l, i):
    """The element at 0 <= i < n."""
    point(I, l.pred, zi(i))
    if I.E.branch(l.pred.has(I, i)):
        return elem_val(l.val(zi(i)))
    return I.HOLE


def at(I, l, i):
    return read(I, l, I.norm_index(i, l.n))


@method(HList, "__getitem__")
def _h_getitem(I, l, a, k):
    if isinstance(a[0], slice):
        if a[0].step is not None:
            raise Unsupported("stepped slice")
        lo, hi = I.clamp(a[0].start, l.n, 0), I.clamp(a[0].stop, l.n, simp(l.n))
        if not I.E.branch(zi(lo) <= zi(hi)):
            hi = lo
        val, lo = l.val, zi(lo)
        return hlist(I, shifted(I, l.pred, lo, hi), lambda x: val(x + lo))
    return at(I, l, a[0])


@method(HList, "__setitem__")
def _h_setitem(I, l, a, k):
    if isinstance(a[0], slice):
        return assign_slice(I, l, a[0], a[1])
    i = zi(I.norm_index(a[0], l.n))
    val, v = l.val, a[1]
    if is_hole(I, v):
        l.become(I, drop(I, l.pred, i), val)
    else:
        e = term(v)
        l.become(I, put(I, l.pred, i, l.n), lambda x: z3.If(x == i, e, val(x)))


def assign_slice(I, l, s, new):
    if s.step is not None:
        raise Unsupported("stepped slice")
    lo, hi = I.clamp(s.start, l.n, 0), I.clamp(s.stop, l.n, simp(l.n))
    if not I.E.branch(zi(lo) <= zi(hi)):
        hi = lo
    lo, hi = zi(lo), zi(hi)
    if isinstance(new, HList):
        mid = hlist(I, new.pred, new.val)
    elif isinstance(new, (SList, tuple, list)):
        mid = hlist(I, nothing(I), no_val)
        _h_extend(I, mid, [new], {})
    else:
        raise Unsupported("slice assignment")
    val, mv, mn = l.val, mid.val, zi(mid.n)
    p = joined(I, joined(I, resized(I, l.pred, lo), mid.pred), shifted(I, l.pred, hi, l.n))
    l.become(I, p, lambda x: z3.If(x < lo, val(x), z3.If(x < lo + mn, mv(x - lo), val(x - lo - mn + hi))))


def take_out(I, l, i):
    i, val = zi(i), l.val
    l.become(I, removed(I, l.pred, i), lambda x: val(z3.If(x < i, x, x + 1)))


@method(HList, "__delitem__")
def _h_delitem(I, l, a, k):
    if isinstance(a[0], slice):
        if a[0].step is not None:
            raise Unsupported("stepped slice")
        lo, hi = I.clamp(a[0].start, l.n, 0), I.clamp(a[0].stop, l.n, simp(l.n))
        if not I.E.branch(zi(lo) <= zi(hi)):
            return
        val, lo, hi = l.val, zi(lo), zi(hi)
        p = joined(I, resized(I, l.pred, lo), shifted(I, l.pred, hi, l.n))
        l.become(I, p, lambda x: val(z3.If(x < lo, x, x - lo + hi)))
        return
    take_out(I, l, I.norm_index(a[0], l.n))


@method(HList, "pop")
def _h_pop(I, l, a, k):
    i = I.norm_index(a[0] if a else -1, l.n)
    v = read(I, l, i)
    take_out(I, l, i)
    return v


def put_in(I, l, i, v):
    i, val = zi(i), l.val
    hole = is_hole(I, v)
    e = None if hole else term(v)
    l.become(I, inserted(I, l.pred, i, not hole),
             lambda x: z3.If(x < i, val(x), val(x - 1)) if hole else z3.If(x < i, val(x), z3.If(x == i, e, val(x - 1))))


@method(HList, "insert")
def _h_insert(I, l, a, k):
    put_in(I, l, I.clamp(a[0], l.n, 0), a[1])


@method(HList, "append")
def _h_append(I, l, a, k):
    put_in(I, l, l.n, a[0])


@method(HList, "extend", "__iadd__")
def _h_extend(I, l, a, k):
    o = a[0]
    if isinstance(o, HList):
        p, v1, v2, n = joined(I, l.pred, o.pred), l.val, o.val, l.n
        l.become(I, p, lambda x: z3.If(x < n, v1(x), v2(x - n)))
    elif isinstance(o, (SList, tuple, list)):
        for x in list(o.items if isinstance(o, SList) else o):
            put_in(I, l, l.n, x)
    else:
        raise Unsupported("extend by something else")
    return l


@method(HList, "clear")
def _h_clear(I, l, a, k):
    l.become(I, nothing(I), no_val)


@method(HList, "reverse")
def _h_reverse(I, l, a, k):
    val, n = l.val, l.n
    l.become(I, backwards(I, l.pred), lambda x: val(n - 1 - x))


@method(HList, "copy", "__list__")
def _h_copy(I, l, a, k):
    return hlist(I, l.pred, l.val)


@method(HList, "__len__")
def _h_len(I, l, a, k):
    return mkint(l.n)


def as_seq(I, l, f=None):
    c = HList(l.pred, l.val)        # the contents now
    return SSeq(l.n, (lambda i: read(I, c, i)) if f is None else (lambda i: f(c, i)))


@method(HList, "__iter__")
def _h_iter(I, l, a, k):
    return I.reg(as_seq(I, l))


@method(HList, "__iterate__")
def _h_iterate(I, l, a, k):
    return I.iterate(I.reg(as_seq(I, l)), a[0])


@method(HList, "__enumerate__")
def _h_enumerate(I, l, a, k):
    return I.reg(as_seq(I, l, lambda c, i: (mkint(zi(i) + ie(a[0])), read(I, c, i))))


@method(HList, "__reversed__")
def _h_reversed(I, l, a, k):
    return I.reg(as_seq(I, l, lambda c, i: read(I, c, c.n - 1 - zi(i))))


def repeat_hook(I, items, n):
    """[JSHole] * n"""
    n = zi(n)
    if len(items) == 1 and items[0] is I.HOLE:
        return hlist(I, nothing(I, z3.simplify(z3.If(n > 0, n, 0))), no_val)
    return None


# ---- the dict -------------------------------------------------------------------
def new_umap(I):
    return I.reg(UMap(nothing(I), no_val))


def key(k):
    if is_intlike(k):
        return ie(k)
    raise Unsupported(f"key {k!r} of an int-keyed dict")


def member(I, m, e):
    point(I, m.pred, e)
    return I.E.branch(m.pred.has(I, e))


def recording(I):
    return I.emitted is not None and getattr(I, "recording", False)


@method(UMap, "__contains__")
def _u_contains(I, m, a, k):
    return member(I, m, key(a[0]))


@method(UMap, "get")
def _u_get(I, m, a, k):
    e = key(a[0])
    if member(I, m, e):
        return elem_val(m.val(e))
    return a[1] if len(a) > 1 else None


@method(UMap, "__getitem__")
def _u_getitem(I, m, a, k):
    e = key(a[0])
    if member(I, m, e):
        return elem_val(m.val(e))
    I.raise_(KeyError, a[0])


@method(UMap, "__setitem__")
def _u_setitem(I, m, a, k):
    e, v = key(a[0]), term(a[1])
    if I.E.branch(e < 0):
        raise Unsupported("negative index stored")
    if recording(I):
        I.emitted.append(("put", m.uid, mkint(e), a[1]))
        return
    I.touch(m)
    p, val = m.pred, m.val
    m.pred = put(I, p, e)
    m.val = lambda x: z3.If(x == e, v, val(x))


def u_drop(I, m, e):
    if recording(I):
        I.emitted.append(("del", m.uid, mkint(e), None))
        return
    I.touch(m)
    m.pred = drop(I, m.pred, e)


@method(UMap, "__delitem__")
def _u_delitem(I, m, a, k):
    e = key(a[0])
    if not member(I, m, e):
        I.raise_(KeyError, a[0])
    u_drop(I, m, e)


@method(UMap, "pop")
def _u_pop(I, m, a, k):
    e = key(a[0])
    if not member(I, m, e):
        if len(a) > 1:
            return a[1]
        I.raise_(KeyError, a[0])
    v = elem_val(m.val(e))
    u_drop(I, m, e)
    return v


@method(UMap, "clear")
def _u_clear(I, m, a, k):
    I.touch(m)
    m.pred, m.val = nothing(I), no_val


@method(UMap, "copy")
def _u_copy(I, m, a, k):
    return I.reg(UMap(m.pred, m.val))


@method(UMap, "__len__")
def _u_len(I, m, a, k):
    return mkint(m.pred.total(I))


def members(I, p, f, ordered, down=False):
    """The members of p in ascending (or descending) order, or in an order not to be relied on."""
    def run(cb):
        if not ordered and I.capture is None and not getattr(I, "any_order", False):
            raise Unsupported("the order of a dict")

        def one(y):
            if I.E.branch(p.has(I, y)):
                cb(f(y))
        return I.symloop(p.n, (lambda y: p.n - 1 - y) if down else (lambda y: y), one, None, None)
    g = I.reg(SGen(run, "members"))
    return g


@method(UMap, "items")
def _u_items(I, m, a, k):
    val = m.val
    return members(I, m.pred, lambda y: (mkint(y), elem_val(val(zi(y)))), False)


@method(UMap, "keys", "__iter__")
def _u_keys(I, m, a, k):
    return members(I, m.pred, mkint, False)


@method(UMap, "values")
def _u_values(I, m, a, k):
    val = m.val
    return members(I, m.pred, lambda y: elem_val(val(zi(y))), False)


@method(UMap, "__iterate__")
def _u_iterate(I, m, a, k):
    return I.iterate(_u_keys(I, m, [], {}), a[0])


@method(UMap, "__list__")
def _u_list(I, m, a, k):
    if I.E.entails(m.pred.total(I) <= 1):
        return I.reg(Asc(m.pred))
    raise Unsupported("the keys of a dict in its own order")


@method(UMap, "__sorted__")
def _u_sorted(I, m, a, k):
    if any(v not in (None, False) for v in k.values()):
        raise Unsupported("sorted with key or reverse")
    return I.reg(Asc(m.pred))


# ---- the ascending list ------------------------------------------------------------
@method(Asc, "__len__")
def _a_len(I, s, a, k):
    return mkint(s.pred.total(I))


@method(Asc, "__getitem__")
def _a_getitem(I, s, a, k):
    i, p = a[0], s.pred
    if isinstance(i, slice):
        if i.step is not None:
            raise Unsupported("stepped slice")
        t = p.total(I)
        lo, hi = I.clamp(i.start, t, 0), I.clamp(i.stop, t, None)
        if hi is not None:
            p = first(I, p, hi)
        if not (isinstance(lo, int) and lo == 0):
            p = after(I, p, lo)
        return I.reg(Asc(p))
    return mkint(p.sel(I, I.norm_index(i, p.total(I))))


@method(Asc, "pop")
def _a_pop(I, s, a, k):
    p = s.pred
    i = p.sel(I, I.norm_index(a[0] if a else -1, p.total(I)))
    I.touch(s)
    s.pred = drop(I, p, i)
    return mkint(i)


@method(Asc, "append")
def _a_append(I, s, a, k):
    e, p = key(a[0]), s.pred
    if not I.E.entails(z3.And(e >= 0, z3.Or(p.total(I) == 0, p.sel(I, p.total(I) - 1) < e))):
        raise Unsupported("append to an ascending list out of order")
    I.touch(s)
    s.pred = put(I, p, e)


@method(Asc, "copy", "__list__")
def _a_copy(I, s, a, k):
    return I.reg(Asc(s.pred))


@method(Asc, "clear")
def _a_clear(I, s, a, k):
    I.touch(s)
    s.pred = nothing(I)


@method(Asc, "__delitem__")
def _a_delitem(I, s, a, k):
    i, p = a[0], s.pred
    if isinstance(i, slice):
        if i.step is not None or i.stop is not None:
            raise Unsupported("del of a middle slice")
        lo = I.clamp(i.start, p.total(I), 0)
        I.touch(s)
        s.pred = first(I, p, lo)
        return
    e = p.sel(I, I.norm_index(i, p.total(I)))
    I.touch(s)
    s.pred = drop(I, p, e)


@method(Asc, "__contains__")
def _a_contains(I, s, a, k):
    return I.E.branch(s.pred.has(I, key(a[0])))


@method(Asc, "__iter__")
def _a_iter(I, s, a, k):
    return members(I, s.pred, mkint, True)


@method(Asc, "__reversed__")
def _a_reversed(I, s, a, k):
    return members(I, s.pred, mkint, True, down=True)


@method(Asc, "__iterate__")
def _a_iterate(I, s, a, k):
    return I.iterate(_a_iter(I, s, [], {}), a[0])


@method(Asc, "__sorted__")
def _a_sorted(I, s, a, k):
    if any(v not in (None, False) for v in k.values()):
        raise Unsupported("sorted with key or reverse")
    return I.reg(Asc(s.pred))


def _bisect(I, a, k, right):
    s, x = a[0], a[1]
    if not isinstance(s, Asc):
        if has_sym(a):
            raise Unsupported("bisect of something else")
        return I.native(bisect.bisect_right if right else bisect.bisect_left, a, k)
    if len(a) > 2 or k:
        raise Unsupported("bisect with bounds")
    return mkint(s.pred.cnt(I, key(x) + (1 if right else 0)))


def has_sym(v):
    from .interp import has_sym as h
    return h(v)


@model(bisect.bisect_left)
def _bl(I, a, k):
    return _bisect(I, a, k, False)


@model(bisect.bisect_right)
def _br(I, a, k):
    return _bisect(I, a, k, True)


# ---- bulk operations -----------------------------------------------------------------
def guard_pred(I, guard, n):
    """A known set with the membership term guard(j) for 0 <= j < n: (set, offset), or None."""
    E = I.E
    j = E.fresh("gj")

    def ok(p, d):
        def f():
            E.assume(z3.And(j >= 0, j < zi(n)))
            p.cnt(I, j + d)
            for q in p.sub:
                q.cnt(I, j + d)
            return E.entails(z3.And(guard(j) == p.has(I, j + d)))
        return isolated(I, f)
    offs = [z3.IntVal(0)]
    g = guard(j)
    for t in apps(g):
        if t.num_args() == 1 and t.decl().name().startswith("in:"):
            d = z3.simplify(t.arg(0) - j)
            if j.get_id() not in {c.get_id() for c in apps(d)} and not any(d.eq(o) for o in offs) and not mentions(d, j):
                offs.append(d)
    known = [p for p in reversed(E.memo.get("preds", ()))]
    for d in offs:
        for p in known:
            if ok(p, d):
                return p, d
    # a known set cut off at some bound
    for c in bounds(g, j):
        c = z3.simplify(z3.If(c > 0, c, 0))
        for p in known:
            if isolated(I, lambda: within(I, p, guard, j, c, n)):
                return resized(I, p, c), z3.IntVal(0)
    # a known set without one member
    for c in bounds(g, j):
        for p in known:
            if isolated(I, lambda: without(I, p, guard, j, c, n)):
                return drop(I, p, c), z3.IntVal(0)
    return None


def without(I, p, guard, j, c, n):
    I.E.assume(z3.And(j >= 0, j < zi(n)))
    point(I, p, j)
    return I.E.entails(guard(j) == z3.And(j != c, p.has(I, j)))


def within(I, p, guard, j, c, n):
    I.E.assume(z3.And(j >= 0, j < zi(n)))
    point(I, p, j)
    return I.E.entails(guard(j) == z3.And(j < c, p.has(I, j)))


def bounds(g, j):
    """Terms c with which the guard compares j."""
    out = []
    for t in subterms(g):
        if z3.is_app(t) and t.num_args() == 2 and t.arg(0).sort() == INT and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            d = z3.simplify(t.arg(0) - t.arg(1))
            for c in (z3.simplify(j - d), z3.simplify(j + d)):
                for c in (c, z3.simplify(c + 1)):
                    if not mentions(c, j) and not any(c.eq(x) for x in out):
                        out.append(c)
    return out


def subterms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
            todo.extend(x.children())
    return out


def apps(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def mentions(t, v):
    return any(x.eq(v) for x in apps(t))


def count_template(I, t):
    """How many indexes of the template emit something."""
    r = guard_pred(I, t.guard, t.n)
    if r is None:
        raise Unsupported("number of elements of a filtered sequence")
    p, d = r
    return p.cnt(I, zi(t.n) + d) - p.cnt(I, d)


def as_set(I, t, guard):
    """The set of indexes j with guard(j), as a known set."""
    r = guard_pred(I, guard, t.n)
    if r is not None and z3.is_int_value(r[1]) and r[1].as_long() == 0:
        return resized(I, r[0], t.n)
    return None


class Frozen(Heap):
    """A list of what a filtered symbolic sequence yielded."""
    __slots__ = ("t", "pytype")

    def __init__(self, t, uid=None):
        self.t, self.uid, self.pytype = t, uid, list

    def snapshot(self):
        return self.t

    def restore(self, v):
        self.t = v


METHKINDS.add(Frozen)


@method(Frozen, "__iterate__")
def _f_iterate(I, f, a, k):
    t = f.t

    def one(j):
        t.facts(I, zi(j))
        if I.E.branch(t.guard(zi(j))):
            a[0](t.at(I, zi(j)))
    return I.symloop(t.n, lambda j: j, one, None, None)


@method(Frozen, "__len__")
def _f_len(I, f, a, k):
    return mkint(count_template(I, f.t))


def list_hook(I, v):
    """list() of a filtered symbolic sequence."""
    if not isinstance(v, (SGen, SObj)) or getattr(v, "started", False) or I.capture is not None:
        return None
    parts = []
    run_captured(I, v, lambda x: parts.append((x,)), parts.append)
    if not parts:
        return I.empty_list(I)
    if not any(isinstance(x, Template) for x in parts):
        return I.lst([x for (x,) in parts])
    if len(parts) != 1:
        raise Unsupported("list of other values")
    return I.reg(Frozen(parts[0]))


def sort_hook(I, v, k):
    """sorted() of distinct indexes from a filtered symbolic sequence; None if it is something else."""
    if any(x not in (None, False) for x in k.values()):
        return None
    if v.started or not any(isinstance(o, (UMap, Asc, HList)) for o in I.heap.values()):
        return None
    seen = []
    run_captured(I, v, lambda x: seen.append(None), seen.append)
    if not seen:
        return I.reg(Asc(nothing(I)))
    if len(seen) != 1 or seen[0] is None:
        raise Unsupported("sorted of other values")
    t = seen[0]
    if not all(is_intlike(x) for _, _, x in t.cases if x is not None):
        raise Unsupported("sorted of other values")
    q, _ = set_of_keys(I, t, lambda j: t.key(I, zi(j), ie), t.guard)
    return I.reg(Asc(q))


def sum_hook(I, v, start):
    """sum() of a constant over a filtered symbolic sequence; None if not applicable."""
    acc = [ie(start)]

    def one(x):
        acc[0] = acc[0] + ie(x)

    def bulk(t):
        vals = {repr(v) for _, _, v in t.cases if v is not None}
        c = [v for _, _, v in t.cases if v is not None]
        if not c:
            return
        if len(vals) != 1 or not isinstance(c[0], int):
            raise Unsupported("sum of varying values")
        acc[0] = acc[0] + int(c[0]) * count_template(I, t)
    run_captured(I, v, one, bulk)
    return mkint(acc[0])


def set_of_keys(I, t, K, guard):
    """The set {K(j): guard(j)} and the index each key comes from; K is injective."""
    E = I.E

    def inj():
        i, j = E.fresh("ia"), E.fresh("ib")
        E.assume(z3.And(i >= 0, i < j, j < zi(t.n)))
        t.facts(I, i)
        t.facts(I, j)
        E.assume(z3.And(guard(i), guard(j)))
        return E._check() == z3.unsat or E.entails(K(i) != K(j))
    ix = E.fresh("ik")
    own = isolated(I, lambda: (E.assume(z3.And(ix >= 0, ix < zi(t.n))), t.facts(I, ix), E.assume(guard(ix)),
                               E.entails(K(ix) == ix))[-1])
    if own:
        q = as_set(I, t, guard)
        if q is None:
            q = unknown(I, t.n, lambda I, x: guard(x))
        return q, lambda x: x
    if not isolated(I, inj):
        raise Unsupported("a key may be written twice")
    u = E.fresh_id("src")
    S = z3.Function(f"src:{u}", INT, INT)
    rng = lambda j: z3.And(zi(j) >= 0, zi(j) < zi(t.n))
    E.approx = True        # completeness of the set is instantiated at neighbouring indexes only

    def facts(I, x):
        for j in (x, z3.simplify(x - 1), z3.simplify(x + 1)):
            name = ("src", u, j.sexpr())
            if name not in E.axiom_keys:
                E.axiom_keys.add(name)
                t.facts(I, j)
                E.add(z3.Implies(z3.And(rng(j), guard(j)), S(K(j)) == j))
        s = S(x)
        t.facts(I, s)

    def has(I, x):
        x = z3.simplify(x)
        facts(I, x)
        s = S(x)
        return z3.And(rng(s), guard(s), K(s) == x)
    neg = isolated(I, lambda: (E.assume(z3.And(ix >= 0, ix < zi(t.n))), t.facts(I, ix), E.assume(guard(ix)),
                               E.entails(z3.And(K(ix) >= 0, K(ix) <= zi(t.n))))[-1])
    if not neg:
        raise Unsupported("keys out of range")
    q = unknown(I, zi(t.n) + 1, has, count_template(I, t))
    return q, lambda x: S(x)


def bulk_into(I, m, t, of):
    """m[K(j)] = V(j) for every j emitting; of(v) -> (key value, element)."""
    live = [v for _, _, v in t.cases if v is not None]
    if not live:
        return
    K = lambda j: t.key(I, zi(j), lambda v: key(of(v)[0]))
    V = lambda j: t.key(I, zi(j), lambda v: term(of(v)[1]))
    q, src = set_of_keys(I, t, K, t.guard)
    p, val = m.pred, m.val
    I.touch(m)
    empty = I.E.entails(p.total(I) == 0)
    if empty:
        m.pred = q
        m.val = lambda x: V(src(x))
    else:
        n = z3.simplify(z3.If(p.n > q.n, p.n, q.n))
        m.pred = unknown(I, n, lambda I, x: z3.Or(p.has(I, x), q.has(I, x)), None, (p, q))
        m.val = lambda x: z3.If(q.has(I, x), V(src(x)), val(x))


def comp_hook(I, n, fr):
    """Dict comprehensions build a UMap where their source is symbolic."""
    import ast
    if I.in_spec:
        return None
    if isinstance(n, ast.ListComp):
        return list_comp(I, n, fr)
    if not isinstance(n, ast.DictComp):
        return None
    f = I.comp_frame(fr)

    def gen(cb):
        I.run_comp(n.generators, f, lambda: cb((I.ev(n.key, f), I.ev(n.value, f))))
    m = new_umap(I)
    g = I.reg(SGen(gen, "dict comprehension"))
    saved = getattr(I, "recording", False)
    I.recording = False
    try:
        run_captured(I, g, lambda kv: _u_setitem(I, m, [kv[0], kv[1]], {}), lambda t: bulk_into(I, m, t, lambda v: v))
    finally:
        I.recording = saved
    return m


def list_comp(I, n, fr):
    """[v for ... in a symbolic sequence], one element or hole for each index; None if it is something else."""
    if len(n.generators) != 1 or n.generators[0].ifs or getattr(I, "plain_lists", False):
        return None
    f = I.comp_frame(fr)
    it = I.ev(n.generators[0].iter, f)
    if not isinstance(it, (SSeq, HList)) or isinstance(it, SSeq) and it.tail:
        return list_of(I, n, f, it)
    out = []

    def gen(cb):
        I.iterate(it, lambda v: (I.assign(n.generators[0].target, v, f), cb(I.ev(n.elt, f))))
    started = I.E.counter
    run_captured(I, I.reg(SGen(gen, "list comprehension")), lambda v: out.append(None), out.append)
    if not out:
        return hlist(I, nothing(I), no_val)
    if len(out) != 1 or out[0] is None or not out[0].always:
        raise Unsupported("list comprehension")
    (t,) = out
    vals = [(g, v) for g, _, v in t.cases]
    if not all(v is I.HOLE or isinstance(v, SVal) for _, v in vals):
        raise Unsupported("list comprehension of other values")
    if any(v is I.HOLE for _, v in vals):
        raise Unsupported("list comprehension with holes")
    V = lambda x: t.key(I, zi(x), term)
    return hlist(I, everything(I, t.n), V)


def list_of(I, n, f, it):
    """The comprehension as it is, its iterable evaluated already."""
    out = I.lst([])

    def one(v):
        I.assign(n.generators[0].target, v, f)
        x = I.ev(n.elt, f)
        I.touch(out)
        out.items.append(x)
    I.iterate(it, one, n.generators[0].iter, f)
    return out


def everything(I, n):
    n = zi(n)
    return Pred(I, n, lambda I, x: z3.And(x >= 0, x < n), lambda I, x: z3.If(x < 0, 0, z3.If(x < n, x, n)))


def dict_from(I, m, v):
    if isinstance(v, UMap):
        m.pred, m.val = v.pred, v.val
        return
    f = I.class_lookup(v.cls, "keys") if isinstance(v, SObj) else _MISSING
    if f is not _MISSING and f is not None:
        o = v
        v = I.reg(SGen(lambda cb: I.iterate(I.call(I.bind(f, o, o.cls), []), lambda x: cb((x, I.getitem(o, x)))), "items of a mapping"))
    saved = getattr(I, "recording", False)
    I.recording = False
    try:
        run_captured(I, v, lambda kv: _u_setitem(I, m, [kv[0], kv[1]], {}), lambda t: bulk_into(I, m, t, lambda v: v))
    finally:
        I.recording = saved


def for_hook(I, it, cb, s, fr):
    """A loop which only stores to or deletes from one dict, each index its own key: applied at once."""
    if I.capture is not None or I.in_spec or not isinstance(it, (HList, UMap, Asc, Frozen, SGen, SSeq, SRange, SObj)):
        return False
    if not any(isinstance(o, UMap) for o in I.heap.values()):
        return False
    E = I.E
    done = []

    def body(v):
        try:
            cb(v)
        except (ConsumerBreak, ReturnX, BreakX):
            if E._check() == z3.unsat:
                raise Infeasible
            raise Unsupported("a bulk loop that stops early")
        except ObligationFailed:
            # the state an arbitrary iteration starts from is not known here: decide it by the loop rule
            raise Unsupported("an obligation in a bulk loop")

    def bulk(t):
        kinds = {(v[0], v[1]) for _, _, v in t.cases if v is not None}
        for u, name in t.written:
            I.heap[u].vars[name] = POISON
        done.append(1)
        if not kinds:
            return
        if len(kinds) > 1:
            raise Unsupported("a loop with mixed effects")
        (kind, uid), = kinds
        m = I.heap[uid]
        if kind == "put":
            bulk_into(I, m, t, lambda v: (v[2], v[3]))
            return
        q, _ = set_of_keys(I, t, lambda j: t.key(I, zi(j), lambda v: ie(v[2])), t.guard)
        I.touch(m)
        m.pred = minus(I, m.pred, q)
    started = getattr(it, "started", None)
    saved = getattr(I, "recording", False)
    I.recording = True
    try:
        run_captured(I, I.reg(SGen(lambda c: I.iterate(it, body), "loop")), body, bulk)
    except Unsupported:
        if done:
            raise
        if started is not None:
            it.started = started
        return False
    finally:
        I.recording = saved
    return True


# ---- comparing ------------------------------------------------------------------
def point(I, p, x):
    p.cnt(I, x)
    for q in p.sub:
        q.cnt(I, x)


def prove_same_list(I, a, b, label):
    E = I.E
    E.prove(zi(a.n) == zi(b.n), label + ": length")
    x = E.fresh("x")
    E.assume(z3.And(x >= 0, x < zi(b.n)))
    point(I, a.pred, x)
    point(I, b.pred, x)
    E.prove(a.pred.has(I, x) == b.pred.has(I, x), label + ": holes")
    E.prove(z3.Implies(b.pred.has(I, x), a.val(x) == b.val(x)), label + ": elements")


def same_list(I, a, b):
    """Entailed equality of two (n, pred, val)."""
    E = I.E

    def f():
        if not E.entails(zi(a[0]) == zi(b[0])):
            return False
        x = E.fresh("x")
        E.assume(z3.And(x >= 0, x < zi(b[0])))
        point(I, a[1], x)
        point(I, b[1], x)
        return E.entails(z3.And(a[1].has(I, x) == b[1].has(I, x), z3.Implies(b[1].has(I, x), a[2](x) == b[2](x))))
    return isolated(I, f)
