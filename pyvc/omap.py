"""An insertion-ordered dict of symbolic size (trusted model of Python's dict).

Contents are functions: n entries, elem(I, i) -> (key term, value) of the i-th entry in order,
find(I, e) -> the position of key e or None (forks where undecided).  Single writes compose these
functions; a bulk update from a symbolic sequence is described by the facts that characterise it:
every key maps to the value of its last occurrence, keys keep the position of their first insertion.

Keys are ints or the opaque surrogates `Surr` (equal exactly when their terms are).
"""
from __future__ import annotations

import z3

from .core import Infeasible, ObligationFailed, Unsupported
from .interp import METHKINDS, METHODS, BreakX, ConsumerBreak, PyRaise, ReturnX, _MISSING, Frame, ie, is_intlike, method, mkbool, mkint
from .rope import simp, zi
from .values import *

INT = z3.IntSort()


class Surr(Sym):
    """A hashable value of which only == is known: equal to another Surr iff the terms are equal."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"Surr({self.e})"


@method(Surr, "__eq__")
def _surr_eq(I, s, a, k):
    if isinstance(a[0], Surr):
        return mkbool(s.e == a[0].e)
    raise Unsupported("comparison of a surrogate with something else")


class OMap(Heap):
    __slots__ = ("n", "elem", "find", "wrap", "pytype", "made")

    def __init__(self, n, elem, find, wrap=None, uid=None):
        self.n, self.elem, self.find = n, elem, find
        self.wrap = wrap or Surr
        self.uid = uid
        self.made = None        # of {k: v for ...}: its entries and templates, while unchanged
        self.pytype = dict

    def snapshot(self):
        return (self.n, self.elem, self.find)

    def restore(self, v):
        self.n, self.elem, self.find = v


METHKINDS.add(OMap)


def empty(I, wrap=None):
    def none(I, i):
        raise Infeasible
    return I.reg(OMap(0, none, lambda I, e: None, wrap))


def key(k):
    if isinstance(k, Surr):
        return k.e
    if is_intlike(k):
        return ie(k)
    if isinstance(k, SVal) and k.cls is str:
        return k.e
    raise Unsupported(f"key {k!r} of a symbolic dict")


# ---- single operations -----------------------------------------------------
def put(I, m, k, v):
    e = key(k)
    rec = getattr(I, "loop_puts", None)
    if rec is not None and m.uid <= rec["mark"]:
        if I.emitted is None:
            raise Unsupported("a store outside the recorded loop body")
        I.emitted.append((m.uid, k, v))
        return
    n, elem, find = m.n, m.elem, m.find
    p = find(I, e)
    I.touch(m)
    if p is None:
        m.n = simp(zi(n) + 1)
        m.elem = lambda I, i: (e, v) if I.E.branch(zi(i) == zi(n)) else elem(I, i)
        m.find = lambda I, x: n if I.E.branch(x == e) else find(I, x)
    else:
        def at(I, i):
            if I.E.branch(zi(i) == zi(p)):
                return (e, v)
            return elem(I, i)
        m.elem = at


def read(I, m):
    """A map which is read by a loop body cannot be one it stores to, when the loop is applied at once."""
    rec = getattr(I, "loop_puts", None)
    if rec is not None:
        rec["read"].add(m.uid)


def drop(I, m, p):
    if getattr(I, "loop_puts", None) is not None:
        raise Unsupported("a removal in a bulk loop")
    n, elem, find = m.n, m.elem, m.find
    gone = elem(I, p)[0]
    I.touch(m)
    m.n = simp(zi(n) - 1)
    m.elem = lambda I, i: elem(I, simp(z3.If(zi(i) < zi(p), zi(i), zi(i) + 1)))

    def f(I, x):
        if I.E.branch(x == gone):
            return None
        q = find(I, x)
        if q is None:
            return None
        return simp(z3.If(zi(q) < zi(p), zi(q), zi(q) - 1))
    m.find = f


@method(OMap, "__contains__")
def _contains(I, m, a, k):
    read(I, m)
    return m.find(I, key(a[0])) is not None


@method(OMap, "__getitem__")
def _getitem(I, m, a, k):
    read(I, m)
    p = m.find(I, key(a[0]))
    if p is None:
        I.raise_(KeyError, a[0])
    return m.elem(I, p)[1]


@method(OMap, "get")
def _get(I, m, a, k):
    read(I, m)
    p = m.find(I, key(a[0]))
    if p is None:
        return a[1] if len(a) > 1 else k.get("default")
    return m.elem(I, p)[1]


@method(OMap, "__setitem__")
def _setitem(I, m, a, k):
    put(I, m, a[0], a[1])


@method(OMap, "setdefault")
def _setdefault(I, m, a, k):
    read(I, m)
    p = m.find(I, key(a[0]))
    if p is not None:
        return m.elem(I, p)[1]
    d = a[1] if len(a) > 1 else None
    put(I, m, a[0], d)
    return d


@method(OMap, "__delitem__")
def _delitem(I, m, a, k):
    read(I, m)
    p = m.find(I, key(a[0]))
    if p is None:
        I.raise_(KeyError, a[0])
    drop(I, m, p)


@method(OMap, "pop")
def _pop(I, m, a, k):
    read(I, m)
    p = m.find(I, key(a[0]))
    if p is None:
        if len(a) > 1:
            return a[1]
        I.raise_(KeyError, a[0])
    v = m.elem(I, p)[1]
    drop(I, m, p)
    return v


@method(OMap, "popitem")
def _popitem(I, m, a, k):
    read(I, m)
    if I.E.branch(zi(m.n) == 0):
        I.raise_(KeyError, "popitem(): dictionary is empty")
    e, v = m.elem(I, simp(zi(m.n) - 1))
    drop(I, m, simp(zi(m.n) - 1))
    return (m.wrap(e), v)


@method(OMap, "clear")
def _clear(I, m, a, k):
    if getattr(I, "loop_puts", None) is not None:
        raise Unsupported("a removal in a bulk loop")
    I.touch(m)
    o = empty(I)
    m.n, m.elem, m.find = o.n, o.elem, o.find


@method(OMap, "copy")
def _copy(I, m, a, k):
    read(I, m)
    return I.reg(OMap(m.n, m.elem, m.find, m.wrap))


@method(OMap, "__len__")
def _len(I, m, a, k):
    read(I, m)
    return mkint(m.n)


def entries(I, m, what):
    read(I, m)
    elem, wrap = m.elem, m.wrap

    def at(i):
        e, v = elem(I, i)
        return {"k": lambda: wrap(e), "v": lambda: v, "kv": lambda: (wrap(e), v)}[what]()
    return I.reg(SSeq(m.n, at))


@method(OMap, "values")
def _values(I, m, a, k):
    return entries(I, m, "v")


@method(OMap, "keys", "__iter__")
def _keys(I, m, a, k):
    return entries(I, m, "k")


@method(OMap, "items")
def _items(I, m, a, k):
    return entries(I, m, "kv")


@method(OMap, "__iterate__")
def _iterate(I, m, a, k):
    return I.iterate(entries(I, m, "k"), a[0])


# ---- what a pipeline of generators yields for a symbolic sequence ------------
class Template:
    """For each index 0 <= ix < n one of `cases` applies: (guard, facts, emitted value or None)."""

    def __init__(self, n, ix, cases):
        self.n, self.ix, self.cases = n, ix, cases
        self.queries = ()
        self.always = all(v is not None for _, _, v in cases)

    def guard(self, j):
        """Something is emitted for index j."""
        return z3.Or([z3.substitute(g, (self.ix, zi(j))) for g, _, v in self.cases if v is not None] + [z3.BoolVal(False)])

    def facts(self, I, j):
        out = [z3.Or([g for g, _, _ in self.cases])]       # the cases are exhaustive
        for g, fs, v in self.cases:
            if fs:
                out.append(z3.Implies(g, z3.And(fs)))
        for c in out:
            I.E.assume(z3.Implies(z3.And(zi(j) >= 0, zi(j) < zi(self.n)), z3.substitute(c, (self.ix, zi(j)))))

        for name, e, f in self.queries:
            query(I, name, z3.substitute(e, (self.ix, zi(j))), f)

    def at(self, I, j):
        """The value emitted for index j (which is known to emit something)."""
        self.facts(I, j)
        live = [(g, v) for g, _, v in self.cases if v is not None]
        for n, (g, v) in enumerate(live):
            if n == len(live) - 1 or I.E.branch(z3.substitute(g, (self.ix, zi(j)))):
                return subst(v, self.ix, zi(j))
        raise Infeasible

    def key(self, I, j, of):
        """The key term for index j: one term where all cases agree on its shape."""
        live = [(g, of(v)) for g, _, v in self.cases if v is not None]
        t = live[-1][1]
        for g, x in reversed(live[:-1]):
            if not x.eq(t):
                t = z3.If(g, x, t)
        return z3.substitute(t, (self.ix, zi(j)))


def subst(v, ix, j):
    if isinstance(v, tuple):
        return tuple(subst(x, ix, j) for x in v)
    if isinstance(v, SVal):
        return SVal(z3.substitute(v.e, (ix, j)), v.cls, v.info)
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.e, (ix, j)))
    if isinstance(v, SBool):
        return mkbool(z3.substitute(v.e, (ix, j)))
    if isinstance(v, Surr):
        return Surr(z3.substitute(v.e, (ix, j)))
    if isinstance(v, Sym):
        raise Unsupported(f"generated value {v!r}")
    return v


def capture_template(I, n, elem, step):
    """Evaluate step(elem(ix)) for one arbitrary index ix on all its paths; step's emissions go to I.emitted."""
    E = I.E
    from .loops import consts, num
    mark = E.counter
    ix = E.fresh("ix")
    saved = (E.taken, E.prefix, E.worklist, E.branch_logs, set(E.axiom_keys), len(E.pc), dict(E.memo), I.capture, I.emitted)
    cases, written, queries = [], set(), []
    known = {name for name, _, _ in E.memo.get("queries", ())}
    work = [[]]
    frames = {u: dict(o.vars) for u, o in I.heap.items() if isinstance(o, Frame)}
    try:
        while work:
            prefix = work.pop()
            E.solver.push()
            log, blog, emitted = Purity(I, mark), [], []
            for u, name in written:         # locals the step assigns have no known value before
                I.heap[u].vars[name] = POISON
            E.prefix, E.taken, E.worklist, E.branch_logs = prefix, [], work, [blog]
            I.capture, I.emitted = None, emitted
            I.writes.append(log)
            start = len(E.pc)
            try:
                E.add(z3.And(ix >= 0, ix < zi(n)))
                ok = True
                try:
                    step(elem(ix))
                except Infeasible:
                    ok = False
                except PyRaise as e:
                    if E._check() == z3.unsat:
                        ok = False
                    else:
                        raise Unsupported(f"{e.cls.__name__} in an element of a bulk operation")
                new = E.pc[start + 1:]
                for q in E.memo.get("queries", ()):
                    if q[0] not in known:
                        known.add(q[0])
                        queries.append((q[0][:-1],) + q[1:])
                E.memo["queries"] = saved[6].get("queries", ())
            finally:
                I.writes.remove(log)
                E.solver.pop()
                E.axiom_keys = set(saved[4])
                del E.pc[start:]
            if not log.locals <= written:
                written |= log.locals
                cases, work = [], [[]]
                continue
            if not ok:
                continue
            if len(emitted) > 1:
                raise Unsupported("more than one value for an element of a bulk operation")
            guard = z3.And(blog) if blog else z3.BoolVal(True)
            facts = [c for c in new if not any(c is g or c.eq(g) for g in blog)]
            for c in [guard] + facts:
                for x in consts(c):
                    if not x.eq(ix) and "!" in x.decl().name() and num(x) > mark:
                        raise Unsupported(f"unknown {x} in an element of a bulk operation")
            cases.append((z3.simplify(guard), facts, emitted[0] if emitted else None))
    finally:
        E.taken, E.prefix, E.worklist, E.branch_logs = saved[:4]
        E.axiom_keys = saved[4]
        del E.pc[saved[5]:]
        E.memo.clear()
        E.memo.update(saved[6])
        I.capture, I.emitted = saved[7], saved[8]
        for u, vs in frames.items():
            o = I.heap[u]
            for name in [x for x in o.vars if x not in vs]:
                del o.vars[name]
            o.vars.update(vs)
    t = Template(n, ix, cases)
    t.queries = tuple(queries)
    t.written = set(written)
    return t


class Purity:
    """Write log: a bulk element function may only assign the locals of its comprehensions."""

    def __init__(self, I, mark):
        self.I, self.mark, self.locals = I, mark, set()

    def add(self, loc):
        if loc[1] > self.mark:
            return
        if loc[0] == "l":
            self.locals.add((loc[1], loc[2]))
            return
        raise Unsupported("an element of a bulk operation has side effects")


def run_captured(I, it, one, bulk):
    """Iterate: one(value) for single elements, bulk(template) for a symbolic stretch."""
    saved = I.capture, I.emitted

    def sink(v):
        if I.emitted is not None:
            I.emitted.append(v)
        else:
            one(v)

    def cap(n, elem, step):
        t = capture_template(I, n, elem, step)
        t.again = lambda j: directly(I, step, elem, j)
        bulk(t)
    I.capture, I.emitted = cap, None
    try:
        I.iterate(it, sink)
    finally:
        I.capture, I.emitted = saved


def directly(I, step, elem, j):
    """The value emitted for index j, evaluated on this path."""
    saved = I.capture, I.emitted
    I.capture, I.emitted = None, []
    try:
        step(elem(zi(j)))
        return I.emitted[0]
    finally:
        I.capture, I.emitted = saved


# ---- bulk update --------------------------------------------------------------
@method(OMap, "update")
def _update(I, m, a, k):
    if getattr(I, "loop_puts", None) is not None:
        raise Unsupported("a bulk update in a bulk loop")
    for v in a:
        made = v.made if isinstance(v, OMap) else None
        if made is not None and all(x is y for x, y in zip(made[1:], (v.n, v.elem, v.find))):
            for t in made[0]:       # m.update({k: v for ...}) is m.update((k, v) for ...)
                put(I, m, *t) if isinstance(t, tuple) else bulk_put(I, m, t)
            continue
        h = METHODS.get((type(v), "items")) if isinstance(v, OMap) else None
        if h is not None:
            v = h(I, v, [], {})
        elif isinstance(v, SObj):
            raise Unsupported("dict.update from an object")
        run_captured(I, v, lambda kv: put(I, m, kv[0], kv[1]), lambda t: bulk_put(I, m, t))
    for x, y in k.items():
        put(I, m, x, y)


def for_hook(I, it, cb, s, fr):
    """A loop whose body's only effect is to store into one map which it does not read: applied at once, as a bulk update."""
    if I.capture is not None or I.in_spec or getattr(I, "loop_puts", None) is not None:
        return False
    if not isinstance(it, (SGen, SSeq, SObj, OMap)) or not any(isinstance(o, OMap) for o in I.heap.values()):
        return False
    rec = dict(mark=I.uid(), read=set())
    started, done = getattr(it, "started", None), []

    def body(v):
        try:
            cb(v)
        except (ConsumerBreak, ReturnX, BreakX):
            if I.E._check() == z3.unsat:
                raise Infeasible
            raise Unsupported("a bulk loop that stops early")
        except ObligationFailed:
            # the state an arbitrary iteration starts from is not known here: decide it by the loop rule
            raise Unsupported("an obligation in a bulk loop")

    def single(v):
        """An element which is not part of a symbolic stretch: the body runs as it is."""
        done.append(1)
        I.loop_puts, I.capture = None, saved[0]
        try:
            cb(v)
        finally:
            I.loop_puts, I.capture = rec, cap

    def bulk(t):
        done.append(1)
        for u, name in t.written:
            I.heap[u].vars[name] = POISON
        uids = {v[0] for _, _, v in t.cases if v is not None}
        if not uids:
            return
        if len(uids) > 1 or uids & rec["read"]:
            raise Unsupported("a loop which reads what it stores")
        (uid,) = uids
        I.loop_puts = None
        try:
            bulk_put(I, I.heap[uid], t, lambda v: v[1:])
        finally:
            I.loop_puts = rec
    I.loop_puts = rec
    saved = I.capture, I.emitted

    def cap(n, elem, step):
        t = capture_template(I, n, elem, step)
        bulk(t)
    I.capture, I.emitted = cap, None
    try:
        I.iterate(it, lambda v: body(v) if I.emitted is not None else single(v))
    except Unsupported:
        if done:
            raise
        if started is not None:
            it.started = started
        return False
    finally:
        I.loop_puts = None
        I.capture, I.emitted = saved
    return True


def pair(v):
    if not isinstance(v, tuple) or len(v) != 2:
        raise Unsupported("dict.update from something else than pairs")
    return v


def bulk_put(I, m, t, pair=pair):
    E = I.E
    for _, _, v in t.cases:
        if v is not None:
            pair(v)
    if not any(v is not None for _, _, v in t.cases):
        return
    n0, elem0, find0 = m.n, m.elem, m.find
    n = t.n
    of = lambda v: key(pair(v)[0])
    u = E.fresh_id("bulk")
    first, last = z3.Function(f"first:{u}", INT, INT), z3.Function(f"last:{u}", INT, INT)
    rank, unrank = z3.Function(f"rank:{u}", INT, INT), z3.Function(f"unrank:{u}", INT, INT)
    K = lambda j: t.key(I, j, of)
    rng = lambda j: z3.And(zi(j) >= 0, zi(j) < zi(n))
    # is every key different, and new?
    distinct = t.always and isolated(I, lambda: injective(I, t, K))
    fresh = distinct and isolated(I, lambda: disjoint(I, t, K, find0))
    I.E.memo.setdefault("bulk notes", []).append((distinct, fresh))
    if distinct:
        last = first
    if fresh:
        rank_ = unrank_ = lambda j: zi(j)
        count = zi(n)
    else:
        rank_, unrank_ = rank, unrank
        count = E.fresh("newkeys")
        E.assume(z3.And(count >= 0, count <= zi(n)))

    def facts_at(I, i):
        """What source index i says about first and last."""
        t.facts(I, i)
        e = K(i)
        I.E.assume(z3.Implies(z3.And(rng(i), t.guard(i)),
                              z3.And(first(e) >= 0, first(e) <= zi(i), zi(i) <= last(e), last(e) < zi(n))))

    def facts_of(I, i, e):
        facts_at(I, i)

    def occurs(I, e):
        """Does e occur?  Afterwards first(e) and last(e) are its first and last index."""
        f, l = first(e), last(e)
        query(I, ("occurs", u), e, facts_of)
        c = z3.And(f >= 0, f <= l, l < zi(n))
        if not I.E.branch(c):
            I.E.assume(z3.And(f < 0, l < 0))
            return False
        for j in ([f] if distinct else [f, l]):
            t.facts(I, j)
            I.E.assume(z3.And(t.guard(j), K(j) == e))
        if not distinct:
            watch(I, f)
            watch(I, l)
        return True

    def new_first(I, f):
        """f is the first occurrence of a key which was not there before."""
        if fresh:
            return
        r = rank(f)
        I.E.assume(z3.And(r >= 0, r < count, unrank(r) == f))
        known = I.E.memo.get(("new", u), ())        # indexes known to be a first occurrence of a new key
        for g in known:
            I.E.assume((f < g) == (rank(f) < rank(g)))
        if not any(g.eq(f) for g in known):
            I.E.memo["new", u] = known + (f,)

    def find(I, e):
        p = find0(I, e)
        if p is not None:
            return p
        if not occurs(I, e):
            return None
        f = first(e)
        new_first(I, f)
        return simp(zi(n0) + rank_(f))

    def elem(I, i):
        if not isinstance(n0, int) or n0 != 0:
            if I.E.branch(zi(i) < zi(n0)):
                e, v = elem0(I, i)
                if not fresh and occurs(I, e):
                    return e, pair(t.at(I, last(e)))[1]
                return e, v
        f = simp(unrank_(simp(zi(i) - zi(n0))))
        I.E.assume(rng(f))
        I.E.assume(t.guard(f))
        facts_at(I, f)
        e = K(f)
        if fresh:
            I.E.assume(first(e) == zi(f))
            return e, pair(t.at(I, f))[1]
        I.E.assume(z3.And(first(e) == f, rank(f) == zi(i) - zi(n0)))
        new_first(I, f)
        if find0(I, e) is not None:
            raise Infeasible
        if not occurs(I, e):
            raise Infeasible
        return e, pair(t.at(I, last(e)))[1]
    I.touch(m)
    m.n = simp(zi(n0) + count)
    m.elem, m.find = elem, find


def isolated(I, f):
    """Evaluate f() with the facts it asserts forgotten afterwards; undecided forks count as False."""
    E = I.E
    saved = (E.taken, E.prefix, E.worklist, E.branch_logs, set(E.axiom_keys), len(E.pc), dict(E.memo))
    E.solver.push()
    work = [[]]
    ok = True
    try:
        while work and ok:
            E.prefix, E.taken, E.worklist, E.branch_logs = work.pop(), [], work, []
            E.solver.push()
            k = len(E.pc)
            try:
                ok = bool(f())
            except Infeasible:
                pass
            finally:
                E.solver.pop()
                del E.pc[k:]
                E.axiom_keys = set(saved[4])
    finally:
        E.solver.pop()
        E.taken, E.prefix, E.worklist, E.branch_logs = saved[:4]
        E.axiom_keys = saved[4]
        del E.pc[saved[5]:]
        E.memo.clear()
        E.memo.update(saved[6])
    return ok


def injective(I, t, K):
    E = I.E
    i, j = E.fresh("ia"), E.fresh("ib")
    E.assume(z3.And(i >= 0, i < j, j < zi(t.n)))
    t.facts(I, i)
    t.facts(I, j)
    return E.entails(K(i) != K(j))


def disjoint(I, t, K, find0):
    i = I.E.fresh("ia")
    I.E.assume(z3.And(i >= 0, i < zi(t.n)))
    t.facts(I, i)
    return find0(I, K(i)) is None or I.E._check() == z3.unsat


# ---- instances -----------------------------------------------------------------
# Facts about "the first / last index with a key" hold for every index; they are instantiated at the
# indexes spoken about: each query is told of each watched index, whichever comes first.
def interest(I):
    return list(I.E.memo.get("interest", ()))


def watch(I, i):
    d = I.E.memo.get("interest", ())
    i = z3.simplify(zi(i))
    if not any(x.eq(i) for x in d):
        I.E.memo["interest"] = d + (i,)
        for _, e, f in I.E.memo.get("queries", ()):
            f(I, i, e)


def query(I, name, e, f):
    """f(I, i, e) asserts what index i says about key e; called for every watched index, now and later."""
    I.E.approx = True           # true of every index, told of the watched ones: a model of the rest may be spurious
    qs = I.E.memo.get("queries", ())
    name = name + (z3.simplify(e).sexpr(),)
    if any(q == name for q, _, _ in qs):
        return
    I.E.memo["queries"] = qs + ((name, e, f),)
    for pos in I.E.memo.get("speaks about", ()):
        watch(I, pos(e))
    for i in interest(I):
        f(I, i, e)


def comp_hook(I, n, fr):
    """{k: v for ...}: a bulk update of an empty map."""
    import ast
    if I.in_spec or not isinstance(n, ast.DictComp) or getattr(I, "loop_puts", None) is not None:
        return None
    f = I.comp_frame(fr)

    def gen(cb):
        I.run_comp(n.generators, f, lambda: cb((I.ev(n.key, f), I.ev(n.value, f))))
    m, ts = I.dict_factory(I), []

    def bulk(t):
        ts.append(t)
        bulk_put(I, m, t)

    def one(kv):
        ts.append(kv)
        put(I, m, kv[0], kv[1])
    run_captured(I, I.reg(SGen(gen, "dict comprehension")), one, bulk)
    m.made = (ts, m.n, m.elem, m.find)
    return m
