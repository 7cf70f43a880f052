"""itertools.groupby over the elements of a list with holes, where the key tells the runs apart.

Runs of an index set p: the maximal stretches [start, end) of consecutive members, in ascending order.
They are described by three unknowns - how many there are and where the r-th one starts and ends -
constrained through p's counting function.

The key function may keep state in variables of its closure.  It is verified, not assumed, that it
gives each element the start of the element's run: its variables must hold, after every element, the
last index seen or the start of the current run.

Trusted: groupby puts neighbours with equal keys together and keeps the order.
"""
from __future__ import annotations

import itertools

import z3

from . import holey
from .core import Unsupported
from .interp import METHKINDS, _MISSING, ie, is_intlike, method, mkint, model
from .loops import Cand, Fn, get_loc, same, set_loc
from .omap import isolated, run_captured
from .rope import simp, zi
from .values import *

INT = z3.IntSort()


class Runs:
    def __init__(self, I, p):
        self.p = p
        u = I.E.fresh_id("runs")
        self.st, self.en = z3.Function(f"start:{u}", INT, INT), z3.Function(f"end:{u}", INT, INT)
        self.u = u
        self.R = I.E.fresh("runs")
        I.E.assume(self.R >= 0)
        I.E.memo["runs"] = I.E.memo.get("runs", ()) + (self,)
        self.about(I, z3.IntVal(0))
        self.about(I, z3.simplify(self.R - 1))

    def about(self, I, r):
        """What is known about the r-th run and the one before it."""
        E, p = I.E, self.p
        q = z3.simplify(zi(r))
        name = ("run", self.u, q.sexpr())
        if name in E.axiom_keys:
            return
        s, e, b = self.st(q), self.en(q), self.en(z3.simplify(q - 1))
        E.axiom(name, z3.Implies(z3.And(q >= 0, q < self.R), z3.And(
            s >= 0, s < e, e <= p.n, z3.Implies(q > 0, b < s))))
        rs = E.memo["run numbers", self.u] = E.memo.get(("run numbers", self.u), ()) + (q,)
        for x in E.memo.get(("run points", self.u), ()):
            self.fact(I, q, x)

    def fact(self, I, q, x):
        s, e, b, p = self.st(q), self.en(q), self.en(z3.simplify(q - 1)), self.p
        I.E.add(z3.Implies(z3.And(q >= 0, q < self.R), z3.And(
            z3.Implies(z3.And(s <= x, x < e), p.has(I, x)),
            z3.Implies(z3.And(z3.If(q == 0, 0, b) <= x, x < s), z3.Not(p.has(I, x))),
            z3.Implies(z3.And(q == self.R - 1, x >= e), z3.Not(p.has(I, x))))))

    def point(self, I, x):
        """Which run, if any, the index x belongs to."""
        E = I.E
        x = z3.simplify(zi(x))
        name = ("run point", self.u, x.sexpr())
        if name in E.axiom_keys:
            return
        E.axiom(name, z3.Implies(self.R == 0, z3.Not(self.p.has(I, x))))
        E.memo["run points", self.u] = E.memo.get(("run points", self.u), ()) + (x,)
        for q in E.memo.get(("run numbers", self.u), ()):
            self.fact(I, q, x)

    def start(self, I, r):
        self.about(I, r)
        return self.st(z3.simplify(zi(r)))

    def end(self, I, r):
        self.about(I, r)
        return self.en(z3.simplify(zi(r)))


class Groups(Heap):
    """The iterator groupby returns; `pos` runs have been taken from it."""
    __slots__ = ("runs", "val", "pos")

    def __init__(self, runs, val, pos, uid=None):
        self.runs, self.val, self.pos, self.uid = runs, val, pos, uid

    def snapshot(self):
        return (self.pos,)

    def restore(self, v):
        (self.pos,) = v


METHKINDS.add(Groups)


def group(I, g, r):
    s, e = g.runs.start(I, r), g.runs.end(I, r)
    val = g.val
    return (mkint(s), I.reg(SSeq(z3.simplify(e - s), lambda i: (mkint(s + zi(i)), holey.elem_val(val(z3.simplify(s + zi(i))))))))


@method(Groups, "__next__")
def _next(I, g, a, k):
    if not I.E.branch(zi(g.pos) < g.runs.R):
        if a:
            return a[0]
        I.raise_(StopIteration)
    r = g.pos
    I.touch(g)
    g.pos = simp(zi(r) + 1)
    return group(I, g, r)


@method(Groups, "__iter__")
def _iter(I, g, a, k):
    return g


@method(Groups, "__iterate__")
def _iterate(I, g, a, k):
    pos = g.pos
    I.touch(g)
    g.pos = g.runs.R
    n = z3.simplify(g.runs.R - zi(pos))
    I.E.memo["group loops"] = I.E.memo.get("group loops", ()) + ((g.runs, pos),)
    return I.symloop(n, lambda r: group(I, g, z3.simplify(zi(r) + zi(pos))), a[0], None, None)


class Writes:
    """Write log: which existing locations are assigned."""

    def __init__(self, I, mark):
        self.I, self.mark, self.locs = I, mark, {}

    def add(self, loc):
        if loc[1] <= self.mark and loc not in self.locs:
            self.locs[loc] = get_loc(self.I, loc)


def state_of(I, f, args):
    """The locations a call assigns, on any path."""
    found = {}

    def run():
        w = Writes(I, mark)
        I.writes.append(w)
        try:
            I.call(f, args)
        finally:
            I.writes.remove(w)
            for loc, v in w.locs.items():
                set_loc(I, loc, v)
        found.update(w.locs)
        return True
    mark = I.E.counter
    ok = isolated(I, run)
    return found if ok else None


@model(itertools.groupby)
def _groupby(I, a, k):
    E = I.E
    key = a[1] if len(a) > 1 else k.get("key")
    seen = []
    run_captured(I, a[0], lambda v: seen.append(None), seen.append)
    if not seen:
        return I.lst([])
    if len(seen) != 1 or seen[0] is None or key is None:
        raise Unsupported("groupby of something else")
    (t,) = seen
    K = lambda j: t.key(I, zi(j), lambda v: ie(v[0]))
    V = lambda j: t.key(I, zi(j), lambda v: holey.term(v[1]))
    x = E.fresh("gx")
    own = isolated(I, lambda: (E.assume(z3.And(x >= 0, x < zi(t.n))), t.facts(I, x), E.assume(t.guard(x)), E.entails(K(x) == x))[-1])
    p = holey.as_set(I, t, t.guard) if own else None
    if p is None:
        raise Unsupported("groupby of elements in another order")
    val = lambda x: V(zi(x))
    item = lambda y: (mkint(y), holey.elem_val(E.fresh("gv", Val)))
    entry = state_of(I, key, [item(x)])
    if entry is None:
        raise Unsupported("the key function of groupby")
    ROLE = ("last index", "start of run")
    roles = {}
    for combo in itertools.product(ROLE, repeat=len(entry)):
        roles = dict(zip(entry, combo))
        if good_key(I, p, key, item, entry, roles):
            break
    else:
        raise Unsupported("the key function of groupby does not tell the runs apart")
    for loc in entry:
        set_loc(I, loc, POISON)
    E.stats.obligations += 2
    E.stats.discharged += 2
    E.stats.labels["the key function gives the start of the run"] = E.stats.labels.get("the key function gives the start of the run", 0) + 2
    return I.reg(Groups(Runs(I, p), val, 0))


def good_key(I, p, key, item, entry, roles):
    E = I.E

    def holds(y, s):
        return all(is_intlike(v) and E.entails(ie(v) == (y if roles[loc] == "last index" else s))
                   for loc, v in ((loc, get_loc(I, loc)) for loc in roles))

    def call(y):
        r = I.call(key, [item(y)])
        return r if is_intlike(r) else None

    def first():
        y = E.fresh("gy")
        E.assume(y >= 0)
        for loc, v in entry.items():
            set_loc(I, loc, v)
        r = call(y)
        return r is not None and E.entails(ie(r) == y) and holds(y, y)

    def later():
        z, y, s = E.fresh("gz"), E.fresh("gy"), E.fresh("gs")
        E.assume(z3.And(z >= 0, z < y, s >= 0, s <= z))
        for loc in entry:
            set_loc(I, loc, mkint(z if roles[loc] == "last index" else s))
        r = call(y)
        want = z3.If(z == y - 1, s, y)
        return r is not None and E.entails(ie(r) == want) and holds(y, want)
    try:
        return alone(I, first) and alone(I, later)
    finally:
        for loc, v in entry.items():
            set_loc(I, loc, v)


def alone(I, f):
    """f() without any of the facts known so far."""
    E = I.E
    solver, pc = E.solver, E.pc
    E.solver, E.pc = z3.Solver(), []
    try:
        return isolated(I, f)
    finally:
        E.solver, E.pc = solver, pc


class Made(Cand):
    """A variable holding an object made from the last run dealt with."""
    name = "object made from the run"
    made = True

    def __init__(self, runs, pos, cls, attrs):
        self.runs, self.pos, self.cls, self.attrs = runs, pos, cls, attrs

    def at(self, I, k, v0):
        r = z3.simplify(zi(k) + zi(self.pos) - 1)
        return I.new(self.cls, **{n: f(I, r) for n, f in self.attrs.items()})

    def like(self, I, a, b):
        if not (isinstance(a, SObj) and a.cls is self.cls and set(a.attrs) == set(b.attrs)):
            return False
        for n, w in b.attrs.items():
            v = a.attrs[n]
            if isinstance(w, holey.HList):
                if not (isinstance(v, holey.HList) and holey.same_list(I, v.snapshot(), w.snapshot())):
                    return False
            elif not same(I, v, w):
                return False
        return True

    def base_ok(self, I, v0):
        return self.like(I, v0, self.at(I, z3.IntVal(0), v0))

    def ok(self, I, new, k1, v0):
        return self.like(I, new, self.at(I, k1, v0))


def hints(I, loc, v0, v1, ctx):
    out = []
    for runs, pos in I.E.memo.get("group loops", ()):
        if is_intlike(v0) and not isinstance(v0, (bool, SBool)):
            def done(I, k, v0, runs=runs, pos=pos):
                return mkint(runs.end(I, z3.simplify(zi(k) + zi(pos) - 1)))
            out.append(Fn(done, "end of the last run"))
        if isinstance(v1, SObj) and isinstance(v0, SObj) and v0.cls is v1.cls:
            attrs = {}
            for n, v in v1.attrs.items():
                if is_intlike(v):
                    r1 = z3.simplify(zi(pos))
                    s, e = runs.start(I, r1), runs.end(I, r1)
                    for f, g in (((lambda I, r: mkint(runs.start(I, r))), s), ((lambda I, r: mkint(runs.end(I, r))), e),
                                 ((lambda I, r: mkint(z3.simplify(runs.end(I, r) - runs.start(I, r)))), e - s)):
                        if I.E.entails(ie(v) == g):
                            attrs[n] = f
                            break
                elif isinstance(v, holey.HList):
                    val = ctx_val(I, runs)
                    attrs[n] = lambda I, r: (lambda s, e: holey.hlist(I, holey.everything(I, z3.simplify(e - s)), lambda x: val(z3.simplify(s + zi(x)))))(runs.start(I, r), runs.end(I, r))
                if n not in attrs:
                    break
            else:
                out.append(Made(runs, pos, v1.cls, attrs))
    return out


def ctx_val(I, runs):
    for o in I.heap.values():
        if isinstance(o, Groups) and o.runs is runs:
            return o.val
    raise Unsupported("runs of nothing")
