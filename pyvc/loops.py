"""The loop rule: inferred closed forms per modified location (see DESIGN.md)."""
from __future__ import annotations

import z3

from . import rope as R
from .core import Unsupported, PathDone, Restart, Infeasible
from .rope import zi, simp, zero
from .values import *
from .interp import _MISSING, ie, mkint, mkbool, is_intlike, ReturnX, BreakX, ConsumerBreak, PyRaise


class Strat:
    def __init__(self):
        self.mods = {}      # loc -> LocState
        self.cont = []      # continuing path conditions (over kv)
        self.kv = None


class LocState:
    def __init__(self):
        self.cands = None
        self.i = 0
        self.info = {}


class Cand:
    """value at iteration k: at(I, k, v0); ok(I, new, k1, v0) checks re-establishment."""
    exact = True
    name = "cand"

    def at(self, I, k, v0):
        raise NotImplementedError

    def base_ok(self, I, v0):
        return True

    def ok(self, I, new, k1, v0):
        return same(I, new, self.at(I, k1, v0))


class AP(Cand):
    name = "arithmetic progression"

    def __init__(self, d):
        self.d = d

    def at(self, I, k, v0):
        return mkint(ie(v0) + zi(self.d) * zi(k))


class Fn(Cand):
    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def at(self, I, k, v0):
        return self.fn(I, k, v0)


class Same(Cand):
    name = "unchanged"

    def at(self, I, k, v0):
        return v0


class Dead(Cand):
    name = "assigned before use"

    def at(self, I, k, v0):
        return POISON

    def ok(self, I, new, k1, v0):
        return True


class Pred(Cand):
    """Fresh value with a predicate (used where the exact value is irrelevant)."""
    exact = False
    name = "predicate"

    def __init__(self, mk, pred, name="predicate"):
        self.mk, self.pred, self.name = mk, pred, name

    def at(self, I, k, v0):
        v = self.mk(I, v0)
        c = self.pred(I, v)
        if c is not None:
            I.E.assume(c)
        return v

    def base_ok(self, I, v0):
        c = self.pred(I, v0)
        return c is None or I.E.entails(c)

    def ok(self, I, new, k1, v0):
        c = self.pred(I, new)
        return c is None or I.E.entails(c)


class Acc(Cand):
    """v0 + S(k) with S(0) = 0 and S(k+1) = S(k) + delta(k): a definition, so inductive by construction."""
    name = "accumulated sum"

    def __init__(self):
        self.S = None
        self.delta = None
        self.kv = None

    def at(self, I, k, v0):
        E = I.E
        if self.S is None:
            E._fresh_global += 1
            self.S = z3.Function(f"acc_{E._fresh_global}", z3.IntSort(), z3.IntSort())
        E.axiom(("acc0", R.kid(E, self.S)), self.S(z3.IntVal(0)) == 0)
        if self.delta is not None:
            self.define(E, k)
        accs = E.memo.setdefault("accs", [])
        if not any(a is self for a in accs):
            accs.append(self)
        return mkint(ie(v0) + self.S(zi(k)))

    def define(self, E, k):
        d = z3.substitute(self.delta, (self.kv, zi(k)))
        E.axiom(("accstep", R.kid(E, self.S), R.kid(E, zi(k))),
                z3.Implies(zi(k) >= 0, self.S(z3.simplify(zi(k) + 1)) == self.S(zi(k)) + d))

    def ok(self, I, new, k1, v0):
        k = self.curk
        if not is_intlike(new):
            return False
        d = z3.simplify(ie(new) - ie(v0) - self.S(zi(k)))
        if self.delta is not None:
            self.define(I.E, k)
            return I.E.entails(ie(new) == ie(v0) + self.S(zi(k1)))
        if [c for c in consts(d) if not c.eq(k) and "!" in c.decl().name() and num(c) > self.mark]:
            return False
        self.delta, self.kv = d, k
        raise Restart


class AccRef(Cand):
    """The same sum as an earlier loop accumulated."""
    name = "sum of an earlier loop"

    def __init__(self, acc):
        self.acc = acc

    def at(self, I, k, v0):
        if self.acc.delta is not None:
            self.acc.define(I.E, k)
        return mkint(ie(v0) + self.acc.S(zi(k)))

    def ok(self, I, new, k1, v0):
        if self.acc.delta is None or not is_intlike(new):
            return False
        self.acc.define(I.E, self.curk)
        return I.E.entails(ie(new) == ie(v0) + self.acc.S(zi(k1)))


class RopeRep(Cand):
    name = "repeated segments"

    def __init__(self, st):
        self.st = st
        self.template = None
        self.kv = None
        self.pref = None

    def at(self, I, k, v0):
        if self.template is None:
            # discovery: unknown content
            f = z3.Function(f"ropeunk!{I.uid()}", z3.IntSort(), z3.IntSort())
            n = I.E.fresh("ropeunklen")
            I.E.assume(n >= 0)
            self.placeholder = R.Arr(f, 0, n)
            return list(v0) + [self.placeholder]
        r = R.Rep(simp(k), self.kv, self.template, self.pref)
        if r.unit_const(I.E) is None:
            r.prefix(I.E, k)
        return list(v0) + [r]

    def ok(self, I, new, k1, v0):
        n0 = len(v0)
        if len(new) <= n0 or any(a is not b for a, b in zip(new[:n0], v0)):
            return False
        app = new[n0 + 1:]
        k = self.curk
        if self.template is None:
            if new[n0] is not self.placeholder:
                return False
            bad = inner_symbols(app, self.mark, k)
            if bad:
                return False
            self.template, self.kv = list(app), k
            self.pref = z3.Function(f"pref!{I.uid()}", z3.IntSort(), z3.IntSort())
            raise Restart
        want = R.Rep(simp(k1), self.kv, self.template, self.pref).inst(k)
        a, b = R.norm(I.E, app), R.norm(I.E, want)
        return len(a) == len(b) and all(R.seg_same(I.E, x, y) for x, y in zip(a, b))


def inner_symbols(segs, mark, k):
    """Symbols created after `mark` which occur in segs (other than k)."""
    bad = set()
    for s in segs:
        for t in seg_terms(s):
            for c in consts(t):
                if c.eq(k):
                    continue
                n = c.decl().name()
                if "!" in n:
                    try:
                        if int(n.rsplit("!", 1)[1]) > mark:
                            bad.add(n)
                    except ValueError:
                        pass
    return bad


def seg_terms(s):
    out = []
    for a in getattr(s, "__dict__", {}).values():
        if isinstance(a, z3.ExprRef):
            out.append(a)
        elif isinstance(a, R.Seg):
            out += seg_terms(a)
        elif isinstance(a, list):
            for x in a:
                if isinstance(x, R.Seg):
                    out += seg_terms(x)
    return out


def consts(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(z3.Const(x.decl().name(), z3.IntSort()))
        todo.extend(x.children())
    return out


def same(I, a, b):
    """Is value a entailed equal to value b?"""
    if a is b:
        return True
    if b is POISON or a is POISON:
        return False
    if is_intlike(a) and is_intlike(b):
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
            return False
        return I.E.entails(ie(a) == ie(b))
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a.cls is b.cls and I.E.entails(a.e == b.e)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return all((x is y) or (isinstance(x, R.Seg) and R.seg_same(I.E, x, y)) or
                   (not isinstance(x, R.Seg) and same(I, x, y)) for x, y in zip(a, b))
    if isinstance(a, tuple) and len(a) == 3 and hasattr(a[1], "_cnt") and isinstance(b, tuple):
        from .holey import same_list
        return same_list(I, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(I, x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def get_loc(I, loc):
    o = I.heap[loc[1]]
    if loc[0] == "l":
        return o.vars.get(loc[2], _MISSING)
    if loc[0] == "a":
        return o.attrs.get(loc[2], _MISSING)
    if isinstance(o, SByteArray):
        return list(o.segs)
    if isinstance(o, (SList, SDict, SSet)):
        return list(o.items)
    if isinstance(o, SSeq):
        return (o.n0, o.elem, list(o.tail))
    h = getattr(o, "snapshot", None)
    if h is not None:
        return h()
    raise Unsupported(f"loop writes {o!r}")


def set_loc(I, loc, v):
    o = I.heap[loc[1]]
    I.note(loc)
    if loc[0] == "l":
        if v is _MISSING:
            o.vars.pop(loc[2], None)
        else:
            o.vars[loc[2]] = v
    elif loc[0] == "a":
        o.attrs[loc[2]] = v
    elif isinstance(o, SByteArray):
        o.segs = list(v)
    elif isinstance(o, (SList, SDict, SSet)):
        o.items = list(v)
    elif isinstance(o, SSeq):
        o.n0, o.elem, o.tail = v[0], v[1], list(v[2])
    else:
        o.restore(v)


class Log(dict):
    """First-write snapshots of locations that existed before `mark`."""

    def __init__(self, I, mark):
        self.I, self.mark = I, mark

    def add(self, loc):
        if loc in self or loc[1] > self.mark:
            return
        self[loc] = get_loc(self.I, loc)


def default_cands(I, st, loc, v0, v1, ctx):
    out = []
    for h in I.loop_hints:
        out += h(I, loc, v0, v1, ctx) or []
    if ctx.get("tgt") == loc:
        n, elem, _ = ctx["counted"]

        def last(I, k, v0):
            ek = elem(zi(k) - 1)
            if v0 is _MISSING or not (is_intlike(v0) and is_intlike(ek)):
                return POISON
            return mkint(z3.If(zi(k) == 0, ie(v0), ie(ek)))

        class LastT(Fn):
            def ok(self, I, new, k1, v0):
                w = self.at(I, k1, v0)
                return w is POISON or same(I, new, w)
        out.append(LastT(last, "last loop value"))
        out.append(Dead())
        return out
    if v0 is _MISSING or v0 is POISON:
        return out + [Dead()]
    if loc[0] == "h":
        o = I.heap[loc[1]]
        if isinstance(o, SByteArray):
            return out + [RopeRep(st)]
        return out + [Same()]
    out.append(Same())
    if is_intlike(v0) and is_intlike(v1) and not isinstance(v0, (bool, SBool)):
        d = simp(ie(v1) - ie(v0))
        if isinstance(d, int):
            out.append(AP(d))
        out.append(Fn(lambda I, k, v0: mkint(R.sh(I.E, ie(v0), k)), "sh"))
        for n in list(getattr(I, "hint_varints", [])) + I.E.memo.get("vars", []):
            out.append(Fn(lambda I, k, v0, n=n: low_digits(I, n, k, v0), "low digits"))
        for r in list(getattr(I, "hint_reps", [])) + I.E.memo.get("reps", []):
            out.append(Fn(lambda I, k, v0, r=r: rep_prefix(I, r, k, v0), "rep prefix"))
        for a in I.E.memo.get("accs", []):
            out.append(AccRef(a))
    if loc[0] == "l":
        out.append(Dead())
    if is_intlike(v0) and is_intlike(v1) and loc[0] == "a" and not isinstance(v0, (bool, SBool)):
        out.append(Acc())
    return out


def rep_prefix(I, r, k, v0):
    rs = I.E.memo.setdefault("reps", [])
    if not any(x.pref is r.pref for x in rs):
        rs.append(r)
    if not zero(k):
        r.step(I.E, k)
        r.step(I.E, simp(zi(k) - 1))
    return mkint(ie(v0) + zi(r.prefix(I.E, k)))


def low_digits(I, n, k, v0):
    for j in (zi(k) - 1, zi(k), zi(k) + 1):
        R.vlen_at(I.E, n, simp(j))
    return mkint(ie(v0) + zi(n) - R.hi(I.E, n, k))


def on_index(I, k):
    for n in getattr(I, "hint_varints", []):
        for j in (zi(k) - 1, zi(k), zi(k) + 1):
            R.vlen_at(I.E, n, simp(j))
        R.hi(I.E, n, k)
    for r in list(getattr(I, "hint_reps", [])) + I.E.memo.get("reps", []):
        r.step(I.E, k)
        r.step(I.E, simp(zi(k) - 1))


def run_loop(I, key, step, counted=None):
    taken = tuple(I.E.taken)
    try:
        return _run_loop(I, key, step, counted)
    except Restart as e:
        if e.prefix is None:
            e.prefix = taken
        raise


def _run_loop(I, key, step, counted=None):
    E = I.E
    if E.unroll is not None:
        E.bounded_used = True
        E.stats.loops[str(key)] = f"unrolled {E.unroll}"
        it = 0
        while True:
            if it >= E.unroll:
                raise PathDone
            r = step(it) if counted else step()
            if r == "exhausted":
                return
            it += 1
    full = getattr(I, "unwind", None)
    if full is not None:
        # every iteration on its own; complete, because one more than `full` is not reachable
        for it in range(full):
            if (step(it) if counted else step()) == "exhausted":
                return
        if E._check() == z3.unsat:
            raise Infeasible
        raise Unsupported(f"loop {key} goes on after {full} iterations")
    sk = (key, tuple(E.taken))
    st = E.strategy.get(sk)
    mark = E.counter
    tgt = counted[2] if counted else None
    ctx = dict(tgt=tgt, counted=counted, key=key)
    for h in getattr(I, "loop_enter", []):
        h(I, key)
    if st is None:
        # discovery: first iteration from the entry state
        log = Log(I, mark)
        I.writes.append(log)
        try:
            r = step(0) if counted else step()
        finally:
            I.writes.remove(log)
        if r == "exhausted":
            return
        st = Strat()
        register(I, st, log, ctx)
        E.strategy[sk] = st
        raise Restart
    if any(ls.i >= len(ls.cands) for ls in st.mods.values()):
        raise Unsupported(f"no invariant found in loop {key}")
    k = E.fresh("k")
    st.kv = k
    E.assume(k >= 0)
    if counted:
        E.assume(zi(k) <= zi(counted[0]))
    E.index_terms.append(k)
    on_index(I, k)
    entry = {}
    for loc, ls in st.mods.items():
        entry[loc] = get_loc(I, loc)
    for loc, ls in st.mods.items():
        c = ls.cands[ls.i]
        c.curk, c.mark = k, E.counter
        if not c.base_ok(I, entry[loc]):
            advance(ls, loc, key)
        if c.exact and not isinstance(c, (Dead, RopeRep)) and not getattr(c, "made", False):
            z = c.at(I, z3.IntVal(0), entry[loc])
            if z is not POISON and not same(I, z, entry[loc]):
                advance(ls, loc, key)
    vals = {loc: ls.cands[ls.i].at(I, k, entry[loc]) for loc, ls in st.mods.items()}
    for loc, v in vals.items():
        set_loc(I, loc, v)
    if st.cont:
        prev = [z3.substitute(c, (k, k - 1)) for c in st.cont]
        cond = z3.Or([k == 0] + prev)
        E.assume(cond)
        for j in E.memo.get("inst", []):
            E.assume(z3.Implies(z3.And(zi(j) >= 0, zi(j) < k), z3.Or([z3.substitute(c, (k, zi(j))) for c in st.cont])))
        from .interp import subterms
        for t in subterms(cond, "sh"):
            R.sh(E, t.arg(0), simp(t.arg(1)))
    for c in (x.cands[x.i] for x in st.mods.values()):
        c.mark = E.counter
    log = Log(I, mark)
    I.writes.append(log)
    blog = []
    E.branch_logs.append(blog)
    m2 = E.counter
    try:
        r = step(k) if counted else step()
    except (ReturnX, BreakX, ConsumerBreak, PyRaise):
        note_loop(E, key, st)
        raise
    finally:
        I.writes.remove(log)
        E.branch_logs[:] = [b for b in E.branch_logs if b is not blog]
    if r == "exhausted":
        note_loop(E, key, st)
        return
    # the body continues: invariant must hold again at k+1
    newlocs = [l for l in log if l not in st.mods]
    if newlocs:
        register(I, st, {l: log[l] for l in newlocs}, ctx)
        raise Restart
    k1 = simp(k + 1)
    failing = []
    for loc, ls in sorted(st.mods.items(), key=lambda x: isinstance(x[1].cands[x[1].i], RopeRep)):
        c = ls.cands[ls.i]
        if isinstance(c, RopeRep) and failing:
            continue
        new = get_loc(I, loc)
        if not c.ok(I, new, k1, entry[loc]):
            failing.append((loc, ls))
            continue
        E.stats.obligations += 1
        E.stats.discharged += 1
        E.stats.by_backend["z3"] = E.stats.by_backend.get("z3", 0) + 1
        E.stats.labels["loop invariant preserved"] = E.stats.labels.get("loop invariant preserved", 0) + 1
    if failing:
        # a candidate may fail only because another one is wrong: refine the simplest first
        for s in st.mods.values():
            if isinstance(s.cands[s.i], RopeRep):
                s.cands[s.i].template = None
        for kind in (Same, AP, Cand):
            sel = [(l, s) for l, s in failing if isinstance(s.cands[s.i], kind)]
            if sel:
                for l, s in (sel if kind is Same else sel[:1]):
                    s.i += 1
                    if s.i >= len(s.cands):
                        advance(s, l, key)
                raise Restart
    conj = []
    for b in blog:
        if not any("!" in c.decl().name() and not c.eq(k) and num(c) > m2 for c in consts(b)):
            conj.append(b)
    term = z3.simplify(z3.And(conj)) if conj else z3.BoolVal(True)
    if not z3.is_true(term) and not any(term.eq(t) for t in st.cont):
        if z3.is_true(z3.BoolVal(bool(getattr(st, "cont_true", False)))):
            pass
        else:
            st.cont.append(term)
            raise Restart
    if z3.is_true(term) and not getattr(st, "cont_true", False):
        st.cont_true = True
        if st.cont:
            st.cont = []
            raise Restart
    raise PathDone


def num(c):
    try:
        return int(c.decl().name().rsplit("!", 1)[1])
    except ValueError:
        return 0


def note_loop(E, key, st):
    E.stats.loops[f"{key[1]}:{key[0]}"] = "; ".join(
        sorted(f"{l[-1] if l[0] != 'h' else 'content'}: {s.cands[s.i].name}" for l, s in st.mods.items()))
    if any(not s.cands[s.i].exact for s in st.mods.values()):
        E.approx = True


def register(I, st, log, ctx):
    for loc, v0 in log.items():
        ls = LocState()
        v1 = get_loc(I, loc)
        ls.cands = [c for c in default_cands(I, st, loc, v0, v1, ctx) if fits_first(I, c, v0, v1)]
        st.mods[loc] = ls


def fits_first(I, c, v0, v1):
    """Drop closed forms which are wrong after the first iteration already."""
    if type(c) not in (Fn, AccRef, Same):
        return True
    if type(c) is Same:
        return v1 is not _MISSING and same(I, v0, v1)
    for r in I.E.memo.get("reps", []):
        r.step(I.E, 0)
    return same(I, c.at(I, z3.IntVal(1), v0), v1)


def advance(ls, loc, key):
    ls.i += 1
    if ls.i >= len(ls.cands):
        ls.i = 0
        raise Unsupported(f"no invariant found for {loc[-1]} in loop {key[1]}:{key[2]}")
    raise Restart
