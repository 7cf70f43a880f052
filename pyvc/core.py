"""Path exploration, solver access and obligations.

A *lemma* is executed by the symbolic interpreter once per feasible path
(re-execution with a prefix of recorded decisions).  Every `prove()` met on a
path is an obligation: path condition and negated goal are given to z3 and must
be unsat.
"""
from __future__ import annotations

import time
import z3


class Unsupported(Exception):
    """The engine cannot express this construct. Never means 'violated'."""


class PathDone(Exception):
    """This path ends here (e.g. after re-establishing a loop invariant)."""


class Infeasible(Exception):
    """The path condition became unsatisfiable."""


class Restart(Exception):
    """A loop strategy was refined: run again every path that goes through that loop entry."""
    prefix = None


class ObligationFailed(Exception):
    pass


class Budget(Exception):
    pass


class Failure:
    def __init__(self, label, kind, model, detail, smt, where):
        self.label = label          # obligation name
        self.kind = kind            # 'sat' | 'unknown'
        self.model = model          # {name: value} of named inputs, or None
        self.detail = detail
        self.smt = smt
        self.where = where

    def as_json(self):
        return dict(obligation=self.label, solver_answer=self.kind, model=self.model,
                    detail=self.detail, where=self.where, smt2=self.smt)


class Stats:
    def __init__(self):
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0            # discharged by simplification alone
        self.by_backend = {}
        self.solver_s = 0.0
        self.queries = 0
        self.functions = {}         # qualname -> how ('inlined' | 'contract' | ...)
        self.trusted = {}           # trusted model -> count
        self.labels = {}            # obligation label -> count
        self.loops = {}             # loop id -> how
        self.covers = {}            # reachability label -> bool
        self.assumed = set()

    def add(self, other):
        self.paths += other.paths
        self.obligations += other.obligations
        self.discharged += other.discharged
        self.trivial += other.trivial
        self.solver_s += other.solver_s
        self.queries += other.queries
        for k, v in other.by_backend.items():
            self.by_backend[k] = self.by_backend.get(k, 0) + v
        for d, o in ((self.trusted, other.trusted), (self.labels, other.labels)):
            for k, v in o.items():
                d[k] = d.get(k, 0) + v
        self.functions.update(other.functions)
        self.loops.update(other.loops)
        for k, v in other.covers.items():
            self.covers[k] = self.covers.get(k, False) or v
        self.assumed |= other.assumed


class Engine:
    """State of the exploration of one lemma."""

    def __init__(self, name, *, timeout_ms=8000, max_paths=4000, deadline=None,
                 backends=("z3",), unroll=None):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.backends = backends
        self.unroll = unroll        # None: loop rule; int: bounded unrolling
        self.stats = Stats()
        self.failures = []
        self.strategy = {}          # loop id -> LoopStrategy
        self.bounded_used = False
        self._fresh_global = 0

    # -- one path ---------------------------------------------------------
    def begin(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.solver.set("random_seed", 0)
        self.counter = 0
        self.inputs = {}            # name -> z3 term or composite, for models
        self.loop_stack = []
        self.writes = []            # stack of write logs
        self.where = None
        self.memo = {}
        self.axiom_keys = set()
        self.keep = []
        self.index_terms = []

    def fresh(self, hint, sort=None):
        self.counter += 1
        n = f"{hint}!{self.counter}"
        if sort is None or isinstance(sort, str) and sort == "int":
            return z3.Int(n)
        if isinstance(sort, str) and sort == "bool":
            return z3.Bool(n)
        return z3.Const(n, sort)

    def fresh_id(self, hint="f"):
        self.counter += 1
        return f"{hint}!{self.counter}"

    def add(self, cond):
        if z3.is_true(cond):
            return
        self.pc.append(cond)
        self.solver.add(cond)

    def axiom(self, key, cond):
        """Assert an instance of a definitional axiom once per path."""
        if key in self.axiom_keys:
            return
        self.axiom_keys.add(key)
        self.add(cond)

    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget")
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def feasible(self, cond):
        return self._check(cond) != z3.unsat

    def entails(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self._check(z3.Not(cond)) == z3.unsat

    def branch(self, cond):
        """Decide a symbolic condition on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            assert isinstance(d, bool), "non-deterministic re-execution"
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.worklist.append(self.taken + [False])
                d = True
            else:
                d = t
        self.taken.append(d)
        self.add(cond if d else z3.Not(cond))
        for log in self.branch_logs:
            log.append(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """Non-deterministic choice of an int in range(n)."""
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            assert not isinstance(d, bool)
        else:
            for j in range(n - 1, 0, -1):
                self.worklist.append(self.taken + [j])
            d = 0
        self.taken.append(d)
        return d

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible
            return
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            raise Infeasible
        self.add(cond)

    def assume_feasible(self, cond):
        self.assume(cond)
        if self._check() == z3.unsat:
            raise Infeasible

    def prove(self, cond, label, detail=None):
        """An obligation: `cond` must follow from the path condition."""
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if isinstance(cond, bool):
            if cond:
                self.stats.discharged += 1
                self.stats.trivial += 1
                return
            c = z3.BoolVal(False)
        else:
            c = z3.simplify(cond)
            if z3.is_true(c):
                self.stats.discharged += 1
                self.stats.trivial += 1
                return
        neg = z3.Not(c)
        r = self._check(neg)
        backend = "z3"
        if r == z3.unknown:
            r, backend = self._second_opinion(neg)
        if r == z3.unsat:
            self.stats.discharged += 1
            self.stats.by_backend[backend] = self.stats.by_backend.get(backend, 0) + 1
            if "cvc5" in self.backends and backend == "z3":
                self._cross_check(neg)
            return
        model = None
        if r == z3.sat and backend == "z3":
            try:
                self._check(neg)
                model = self.solver.model()
            except z3.Z3Exception:
                model = None
        s = z3.Solver()
        s.add(*self.pc)
        s.add(neg)
        self.last_model = model
        raise ObligationFailedWith(
            Failure(label, str(r), self.model_of_inputs(model), detail,
                    s.to_smt2()[:20000], self.where))

    def _second_opinion(self, neg):
        # new z3 core with a longer time-out, then cvc5
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", self.timeout_ms * 2)
        s.set("random_seed", 7)
        s.add(*self.pc)
        s.add(neg)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        if r != z3.unknown:
            return r, "z3"
        r = run_cvc5(s.to_smt2(), self.timeout_ms)
        if r == "unsat":
            return z3.unsat, "cvc5"
        return z3.unknown, "cvc5"

    def _cross_check(self, neg):
        s = z3.Solver()
        s.add(*self.pc)
        s.add(neg)
        t = time.time()
        r = run_cvc5(s.to_smt2(), self.timeout_ms)
        self.stats.solver_s += time.time() - t
        k = {"unsat": "cvc5-confirmed", "sat": "cvc5-DISAGREES"}.get(r, "cvc5-undecided")
        self.stats.by_backend[k] = self.stats.by_backend.get(k, 0) + 1

    def model_of_inputs(self, model):
        if model is None:
            return None
        out = {}
        for name, conc in self.inputs.items():
            try:
                out[name] = conc(model)
            except Exception as e:  # a model is only a hint
                out[name] = f"<{type(e).__name__}>"
        return out

    # -- exploration ------------------------------------------------------
    def explore(self, body):
        """Run `body()` on every feasible path. Returns True if all proved."""
        total = Stats()
        self.worklist = [[]]
        self.failures = []
        done = []                   # (decisions, stats, failure) of finished paths
        tries = {}
        try:
            while self.worklist:
                prefix = self.worklist.pop()
                self.branch_logs = []
                self.stats = Stats()
                self.begin(prefix)
                self.stats.paths = 1
                if len(done) >= self.max_paths:
                    raise Budget("too many paths")
                fail = None
                try:
                    body()
                except (PathDone, Infeasible):
                    pass
                except ObligationFailedWith as e:
                    fail = e.failure
                except Restart as e:
                    p = e.prefix
                    if p is None:
                        raise Unsupported("restart outside a loop")
                    tries[p] = tries.get(p, 0) + 1
                    if tries[p] > 60:
                        raise Unsupported("loop strategy search did not converge")
                    n = len(p)
                    total.solver_s += self.stats.solver_s
                    total.queries += self.stats.queries
                    for t, s, f in done:
                        if t[:n] == p:
                            total.solver_s += s.solver_s
                            total.queries += s.queries
                    done = [d for d in done if d[0][:n] != p]
                    self.worklist = [w for w in self.worklist if tuple(w[:n]) != p] + [list(p)]
                    continue
                done.append((tuple(self.taken), self.stats, fail))
                if sum(d[2] is not None for d in done) >= 30:
                    break
        finally:
            for t, s, f in done:
                total.add(s)
            self.stats = total
            self.failures = [f for t, s, f in done if f is not None]
        return not self.failures


class ObligationFailedWith(ObligationFailed):
    def __init__(self, failure):
        super().__init__(failure.label)
        self.failure = failure


def run_cvc5(smt2, timeout_ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + smt2, "q")
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = out.strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception:
        return "unknown"
