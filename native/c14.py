"""C14: comparing cyclic values terminates and leaves no trace behind."""
import sys
import threading
from native.common import *


class Leaf:
    """A member whose comparison can be made to fail."""
    armed = None
    seen = 0

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        Leaf.seen += 1
        if Leaf.armed is not None:
            Leaf.armed -= 1
            if Leaf.armed < 0:
                Leaf.armed = None
                raise Leaf.error("comparison failed")
        if not isinstance(other, Leaf):
            return NotImplemented
        return self.n == other.n

    def __hash__(self):
        return hash(self.n)
    error = ValueError


KINDS = ("obj", "arr", "map", "set", "err", "exc")


class Graph:
    """A graph as plain data: node i is (kind, leaf, members) with members node numbers or leaves."""

    def __init__(self, nodes):
        self.nodes = nodes

    def build(self):
        vals = []
        for kind, leaf, _ in self.nodes:
            vals.append({"obj": JSObject, "arr": JSArray, "map": JSMap, "set": JSSet, "err": JSErrorData, "exc": JSError}[kind]())
        for v, (kind, leaf, kids) in zip(vals, self.nodes):
            ms = [Leaf(leaf)] + [vals[k] if isinstance(k, int) else Leaf(k) for k in kids]
            if kind == "obj":
                for i, m in enumerate(ms):
                    v["abcdefghij"[i] if i % 2 else i] = m
            elif kind == "arr":
                v.array.extend(ms)
            elif kind == "map":
                for i in range(0, len(ms) - 1, 2):
                    v[ms[i]] = ms[i + 1]
                if len(ms) % 2:
                    v["k"] = ms[-1]
            elif kind == "set":
                v |= ms
            else:
                v.name, v.stack = "E" + str(leaf), "s"
                v.cause = ms[1] if len(ms) == 2 else ms[1:]
        return vals


def spec(ga, gb, a, b, pa, pb):
    """Equal members and cycles that close at corresponding places (separate graphs, no shared nodes)."""
    if a in pa or b in pb:
        return pa.get(a, -1) == b and pb.get(b, -1) == a
    na, nb = ga.nodes[a], gb.nodes[b]
    if (na[0], na[1], len(na[2])) != (nb[0], nb[1], len(nb[2])):
        return False
    pa, pb = {**pa, a: b}, {**pb, b: a}
    ka, kb = order(na), order(nb)
    if len(ka) != len(kb):
        return False
    for x, y in zip(ka, kb):
        if isinstance(x, int) != isinstance(y, int):
            return False
        if not (spec(ga, gb, x, y, pa, pb) if isinstance(x, int) else x == y):
            return False
    return True


def order(n):
    """A set holds each member once; a map keeps the last value of each key."""
    kind, leaf, kids = n
    if kind == "set":
        out = []
        for k in kids:
            if not isinstance(k, int) or k not in out:
                out.append(k)
        return out
    if kind == "map":
        ms = [("leaf",)] + list(kids)
        d = {}
        for i in range(0, len(ms) - 1, 2):
            key = ms[i] if isinstance(ms[i], int) else ("l", i)
            d[key] = (ms[i], ms[i + 1])
        out = [m for kv in d.values() for m in kv if m != ("leaf",)]
        return out + ([ms[-1]] if len(ms) % 2 and len(ms) > 1 else [])
    return kids


def rand_graph(r, cyclic=True, kinds=KINDS):
    n = r.choice([1, 2, 2, 3, 4, 5])
    nodes = []
    for i in range(n):
        kids = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < 0.25:
                kids.append("L" + str(r.randrange(2)))
            elif cyclic:
                kids.append(r.randrange(n))
            elif i + 1 < n:
                kids.append(r.randrange(i + 1, n))
        nodes.append((r.choice(kinds), r.choice([0, 0, 0, 1]), kids))
    return Graph(nodes)


def variant(r, g):
    """A copy, perhaps with a node split or merged, an edge moved or a leaf changed."""
    nodes = [(k, l, list(m)) for k, l, m in g.nodes]
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        c = r.randrange(4)
        i = r.randrange(len(nodes))
        k, l, m = nodes[i]
        if c == 0:                                  # unroll: an edge to a copy of its target
            es = [j for j, x in enumerate(m) if isinstance(x, int)]
            if es:
                j = r.choice(es)
                t = nodes[m[j]]
                nodes.append((t[0], t[1], list(t[2])))
                m[j] = len(nodes) - 1
        elif c == 1:                                # redirect an edge
            es = [j for j, x in enumerate(m) if isinstance(x, int)]
            if es:
                m[r.choice(es)] = r.randrange(len(nodes))
        elif c == 2:
            nodes[i] = (k, 1 - l, m)
        elif m and k != "set":
            j = r.randrange(len(m))
            m[j] = "L" + str(r.randrange(2))
    return Graph(nodes)


def compare(ctx, ga, gb, va, vb, label, what):
    for i in range(min(len(va), len(vb))):
        want = spec(ga, gb, i, i, {}, {})
        got = (va[i] == vb[i], vb[i] == va[i], not (va[i] != vb[i]), not (vb[i] != va[i]))
        if not ctx.check(got == (want,) * 4, label, lambda: f"node {i} of {ga.nodes} and {gb.nodes}: {got}, expected {want}", what):
            return False
    return True


def structure(ctx):
    """Two separately built graphs are equal exactly when they match."""
    r = ctx.rng
    eqs = nes = 0
    for i in range(ctx.scale(6000)):
        if ctx.late:
            break
        kinds = r.choice([KINDS, KINDS, (r.choice(KINDS),), tuple(r.sample(KINDS, 2))])
        ga = rand_graph(r, kinds=kinds)
        gb = variant(r, ga)
        ctx.case((ga.nodes, gb.nodes))
        compare(ctx, ga, gb, ga.build(), gb.build(), "cyclic values are equal exactly when their members are and their cycles close alike",
                (ga.nodes, gb.nodes))
        v = ga.build()
        ctx.check(all(x == x and not (x != x) for x in v), "a value equals itself", lambda: repr(ga.nodes), ga.nodes)


def acyclic(ctx):
    """Elementwise comparison when nothing is cyclic, also between kinds and with values shared by both sides."""
    r = ctx.rng

    def plain(v):
        if isinstance(v, JSArray):
            return ("arr", len(v.array), [(k, plain(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))])
        if isinstance(v, JSObject):
            return ("obj", [(k, plain(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))])
        if isinstance(v, JSMap):
            return ("map", [(plain(k), plain(x)) for k, x in v.items()])
        if isinstance(v, JSSet):
            return ("set", [plain(x) for x in v])
        if isinstance(v, (JSErrorData, JSError)):
            return ("err", v.name, v.message or "", v.stack, plain(v.cause))
        if isinstance(v, list):
            return ("list", [plain(x) for x in v])
        return ("leaf", v)

    def make(d, pool):
        k = r.randrange(9)
        if pool and r.random() < 0.2:
            return r.choice(pool)
        if d > 3 or k < 2:
            return r.choice([1, 2, "a", "b", None, 2.5])
        if k == 2:
            v = JSObject()
            for _ in range(r.randrange(3)):
                v[r.choice(["a", "b", 0, 1])] = make(d + 1, pool)
        elif k == 3:
            v = JSArray([make(d + 1, pool) for _ in range(r.randrange(3))])
        elif k == 4:
            v = JSMap([(make(d + 1, pool), make(d + 1, pool)) for _ in range(r.randrange(3))])
        elif k == 5:
            v = JSSet([make(d + 1, pool) for _ in range(r.randrange(3))])
        elif k == 6:
            v = JSErrorData("m", cause=make(d + 1, pool), name=r.choice(["A", "B"]))
        elif k == 7:
            v = JSError("m", cause=make(d + 1, pool), name=r.choice(["A", "B"]))
        else:
            v = [make(d + 1, pool) for _ in range(r.randrange(3))]
        if r.random() < 0.4:
            pool.append(v)
        return v

    def copy(v):
        if isinstance(v, JSObject):
            return type(v)(list((k, copy(x)) for k, x in v.items())) if not isinstance(v, JSArray) else JSArray([copy(x) for x in v.array])
        if isinstance(v, JSMap):
            return JSMap([(copy(k), copy(x)) for k, x in v.items()])
        if isinstance(v, JSSet):
            return JSSet([copy(x) for x in v])
        if isinstance(v, (JSErrorData, JSError)):
            return type(v)(v.message, name=v.name, stack=v.stack, cause=copy(v.cause))
        return [copy(x) for x in v] if isinstance(v, list) else v

    for i in range(ctx.scale(450)):
        if ctx.late:
            break
        pool = []
        a, b = make(0, pool), make(0, pool)
        vals = [a, b, copy(a), JSArray([a, b]), JSArray([a, a]), JSArray([b, a]), JSMap([(1, a), (2, a)]), JSMap([(1, b), (2, a)]),
                JSObject(x=a, y=a), JSObject(x=a, y=b)]
        ctx.case((safe_repr(a), safe_repr(b)))
        for x in vals:
            for y in vals:
                want = plain(x) == plain(y)
                got = (x == y, not (x != y))
                if not ctx.check(got == (want, want), "values that are not cyclic compare by their members",
                                 lambda: f"{safe_repr(x)} and {safe_repr(y)}: {got}, expected {want}", (safe_repr(x), safe_repr(y))):
                    break


def failures(ctx):
    """A comparison that raises anywhere has no effect on any later comparison."""
    r = ctx.rng
    for i in range(ctx.scale(2000)):
        if ctx.late:
            break
        ga = rand_graph(r)
        gb = variant(r, ga)
        va, vb = ga.build(), gb.build()
        ctx.case((ga.nodes, gb.nodes))
        n = min(len(va), len(vb))
        for step in range(r.choice([1, 2, 3])):
            Leaf.error = r.choice([ValueError, KeyboardInterrupt, RecursionError, AttributeError, GeneratorExit])
            Leaf.armed = r.choice([0, 0, 1, 2, 3, 5])
            j = r.randrange(n)
            try:
                x, y = (va[j], vb[j]) if r.random() < 0.5 else (vb[j], va[j])
                x == y
            except BaseException as e:
                if type(e) is not Leaf.error:
                    Leaf.armed = None
                    raise
            Leaf.armed = None
        if not compare(ctx, ga, gb, va, vb, "a comparison that raised leaves no trace", (ga.nodes, gb.nodes)):
            continue
        # the failed values compared with new partners
        gc = variant(r, ga)
        compare(ctx, ga, gc, va, gc.build(), "a comparison that raised leaves no trace", (ga.nodes, gc.nodes))


def depth(ctx):
    """Running out of stack at any point leaves no trace."""
    def chain(n, kind, end):
        v = end
        for _ in range(n):
            v = {"obj": lambda: JSObject(a=v), "arr": lambda: JSArray([v]), "map": lambda: JSMap([(1, v)]), "set": lambda: JSSet([v]),
                 "err": lambda: JSErrorData("m", cause=v), "exc": lambda: JSError("m", cause=v)}[kind]()
        return v
    old = sys.getrecursionlimit()
    for kind in KINDS:
        a, b = chain(300, kind, 1), chain(300, kind, 1)
        inner = []
        x, y = a, b
        for limit in range(150, 150 + ctx.scale(60)):
            ctx.case((kind, limit))
            f = sys._getframe()
            used = 0
            while f is not None:
                used, f = used + 1, f.f_back
            try:
                sys.setrecursionlimit(used + limit)
                try:
                    x == y
                except RecursionError:
                    pass
            finally:
                sys.setrecursionlimit(old)
            if limit % 10 == 0:
                sys.setrecursionlimit(100000)
                try:
                    s, t = chain(3, kind, 1), chain(3, kind, 1)
                    ctx.check(s == t and t == s and a == b and b == a and not a != b,
                              "running out of stack leaves no trace", lambda: f"{kind} {limit}", (kind, limit))
                finally:
                    sys.setrecursionlimit(old)


def rotations(ctx):
    """Loops of different sizes and phases."""
    def loop(kind, n, leaf=0, tail=0):
        vs = [{"obj": JSObject, "arr": JSArray, "map": JSMap, "set": JSSet, "err": JSErrorData, "exc": JSError}[kind]() for _ in range(n + tail)]
        for i, v in enumerate(vs):
            nxt = vs[i + 1] if i + 1 < n + tail else vs[tail]
            if kind == "obj":
                v["n"] = nxt
            elif kind == "arr":
                v.array.append(nxt)
            elif kind == "map":
                v["n"] = nxt
            elif kind == "set":
                v.add(nxt)
            else:
                v.cause = nxt
        return vs
    for kind in KINDS:
        for n1 in range(1, 6):
            for t1 in range(3):
                for n2 in range(1, 6):
                    for t2 in range(3):
                        a, b = loop(kind, n1, tail=t1), loop(kind, n2, tail=t2)
                        ctx.case((kind, n1, t1, n2, t2))
                        want = n1 == n2 and t1 == t2
                        for _ in range(2):
                            got = (a[0] == b[0], b[0] == a[0], not a[0] != b[0])
                            ctx.check(got == (want,) * 3, "loops are equal exactly when they have the same shape",
                                      lambda: f"{kind}: {t1}+{n1} and {t2}+{n2}: {got}", (kind, n1, t1, n2, t2))
        # a loop compared with itself from every pair of starting points
        for n in range(1, 5):
            a = loop(kind, n)
            for i in range(n):
                for j in range(n):
                    ctx.case((kind, n, i, j))
                    first = a[i] == a[j]
                    ctx.check(i != j or first, "a value equals itself")
                    ctx.check((a[i] == a[j]) == first and (a[j] == a[i]) == (a[j] == a[i]), "repeating a comparison gives the same answer",
                              lambda: f"{kind} {n} {i} {j}", (kind, n, i, j))
    # values that only ever contain themselves through plain containers
    for mk in (JSObject, JSArray, JSMap):
        def self_ref(through):
            o = mk()
            x = through(o)
            if mk is JSArray:
                o.array.append(x)
            else:
                o["a"] = x
            return o
        for through in (lambda o: [o], lambda o: (o, o), lambda o: {"k": o}, lambda o: [[o], {"z": [o]}]):
            ctx.case((mk.__name__, "through"))
            p, q = self_ref(through), self_ref(through)
            ctx.check(p == q and q == p and not p != q, "cycles through plain containers compare equal")
            ctx.check(self_ref(lambda o: [o, 1]) != p and p != self_ref(lambda o: [o, 1]), "different values differ")


def threads(ctx):
    """A comparison running in one thread does not change the answer in another."""
    class Wait:
        def __init__(self, go):
            self.go = go

        def __eq__(self, other):
            return self.go()
    for mk in (lambda w: JSObject(a=w), lambda w: JSArray([w]), lambda w: JSMap([(1, w)]), lambda w: JSSet([w]), lambda w: JSErrorData("m", cause=w),
               lambda w: JSError("m", cause=w)):
        state = dict(n=0)
        answers = []

        def go():
            state["n"] += 1
            if state["n"] > 1:
                return True
            t = threading.Thread(target=lambda: answers.extend([a == b, b == a, a == c, a != b]))
            t.start()
            t.join(20)
            return True
        a, b, c = mk(Wait(go)), mk(Wait(go)), mk(Wait(go))
        ctx.case(type(a).__name__)
        r = a == b
        ctx.check(r and answers == [True, True, True, False], "comparisons in different threads are independent",
                  lambda: f"{type(a).__name__}: {r} {answers}", type(a).__name__)


PARTS = parts(structure, acyclic, failures, depth, rotations, threads)
