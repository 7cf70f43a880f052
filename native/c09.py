"""C09: dense and sparse array storage behave identically, and like a list with holes."""
import itertools
from native.common import *
from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties
from v8serialize._typing import Order
from v8serialize.jstypes import JSHole

H = JSHole


class Model:
    """The plain list with holes."""

    def __init__(self, xs):
        self.l = list(xs)

    def norm(self, i):
        if i < 0:
            i += len(self.l)
            if i < 0:
                raise IndexError
        return i

    def strict(self, i):
        i = self.norm(i)
        if i >= len(self.l):
            raise IndexError
        return i

    def get(self, i):
        return self.l[self.strict(i)]

    def set(self, i, v):
        self.l[self.strict(i)] = v

    def delete(self, i):
        del self.l[self.strict(i)]

    def insert(self, i, v):
        self.l.insert(self.norm(i), v)

    def append(self, v):
        self.l.append(v)

    def extend(self, vs):
        self.l.extend(vs)

    def iadd(self, vs):
        self.l.extend(vs)

    def pop(self, i=-1):
        if not self.l:
            raise IndexError
        return self.l.pop(self.strict(i))

    def resize(self, n):
        if not 0 <= n <= 2 ** 32 - 1:
            raise ValueError
        del self.l[n:]
        self.l += [H] * (n - len(self.l))

    def reverse(self):
        self.l.reverse()

    def clear(self):
        self.l.clear()

    def remove(self, v):
        for i, x in enumerate(self.l):
            if x is v or x == v:
                del self.l[i]
                return
        raise ValueError

    def index(self, v):
        for i, x in enumerate(self.l):
            if x is v or x == v:
                return i
        raise ValueError

    def count(self, v):
        return sum(1 for x in self.l if x is v or x == v)

    def contains(self, v):
        return any(x is v or x == v for x in self.l)


def do(a, op, args):
    if isinstance(a, Model):
        return getattr(a, op)(*args)
    if op == "get":
        return a[args[0]]
    if op == "set":
        a[args[0]] = args[1]
    elif op == "delete":
        del a[args[0]]
    elif op == "iadd":
        a += args[0]
    elif op == "contains":
        return args[0] in a
    else:
        return getattr(a, op)(*args)


def outcome(a, op, args):
    try:
        args = tuple(list(x) if isinstance(x, tuple) else x for x in args)
        return ("value", do(a, op, args))
    except (IndexError, ValueError, KeyError, TypeError) as e:
        return ("error", type(e))


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def observe(ctx, a, l, what, hist):
    """Every observation of storage a agrees with list l."""
    items = [(i, v) for i, v in enumerate(l) if v is not H]

    def chk(cond, label, info=""):
        return ctx.check(cond, f"{what}: {label}", lambda: f"{info() if callable(info) else info}; list {l!r:.300}", hist)
    chk(len(a) == len(l), "length", lambda: len(a))
    chk(a.elements_used == len(items), "number of elements", lambda: a.elements_used)
    if len(l) <= 3000:
        got = list(a)
        chk(len(got) == len(l) and all(same(x, y) for x, y in zip(got, l)), "iteration", lambda: f"{got!r:.300}")
        back = list(reversed(a))
        chk(len(back) == len(l) and all(same(x, y) for x, y in zip(back, l[::-1])), "reversed iteration", lambda: f"{back!r:.300}")
    idx = [i for i, _ in items]
    chk(list(a.element_indexes()) == idx, "element order", lambda: list(a.element_indexes()))
    chk(list(a.element_indexes(order=Order.DESCENDING)) == idx[::-1], "descending element order", lambda: list(a.element_indexes(order=Order.DESCENDING)))
    chk(sorted(a.element_indexes(order=Order.UNORDERED)) == idx, "unordered element indexes")
    for o, want in ((Order.ASCENDING, items), (Order.DESCENDING, items[::-1])):
        el = a.elements(order=o)
        got = list(el.items())
        chk(len(got) == len(want) and all(i == j and same(x, y) for (i, x), (j, y) in zip(got, want)), f"element mapping {o.name}", lambda: f"{got!r:.300}")
        chk(len(el) == len(items), "element mapping size", lambda: len(el))
    el = a.elements()
    for i in {-1, 0, 1, len(l) - 1, len(l), len(l) // 2, -len(l)}:
        if 0 <= i < len(l) and l[i] is not H:
            chk(i in el and same(el[i], l[i]), "element mapping lookup", i)
        else:
            chk(i not in el and el.get(i, "none") == "none", "element mapping of a hole", i)
            try:
                el[i]
                chk(False, "element mapping lookup of a hole fails", i)
            except KeyError:
                pass
        got = outcome(a, "get", (i,))
        want = outcome(Model(l), "get", (i,))
        chk(got[0] == want[0] and (same(got[1], want[1])), "reading an index", lambda: f"{i}: {got} / {want}")


def run(ctx, start, ops, check_each=True):
    m = Model(start)
    both = dict(dense=DenseArrayProperties(start), sparse=SparseArrayProperties(start))
    for k, a in both.items():
        if not ctx.check(len(a) == len(m.l), f"{k}: starts from the same values", lambda: len(a), start):
            return
    done = []
    for op, args in ops:
        want = outcome(m, op, args)
        done.append((op, args))
        hist = (start, done)
        for k, a in both.items():
            got = outcome(a, op, args)
            if not ctx.check(got[0] == want[0] and same(got[1], want[1]), f"{k}: result of {op}",
                             lambda: f"{op}{args}: {got} instead of {want}", hist):
                return
        n = len(ctx.violations)
        if check_each or len(done) == len(ops):
            for k, a in both.items():
                observe(ctx, a, m.l, k, hist)
            d, s = both.values()
            ctx.check(d == s and s == d and not d != s, "storages with the same contents are equal", lambda: f"{m.l!r:.200}", hist)
            if m.l and isinstance(m.l[-1], int) and m.l[-1] is not H:
                other = DenseArrayProperties(m.l[:-1] + ["other"])
                ctx.check(d != other and s != other and s != DenseArrayProperties(m.l + [H]), "storages with other contents differ", "", hist)
        if len(ctx.violations) > n:
            return


def exhaustive(ctx):
    """All short histories from all short starts."""
    ops = []
    for i in (-3, -1, 0, 1, 2, 4):
        ops += [("set", (i, "x")), ("set", (i, H)), ("delete", (i,)), ("insert", (i, "y")), ("insert", (i, H)), ("pop", (i,))]
    ops += [("append", ("z",)), ("append", (H,)), ("extend", ((1, H),)), ("extend", (())), ("resize", (0,)), ("resize", (1,)), ("resize", (3,)), ("resize", (6,)),
            ("reverse", ()), ("clear", ()), ("pop", ()), ("iadd", ((H, 2),)), ("resize", (-1,)), ("remove", (7,)), ("index", (7,)), ("count", (H,)), ("contains", (H,))]
    ops = [(o, a) for o, a in ops if not (o == "extend" and a == ())] + [("extend", ((),))]
    starts = [()] + [s for n in (1, 2, 3) for s in itertools.product([7, H], repeat=n)]
    r = ctx.rng
    for s in starts:
        for o in ops:
            ctx.case((s, o))
            run(ctx, s, [o])
    pairs = [(s, (a, b)) for s in starts for a in ops for b in ops]
    for s, ab in (pairs if ctx.thorough else r.sample(pairs, 9000)):
        if ctx.late:
            break
        ctx.case((s, ab))
        run(ctx, s, ab, check_each=False)


def value(r):
    return H if r.random() < 0.35 else r.choice([1, "a", None, 2.5, "b", JSUndefined])


def history(r, n, size):
    ops = []
    for _ in range(n):
        k = r.randrange(16)
        i = r.choice([0, -1, 1, 2, -2, size, size - 1, -size, -size - 1, r.randrange(-size - 3, size + 4)])
        if k < 4:
            ops.append(("set", (i, value(r))))
        elif k == 4:
            ops.append(("get", (i,)))
        elif k in (5, 6):
            ops.append(("delete", (i,)))
        elif k in (7, 8):
            ops.append(("insert", (i, value(r))))
        elif k in (9, 10):
            ops.append(("append", (value(r),)))
        elif k == 11:
            ops.append(("extend", (tuple(value(r) for _ in range(r.randrange(4))),)))
        elif k == 12:
            ops.append(("pop", r.choice([(), (i,)])))
        elif k in (13, 14):
            ops.append(("resize", (r.choice([0, 1, size, size // 2, size + 3, size - 1, 2 * size, -1, 2 ** 32]) if r.random() < 0.7 else r.randrange(0, size * 2 + 2),)))
        else:
            ops.append((r.choice(["reverse", "clear", "reverse", "reverse"]), ()))
    return ops


def histories(ctx):
    r = ctx.rng
    for _ in range(ctx.scale(2500)):
        if ctx.late:
            break
        size = r.choice([0, 1, 2, 3, 5, 8, 13, 30])
        start = tuple(value(r) for _ in range(size))
        ops = history(r, r.choice([3, 6, 12, 30]), max(size, 2))
        ctx.case((start, ops))
        run(ctx, start, ops)


def entries(ctx):
    """Sparse storage made from entries, large lengths, limits."""
    r = ctx.rng
    for _ in range(ctx.scale(1500)):
        if ctx.late:
            break
        n = r.randrange(0, 30)
        es = {r.randrange(0, 40): r.choice([1, "a", None]) for _ in range(r.randrange(8))}
        ks = list(es)
        r.shuffle(ks)
        ents = [(k, es[k]) for k in ks]
        with_len = r.random() < 0.6
        ctx.case((ents, n, with_len))
        form = r.choice([lambda: list(ents), lambda: dict(ents), lambda: iter(ents)])
        a = SparseArrayProperties(entries=form(), **(dict(length=n) if with_len else {}))
        size = n if with_len else max(ks, default=-1) + 1
        l = [es.get(i, H) for i in range(size)]
        observe(ctx, a, l, "sparse from entries", (ents, n))
        m = Model(l)
        for op, args in history(r, 6, max(size, 2)):
            want, got = outcome(m, op, args), outcome(a, op, args)
            if not ctx.check(got[0] == want[0] and same(got[1], want[1]), f"sparse from entries: result of {op}", lambda: f"{got} {want}", (ents, op, args)):
                break
            observe(ctx, a, m.l, "sparse from entries", (ents, op, args))
    M = 2 ** 32 - 1
    for bad in (-1, M + 1, 2 ** 40):
        for mk in (lambda: SparseArrayProperties(length=bad), lambda: SparseArrayProperties(["a"]).resize(bad), lambda: DenseArrayProperties(["a"]).resize(bad)):
            try:
                mk()
                ctx.fail("a length outside 0..2**32-1 is refused", str(bad))
            except ValueError:
                pass
    for bad in (-1, M, M + 5):
        for kw in ({}, dict(length=10)):
            if kw and bad > 0:
                continue
            try:
                SparseArrayProperties(entries=[(0, 1), (bad, 2)], **kw)
                ctx.fail("an entry outside the index range is refused", str(bad))
            except IndexError:
                pass
    # huge arrays: only a few elements
    for _ in range(ctx.scale(300)):
        n = r.choice([2 ** 20, 2 ** 31, M - 1, M, 10 ** 6])
        a = SparseArrayProperties(length=n)
        model, length = {}, n
        for _ in range(12):
            k = r.randrange(6)
            ctx.case((n, k))
            i = r.choice([0, 1, length - 1, length - 2, r.randrange(length)]) if length else 0
            if k < 2 and i < length:
                a[i] = k
                model[i] = k
            elif k == 2 and i < length:
                a[i - length] = H
                model.pop(i, None)
            elif k == 3 and i < length:
                del a[i]
                model = {(x if x < i else x - 1): v for x, v in model.items() if x != i}
                length -= 1
            elif k == 4:
                if length < M:
                    a.insert(i, "n")
                    model = {(x if x < i else x + 1): v for x, v in model.items()}
                    model[i] = "n"
                    length += 1
                else:
                    for f in (lambda: a.append(1), lambda: a.insert(0, 1), lambda: a.append(H), lambda: a.extend([1])):
                        try:
                            f()
                            ctx.fail("an array of maximum length does not grow", str(length))
                        except (IndexError, ValueError):
                            pass
            elif k == 5:
                new = r.choice([length, max(length - 1, 0), length // 2, min(M, length + 5), M])
                a.resize(new)
                model = {x: v for x, v in model.items() if x < new}
                length = new
            want = sorted(model.items())
            ok = len(a) == length and a.elements_used == len(model) and list(a.elements().items()) == want and list(a.elements(order=Order.DESCENDING).items()) == want[::-1]
            ctx.check(ok, "a huge sparse array keeps its elements", lambda: f"{len(a)} {list(a.elements().items())} vs {length} {want}", (n, k, i))


PARTS = parts(exhaustive, histories, entries)
