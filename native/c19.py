"""C19: showing values terminates, leaves nothing behind, and shows members in order."""
import ast
import threading
import warnings
import v8serialize.jstypes as jt
from native.common import *
from v8serialize.jstypes import JSRepr, js_repr_settings

NS = {k: getattr(jt, k) for k in dir(jt) if not k.startswith("_")}
KEYS = ["a", "b", "self", "x1", "class", "None", "True", "if", "é", "a-b", "", " ", "0x", "properties", "key", "obj", "lambda", "\n", "'", "-1", "01", "match", "_", "__x",
        "\u2028", "async", "print", "4294967295", "1.5", "\ufb01", "\u00aa", "\u2118", "\u1e9b", "def", "import"]
LEAVES = [0, 1, -5, 2 ** 40, 1.5, "", "x", "a'b", "\n", "…", "...", True, False, None, b"", b"ab", JSUndefined]


KINDS = ("obj", "arr", "map", "set", "list", "dict")


def build(r, n, cyclic):
    """n values with members among each other (later ones only, unless cyclic) and leaves."""
    vals = [{"obj": JSObject, "arr": JSArray, "map": JSMap, "set": JSSet, "list": list, "dict": dict}[r.choice(KINDS)]() for _ in range(n)]
    while isinstance(vals[0], (list, dict)):
        vals[0] = r.choice((JSObject, JSArray, JSMap, JSSet))()
    for i, v in enumerate(vals):
        def member():
            j = r.randrange(n) if cyclic else r.randrange(i + 1, n) if i + 1 < n else None
            return vals[j] if j is not None and r.random() < 0.45 else r.choice(LEAVES)
        for _ in range(r.randrange(5)):
            if isinstance(v, JSArray) or isinstance(v, JSObject):
                k = r.choice([r.randrange(4), r.randrange(4), r.choice((40, 50000, 2 ** 31)), r.choice(KEYS), r.choice(KEYS), r.choice("abc")])
                v[k] = member()
            elif isinstance(v, JSMap):
                v[member()] = member()
            elif isinstance(v, JSSet):
                v.add(member())
            elif isinstance(v, list):
                v.append(member())
            else:
                v[r.choice(["a", "b", 1, "class"])] = member()
    return vals[0]


def shown(x, path, wrapped=False):
    """What the repr of x stands for: members in order; a value inside itself is the fill value."""
    if any(x is p for p in path):
        return ...
    path = [*path, x]
    if isinstance(x, JSArray) or isinstance(x, JSObject):
        return ("arr" if isinstance(x, JSArray) else "obj", [(k, shown(v, path)) for k, v in x.array.elements().items()], [(k, shown(v, path)) for k, v in x.properties.items()])
    if isinstance(x, JSMap):
        return ("map", [(shown(k, path), shown(v, path)) for k, v in x.items()])
    if isinstance(x, JSSet):
        return ("set", [shown(k, path) for k in x])
    if isinstance(x, list):
        return ("list", [shown(k, path) for k in x])
    if isinstance(x, dict):
        return ("dict", sorted(((repr(k), shown(v, path)) for k, v in x.items())))
    return (type(x).__name__, x)


CALLS = {"JSObject": "obj", "JSArray": "arr", "JSMap": "map", "JSSet": "set"}


def read(t):
    """The same of a parsed repr (members of maps and sets in the order written)."""
    if isinstance(t, ast.Constant):
        return ... if t.value is ... else (type(t.value).__name__, t.value)
    if isinstance(t, ast.UnaryOp):
        v = ast.literal_eval(t)
        return (type(v).__name__, v)
    if isinstance(t, ast.Name):
        v = NS[t.id]
        return (type(v).__name__, v)
    if isinstance(t, ast.List):
        return ("list", [read(x) for x in t.elts])
    if isinstance(t, ast.Dict):
        return ("dict", sorted((repr(ast.literal_eval(k)), read(v)) for k, v in zip(t.keys, t.values)))
    if isinstance(t, ast.Set):       # {...}: a dict inside itself
        return ...
    assert isinstance(t, ast.Call), ast.dump(t)
    kind = CALLS[t.func.id]
    arg = t.args[0] if t.args else None
    assert len(t.args) <= 1
    if kind == "set":
        return (kind, [read(x) for x in arg.elts] if arg else [])
    if kind == "map":
        if isinstance(arg, ast.Dict):
            return (kind, [(read(k), read(v)) for k, v in zip(arg.keys, arg.values)])
        return (kind, [(read(x.elts[0]), read(x.elts[1])) for x in arg.elts] if arg else [])
    els, props = [], []

    def entry(k, v):
        if isinstance(k, ast.expr):
            k = ast.literal_eval(k)
        (els if isinstance(k, int) else props).append((k, read(v)))
    if isinstance(arg, ast.Dict):
        for k, v in zip(arg.keys, arg.values):
            entry(k, v)
    elif arg is not None:
        for i, v in enumerate(arg.elts):
            if not (isinstance(v, ast.Name) and v.id == "JSHole"):
                entry(i, v)
    for kw in t.keywords:
        if kw.arg is None:
            for k, v in zip(kw.value.keys, kw.value.values):
                entry(k, v)
        else:
            entry(kw.arg, kw.value)
    return (kind, els, props)


def structure(ctx):
    """Any graph of values: the repr is Python code of its members, in order; cycles end."""
    r = ctx.rng
    for i in range(3000):
        cyclic = r.random() < 0.5
        x = build(r, r.randrange(1, 6), cyclic)
        ind = r.choice([None, None, 2, 0, "  "])
        case = None
        with js_repr_settings(indent=ind, maxlevel=30):
            s = repr(x)
            if i % 7 == 0:
                ctx.check(repr(x) == s, "showing a value again gives the same", lambda: s, s)
        ctx.case(s)
        try:
            got = read(ast.parse(s, mode="eval").body)
        except Exception as e:
            ctx.fail("a repr is Python code", f"{e!r} {s}", s)
            continue
        ctx.check(got == shown(x, []), "a repr shows the members in order", lambda: f"{s}: {got}, expected {shown(x, [])}", s)
        if not cyclic:
            y = eval(s, dict(NS))
            ctx.check(shown(y, []) == shown(x, []), "a repr makes a value of the same members", lambda: f"{s} makes {y!r}", s)


class Leaf:
    """A member with a repr of its own: its number, or a failure, or whatever act() does."""
    act = None

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        if self.act is not None:
            return self.act()
        return f"<{self.n}>"


def make(kind, ms):
    """A value with these members, whose repr shows each of them as written by its own repr."""
    if kind == "obj":
        return JSObject({f"p{i}": m for i, m in enumerate(ms)})
    if kind == "obj-":
        return JSObject({f"p-{i}": m for i, m in enumerate(ms)})
    if kind == "obj#":
        return JSObject({i: m for i, m in enumerate(ms)})
    if kind == "mixed":
        return JSObject({(i if i < len(ms) // 2 else f"p{i}"): m for i, m in enumerate(ms)})
    if kind == "mixed-":
        return JSObject({(i if i < len(ms) // 3 else f"p-{i}"): m for i, m in enumerate(ms)})
    if kind == "arr":
        return JSArray(ms)
    if kind == "arr+":
        a = JSArray(ms[:len(ms) // 2])
        for i, m in enumerate(ms[len(ms) // 2:]):
            a[f"p{i}"] = m
        return a
    if kind == "arr+-":
        a = JSArray(ms[:len(ms) // 2])
        for i, m in enumerate(ms[len(ms) // 2:]):
            a[f"p-{i}"] = m
        return a
    if kind == "sparse":
        a = JSArray()
        for i, m in enumerate(ms[:len(ms) // 2]):
            a[(i + 1) * 10 ** 7] = m
        for i, m in enumerate(ms[len(ms) // 2:]):
            a[f"p{i}"] = m
        return a
    if kind == "map":
        return JSMap(zip(ms[::2], ms[1::2]))
    if kind == "set":
        return JSSet(ms)
    raise AssertionError(kind)


MAKES = ("obj", "obj-", "obj#", "mixed", "mixed-", "arr", "arr+", "arr+-", "sparse", "map", "set")


def limits(ctx):
    """Of more members than the settings' maximum the first are shown, then the fill value; deeper than the level only the fill value."""
    r = ctx.rng
    for i in range(2500):
        kind = r.choice(MAKES)
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 101, 250]) // (2 if kind == "map" else 1) * (2 if kind == "map" else 1)
        most = r.choice([0, 1, 2, 3, 5, 8, 100, 200])
        fill = r.choice(["...", "…", "<more>"])
        field = {"map": "maxdict", "set": "maxset"}.get(kind, "maxjsarray" if kind[:3] in ("arr", "spa") else "maxjsobject")
        others = {f: r.choice([0, 1, 1000]) for f in ("maxdict", "maxset", "maxjsarray", "maxjsobject", "maxlist", "maxtuple") if f != field and kind != "map"}
        case = (kind, n, most, fill, others)
        ctx.case(case)
        x = make(kind, [Leaf(k) for k in range(n)])
        with js_repr_settings(**{field: most}, fillvalue=fill, **others):
            s = repr(x)
        k = most * (2 if kind == "map" else 1)
        places = [s.find(f"<{j}>") for j in range(n)]
        want = min(n, k)
        ctx.check(all(p >= 0 for p in places[:want]) and all(p < 0 for p in places[want:]) and places[:want] == sorted(places[:want]),
                  "the first members up to the maximum are shown in order", s, case)
        ctx.check((fill in s) == (n > k), "members left out are marked by the fill value", s, case)
        ctx.check(not (n > k) or s.rfind(fill) > max(places, default=-1), "the mark comes where members are left out", s, case)
    for kind in MAKES:
        for depth in range(1, 12):
            for level in range(1, 12):
                x = Leaf("end")
                for j in range(depth):
                    x = make("map" if kind == "map" else kind, [x, x] if kind == "map" else [x])
                ctx.case((kind, depth, level))
                with js_repr_settings(maxlevel=level):
                    s = repr(x)
                ctx.check(("<end>" in s) == (depth < level) and ("..." in s) == (depth >= level), "values deeper than the level are left out and marked",
                          s, (kind, depth, level))


def failures(ctx):
    """However the repr of a member ends, later reprs are as if it had not happened."""
    r = ctx.rng
    class Stop(BaseException):
        pass
    for i in range(1500):
        kinds = [r.choice(MAKES) for _ in range(r.randrange(1, 5))]
        leaf, levels = Leaf("end"), []
        x = leaf
        for kind in kinds:
            ms = [Leaf(j) for j in range(r.randrange(3))] + [x]
            x = make(kind, ms + [Leaf("k")] * (len(ms) % 2 if kind == "map" else 0))
            levels.append(x)
        before = [repr(v) for v in levels]
        error = r.choice([Stop, KeyboardInterrupt, ValueError, RecursionError, None])
        inner = []

        def act():
            if error is None:
                inner.extend(repr(v) for v in levels)
                return "<end>"
            raise error()
        leaf.act = act
        case = (kinds, error and error.__name__)
        ctx.case(case)
        try:
            s = repr(x)
            raised = None
        except BaseException as e:
            raised = type(e)
        ctx.check(raised is (error if error in (Stop, KeyboardInterrupt) else None), "an interruption of a member's repr passes", lambda: f"{raised}", case)
        if error is None:
            ctx.check(inner == ["..."] * len(levels) and s == before[-1], "a value being shown is shown as the fill value inside itself", lambda: f"{s} {inner}", case)
        leaf.act = None
        after = [repr(v) for v in levels]
        ctx.check(after == before, "a repr leaves later ones unaffected", lambda: f"{before} then {after}", case)


def threads(ctx):
    """A repr in one thread does not change what another gives."""
    for kind in MAKES:
        for depth in (1, 3):
            leaf, x = Leaf("end"), None
            x = leaf
            for _ in range(depth):
                x = make(kind, [x, x] if kind == "map" else [x])
            want, got = repr(x), []

            def act():
                leaf.act = None
                t = threading.Thread(target=lambda: got.extend([repr(x), repr(x)]))
                t.start()
                t.join()
                return "<end>"
            leaf.act = act
            ctx.case((kind, depth))
            s = repr(x)
            ctx.check(s == want and got == [want, want], "reprs in different threads are independent", lambda: f"{s} {got}, expected {want}", (kind, depth))


def buffers(ctx):
    """A buffer's repr makes an equal buffer, unless its bytes are cut (which is no Python code)."""
    r = ctx.rng
    for i in range(1500):
        raw = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 31, 32, 33, 90])))
        m = r.choice([None, len(raw), len(raw) + 1, len(raw) + 50])
        kw = {} if m is None else dict(max_byte_length=m, resizable=True)
        if r.random() < 0.3:
            kw["readonly"] = True
        most = r.choice([0, 1, 32, 33, 1000])
        try:
            x = JSArrayBuffer(r.choice([raw, bytearray(raw), memoryview(raw), memoryview(bytearray(raw))]), copy_data=r.choice([True, False]), **kw)
        except (ValueError, TypeError):
            continue
        case = (repr(raw), m, kw, most)
        ctx.case(case)
        with js_repr_settings(maxstring=most, maxother=10000):
            s = repr(x)
        if len(raw) > most:
            try:
                eval(s, dict(NS))
                ctx.fail("a repr of cut bytes is not Python code", s, case)
            except SyntaxError:
                pass
            continue
        try:
            y = eval(s, dict(NS))
        except Exception as e:
            ctx.fail("a buffer's repr is Python code", f"{e!r} {s}", case)
            continue
        ctx.check(bytes(y.data) == bytes(x.data) and y.max_byte_length == x.max_byte_length,
                  "a buffer's repr makes an equal buffer", lambda: f"{s} makes {y!r}", case)


FIELDS = ("maxjsobject", "maxjsarray", "maxlevel", "maxtuple", "maxlist", "maxarray", "maxdict", "maxset", "maxfrozenset", "maxdeque", "maxstring", "maxlong", "maxother")


def active():
    with js_repr_settings() as now:
        return tuple(getattr(now, f) for f in (*FIELDS, "fillvalue", "indent"))


def settings(ctx):
    """Settings hold inside their block, on top of those around it, and are undone on every exit."""
    r = ctx.rng

    def block(depth, now):
        ch = {f: r.randrange(1, 500) for f in FIELDS if r.random() < 0.3}
        if r.random() < 0.3:
            ch["fillvalue"] = r.choice(["..", "!"])
        if r.random() < 0.3:
            ch["indent"] = r.choice([1, 4, None, "\t"])
        want = dict(now, **ch)
        own = JSRepr(**want) if r.random() < 0.2 else None
        error = r.choice([None, None, ValueError, KeyboardInterrupt])
        ctx.case((depth, repr(sorted(ch.items(), key=str)), own is None))
        try:
            with (js_repr_settings(own) if own else js_repr_settings(**ch)) as rep:
                inside = active()
                ctx.check(inside == tuple(want.values()), "settings hold inside their block, on top of those around", lambda: f"{inside} expected {want}", ch)
                for f, v in want.items():
                    ctx.check(getattr(rep, f) == v, "the block's settings object has the settings", lambda: f"{f} {getattr(rep, f)} {v}", ch)
                x = JSObject(a=1, b=[1, 2], c=JSArray([1]))
                ctx.check(repr(x) == rep.repr(x) == JSRepr(**want).repr(x), "a repr uses the settings of the block", lambda: f"{x!r}", ch)
                if depth and r.random() < 0.7:
                    block(depth - 1, want)
                    ctx.check(active() == inside, "settings are undone at the end of a block", "", ch)
                if error:
                    raise error()
        except (ValueError, KeyboardInterrupt) as e:
            ctx.check(type(e) is error, "an exception passes the block", repr(e), ch)
        ctx.check(active() == tuple(now.values()), "settings are undone at the end of a block", lambda: f"{active()} expected {now}", (ch, error and error.__name__))

    start = dict(zip((*FIELDS, "fillvalue", "indent"), active()))
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        for _ in range(300):
            block(3, start)
        for bad in ({"nothing": 1}, {"maxjsobjects": 3}, {"maxlevel": 2, "x": 1}):
            ctx.case(bad)
            try:
                with js_repr_settings(**bad):
                    ctx.fail("unknown settings are refused", repr(bad), bad)
            except TypeError:
                pass
            try:
                JSRepr(**bad)
                ctx.fail("unknown settings are refused", repr(bad), bad)
            except TypeError:
                pass
            ctx.check(active() == tuple(start.values()), "refused settings change nothing", "", bad)
    # blocks which end in another order
    for force in (False, True):
        for exc in (False, True):
            ctx.case((force, exc))
            a, b = js_repr_settings(maxlevel=3, force_restore=force), js_repr_settings(maxlevel=4)
            a.__enter__()
            inner = b.__enter__()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    if exc:
                        a.__exit__(ValueError, ValueError(), None)
                    else:
                        a.__exit__(None, None, None)
                except ValueError:
                    pass
            warned = [x.category.__name__ for x in w]
            now = dict(zip((*FIELDS, "fillvalue", "indent"), active()))
            ctx.check(now["maxlevel"] == (start["maxlevel"] if force else 4), "a block that ends while others' settings hold leaves them, unless forced", lambda: f"{now}", (force, exc))
            ctx.check(warned == ([] if force else ["JSReprSettingsNotRestored"]), "a block that cannot undo its settings warns", lambda: f"{warned}", (force, exc))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                b.__exit__(None, None, None)
            c = js_repr_settings(JSRepr(**start), force_restore=True)     # (the state before is put back for the cases after)
            if active() != tuple(start.values()):
                import v8serialize.jstypes._repr as impl
                impl.active_js_repr = impl.default_js_repr


PARTS = parts(structure, limits, failures, threads, buffers, settings)
