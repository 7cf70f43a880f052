"""Symbolic values used by the interpreter."""
from __future__ import annotations

import enum
import z3

Val = z3.DeclareSort("Val")           # any Python object (identity / primitive value)


class Sym:
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SInt({self.e})"


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class SReal(Sym):
    """Mathematical quotient of two ints (int / int); machine rounding ignored."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SVal(Sym):
    """An opaque object; `cls` is its exact Python type when known."""
    __slots__ = ("e", "cls", "info")

    def __init__(self, e, cls=None, info=None):
        self.e = e
        self.cls = cls
        self.info = info

    def __repr__(self):
        return f"SVal({self.e}:{getattr(self.cls, '__name__', None)})"


class SEnum(Sym):
    """Member of an int-valued enum selected by a symbolic value."""
    __slots__ = ("cls", "e")

    def __init__(self, cls, e):
        self.cls = cls
        self.e = e

    def __repr__(self):
        return f"SEnum({self.cls.__name__},{self.e})"


class Heap(Sym):
    """Anything with identity and mutable state."""
    __slots__ = ("uid",)


class SObj(Heap):
    __slots__ = ("cls", "attrs", "ghost", "given")

    def __init__(self, cls, attrs=None, uid=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.uid = uid
        self.ghost = None
        self.given = False

    def __repr__(self):
        return f"<SObj {self.cls.__name__} {self.uid}>"


class SList(Heap):
    """A list of known shape: `items` is a Python list of values."""
    __slots__ = ("items",)

    def __init__(self, items, uid=None):
        self.items = items
        self.uid = uid

    def __repr__(self):
        return f"SList({self.items})"


class SSeq(Heap):
    """A list of symbolic length: base (n0, elem fn) followed by known items.

    `at(i)` gives the i-th base element for a z3 int i.
    """
    __slots__ = ("n0", "elem", "tail", "kind")

    def __init__(self, n0, elem, tail=None, uid=None, kind=list):
        self.n0 = n0
        self.elem = elem
        self.tail = tail if tail is not None else []
        self.uid = uid
        self.kind = kind


class SDict(Heap):
    """A dict of known shape in insertion order: list of (key, value)."""
    __slots__ = ("items", "ro")

    def __init__(self, items=None, uid=None):
        self.items = items if items is not None else []
        self.uid = uid
        self.ro = False

    def __repr__(self):
        return f"SDict({self.items})"


class SSet(Heap):
    __slots__ = ("items", "frozen")

    def __init__(self, items=None, uid=None, frozen=False):
        self.items = items if items is not None else []
        self.uid = uid
        self.frozen = frozen


class SBytes(Sym):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return f"SBytes({self.segs})"


class SByteArray(Heap):
    __slots__ = ("segs",)

    def __init__(self, segs, uid=None):
        self.segs = segs
        self.uid = uid

    def __repr__(self):
        return f"SByteArray({self.segs})"


class SRange(Sym):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


class SCell:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class SFunc(Sym):
    """A function object created by interpreted code (def or lambda)."""
    __slots__ = ("node", "frame", "glob", "defaults", "kwdefaults", "name", "qual",
                 "clsname", "attrs", "file")

    def __init__(self, node, frame, glob, defaults, kwdefaults, name, qual, clsname, file):
        self.node, self.frame, self.glob = node, frame, glob
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qual, self.clsname = name, qual, clsname
        self.attrs = {}
        self.file = file


class BoundMethod(Sym):
    __slots__ = ("self", "func")

    def __init__(self, self_, func):
        self.self = self_
        self.func = func

    def __repr__(self):
        return f"<bound {getattr(self.func, '__name__', self.func)} of {self.self}>"


class Model(Sym):
    """A callable implemented by the verifier (trusted model or contract)."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name


class SPartial(Sym):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SGen(Heap):
    """A generator object: run(callback) executes the body to the end.

    callback(value) is called for each yielded value, and returns what is sent.
    """
    __slots__ = ("run", "started", "name", "of")

    def __init__(self, run, name="", uid=None, of=None):
        self.run = run
        self.of = of        # iter(of)
        self.started = False
        self.name = name
        self.uid = uid


class SSuper(Sym):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class SView(Heap):
    """dict/sequence view or other lightweight iterable: iterate via fn."""
    __slots__ = ("iterfn", "lenfn", "containsfn", "pytype")

    def __init__(self, iterfn, lenfn=None, containsfn=None, pytype=None, uid=None):
        self.iterfn = iterfn
        self.lenfn = lenfn
        self.containsfn = containsfn
        self.pytype = pytype
        self.uid = uid


class Poison:
    """A local with no known value (assigned only inside a loop body)."""

    def __repr__(self):
        return "<poison>"


POISON = Poison()


class PyRaise(Exception):
    """A Python exception raised by interpreted code."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc

    @property
    def cls(self):
        return self.exc.cls if isinstance(self.exc, SObj) else type(self.exc)


def is_sym(v):
    return isinstance(v, Sym)


def enum_int_class(cls):
    return isinstance(cls, type) and issubclass(cls, enum.Enum) and issubclass(cls, int)
