"""A dict or set with tuple keys and unknown contents: an uninterpreted base and the writes made since.

A key is a tuple of ints and constants (or one of them); its constants and types are its shape, its ints are
terms.  Keys of different shapes are different.
"""
from __future__ import annotations

import z3

from .core import Unsupported
from .interp import METHKINDS, _MISSING, ie, is_intlike, method, mkint
from .values import Heap


class TMap(Heap):
    __slots__ = ("name", "inv", "over", "pytype")

    def __init__(self, name, inv=None, uid=None, pytype=dict):
        self.name, self.inv = name, inv
        self.over = []              # (shape, terms, value or _MISSING), latest last
        self.uid = uid
        self.pytype = pytype

    def snapshot(self):
        return list(self.over)

    def restore(self, v):
        self.over = list(v)


METHKINDS.add(TMap)
INT = z3.IntSort()


def flat(k):
    shape, terms = [], []
    for x in k if isinstance(k, tuple) else (k,):
        if is_intlike(x) and not isinstance(x, bool):
            shape.append("#")
            terms.append(ie(x) if not isinstance(ie(x), int) else z3.IntVal(ie(x)))
        elif isinstance(x, (str, bool, type(None), bytes)):
            shape.append(repr(x))
        else:
            raise Unsupported(f"key {x!r}")
    return (isinstance(k, tuple), *shape), tuple(terms)


def base(m, shape, terms):
    n = "|".join(map(str, shape))
    has = z3.Function(f"{m.name}.has {n}", *[INT] * len(terms), z3.BoolSort())
    get = z3.Function(f"{m.name}.get {n}", *[INT] * len(terms), INT)
    return has(*terms), get(*terms)


def base_find(I, m, shape, terms):
    h, g = base(m, shape, terms)
    if m.inv is not None:
        m.inv(I, m, shape, terms)
    return mkint(g) if I.E.branch(h) else _MISSING


def find(I, m, k):
    shape, terms = flat(k)
    for s, t, v in reversed(m.over):
        if s == shape and I.E.branch(z3.And([x == y for x, y in zip(t, terms)] + [z3.BoolVal(True)])):
            return v
    return base_find(I, m, shape, terms)


def put(I, m, k, v):
    I.touch(m)
    m.over = m.over + [(*flat(k), v)]


@method(TMap, "__contains__")
def _contains(I, m, a, k):
    return find(I, m, a[0]) is not _MISSING


@method(TMap, "__getitem__")
def _getitem(I, m, a, k):
    v = find(I, m, a[0])
    if v is _MISSING:
        I.raise_(KeyError, a[0])
    return v


@method(TMap, "get")
def _get(I, m, a, k):
    v = find(I, m, a[0])
    return (a[1] if len(a) > 1 else None) if v is _MISSING else v


@method(TMap, "__setitem__")
def _setitem(I, m, a, k):
    put(I, m, a[0], a[1])


@method(TMap, "add")
def _add(I, m, a, k):
    put(I, m, a[0], None)


@method(TMap, "__delitem__", "remove")
def _delitem(I, m, a, k):
    if find(I, m, a[0]) is _MISSING:
        I.raise_(KeyError, a[0])
    put(I, m, a[0], _MISSING)


@method(TMap, "discard")
def _discard(I, m, a, k):
    put(I, m, a[0], _MISSING)


@method(TMap, "pop")
def _pop(I, m, a, k):
    v = find(I, m, a[0])
    if v is _MISSING:
        if len(a) > 1:
            return a[1]
        I.raise_(KeyError, a[0])
    put(I, m, a[0], _MISSING)
    return v


@method(TMap, "setdefault")
def _setdefault(I, m, a, k):
    v = find(I, m, a[0])
    if v is _MISSING:
        v = a[1] if len(a) > 1 else None
        put(I, m, a[0], v)
    return v
