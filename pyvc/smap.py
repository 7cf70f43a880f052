"""A dict of unknown contents: an uninterpreted base and the writes made since.

Keys are ints.  has(k) / get(k) describe the base; inv(I, k) gives facts about key k
of the base (instances of the representation invariant), asserted when k is looked up.
"""
from __future__ import annotations

import z3

from .core import Unsupported
from .interp import MODELS, METHODS, METHKINDS, PyRaise, _MISSING, ie, is_intlike, method, mkbool, mkint  # noqa: F401
from .rope import zi, simp
from .values import Heap


class SMap(Heap):
    __slots__ = ("has", "get", "n", "over", "inv", "pytype")

    def __init__(self, has, get, n, inv=None, uid=None):
        self.has, self.get, self.n, self.inv = has, get, n, inv
        self.over = []              # (key term, value or _MISSING), latest last
        self.uid = uid
        self.pytype = dict

    def snapshot(self):
        return (list(self.over), self.n)

    def restore(self, v):
        self.over, self.n = list(v[0]), v[1]


METHKINDS.add(SMap) if isinstance(METHKINDS, set) else None


def key(k):
    if not is_intlike(k):
        raise Unsupported(f"key {k!r} of a symbolic dict")
    return ie(k)


def find(I, m, k):
    """The value at k or _MISSING; forks where that is undecided."""
    e = key(k)
    for kk, v in reversed(m.over):
        if I.E.branch(kk == e):
            return v
    if m.inv is not None:
        for c in m.inv(I, e):
            I.E.assume(c)
    if I.E.branch(m.has(e)):
        return m.get(e)
    return _MISSING


@method(SMap, "__contains__")
def _contains(I, m, a, k):
    return find(I, m, a[0]) is not _MISSING


@method(SMap, "__getitem__")
def _getitem(I, m, a, k):
    v = find(I, m, a[0])
    if v is _MISSING:
        I.raise_(KeyError, a[0])
    return v


@method(SMap, "get")
def _get(I, m, a, k):
    v = find(I, m, a[0])
    return (a[1] if len(a) > 1 else None) if v is _MISSING else v


def put(I, m, k, v):
    was = find(I, m, k)
    I.touch(m)
    m.over = m.over + [(key(k), v)]
    m.n = simp(zi(m.n) + (0 if was is not _MISSING else 1))


@method(SMap, "__setitem__")
def _setitem(I, m, a, k):
    put(I, m, a[0], a[1])


@method(SMap, "setdefault")
def _setdefault(I, m, a, k):
    v = find(I, m, a[0])
    if v is not _MISSING:
        return v
    d = a[1] if len(a) > 1 else None
    put(I, m, a[0], d)
    return d


def drop(I, m, k):
    I.touch(m)
    m.over = m.over + [(key(k), _MISSING)]
    m.n = simp(zi(m.n) - 1)


@method(SMap, "__delitem__")
def _delitem(I, m, a, k):
    if find(I, m, a[0]) is _MISSING:
        I.raise_(KeyError, a[0])
    drop(I, m, a[0])


@method(SMap, "pop")
def _pop(I, m, a, k):
    v = find(I, m, a[0])
    if v is _MISSING:
        if len(a) > 1:
            return a[1]
        I.raise_(KeyError, a[0])
    drop(I, m, a[0])
    return v


@method(SMap, "__len__")
def _len(I, m, a, k):
    return mkint(zi(m.n))
