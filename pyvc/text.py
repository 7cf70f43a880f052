"""Strings as sequences of characters (z3 string theory), where code looks at their text.

SText.e is a z3 string.  Decimal texts of ints and the reading of decimal texts are those of the string theory;
characters beyond ASCII are only known to be beyond ASCII.  SReal keys stand for finite floats: every finite
float is a real number, and the operations used (is_integer, comparison, int()) are exact on floats.
"""
from __future__ import annotations

import z3

from .core import Infeasible, Unsupported
from .interp import METHKINDS, METHODS, ie, is_intlike, method, mkbool, mkint, pyclass
from .rope import simp, zi
from .values import *

ASCII = z3.Star(z3.Range("\x00", "\x7f"))
STR = z3.StringSort()
OTHER_DECIMAL = z3.Function("decimal, not ascii", STR, z3.BoolSort())
REALTEXT = z3.Function("text of float", z3.RealSort(), STR)


class SText(Sym):
    __slots__ = ("e", "pytype")

    def __init__(self, e):
        self.e = e
        self.pytype = str

    def __repr__(self):
        return f"SText({self.e})"


METHKINDS.add(SText)


def term(v):
    if isinstance(v, SText):
        return v.e
    if type(v) is str:
        return z3.StringVal(v)
    return None


def of_int(I, v):
    n = zi(ie(v))
    if I.E.branch(n >= 0):
        return SText(z3.IntToStr(n))
    return SText(z3.Concat(z3.StringVal("-"), z3.IntToStr(-n)))


def digits(e):
    """All characters are 0-9 and there is one."""
    return z3.StrToInt(e) >= 0


def ascii_(e):
    return z3.InRe(e, ASCII)


@method(SText, "__eq__")
def _eq(I, s, a, k):
    t = term(a[0])
    if t is not None:
        return mkbool(s.e == t)
    if pyclass(a[0]) in (None, str):
        raise Unsupported("comparison of a text with an opaque value")
    return False


@method(SText, "__len__")
def _len(I, s, a, k):
    return mkint(z3.Length(s.e))


@method(SText, "__bool__")
def _bool(I, s, a, k):
    return mkbool(z3.Length(s.e) > 0)


@method(SText, "isascii")
def _isascii(I, s, a, k):
    return mkbool(ascii_(s.e))


@method(SText, "isdecimal", "isdigit", "isnumeric")
def _isdecimal(I, s, a, k):
    # those of characters beyond ASCII are not told apart
    if I.E.branch(ascii_(s.e)):
        return mkbool(digits(s.e))
    return mkbool(OTHER_DECIMAL(s.e))


@method(SText, "__getitem__")
def _getitem(I, s, a, k):
    i = a[0]
    n = z3.Length(s.e)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported("slice of a text")

        def bound(v, d):
            if v is None:
                return d
            v = zi(ie(v))
            if I.E.branch(v < 0):
                v = v + n
                return v if I.E.branch(v >= 0) else z3.IntVal(0)
            return v if I.E.branch(v <= n) else n
        lo, hi = bound(i.start, z3.IntVal(0)), bound(i.stop, n)
        if I.E.branch(hi <= lo):
            return ""
        return SText(z3.SubString(s.e, lo, hi - lo))
    i = zi(ie(i))
    if I.E.branch(i < 0):
        i = i + n
    if not I.E.branch(z3.And(i >= 0, i < n)):
        I.raise_(IndexError, "string index out of range")
    return SText(z3.SubString(s.e, i, 1))


@method(SText, "startswith")
def _startswith(I, s, a, k):
    t = term(a[0])
    if t is None or len(a) > 1:
        raise Unsupported("startswith")
    return mkbool(z3.PrefixOf(t, s.e))


@method(SText, "__add__")
def _add(I, s, a, k):
    t = term(a[0])
    if t is None:
        raise Unsupported("sum of a text")
    return SText(z3.Concat(s.e, t))


@method(SText, "__radd__")
def _radd(I, s, a, k):
    t = term(a[0])
    if t is None:
        raise Unsupported("sum of a text")
    return SText(z3.Concat(t, s.e))


def to_int(I, s):
    if I.E.branch(digits(s.e)):
        if I.E.branch(z3.Length(s.e) > 4300):
            I.raise_(ValueError, "Exceeds the limit (4300 digits) for integer string conversion")
        # the decimal text of what digits without a leading zero denote is those digits (z3 does not see this)
        I.E.axiom(("decimal", s.e.get_id()),
                  z3.Implies(z3.And(digits(s.e), z3.Or(z3.Length(s.e) == 1, z3.SubString(s.e, 0, 1) != "0")),
                             z3.IntToStr(z3.StrToInt(s.e)) == s.e))
        return mkint(z3.StrToInt(s.e))
    if I.E.branch(z3.And(z3.PrefixOf(z3.StringVal("-"), s.e), digits(z3.SubString(s.e, 1, z3.Length(s.e) - 1)))):
        return mkint(-z3.StrToInt(z3.SubString(s.e, 1, z3.Length(s.e) - 1)))
    raise Unsupported("int() of a text which is not plainly digits")


@method(SReal, "is_integer")
def _is_integer(I, x, a, k):
    return mkbool(z3.IsInt(x.e))


def real_to_int(I, x):
    if I.E.branch(x.e >= 0):
        return mkint(z3.ToInt(x.e))
    return mkint(-z3.ToInt(-x.e))
