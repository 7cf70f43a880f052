"""C19: showing values ends, leaves nothing behind, and settings are undone."""
from __future__ import annotations

import _thread
import warnings
from reprlib import Repr

import z3

from pyvc import tmap
from pyvc.core import Unsupported
from pyvc.dual import *
from pyvc.interp import _MISSING, ie, mkbool, mkint, model
from pyvc.values import *
from v8serialize.jstypes import JSArray, JSArrayBuffer, JSError, JSMap, JSObject, JSRepr, JSSet, js_repr_settings
from v8serialize.jstypes import _repr as IMPL

LEMMAS = []
OUTCOMES = ("text", "error", "interrupt")


class Own(Repr):
    """The type's own way of showing a value: it is known only by its contract."""

    def repr1(self, x, level):
        return own_repr(x, level)


class Shower(JSRepr, Own):
    """The library's JSRepr, whose super() is Own."""


SHOWER = Shower(fillvalue="<...>", maxlevel=7)


def own_repr(x, level):
    raise NotImplementedError


ID = z3.Function("id_val", Val, z3.IntSort())
THREAD = z3.Int("thread")
SHAPE = (True, "#", "#")


def registries():
    """The sets shared by all JSRepr: those of values being shown."""
    return [(k, v) for c in JSRepr.__mro__ for k, v in vars(c).items() if type(v) in (set, dict) and not v and not k.startswith("__")]


def setup(I):
    rs = registries()
    if len(rs) != 1:
        raise Unsupported("no single registry of values being shown")
    m = I.reg(tmap.TMap("shown", pytype=type(rs[0][1])))
    I.override[id(rs[0][1])] = m
    I.E.memo["registry"] = m
    I.E.memo["calls"] = ()
    I.contracts[_thread.get_ident] = lambda I, a, k: mkint(THREAD)


def start(outcome):
    """(the type's own repr will end like this)"""


@model(start)
def _start(I, a, k):
    I.E.memo["outcome"] = a[0]
    I.E.memo["before"] = list(I.E.memo["registry"].over)


@model(own_repr)
def _own(I, a, k):
    """Contract of the type's own repr (by induction over the reprs of members it makes): however it
    ends, the registry is afterwards as it was before."""
    m = I.E.memo["registry"]
    I.E.memo["calls"] = I.E.memo["calls"] + ((a[0], a[1], list(m.over)),)
    o = I.E.memo["outcome"]
    if o == "error":
        I.raise_(ValueError, "from a member")
    if o == "interrupt":
        I.raise_(KeyboardInterrupt)
    return "the text"


def look(I, over, i, t):
    m = I.E.memo["registry"]
    saved, m.over = m.over, over
    try:
        return tmap.find(I, m, (mkint(i), mkint(t))) is not _MISSING
    finally:
        m.over = saved


def is_shown(when, i, t):
    """Is (object, thread) among those being shown?"""


@model(is_shown)
def _is_shown(I, a, k):
    when, i, t = a
    over = {"before": I.E.memo["before"], "end": I.E.memo["registry"].over}.get(when)
    if over is None:
        over = I.E.memo["calls"][0][2]
    return look(I, over, ie(i), ie(t))


def this_thread():
    pass


@model(this_thread)
def _this_thread(I, a, k):
    return mkint(THREAD)


def calls():
    pass


@model(calls)
def _calls(I, a, k):
    return len(I.E.memo["calls"])


def called_with(x, level):
    pass


@model(called_with)
def _called_with(I, a, k):
    x, l, _ = I.E.memo["calls"][0]
    return mkbool(z3.And(x.e == a[0].e, ie(l) == ie(a[1])))


class Thing(Dom):
    def sym(self, I, name):
        return SVal(z3.Const(name, Val), None, {"not_none": True})


@lemma(LEMMAS, "showing a value", setup=setup, native=False, x=Thing(), level=Int(), i=Int(), t=Int(), outcome=Choice(*OUTCOMES))
def showing(x, level, i, t, outcome):
    """From any state of the registry: a value being shown by this thread, or below the last level, is shown
    as the fill value; any other is shown by its type, once, while it is registered.  In the end, also when
    an exception passes, the registry is as before."""
    start(outcome)
    me = this_thread()
    running = is_shown("before", id(x), me)
    got = raised = None
    try:
        got = SHOWER.repr1(x, level)
    except ValueError:
        raised = "error"
    except KeyboardInterrupt:
        raised = "interrupt"
    if running or level <= 0:
        prove(calls() == 0 and raised is None and got == "<...>", "a value inside itself, or too deep, is shown as the fill value")
    else:
        prove(calls() == 1 and called_with(x, level), "any other value is shown by its type, at its level")
        prove(is_shown("inside", id(x), me), "a value is registered while it is shown")
        if t != me or i != id(x):
            prove(is_shown("inside", i, t) == is_shown("before", i, t), "showing a value leaves others registered, or not")
        if outcome == "text":
            prove(raised is None and got == "the text", "the text is the type's own")
        else:
            prove(raised == outcome, "an exception of a member's repr passes")
    prove(is_shown("end", i, t) == is_shown("before", i, t), "a repr leaves the registry as it was")


def called_for(x, level):
    pass


@model(called_for)
def _called_for(I, a, k):
    x, l, _ = I.E.memo["calls"][0]
    return x is a[0] and l == a[1]


def value(kind):
    return {"object": JSObject, "array": JSArray, "map": JSMap, "set": JSSet, "error": JSError, "buffer": JSArrayBuffer}[kind]()


@lemma(LEMMAS, "the settings used", setup=setup, native=False, kind=Choice("object", "array", "map", "set", "error", "buffer"), outcome=Choice(*OUTCOMES))
def settings_used(kind, outcome):
    """The repr of each kind of value is made by the settings that hold, from their outermost level."""
    start(outcome)
    x = value(kind)
    assume(not is_shown("before", id(x), this_thread()))
    got = raised = None
    with js_repr_settings(SHOWER):
        try:
            got = x.__repr__()
        except ValueError:
            raised = "error"
        except KeyboardInterrupt:
            raised = "interrupt"
    prove(calls() == 1 and called_for(x, 7), "a repr is made by the settings that hold, from their outermost level")
    prove(got == ("the text" if outcome == "text" else None) and raised == (None if outcome == "text" else outcome), "the text is the one the settings make")


# ---------------------------------------------------------------------------
# settings
# ---------------------------------------------------------------------------
def quiet(I):
    I.E.memo["warnings"] = ()

    def warn(I, a, k):
        c = a[0].cls if isinstance(a[0], SObj) else type(a[0])
        I.E.memo["warnings"] = I.E.memo["warnings"] + (c.__name__,)
    I.contracts[warnings.warn] = warn


def warned():
    """The warnings issued so far."""


@model(warned)
def _warned(I, a, k):
    return I.E.memo["warnings"]


def replace_active(other):
    """Someone else makes another object hold the settings."""


@model(replace_active)
def _replace_active(I, a, k):
    gf = I.gframes.get(id(IMPL.__dict__))
    names = [n for n, v in gf.vars.items() if isinstance(v, SObj) and issubclass(v.cls, JSRepr)] if gf else []
    if len(names) != 1:
        raise Unsupported("no single global with the active settings")
    gf.vars[names[0]] = a[0]


FIELDS = ("maxjsobject", "maxjsarray", "maxlevel", "maxtuple", "maxlist", "maxarray", "maxdict", "maxset", "maxfrozenset", "maxdeque", "maxstring", "maxlong", "maxother", "fillvalue", "indent")


def current():
    """The settings that hold: each field."""
    with js_repr_settings() as now:
        return [getattr(now, f) for f in FIELDS]


def expect(base, changes):
    return [changes[f] if f in changes else v for f, v in zip(FIELDS, base)]


@lemma(LEMMAS, "settings block", setup=quiet, a=Int(), b=Int(), c=Int(), d=Int(), f=Choice(*FIELDS[:13]), g=Choice("maxlevel", "maxdict", "maxjsobject", "fillvalue"),
       how=Choice("end", "error", "interrupt"), force=Bool())
def settings_block(a, b, c, d, f, g, how, force):
    """From any settings: a block's hold inside, on top of those before it, which are back after it, however it ends."""
    with js_repr_settings(**{f: a, "maxset": b, "indent": 3}) as outer:
        before = current()
        prove(before == [getattr(outer, n) for n in FIELDS], "the settings object of a block is the one that holds")
        changes = {g: "<>" if g == "fillvalue" else c, "maxother": d, "indent": None}
        raised = None
        try:
            with js_repr_settings(force_restore=force, **changes) as inner:
                prove(current() == expect(before, changes), "settings hold inside their block, on top of those around")
                prove(current() == [getattr(inner, n) for n in FIELDS], "the settings object of a block is the one that holds")
                if how == "error":
                    raise ValueError()
                if how == "interrupt":
                    raise KeyboardInterrupt()
        except ValueError:
            raised = "error"
        except KeyboardInterrupt:
            raised = "interrupt"
        prove(raised == (None if how == "end" else how), "an exception passes the block")
        prove(current() == before, "settings are undone at the end of a block")
        prove([getattr(outer, n) for n in FIELDS] == before, "the settings of the blocks around stay as they are")


@lemma(LEMMAS, "settings given as an object", setup=quiet, a=Int(), b=Int(), f=Choice(*FIELDS[:13]), g=Choice(*FIELDS[:13]), how=Choice("end", "error"))
def settings_object(a, b, f, g, how):
    """The same for a block whose settings are given as an object."""
    with js_repr_settings(**{f: a}):
        before = current()
        own = JSRepr(**{g: b})
        try:
            with js_repr_settings(own) as inner:
                prove(inner is own, "the block's settings are the object's")
                prove(current() == [getattr(own, n) for n in FIELDS], "the object's settings hold inside the block")
                prove(getattr(own, g) == b, "an object has the settings it is made with")
                if how == "error":
                    raise ValueError()
        except ValueError:
            pass
        prove(current() == before, "settings are undone at the end of a block")


@lemma(LEMMAS, "settings replaced by others", setup=quiet, native=False, a=Int(), b=Int(), c=Int(), how=Choice("end", "error"), force=Bool())
def settings_replaced(a, b, c, how, force):
    """A block that ends while settings hold which are not its own leaves them, and warns, unless forced."""
    with js_repr_settings(maxlevel=a, force_restore=True):
        before = current()
        other = JSRepr(maxlevel=c)
        theirs = [getattr(other, n) for n in FIELDS]
        try:
            with js_repr_settings(maxlevel=b, force_restore=force):
                replace_active(other)
                if how == "error":
                    raise ValueError()
        except ValueError:
            pass
        prove(current() == (before if force else theirs), "a block that ends while others' settings hold leaves them, unless forced")
        prove(warned() == (() if force else ("JSReprSettingsNotRestored",)), "a block that cannot undo its settings warns")


@lemma(LEMMAS, "settings refused", setup=quiet, a=Int(), wrong=Choice("nothing", "maxobject", "", "force"))
def settings_refused(a, wrong):
    """Settings of other names are refused and change nothing."""
    before = current()
    refused = False
    try:
        with js_repr_settings(maxlevel=a, **{wrong: 1}):
            pass
    except TypeError:
        refused = True
    prove(refused, "unknown settings are refused")
    prove(current() == before, "refused settings change nothing")
