"""C17: regexp flags map consistently between JavaScript, the wire and Python."""
import re

import z3

from pyvc.dual import *
from pyvc.interp import mkint
from pyvc.values import *
from v8serialize import DecodeV8SerializeError, V8SerializeError, dumps, loads
from v8serialize.constants import JSRegExpFlag, SerializationFeature, SerializationTag
from v8serialize.decode import ReadableTagStream
from v8serialize.encode import WritableTagStream
from v8serialize.jstypes import JSRegExp

from specs import c01
from specs import contracts as C

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]

#: V8's bit assignment (src/regexp/regexp-flags.h), in the order JavaScript prints the letters
BITS = (("d", "HasIndices", 128), ("g", "Global", 1), ("i", "IgnoreCase", 2), ("l", "Linear", 64), ("m", "Multiline", 4),
        ("s", "DotAll", 32), ("u", "Unicode", 16), ("v", "UnicodeSets", 256), ("y", "Sticky", 8))
IGNORECASE, MULTILINE, DOTALL, UNICODE, VERBOSE, ASCII = 2, 8, 16, 32, 64, 256
FLAGS = Bits(9, 2 ** 32 - 1)
NO_SETS = SerializationFeature.MaxCompatibility
ALL = SerializationFeature.RegExpUnicodeSets


def letters(flags):
    out = ""
    for c, _, bit in BITS:
        if flags & bit:
            out = out + c
    return out


def python_of(flags):
    """The Python flags with the same meaning."""
    out = 0
    if flags & 2:
        out = out + IGNORECASE
    if flags & 4:
        out = out + MULTILINE
    if flags & 32:
        out = out + DOTALL
    if flags & 16 or flags & 256:
        out = out + UNICODE
    return out


def js_of(flags):
    """The JavaScript flags with the same meaning as Python flags."""
    out = 0
    if flags & IGNORECASE:
        out = out + 2
    if flags & MULTILINE:
        out = out + 4
    if flags & DOTALL:
        out = out + 32
    if flags & UNICODE:
        out = out + 256
    return out


def unexclusive(flags):
    return flags & 16 == 16 and flags & 256 == 256


@lemma(LEMMAS, "names", of=Choice(*BITS), flags=FLAGS)
def names(of, flags):
    """Each flag has V8's bit, and a value has the flag exactly when the bit is set."""
    letter, name, bit = of
    f = JSRegExpFlag[name]
    prove(f == bit, "a flag has V8's bit")
    prove(str(f) == letter, "a flag prints as JavaScript's letter")
    g = JSRegExpFlag(flags)
    prove(g == flags, "a value of flags keeps its bits")
    prove((f in g) == (flags & bit == bit), "a value has the flag exactly when the bit is set")
    prove((g & f == f) == (flags & bit == bit), "a value has the flag exactly when the bit is set")


@lemma(LEMMAS, "letters", flags=FLAGS, budget_s=200)
def letters_of(flags):
    """A value of flags prints as JavaScript's letters and lists exactly its flags."""
    f = JSRegExpFlag(flags)
    prove(str(f) == letters(flags), "flags print as JavaScript's letters")
    prove(f.canonical == flags & 511, "the canonical flags are those V8 defines")
    total = 0
    for m in f:
        total = total + int(m)
    prove(total == flags & 511, "flags list exactly their members")


@lemma(LEMMAS, "construction", source=Str(), flags=FLAGS)
def construction(source, flags):
    """u and v exclude each other; an empty source is an empty group."""
    made = None
    try:
        made = JSRegExp(source, JSRegExpFlag(flags))
    except ValueError:
        pass
    prove((made is None) == unexclusive(flags), "the unicode flags exclude each other, and nothing else does")
    if made is not None:
        prove(made.source == (source if source != "" else "(?:)"), "an empty source is an empty non-capturing group")
        prove(made.flags == flags, "a regular expression keeps its flags")


@lemma(LEMMAS, "written", setup=C.use_varints, source=Str(), flags=FLAGS, features=Choice(None, NO_SETS, ALL))
def written(source, flags, features):
    """The flags are written as a varint of V8's bits, after the source, and nothing else."""
    assume(not unexclusive(flags))
    src = source if source != "" else "(?:)"
    out = dumps(JSRegExp(source, JSRegExpFlag(flags)), features=features)
    tail = varint(flags & 511)
    head = len(out) - len(tail)
    same_bytes(out[:3], b"\xff\x0fR", label="a regular expression has its tag")
    same_bytes(out[head:], tail, label="the flags are written with V8's bits and no others, last")
    # the source is one string between them
    r = ReadableTagStream(out, pos=3)
    tag = r.read_tag()
    if tag == SerializationTag.kUtf8String:
        s = r.read_string_utf8()
    elif tag == SerializationTag.kOneByteString:
        s = r.read_string_onebyte()
    else:
        s = r.read_string_twobyte()
    prove(identical(s, src), "the source is written as a string")
    prove(r.pos == head, "the flags follow the source")


FORMS = Choice("utf8", "onebyte", "twobyte")


@lemma(LEMMAS, "read", setup=C.use_varints, source=Str(), form=FORMS, flags=FLAGS, version=Choice(13, 14, 15), post=Data())
def read(source, form, flags, version, post):
    """Flags are read as V8's bits; bits it does not define make no difference; u with v is rejected."""
    w = WritableTagStream()
    w.data.append(255)
    w.data.append(version)
    w.data.append(0x52)
    if form == "utf8":
        w.write_string_utf8(source)
    elif form == "onebyte":
        for_latin1(source)
        w.write_string_onebyte(source)
    else:
        w.write_string_twobyte(source)
    w.write_varint(flags)
    w.data.extend(post)
    got = None
    try:
        got = loads(w.data)
    except DecodeV8SerializeError:
        pass
    prove((got is None) == unexclusive(flags), "exactly the data with both unicode flags is rejected")
    if got is None:
        return
    prove(isinstance(got, JSRegExp), "a regular expression is loaded as one")
    prove(got.source == (source if source != "" else "(?:)"), "its source is loaded")
    prove(got.flags & 511 == flags & 511, "its flags are V8's bits")
    prove(got.flags.canonical == flags & 511, "its flags are V8's bits")
    again = dumps(got)
    tail = varint(flags & 511)
    same_bytes(again[len(again) - len(tail):], tail, label="bits V8 does not define are not written")


def for_latin1(s):
    latin1 = True
    try:
        s.encode("latin1")
    except UnicodeEncodeError:
        latin1 = False
    assume(latin1)


@lemma(LEMMAS, "to Python flags", flags=FLAGS, throw=Choice(None, True, False), budget_s=200)
def to_python(flags, throw):
    """JavaScript flags become the Python flags with the same meaning; linear is refused."""
    f = JSRegExpFlag(flags)
    refused, got = False, None
    try:
        got = f.as_python_flags() if throw is None else f.as_python_flags(throw=throw)
    except V8SerializeError:
        refused = True
    if flags & 64:
        prove(got is None, "linear is refused")
        prove(refused == (throw is not False), "linear is refused by an error unless asked not to")
    else:
        prove(not refused and got == python_of(flags), "JavaScript flags convert to the Python flags with the same meaning")


PYFLAGS = [re.IGNORECASE, re.MULTILINE, re.DOTALL, re.UNICODE, re.VERBOSE, re.ASCII, re.LOCALE]


def flag_bits(I, name, possible):
    return I.of_bits([I.E.fresh(f"{name}.{k}", z3.BoolSort()) if possible >> k & 1 else z3.BoolVal(False) for k in range(9)])


class PyFlags(Dom):
    """A value of Python's regular expression flags."""

    def sym(self, I, name):
        e = flag_bits(I, name, 2 | 4 | 8 | 16 | 32 | 64 | 256)
        I.E.inputs[name] = lambda m: m.eval(e, True).as_long()
        return SEnum(re.RegexFlag, e)

    def from_model(self, m):
        return re.RegexFlag(m)

    def edges(self):
        return [re.RegexFlag(0)] + PYFLAGS

    def rand(self, r):
        out = re.RegexFlag(0)
        for f in PYFLAGS:
            if r.random() < 0.4:
                out |= f
        return out


@lemma(LEMMAS, "from Python flags", flags=PyFlags(), budget_s=200)
def from_python(flags):
    """Python flags become the JavaScript flags with the same meaning, and back; verbose is refused."""
    refused, got = False, None
    try:
        got = JSRegExpFlag.from_python_flags(flags)
    except V8SerializeError:
        refused = True
    prove(refused == (flags & VERBOSE == VERBOSE), "verbose is refused, and nothing else")
    if got is not None:
        prove(got == js_of(flags), "Python flags convert to the JavaScript flags with the same meaning")
        back = got.as_python_flags()
        prove(back == flags & (IGNORECASE | MULTILINE | DOTALL | UNICODE), "and back")


class Pattern(Dom):
    """A compiled Python pattern: any source, any flags but ASCII and LOCALE."""
    SOURCES = ("a+", "", "é", "x" * 100, "[a-z]", "日本", "(?i:a)")

    def sym(self, I, name):
        src = I.val(name + ".pattern", str)
        from pyvc.models import SURR
        I.E.assume(z3.Not(SURR(src.e)))
        e = flag_bits(I, name, 2 | 8 | 16 | 32 | 64)
        I.E.inputs[name] = lambda m: m.eval(e, True).as_long()
        return I.reg(SObj(re.Pattern, {"pattern": src, "flags": mkint(e)}))

    def from_model(self, m):
        return re.compile("a+", m & 127 & ~5)

    def edges(self):
        return [re.compile(s) for s in self.SOURCES] + [re.compile("a", f) for f in PYFLAGS[:5]] + [re.compile(b"a+"), re.compile(b"", re.I)]

    def rand(self, r):
        out = re.RegexFlag(0)
        for f in PYFLAGS[:5]:
            if r.random() < 0.4:
                out |= f
        return re.compile(r.choice(self.SOURCES), out)


@lemma(LEMMAS, "to a Python pattern", source=Str(), flags=FLAGS, throw=Choice(None, True, False), budget_s=200)
def to_pattern(source, flags, throw):
    """as_python_pattern compiles the source with the flags of the same meaning; linear is refused."""
    assume(not unexclusive(flags))
    x = JSRegExp(source, JSRegExpFlag(flags))
    want = None
    if not flags & 64:
        try:
            want = re.compile(x.source, python_of(flags))
        except re.error:
            pass
    refused, got = False, None
    try:
        got = x.as_python_pattern() if throw is None else x.as_python_pattern(throw=throw)
    except V8SerializeError:
        refused = True
    prove((got is None) == (want is None), "linear flags and sources Python does not accept are refused, nothing else")
    prove(refused == (want is None and throw is not False), "refused by an error unless asked not to")
    if got is not None and want is not None:
        prove(got.pattern == want.pattern and got.flags == want.flags, "a Python pattern has the same source and flags")


@lemma(LEMMAS, "from a Python pattern", setup=C.use_varints, pattern=Pattern(), throw=Choice(None, True, False), budget_s=200)
def from_pattern(pattern, throw):
    """A Python pattern converts to the same source and flags; verbose is refused."""
    source = pattern.pattern.decode() if isinstance(pattern.pattern, bytes) else pattern.pattern
    verbose = pattern.flags & VERBOSE == VERBOSE
    refused, got = False, None
    try:
        got = JSRegExp.from_python_pattern(pattern) if throw is None else JSRegExp.from_python_pattern(pattern, throw=throw)
    except V8SerializeError:
        refused = True
    prove((got is None) == verbose and refused == (verbose and throw is not False), "verbose is refused, and nothing else")
    if got is not None:
        prove(got.source == (source if source != "" else "(?:)"), "a Python pattern converts to the same source")
        prove(got.flags == js_of(pattern.flags), "a Python pattern converts to the same flags")
    out = None
    try:
        out = dumps(pattern)
    except V8SerializeError:
        pass
    prove((out is None) == verbose, "verbose is refused when written, and nothing else")
    if out is not None and got is not None:
        same_bytes(out, dumps(got), label="a Python pattern is written as the JavaScript regular expression it converts to")
