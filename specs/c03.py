"""C03: all three string encodings round-trip and two-byte text is aligned."""
from pyvc.dual import *
from v8serialize.encode import WritableTagStream
from v8serialize.decode import ReadableTagStream
from v8serialize.constants import SerializationTag

from specs import contracts as C
from specs import c01

LEMMAS = [l for l in c01.LEMMAS if l.name in ("write_varint", "read_varint")]
modular, writer, reader = c01.modular, c01.writer, c01.reader


def latin1(s):
    try:
        s.encode("latin1")
    except UnicodeEncodeError:
        return False
    return True


@lemma(LEMMAS, "one-byte round trip", setup=modular, s=Str(), pre=Data(), post=Data(), tagged=Choice(True, False),
       covers=["onebyte accepted", "onebyte rejected"])
def onebyte(s, pre, post, tagged):
    """write_string_onebyte writes tag, byte count and latin1 text and read_string_onebyte inverts it; text
    which is not latin1 is rejected with nothing written."""
    w = writer(pre)
    try:
        w.write_string_onebyte(s, tag=SerializationTag.kOneByteString if tagged else None)
    except ValueError:
        cover("onebyte rejected")
        prove(not latin1(s), "write_string_onebyte rejects only text outside latin1")
        same_bytes(w.data, pre, label="write_string_onebyte writes nothing when it rejects")
        return
    cover("onebyte accepted")
    prove(latin1(s), "write_string_onebyte rejects text outside latin1")
    same_bytes(w.data, pre, b'"' if tagged else b"", varint(enc_len("latin1", s)), text("latin1", s),
               label="write_string_onebyte appends tag, length and latin1 text")
    end = len(w.data)
    r = reader(w, post, len(pre))
    got = r.read_string_onebyte(tag=tagged)
    prove(identical(got, s), "read_string_onebyte returns the text written")
    prove(r.pos == end, "read_string_onebyte stops at the end of the text")


@lemma(LEMMAS, "two-byte round trip", setup=modular, s=Str(), pre=Data(), post=Data(), tagged=Choice(True, False))
def twobyte(s, pre, post, tagged):
    """write_string_twobyte appends (padding) tag, byte count and UTF-16-LE text; read_string_twobyte inverts it."""
    w = writer(pre)
    w.write_string_twobyte(s, tag=SerializationTag.kTwoByteString if tagged else None)
    n = enc_len("utf-16-le", s)
    end = len(w.data)
    head = end - n - len(varint(n))
    if tagged:
        prove((end - n) % 2 == 0, "tagged two-byte text starts at an even offset")
        pads = head - 1 - len(pre)
        prove(pads >= 0, "nothing before the stream end is touched")
        if pads == 0:
            same_bytes(w.data, pre, b"c", varint(n), text("utf-16-le", s), label="write_string_twobyte layout")
        elif pads == 1:
            same_bytes(w.data, pre, b"\0c", varint(n), text("utf-16-le", s), label="write_string_twobyte layout, padded")
        else:
            prove(False, "at most one padding byte is needed")
    else:
        same_bytes(w.data, pre, varint(n), text("utf-16-le", s), label="write_string_twobyte layout, untagged")
    r = reader(w, post, len(pre))
    got = r.read_string_twobyte(tag=tagged)
    prove(identical(got, s), "read_string_twobyte returns the text written")
    prove(r.pos == end, "read_string_twobyte stops at the end of the text")


@lemma(LEMMAS, "utf-8 round trip", setup=modular, s=Str(), pre=Data(), post=Data(), tagged=Choice(True, False))
def utf8(s, pre, post, tagged):
    """write_string_utf8 appends tag, byte count and UTF-8 text; read_string_utf8 inverts it."""
    w = writer(pre)
    w.write_string_utf8(s, tag=SerializationTag.kUtf8String if tagged else None)
    same_bytes(w.data, pre, b"S" if tagged else b"", varint(enc_len("utf-8", s)), text("utf-8", s),
               label="write_string_utf8 appends tag, length and UTF-8 text")
    end = len(w.data)
    r = reader(w, post, len(pre))
    got = r.read_string_utf8(tag=tagged)
    prove(identical(got, s), "read_string_utf8 returns the text written")
    prove(r.pos == end, "read_string_utf8 stops at the end of the text")


@lemma(LEMMAS, "padding", setup=modular, k=Small(0, 12), pre=Data(), post=Data(), tag=Choice(*[
    t for t in SerializationTag if t != SerializationTag.kPadding]))
def padding(k, pre, post, tag):
    """read_tag skips any amount of padding and returns the tag after it."""
    instantiate_loops_at(k)
    r = ReadableTagStream(pre + zeros(k) + bytes([tag]) + post)
    r.pos = len(pre)
    got = r.read_tag()
    prove(got == tag, "read_tag returns the tag after the padding")
    prove(r.pos == len(pre) + k + 1, "read_tag consumes the padding and the tag")
