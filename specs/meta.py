"""Per property: what the check gives and what stays assumed (beyond the assumptions common to all)."""
NEST = ("nested values: encode_object appends one token that starts with a tag of the right role, decode_object on it returns the value and "
        "consumes exactly it (induction hypothesis over nesting depth; the lemmas of C02, C04-C07 are its steps)")
LOG = "an object that was not recorded has an id which is not in the log (true while the log keeps its references)"
FLOAT = "floats are opaque: only bit patterns and ordering facts are stated; struct float formats are injective functions of the value"
CODEC = "utf-8, latin-1 and utf-16 codecs are length-constrained bijections on the texts they accept"
MIXIN = "operations inherited from collections.abc are verified from the text of the interpreter's mix-ins"
MEMO = "functools.lru_cache gives the result of an earlier call with an equal argument, of the same type if typed; a bounded cache may forget"
META = {
    "C01": dict(note="Proved for integers of any size at any stream position; bit patterns of doubles checked at run time only.",
                assumptions=[FLOAT]),
    "C02": dict(note="Proved for every scalar alone and inside a message in any state; also after values that compare equal.",
                assumptions=[FLOAT, NEST, MEMO]),
    "C03": dict(note="Proved for texts of any length at any position and alignment.", assumptions=[CODEC]),
    "C04": dict(note="Proved for any number of entries of any contents, by the contract of nested values.",
                assumptions=[NEST, LOG, "fewer than 2**30 entries"]),
    "C05": dict(note="Numbering proved per kind of value and as a contract of the log; whole cyclic graphs natively, bounded. One known finding.",
                assumptions=[NEST, LOG, "the log is one list and one dict", MEMO, "graph isomorphism of a whole message follows by induction over the per-value lemmas (argued)"]),
    "C06": dict(note="Proved for every combination of error fields, flags and dates' integer parts. One known finding.",
                assumptions=[NEST, LOG, CODEC, "IEEE rounding bound for x*1000 and x/1000, years 36-9987, documented datetime.timestamp/fromtimestamp",
                             "re.compile is a function of (source, flags)"]),
    "C07": dict(note="Proved for any size, offset and length, features on and off. Three known findings.",
                assumptions=[NEST, LOG, "no bytearray is resized while a memoryview of it is open (CPython refuses it)"]),
    "C08": dict(note="Proved for arbitrary bytes, per reader and tag; composition by the contract of nested values; whole messages natively, bounded.",
                assumptions=["receivers of nested values are stubs that take anything (their own behaviour is C09-C11)", "stack limits are outside the statement"]),
    "C09": dict(note="Every operation proved from any state of either storage; nothing is left to bounded runs alone.",
                assumptions=[MIXIN, "itertools.groupby puts neighbours with equal keys together and keeps the order (its key function is verified)",
                             "== of elements is an arbitrary relation", "length below 2**32-1 where append and insert grow an array"]),
    "C10": dict(note="Proved from any state for any key by the contract of the key rule, itself proved for integers, texts and finite floats.",
                assumptions=[MIXIN, "finite floats as reals below 10**600", "upper/lower case and digit tables of non-ASCII characters are not modelled"]),
    "C11": dict(note="Proved from any state; the identity rule for every pair of kinds of values. Bulk operations, set operators and comparisons over the single operations.",
                assumptions=[MIXIN, "a subset is not larger than its superset (pigeonhole principle)", "id() tells existing objects apart", "equal builtin values hash equal"]),
    "C12": dict(note="Proved with offsets and lengths as unbounded integers for every view kind and format.",
                assumptions=[FLOAT, "struct and memoryview casts of integer formats modelled exactly"]),
    "C13": dict(note="Feature sets proved as a symbolic bit set, releases by rank; version texts natively, bounded. One known finding.",
                assumptions=["packaging's Version order is the order of (release, suffix) ranks"]),
    "C14": dict(note="The protocol proved from any state of the registry; random cyclic graphs natively, bounded.",
                assumptions=["member comparison is a contract with five outcomes that restores the registry", "termination: registered pairs are finite (argued)"]),
    "C15": dict(note="Proved as a ghost fact of the stream for every kind of key and every exit.", assumptions=[NEST]),
    "C16": dict(note="Proved for views of any size and offset.", assumptions=[NEST, "struct and memoryview casts of integer formats modelled exactly"]),
    "C17": dict(note="All 2**9 flag sets as a bit-vector domain.", assumptions=["re.compile is a function of (source, flags)"]),
    "C19": dict(note="The protocol of one repr and the settings blocks proved from any state; which members are shown natively, bounded.",
                assumptions=["a type's own repr is a contract with three outcomes that restores the registry", "reprlib and contextlib are verified from / as their documented source",
                             "what the repr_* methods write out for the members is only checked at run time"]),
    "C18": dict(note="Any number of steps, by induction over the step index; all header versions and option conflicts.", assumptions=[]),
}
