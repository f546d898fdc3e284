"""P07 variable attributes: number, short string, long string and bytes are one value."""

from edk2toollib.uefi.uefi_multi_phase import EfiVariableAttributes
from sx.case import Case, Suite

suite = Suite()
COVER = ["strings", "parsed", "refused"]

SHORT = [(0x40, "AP"), (0x20, "AT"), (0x10, "AW"), (0x08, "HW"), (0x04, "RT"), (0x02, "BS"), (0x01, "NV")]
LONG = {
    0x40: "EFI_VARIABLE_APPEND_WRITE", 0x20: "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS",
    0x10: "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS", 0x08: "EFI_VARIABLE_HARDWARE_ERROR_RECORD",
    0x04: "EFI_VARIABLE_RUNTIME_ACCESS", 0x02: "EFI_VARIABLE_BOOTSERVICE_ACCESS", 0x01: "EFI_VARIABLE_NON_VOLATILE",
}


def strings(sx, width):
    v = sx.u32("v") if width == 32 else sx.int("v", 0, 127)
    a = EfiVariableAttributes(v)
    sx.check(a.__int__() == v, "the integer value is kept")
    s = [x for b, x in SHORT if (v & b) != 0]
    l = [LONG[b] for b, x in SHORT if (v & b) != 0]
    sx.check(sx.eq(a.get_short_string(), ",".join(s)), "the short string lists exactly the set attributes")
    sx.check(sx.eq(str(a), ",".join(l)), "the long string lists exactly the set attributes")
    known = v & 0x7F
    sx.check(EfiVariableAttributes(a.get_short_string()).__int__() == known, "parsing the short string gives the known bits back")
    sx.check(EfiVariableAttributes(str(a)).__int__() == known, "parsing the long string gives the known bits back")
    sx.cover("strings")


def codec(sx):
    v = sx.u32("v")
    a = EfiVariableAttributes(v)
    sx.check(sx.eq(a.encode(), sx.le(v, 4)), "attributes encode to four little-endian bytes")
    f = sx.stream(sx.cat(sx.le(v, 4), b"\x99"))
    b = EfiVariableAttributes(decodefs=f)
    sx.check(sx.and_(b.attributes == v, f.tell() == 4), "attributes decode from four bytes of a stream")
    b.update(sx.u32("w"))
    f.seek(0)
    sx.check(sx.and_(b.decode(f) == v, b.__int__() == v), "decode replaces the value and returns it")
    sx.check(not sx.attempt(b.decode, sx.stream(sx.bytes("short", 3))).ok, "three bytes are refused")


def parse(sx, k, sep):
    """k names in any order, repetition, case and spelling"""
    want, parts = 0, []
    for i in range(k):
        b, s = SHORT[sx.choice("attr%d" % i, 7)]
        form = sx.choice("form%d" % i, 4)
        word = [s, LONG[b], s.lower(), LONG[b].lower()][form]
        parts.append(word)
        want |= b
    t = sep.join(parts)
    sx.check(EfiVariableAttributes.parse_attributes_str(t) == want, "any list of names parses to the union of their bits")
    a = EfiVariableAttributes(sx.u32("before"))
    a.update(t)
    sx.check(a.__int__() == want, "update replaces the value")
    sx.cover("parsed")


def unknown(sx, n):
    """any n letter word: accepted exactly when it is a name"""
    t = sx.text("t", n, alphabet="ABHNPRSTVWnvbsz_")
    r = sx.attempt(EfiVariableAttributes.parse_attributes_str, t)
    up = t.upper()
    hits = [sx.eq(up, s) for b, s in SHORT]
    sx.check(r.ok == sx.or_(*hits), "a word that is not an attribute name is refused")
    if r.ok:
        sx.check(sx.and_(*[sx.implies(h, r.value == b) for h, (b, s) in zip(hits, SHORT)]), "a short name parses to its bit")
    else:
        sx.check(r.raised(ValueError), "refusal is a ValueError")
        sx.cover("refused")


def other(sx, names, i, c):
    """the damaged name is another name"""
    lo = names.rfind(",", 0, i) + 1
    hi = (names + ",").index(",", i)
    return sx.or_(*[sx.eq(sx.scat(names[lo:i], c, names[i + 1 : hi]).upper(), x) for x in [y for _b, y in SHORT] + list(LONG.values())])


def damaged(sx, names, i):
    """one character of a list of names is arbitrary"""
    c = sx.text("c", 1, mincp=32, maxcp=126)
    want = 0
    for w in names.split(","):
        want |= [b for b, x in SHORT if w in (x, LONG[b])][0]
    before = sx.u32("before")
    a = EfiVariableAttributes(before)
    r = sx.attempt(a.update, sx.scat(names[:i], c, names[i + 1 :]))
    if r.ok:
        got = a.__int__()
        same = sx.eq(c.upper(), names[i].upper())
        sx.check(sx.implies(same, got == want), "the spelled names give their bits")
        sx.check(sx.or_(same, sx.eq(c, " "), sx.eq(c, ","), other(sx, names, i, c)), "a misspelled name is refused")
    else:
        sx.check(sx.and_(r.raised(ValueError), a.__int__() == before), "refusing a name is a ValueError and changes nothing")
        sx.cover("refused")


def types(sx):
    for bad in (None, 1.5, b"NV", ["NV"]):
        sx.check(sx.attempt(EfiVariableAttributes, bad).raised(TypeError), "only integers and strings are attributes")


suite.add(Case("strings-7", strings, "all 128 attribute sets", width=7))
suite.add(Case("strings-32", strings, "all 32-bit values", width=32))
suite.add(Case("codec", codec, "all 32-bit values"))
for k in (1, 2):
    suite.add(Case("parse-%d" % k, parse, "every list of %d names in four spellings" % k, k=k, sep=","))
suite.add(Case("parse-spaced-2", parse, "every list of 2 names, ', ' separated", k=2, sep=", "))
suite.add(Case("parse-3", parse, "every list of 3 names", k=3, sep=" , "), tier="thorough")
for n in (1, 2, 3):
    suite.add(Case("unknown-%d" % n, unknown, "every %d-letter word over the letters of the names" % n, n=n))
for n, w in enumerate(("NV", "BS,RT", "EFI_VARIABLE_NON_VOLATILE,AT", "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS", "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS")):
    for i in range(0, len(w), 1 if len(w) < 8 else 5):
        suite.add(Case("damaged-%d-%d" % (n, i), damaged, "any printable character at place %d of '%s'" % (i, w), names=w, i=i))
suite.add(Case("types", types, "-"))
