"""P18 GUID text: registry form, C initializer form and uuid objects denote the same 128-bit value; anything else is refused."""

import io

import edk2toollib.uefi.edk2.parsers.base_parser as B
import edk2toollib.uefi.edk2.parsers.dec_parser as D
import edk2toollib.uefi.edk2.parsers.guid_parser as G
from sx.case import Case, Suite

suite = Suite()
COVER = ["reg", "c", "uuid", "short", "upper", "space", "brace", "dec", "parseguid", "refused", "junk"]
ASSUMPTIONS = ["A ';' after a C initializer is tolerated (pinned by an existing behaviour of reg_guid_from_c_format)."]
P = G.GuidParser
FIELDS = [8, 4, 4, 2, 2, 2, 2, 2, 2, 2, 2]


def fields(sx, name):
    """the eleven numbers of a GUID, as ints, and the 16 bytes in registry order"""
    b = sx.bytes(name, 16)
    out, k = [], 0
    for w in FIELDS:
        v = 0
        for _ in range(w // 2):
            v = v * 256 + b[k]
            k += 1
        out.append(v)
    return b, out


def hexc(sx, v, w, upper):
    return sx.hexs(v, w, upper)


def reg(sx, f, upper=False):
    h = [sx.hexs(v, w, upper) for v, w in zip(f, FIELDS)]
    return sx.scat(h[0], "-", h[1], "-", h[2], "-", h[3], h[4], "-", *h[5:])


def cform(sx, f, upper=False, x="0x", sep=", ", lead="", trail="", widths=FIELDS, o="{", oo="{", c="}}"):
    h = [sx.scat(x, sx.hexs(v, w, upper)) for v, w in zip(f, widths)]
    parts = [o]
    for i, t in enumerate(h):
        if i == 3:
            parts.append(oo)
        parts += [lead, t, trail]
        if i < 10:
            parts.append(sep)
    parts.append(c)
    return sx.scat(*parts)


def same(sx, u, b):
    return sx.eq(u.bytes, b)


def reg_in(sx, upper, pre, post):
    b, f = fields(sx, "g")
    t = sx.scat(pre, reg(sx, f, upper), post)
    sx.check(bool(P.is_guid_in_reg_format(t)), "registry text is recognized")
    sx.check(not P.is_guid_in_c_format(t), "registry text is not a C initializer")
    u = P.uuid_from_guidstring(t)
    sx.check(same(sx, u, b), "registry text denotes its value")
    c = P.c_guid_from_reg_format(t)
    sx.check(sx.eq(c, cform(sx, f, upper)), "the C form of a registry GUID has its eleven numbers")
    back = P.reg_guid_from_c_format(c)
    sx.check(sx.eq(back, reg(sx, f)), "registry text survives the trip through the C form")
    sx.cover("reg")
    if pre:
        sx.cover("brace")


def c_in(sx, upper=False, x="0x", sep=", ", lead="", trail="", o="{", oo="{", c="}}"):
    b, f = fields(sx, "g")
    t = cform(sx, f, upper, x, sep, lead, trail, o=o, oo=oo, c=c)
    sx.check(bool(P.is_guid_in_c_format(t)), "a C initializer is recognized")
    sx.check(not P.is_guid_in_reg_format(t), "a C initializer is not registry text")
    sx.check(sx.eq(P.reg_guid_from_c_format(t), reg(sx, f)), "the registry form of a C initializer has its value, lower case")
    sx.check(same(sx, P.uuid_from_guidstring(t), b), "a C initializer denotes its value")
    sx.cover("c")
    if upper:
        sx.cover("upper")
    if lead:
        sx.cover("space")


def c_short(sx, widths):
    """numbers written without their leading zeros, in any digits"""
    vs = [sx.int("v%d" % i, 0, 16**w - 1) for i, w in enumerate(widths)]
    t = cform(sx, vs, widths=widths)
    want = reg(sx, vs)
    sx.check(sx.eq(P.reg_guid_from_c_format(t), want), "short numbers are padded on the left")
    sx.check(sx.eq(str(P.uuid_from_guidstring(t)), want), "short numbers denote their value")
    sx.check(sx.eq(B.BaseParser("x").ParseGuid(t), reg(sx, vs, True)), "ParseGuid reads the same value")
    sx.cover("short")


def from_uuid(sx):
    u = sx.uuid("u")
    b = u.bytes
    r = P.reg_guid_str_from_uuid(u)
    c = P.c_guid_str_from_uuid(u)
    sx.check(len(r) == 36, "registry text has 36 characters")
    sx.check(sx.eq(P.uuid_from_guidstring(r).bytes, b), "uuid -> registry -> uuid")
    sx.check(sx.eq(P.uuid_from_guidstring(c).bytes, b), "uuid -> C -> uuid")
    sx.check(sx.eq(P.reg_guid_from_c_format(c), r), "C and registry text of a uuid agree")
    sx.check(sx.eq(P.c_guid_from_reg_format(r), c), "C and registry text of a uuid agree")
    sx.cover("uuid")


def parse_guid(sx, upper=False, x="0x", sep=", ", lead="", trail="", o="{", oo="{", c="}}"):
    b, f = fields(sx, "g")
    t = cform(sx, f, upper, x, sep, lead, trail, o=o, oo=oo, c=c)
    g = B.BaseParser("x").ParseGuid(t)
    sx.check(sx.eq(g, reg(sx, f, True)), "ParseGuid gives the registry text of the C initializer")
    sx.cover("parseguid")


def parse_guid_bad(sx, widths, x, drop):
    """a number with too many digits or a missing number is refused"""
    vs = [sx.int("v%d" % i, 0, 16**w - 1) for i, w in enumerate(widths)]
    h = [sx.scat("0x", sx.hexs(v, w)) for v, w in zip(vs, widths)]
    if drop is not None:
        del h[drop]
    t = sx.scat("{", *[p for i, q in enumerate(h) for p in ((", " if i else ""), q)], "}")
    r = sx.attempt(B.BaseParser("x").ParseGuid, t)
    sx.check(r.raised(RuntimeError), "a GUID with the wrong number of parts or digits is refused")
    sx.cover("refused")


def dec_entry(sx, cls, kind, form):
    b, f = fields(sx, "g")
    n = sx.text("n", 3, alphabet="aZg9_")
    t = cform(sx, f) if form == "c" else reg(sx, f)
    e = cls("Pkg", sx.scat("  ", n, " = ", t))
    sx.check(sx.eq(e.name, n), "the declared name")
    sx.check(same(sx, e.guid, b), "the declared GUID")
    sx.check(sx.eq(e.guidstring, t), "the GUID text as written")
    sx.check(e.type == kind and e.package_name == "Pkg", "the kind and package of the declaration")
    sx.cover("dec")


def junk(sx, n, form):
    """arbitrary text of length n: either refused or exactly a GUID"""
    t = sx.text("t", n, maxcp=0x7E, mincp=0x20)
    sx.check(P.uuid_from_guidstring(t) is None, "text too short to be a GUID is not one")
    sx.check(not P.is_guid_in_c_format(t) and not P.is_guid_in_reg_format(t), "text too short to be a GUID is not one")
    sx.check(P.reg_guid_from_c_format(t) == "" and P.c_guid_from_reg_format(t) == "", "text too short to be a GUID converts to nothing")
    sx.cover("junk")


def reg_mut(sx, i, c_too):
    """registry text with one arbitrary character: a GUID exactly if that character is right for its place"""
    base = "12345678-9abc-def0-1234-56789abcdef0"
    ch = sx.text("c", 1, maxcp=0x7F)
    t = sx.scat(base[:i], ch, base[i + 1 :])
    k = ord(ch)
    if base[i] == "-":
        good = k == 45
    else:
        good = sx.or_(sx.and_(k >= 48, k <= 57), sx.and_(k >= 65, k <= 70), sx.and_(k >= 97, k <= 102))
    sx.check(bool(P.is_guid_in_reg_format(t)) == good, "registry text is recognized exactly when every character fits")
    r = sx.attempt(P.uuid_from_guidstring, t)
    sx.check(r.ok and (r.value is not None) == good, "a uuid results exactly when every character fits")
    sx.check((P.c_guid_from_reg_format(t) != "") == good, "a C form results exactly when every character fits")
    sx.cover("junk")


def trailing(sx, form, n):
    """text after a GUID is not part of one"""
    b, f = fields(sx, "g")
    tail = sx.text("t", n, maxcp=0x7E, mincp=0x21, exclude="{};")
    t = sx.scat(cform(sx, f) if form == "c" else reg(sx, f), tail)
    r = sx.attempt(P.uuid_from_guidstring, t)
    sx.check(r.ok and r.value is None, "text with something after the GUID is not a GUID")
    if form == "c":
        sx.check(P.reg_guid_from_c_format(t) == "", "text with something after the GUID does not convert")
    else:
        sx.check(P.c_guid_from_reg_format(t) == "", "text with something after the GUID does not convert")
    sx.cover("refused")


for up in (0, 1):
    for pre, post in (("", ""), ("{", "}"), ("  { ", " }\n"), (" ", "\t")):
        suite.add(Case("reg-%d-%r" % (up, pre), reg_in, "every GUID", upper=bool(up), pre=pre, post=post))
VARIANTS = {
    "plain": {},
    "upper": dict(upper=True),
    "X": dict(x="0X"),
    "XU": dict(x="0X", upper=True),
    "tight": dict(sep=","),
    "wide": dict(sep=" ,  ", lead=" ", trail=" "),
    "edk2": dict(o="{ ", oo="{ ", c=" }}"),
    "edk2b": dict(o=" { ", oo=" { ", c=" } } "),
    "nl": dict(c="}}\n"),
}
for k, a in VARIANTS.items():
    suite.add(Case("c-" + k, c_in, "every GUID", **a))
    suite.add(Case("parse-" + k, parse_guid, "every GUID", **a))
suite.add(Case("c-tab", c_in, "every GUID", sep=",\t", lead="", trail="\t"))
SHORT = [[7, 3, 3] + [1] * 8, [1, 1, 1] + [1, 2] * 4, [8, 4, 4] + [2, 1] * 4, [5, 2, 4] + [2] * 8, [6, 3, 1] + [1] * 4 + [2] * 4]
for i, w in enumerate(SHORT):
    suite.add(Case("short-%d" % i, c_short, "every value of the numbers at the given digit counts", widths=w))
suite.add(Case("uuid", from_uuid, "every GUID"))
for d in (0, 3, 10):
    suite.add(Case("bad-drop%d" % d, parse_guid_bad, "every value", widths=FIELDS, x="0x", drop=d))
suite.add(Case("bad-long", parse_guid_bad, "every value with the top digit set", widths=[9] + FIELDS[1:], x="0x", drop=None))
suite.add(Case("bad-long-last", parse_guid_bad, "every value", widths=FIELDS[:10] + [3], x="0x", drop=None))
for nm, cl, kd in (("prot", D.ProtocolDeclarationEntry, 1), ("ppi", D.PpiDeclarationEntry, 2), ("guid", D.GuidDeclarationEntry, 3)):
    for fm in ("c", "reg"):
        suite.add(Case("dec-%s-%s" % (nm, fm), dec_entry, "every GUID, 3-character names", cls=cl, kind=kd, form=fm))
for i in (0, 7, 8, 9, 13, 18, 20, 23, 24, 35):
    suite.add(Case("mut-%d" % i, reg_mut, "every ASCII character at one place", i=i, c_too=False))
for n in (0, 1, 3, 5):
    suite.add(Case("junk-%d" % n, junk, "every printable ASCII text of this length", n=n, form=""))
for fm in ("c", "reg"):
    for n in (1, 2):
        suite.add(Case("tail-%s-%d" % (fm, n), trailing, "every GUID and printable tail", form=fm, n=n))
