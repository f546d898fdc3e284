"""P21 DEC files: every declaration is reported once, in order, in the list of its section, with its values as written."""

import edk2toollib.uefi.edk2.guid_list as L
import edk2toollib.uefi.edk2.parsers.dec_parser as D
from sx.case import Case, Suite

suite = Suite()
COVER = ["protocol", "ppi", "guid", "pcd", "struct", "library", "include", "define", "unknown", "comment", "refused", "guidlist", "file"]
ASSUMPTIONS = ["A parser object is used for one file; a definition line with more than one '=' is not a definition (documented)."]
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
FIELDS = [8, 4, 4, 2, 2, 2, 2, 2, 2, 2, 2]
KINDS = ["defines", "includes", "library", "guids", "protocols", "ppis", "pcd", "unknown"]
HEAD = {
    "defines": ["[Defines]", "[DEFINES]", "  [defines]"],
    "includes": ["[Includes]", "[Includes.common]", "[includes.X64.Private]"],
    "library": ["[LibraryClasses]", "[LibraryClasses.common]", "[libraryclasses.IA32, LibraryClasses.X64]"],
    "guids": ["[Guids]", "[Guids.common]", "[GUIDS]"],
    "protocols": ["[Protocols]", "[Protocols.X64]", "\t[protocols]"],
    "ppis": ["[Ppis]", "[PPIs.IA32]", "[ppis]"],
    "pcd": ["[PcdsFixedAtBuild]", "[PcdsFeatureFlag.common]", "[PcdsFixedAtBuild, PcdsDynamic, PcdsPatchableInModule]"],
    "unknown": ['[UserExtensions.TianoCore."ExtraFiles"]', "[Depex]", "[Other]"],
}


def cguid(sx, name):
    """a GUID of which one byte is arbitrary (P18 covers the text of GUIDs)"""
    h = sum(ord(c) * 7**i for i, c in enumerate(name))
    b = sx.cat(bytes((h * (i + 3) + i) % 256 for i in range(9)), sx.bytes(name, 1), bytes((h * i) % 256 for i in range(6)))
    parts, k = [], 0
    for i, w in enumerate(FIELDS):
        v = 0
        for _ in range(w // 2):
            v = v * 256 + b[k]
            k += 1
        parts += ["0x", sx.hexs(v, w)]
        if i == 2:
            parts.append(", {")
        elif i < 10:
            parts.append(", ")
    return b, sx.scat("{", *parts, "}}")


PCDS = [
    # default value, type, how the value is spelled
    ("TRUE", "BOOLEAN"), ("0x", "UINT32"), ('L"a b"', "VOID*"), ('"a | b"', "VOID*"), ("'it|s'", "VOID*"), ('"#"', "VOID*"), ("{0x1, 0x2}", "VOID*"),
    ('"a\'b"', "VOID*"), ("'\"|'", "VOID*"),
]


def entry(sx, kind, tag, n, style):
    """(lines, expectation)"""
    nm = sx.text("n" + tag, n, alphabet=NAME)
    ind = ["  ", "", "\t", "      "][style % 4]
    sp = [" ", "", "   "][style % 3]
    com = ["", "  # c | = [x]", " ## {", ""][style % 4]
    if kind == "defines":
        v = sx.text("v" + tag, n, alphabet=NAME + ".-")
        return [sx.scat(ind, nm, sp, "=", sp, v, com)], (nm, v)
    if kind == "includes":
        v = sx.text("v" + tag, n, alphabet=NAME)
        return [sx.scat(ind, nm, "/", v, com)], sx.scat(nm, "/", v)
    if kind == "library":
        v = sx.text("v" + tag, n, alphabet=NAME + "./-")
        return [sx.scat(ind, nm, sp, "|", sp, v, com)], (nm, v)
    if kind in ("guids", "protocols", "ppis"):
        b, t = cguid(sx, "g" + tag)
        return [sx.scat(ind, nm, sp, "=", sp, t, com)], (nm, b)
    if kind == "pcd":
        v = sx.text("v" + tag, n, alphabet=NAME)
        i = sx.u16("i" + tag)
        d, ty = PCDS[style % len(PCDS)]
        if d == "0x":
            d = sx.scat("0x", sx.hexs(sx.u8("d" + tag), 2))
        idt = sx.scat("0x", sx.hexs(i, 8))
        return [sx.scat(ind, nm, ".", v, sp, "|", sp, d, sp, "|", ty, sp, "|", sp, idt, com)], (nm, v, d, ty, idt)
    v = sx.text("v" + tag, n, alphabet=NAME)
    return [sx.scat(ind, nm, " = ", v)], None


LAB = {"defines": "define", "includes": "include", "library": "library", "guids": "guid", "protocols": "protocol", "ppis": "ppi", "pcd": "pcd", "unknown": "unknown"}


def emit(sx, lines):
    parts = []
    for t in lines:
        parts += [t, "\n"]
    return sx.scat(*parts)


def verify(sx, p, want, pkg):
    def names(kind):
        return [w for k, w in want if k == kind]

    for kind, got, ty in (("guids", p.Guids, 3), ("protocols", p.Protocols, 1), ("ppis", p.PPIs, 2)):
        w = names(kind)
        sx.check(len(got) == len(w), "every declaration is reported once, in its own list")
        for g, (nm, b) in zip(got, w):
            sx.check(sx.eq(g.name, nm), "a declaration keeps its name")
            sx.check(sx.eq(g.guid.bytes, b), "a declaration keeps its GUID")
            sx.check(g.type == ty, "a declaration is of the type of its section")
            sx.check(sx.eq(g.package_name, pkg), "a declaration belongs to its package")
    w = names("library")
    sx.check(len(p.LibraryClasses) == len(w), "every declaration is reported once, in its own list")
    for g, (nm, v) in zip(p.LibraryClasses, w):
        sx.check(sx.and_(sx.eq(g.name, nm), sx.eq(g.path, v), sx.eq(g.package_name, pkg)), "a library class keeps its name, header and package")
    w = names("pcd")
    sx.check(len(p.Pcds) == len(w), "every PCD is reported once")
    for g, (ts, nm, d, ty, i) in zip(p.Pcds, w):
        sx.check(sx.eq(g.token_space_name, ts), "a PCD keeps its token space")
        sx.check(sx.eq(g.name, nm), "a PCD keeps its name")
        sx.check(sx.eq(g.default_value, d), "a PCD keeps its default value")
        sx.check(sx.eq(g.type, ty), "a PCD keeps its type")
        sx.check(sx.eq(g.id, i), "a PCD keeps its token number")
        sx.check(sx.eq(g.package_name, pkg), "a declaration belongs to its package")
    w = names("includes")
    sx.check(sx.eq(p.IncludePaths, w), "the include paths are those declared, in order")
    d = {}
    for nm, v in names("defines"):
        d[nm] = v
    sx.check(sx.eq(p.Dict, d), "the definitions are those of the Defines section")
    sx.check(sx.eq(p.PackageName, pkg), "the package name is the one defined")
    sx.check(p.Parsed is True, "the file is parsed")


def doc(sx, nsec, per, first=None, sty=0, n=2, via="stream"):
    lines = ["[Defines]", "  PACKAGE_NAME = MyPkg", "PACKAGE_GUID = 57E8A49E-1B3F-41A0-A552-55AD831C15A8 # x"]
    want = [("defines", ("PACKAGE_NAME", "MyPkg")), ("defines", ("PACKAGE_GUID", "57E8A49E-1B3F-41A0-A552-55AD831C15A8"))]
    for s in range(nsec):
        kind = first if s == 0 and first else sx.pick("k%d" % s, KINDS)
        st = sty + 2 * s
        lines.append(sx.scat(HEAD[kind][st % 3], ["", " # more", ""][(st + s) % 3]))
        if st % 2:
            lines += ["", "  # comment = [Guids] | x", "   "]
            sx.cover("comment")
        for e in range(per):
            ls, w = entry(sx, kind, "%d_%d" % (s, e), n, st + e)
            lines += ls
            sx.cover(LAB[kind])
            if w is not None:
                want.append((kind, w))
    for i, (k, w) in enumerate(want):
        if k == "defines" and i > 1:
            sx.assume(sx.not_(sx.eq(w[0], "PACKAGE_NAME")))
    p = D.DecParser()
    text = emit(sx, lines)
    if via == "stream":
        p.ParseStream(sx.textstream(text))
    else:
        p.ParseFile(sx.write("My.dec", text))
        sx.cover("file")
    verify(sx, p, want, "MyPkg")


def structured(sx, n, form):
    """a structured PCD: its fields between { and } are not PCDs"""
    a, b, c = sx.text("a", n, alphabet=NAME), sx.text("b", n, alphabet=NAME), sx.text("c", n, alphabet=NAME)
    i = sx.u16("i")
    idt = sx.scat("0x", sx.hexs(i, 8))
    lines = ["[PcdsFixedAtBuild]"]
    want = []
    if form == "braces":
        lines += [sx.scat("  ", a, ".", b, "|{0x0}|MY_STRUCT|", idt, "|{"), "    <HeaderFiles>", sx.scat("      Include/", c, ".h"), "    <Packages>", sx.scat("      ", c, "/x.dec"), "  }"]
        want.append((a, b, "{0x0}", "MY_STRUCT", idt))
    elif form == "field":
        lines += [sx.scat("  ", a, ".", b, ".", c, "|", idt)]
        want.append((a, sx.scat(b, ".", c), idt, "STRUCTURED_PCD", "STRUCTURED_PCD"))
    lines += [sx.scat("  ", c, ".", a, "|1|UINT8|0x2"), "[Guids]"]
    want.append((c, a, "1", "UINT8", "0x2"))
    gb, t = cguid(sx, "g")
    lines += [sx.scat(b, "=", t)]
    p = D.DecParser()
    p.ParseStream(sx.textstream(emit(sx, lines)))
    verify(sx, p, [("pcd", w) for w in want] + [("guids", (b, gb))], None)
    sx.cover("struct")


def value(sx, n, q):
    """a quoted default value keeps every character"""
    v = sx.text("v", n, mincp=32, exclude=q + "\\", maxcp=126)
    d = sx.scat(q, v, q)
    pre = sx.pick("L", ["", "L"])
    t = D.PcdDeclarationEntry("p", sx.scat("gA.PcdB|", pre, d, "|VOID*|0x1"))
    sx.check(sx.and_(sx.eq(t.default_value, sx.scat(pre, d)), sx.eq(t.type, "VOID*"), sx.eq(t.id, "0x1"), sx.eq(t.name, "PcdB")), "a quoted default value is kept as written")
    p = D.DecParser()
    p.ParseStream(sx.textstream(sx.scat("[PcdsDynamic]\n gA.PcdB | ", pre, d, " | VOID* | 0x1 # end\n")))
    verify(sx, p, [("pcd", ("gA", "PcdB", sx.scat(pre, d), "VOID*", "0x1"))], None)


def refused(sx, form):
    a = sx.text("a", 2, alphabet=NAME)
    if form == "few":
        r = sx.attempt(D.PcdDeclarationEntry, "p", sx.scat("gA.", a, "|1|UINT8"))
    elif form == "many":
        r = sx.attempt(D.PcdDeclarationEntry, "p", sx.scat("gA.", a, "|1|UINT8|2|3"))
    elif form == "two":
        r = sx.attempt(D.PcdDeclarationEntry, "p", sx.scat("gA.", a, "|1"))
    elif form == "dots":
        r = sx.attempt(D.PcdDeclarationEntry, "p", sx.scat("gA.", a, "|", sx.pick("v", ["1.5", '"a.b"', "b.c", ".", "{0x1}.x"])))
    elif form == "one":
        r = sx.attempt(D.PcdDeclarationEntry, "p", sx.scat("gA.", a))
    elif form == "six":
        r = sx.attempt(D.PcdDeclarationEntry, "p", sx.scat("gA.", a, "|1|UINT8|2|{|4"))
    else:
        kind = sx.pick("k", ["[Guids]", "[Protocols]", "[Ppis]"])
        r = sx.attempt(D.DecParser().ParseStream, sx.textstream(sx.scat(kind, "\n", a, " = ", a, "\n")))
    sx.check(not r.ok, "a declaration without its parts is refused")
    sx.cover("refused")


def guidlist(sx, n):
    """the GUID list holds every GUID the file declares"""
    lines, want = ["[Defines]", "  PACKAGE_NAME = MyPkg", "  PACKAGE_GUID = 57e8a49e-1b3f-41a0-a552-55ad831c15a8"], []
    for s, k in enumerate(("guids", "protocols", "ppis")):
        lines.append(HEAD[k][sx.choice("h%d" % s, 2)])
        for e in range(n):
            ls, w = entry(sx, k, "%d_%d" % (s, e), 2, s + e)
            lines += ls
            want.append((k, w))
    order = {"protocols": 0, "ppis": 1, "guids": 2}
    want.sort(key=lambda w: order[w[0]])
    got = L.GuidList.parse_guids_from_dec(sx.textstream(emit(sx, lines)), "/x/My.dec")
    sx.check(len(got) == 3 * n + 1, "the list holds every declared GUID and the package's")
    for g, (k, (nm, b)) in zip(got, want):
        f, pos = [], 0
        for w in FIELDS:
            v = 0
            for _ in range(w // 2):
                v = v * 256 + b[pos]
                pos += 1
            f.append(sx.hexs(v, w, True))
        sx.check(sx.eq(g.guid, sx.scat(f[0], "-", f[1], "-", f[2], "-", f[3], f[4], "-", *f[5:])), "a listed GUID is the declared one in registry form")
        sx.check(sx.and_(sx.eq(g.name, nm), sx.eq(g.absfilepath, "/x/My.dec")), "a listed GUID has its name and file")
    sx.check(sx.and_(sx.eq(got[-1].name, "MyPkg"), sx.eq(got[-1].guid.lower(), "57e8a49e-1b3f-41a0-a552-55ad831c15a8")), "the package GUID is listed")
    sx.cover("guidlist")


for i, k in enumerate(KINDS):
    for sty in (0, 1, 2, 3):
        suite.add(Case("doc-%s-%d" % (k, sty), doc, "a %s section, then any section, two entries each" % k, nsec=2, per=2, first=k, sty=sty, n=1 + sty % 2))
    suite.add(Case("doc3-%s" % k, doc, "a %s section, then any two sections" % k, nsec=3, per=1, first=k, sty=i, n=2, via="file"), tier="quick" if i % 3 == 0 else "thorough")
for sty in range(4, 12):
    suite.add(Case("pcds-%d" % sty, doc, "a PCD section, then any section, three entries each", nsec=2, per=3, first="pcd", sty=sty, n=2))
for f in ("braces", "field"):
    suite.add(Case("struct-" + f, structured, "any names of 2 characters", n=2, form=f))
for q in ('"', "'"):
    for n in (0, 1, 2):
        suite.add(Case("value-%s-%d" % ("d" if q == '"' else "s", n), value, "any %d printable characters between %s" % (n, q), n=n, q=q))
    suite.add(Case("value-%s-3" % ("d" if q == '"' else "s"), value, "any 3 printable characters between %s" % q, n=3, q=q), tier="thorough")
for f in ("few", "many", "one", "two", "dots", "six", "guid"):
    suite.add(Case("refused-" + f, refused, "any name", form=f))
suite.add(Case("guidlist", guidlist, "two declarations of each kind", n=2))
