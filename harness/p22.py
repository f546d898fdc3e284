"""P22 INF files: every entry is reported in the list of its section, and libraries and sources per architecture are those of its sections."""

import edk2toollib.uefi.edk2.guid_list as L
import edk2toollib.uefi.edk2.parsers.inf_parser as I
from sx.case import Case, Suite

suite = Suite()
COVER = ["sources", "library", "arch", "define", "phases", "pipe", "unknown", "comment", "macro", "guidlist", "absent"]
ASSUMPTIONS = ["A parser object is used for one file; definition lines have exactly one '=' (documented)."]
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
KINDS = ["Packages", "LibraryClasses", "Protocols", "Ppis", "Guids", "Pcd", "Sources", "Binaries", "Depex", "BuildOptions"]
ARCHS = ["", ".common", ".IA32", ".X64", ".IA32 X64", ".x64 AARCH64"]


def header(kind, arch, style):
    k = kind
    if kind == "Pcd":
        k = ["Pcd", "FixedPcd", "PatchPcd", "FeaturePcd", "PcdEx"][style % 5]
    k = [k, k.upper(), k.lower()][style % 3]
    archs = arch.lstrip(".").split()
    if len(archs) == 2:
        return "[%s.%s,%s%s.%s]" % (k, archs[0], ["", " "][style % 2], k, archs[1])
    return "[" + k + arch + "]"


def scope(arch):
    a = [x.lower().split(".")[0] for x in arch.lstrip(".").split()]
    return a or ["common"]


def entry(sx, kind, tag, n, style, free=False):
    nm = sx.text("n" + tag, n, alphabet=NAME)
    if not free:
        nm = sx.scat("abcdefghij"[int(tag[0]) * 3 + int(tag[-1])], nm)
    ind = ["  ", "", "\t"][style % 3]
    sp = ["", " ", "  "][(style + 1) % 3]
    com = ["", " # a | b", " ## [x]"][style % 3]
    if kind == "Packages":
        nm = sx.scat(nm, "Pkg/", nm, ".dec")
    elif kind == "Sources":
        nm = sx.scat(nm, ["/x", "", "-1"][style % 3], [".c", ".S", ".h"][(style // 2) % 3])
    elif kind == "Pcd":
        nm = sx.scat("gX", nm, ".Pcd")
    elif kind == "Binaries":
        return sx.scat(ind, nm, sp, "|", sp, "x.efi", com), nm
    elif kind in ("Depex", "BuildOptions"):
        return sx.scat(ind, nm, sp, "=", sp, "AND", com), nm
    if style % 4 in (1, 3):
        sx.cover("pipe")
        return sx.scat(ind, nm, sp, "|", sp, "gY.PcdZ", com), nm
    return sx.scat(ind, nm, com), nm


def emit(sx, lines):
    parts = []
    for t in lines:
        parts += [t, "\n"]
    return sx.scat(*parts)


def inset(sx, x, xs):
    return sx.or_(False, *[sx.eq(x, y) for y in xs])


def sameset(sx, got, want):
    """the same distinct names, each once"""
    return sx.and_(
        *[inset(sx, g, want) for g in got],
        *[inset(sx, w, got) for w in want],
        *[sx.not_(sx.eq(got[i], got[j])) for i in range(len(got)) for j in range(i)],
    )


def verify(sx, p, want):
    """want: [(kind, arch, name)]"""
    lists = dict(Packages=p.PackagesUsed, LibraryClasses=p.LibrariesUsed, Protocols=p.ProtocolsUsed, Ppis=p.PpisUsed, Guids=p.GuidsUsed, Pcd=p.PcdsUsed, Sources=p.Sources, Binaries=p.Binaries)
    for kind, got in lists.items():
        sx.check(sx.eq(got, [w[2] for w in want if w[0] == kind]), "the entries of a section are reported in its list, in order")
    for f, kind in ((p.get_libraries, "LibraryClasses"), (p.get_sources, "Sources")):
        for archs in ([], ["IA32"], ["X64"], ["x64", "AARCH64"], ["EBC"], ["Common"]):
            act = ["common"] + [a.lower() for a in archs]
            sx.check(sameset(sx, f(archs), [w[2] for w in want if w[0] == kind and any(a in act for a in scope(w[1]))]), "an architecture has the entries of the common sections and of its own")
    sx.check(p.Parsed is True, "the file is parsed")


def doc(sx, nsec, per, first=None, sty=0, n=1, archs=None, free=False):
    lines = ["## @file", "[Defines]", "  INF_VERSION = 0x00010005", "BASE_NAME=Foo # x", ""]
    want = []
    for s in range(nsec):
        kind = first if s == 0 and first else sx.pick("k%d" % s, KINDS)
        arch = sx.pick("a%d" % s, archs or ARCHS) if kind in ("Sources", "LibraryClasses") else ARCHS[(sty + s) % len(ARCHS)]
        if arch not in ("", ".common"):
            sx.cover("arch")
        lines.append(sx.scat(["", "  "][(sty + s) % 2], header(kind, arch, sty + s), ["", " # [Sources]"][(sty // 2 + s) % 2]))
        for e in range(per):
            t, nm = entry(sx, kind, "%d_%d" % (s, e), n, sty + e, free)
            lines.append(t)
            if e == 0 and sty % 2:
                lines += ["", "  # [Sources.IA32]", " \t"]
                sx.cover("comment")
            if kind not in ("Depex", "BuildOptions"):
                want.append((kind, arch, nm))
            else:
                sx.cover("unknown")
            sx.cover({"Sources": "sources", "LibraryClasses": "library"}.get(kind, "sources"))
    p = I.InfParser()
    p.ParseFile(sx.write("Foo.inf", emit(sx, lines)))
    verify(sx, p, want)
    sx.check(sx.eq(p.Dict, {"INF_VERSION": "0x00010005", "BASE_NAME": "Foo"}), "the definitions are those of the Defines section")


def files(sx, kind, pre, mid, post):
    """names that look like something else"""
    a, b = sx.text("a", 1, alphabet=NAME), sx.text("b", 1, alphabet=NAME)
    nm = sx.scat(pre, a, mid, b, post)
    p = I.InfParser()
    p.ParseFile(sx.write("Foo.inf", emit(sx, ["[Sources.X64]", sx.scat("  ", nm) if kind == "Sources" else "  z.c", "  y.c", "[LibraryClasses.X64]", sx.scat("  ", nm) if kind != "Sources" else "  Z", "  Y"])))
    want = [("Sources", ".X64", nm if kind == "Sources" else "z.c"), ("Sources", ".X64", "y.c"), ("LibraryClasses", ".X64", nm if kind != "Sources" else "Z"), ("LibraryClasses", ".X64", "Y")]
    verify(sx, p, want)


def defines(sx, form, n):
    nm = sx.text("n", n, alphabet=NAME)
    v = sx.text("v", n, alphabet=NAME + "./-")
    lines = ["[Defines]", sx.scat("  K", nm, "  =  ", v, "   # c")]
    want = {}
    want[sx.scat("K", nm)] = v
    phases, lib = [], ""
    if form == "all":
        lines.append(sx.scat(" LIBRARY_CLASS = L", nm))
        lib, phases, text = sx.scat("L", nm), I.AllPhases, sx.scat("L", nm)
    elif form == "base":
        b = sx.text("b", 4, alphabet="BASEbase")
        sx.assume(sx.eq(b.upper(), "BASE"))
        lines.append(sx.scat(" LIBRARY_CLASS = L", nm, " | ", b))
        lib, phases, text = sx.scat("L", nm), I.AllPhases, sx.scat("L", nm, " | ", b)
    elif form == "some":
        w = sx.text("w", 2, alphabet="ABC_")
        lines.append(sx.scat("library_class = L", nm, "|DXE_", w, "  PEIM"))
        lib, phases, text = sx.scat("L", nm), [sx.scat("DXE_", w), "PEIM"], sx.scat("L", nm, "|DXE_", w, "  PEIM")
    if form != "none":
        want["library_class" if form == "some" else "LIBRARY_CLASS"] = text
    lines += ["[Packages]", "x.dec", "MODULE_TYPE = BASE"]
    p = I.InfParser()
    p.ParseFile(sx.write("Foo.inf", emit(sx, lines)))
    sx.check(sx.eq(p.Dict, want), "the definitions are those of the Defines section")
    sx.check(sx.eq(p.LibraryClass, lib), "the library class is the one defined")
    sx.check(sx.eq(list(p.SupportedPhases), list(phases)), "the phases are those listed, or all of them")
    sx.cover("phases")
    sx.cover("define")


def macro(sx, n, form):
    """a DEFINE is replaced by its value in every later line"""
    nm = sx.text("n", n, alphabet="ABCDEFGHIJKLMNOPQRSTUVWXYZ_")
    if form == "later":
        nm = sx.scat("MY_DEFINE", nm)
    v = sx.text("v", 2, alphabet=NAME + "/.-")
    w = sx.text("w", 2, alphabet=NAME)
    if form == "value":
        v = sx.scat(v, "DEFINE")
    if form == "equals":
        v = sx.scat(v, "=", v, "=")
    lines = ["[Defines]", sx.scat("  DEFINE ", nm, " = ", v), "[Sources]", sx.scat("  $(", nm, ")/", w, ".c"), sx.scat("  x$(", nm, ")y.c # $(z)"), "[LibraryClasses.IA32]", sx.scat("  $(", nm, ")")]
    want = [("Sources", "", sx.scat(v, "/", w, ".c")), ("Sources", "", sx.scat("x", v, "y.c")), ("LibraryClasses", ".IA32", v)]
    if form == "redefine":
        lines += ["[Sources.IA32]", sx.scat("  DEFINE ", nm, "=new"), sx.scat("  $(", nm, ")z.c")]
        want.append(("Sources", ".IA32", "newz.c"))
    p = I.InfParser()
    p.ParseFile(sx.write("Foo.inf", emit(sx, lines)))
    verify(sx, p, want)
    sx.cover("macro")


def guidlist(sx, form):
    nm = sx.text("n", 2, alphabet=NAME)
    g = sx.text("g", 4, alphabet="0123456789abcdefABCDEF")
    lines = ["[Defines]"]
    if form != "noname":
        lines.append(sx.scat("BASE_NAME = ", nm))
    if form != "noguid":
        lines.append(sx.scat("FILE_GUID = ", g, "f4ce-1b3f-41a0-a552-55ad831c15a8"))
    got = L.GuidList.parse_guids_from_inf(sx.write("Foo.inf", emit(sx, lines)))
    if form == "ok":
        sx.check(len(got) == 1, "a module's GUID is listed once")
        sx.check(sx.eq(got[0].name, nm), "a module is listed by its base name")
        sx.check(sx.eq(got[0].guid.upper(), sx.scat(g.upper(), "F4CE-1B3F-41A0-A552-55AD831C15A8")), "a module is listed with its GUID")
        sx.cover("guidlist")
    else:
        sx.check(len(got) == 0, "a module without name or GUID is not listed")
        sx.cover("absent")


for i, k in enumerate(KINDS):
    for sty in (0, 1, 2, 3):
        suite.add(Case("doc-%s-%d" % (k, sty), doc, "a %s section, then any section, two entries each" % k, nsec=2, per=2, first=k, sty=sty, n=1, archs=["", ".IA32 X64"]), tier="quick" if (i + sty) % 2 == 0 else "thorough")
for k in ("Sources", "LibraryClasses"):
    for sty in range(6):
        suite.add(Case("arch-%s-%d" % (k, sty), doc, "a %s section for any architectures, then any section, two entries each" % k, nsec=2, per=2, first=k, sty=sty, n=1))
    if k == "LibraryClasses":
        for sty in (0, 1):
            suite.add(Case("phase-%d" % sty, doc, "LibraryClasses sections for an architecture and module type", nsec=2, per=1, first=k, sty=sty, n=1, archs=[".IA32.PEIM", ".X64.DXE_CORE IA32", ".common.SEC X64.SEC"]))
    suite.add(Case("three-%s" % k, doc, "a %s section, then any two sections" % k, nsec=3, per=1, first=k, sty=1, n=1, archs=["", ".X64", ".IA32 X64"]), tier="thorough")
    suite.add(Case("dup-%s" % k, doc, "two %s sections whose names can be the same" % k, nsec=2, per=1, first=k, sty=0, n=1, free=True), tier="quick")
for kind, pre, mid, post in (
    ("Sources", "Sources.", "", ".c"), ("Sources", "My", "Resources.", ".c"), ("Sources", "", "Sources", ",v.c"), ("Sources", "LibraryClasses.", ".", "c"), ("Sources", "DEFINE", "", ".c"), ("Sources", "dir ", "/", ".c") if 0 else ("Sources", "dir/", "/", ".c"),
    ("LibraryClasses", "Sources", "", "Lib"), ("LibraryClasses", "LibraryClasses", "", ""), ("LibraryClasses", "DEFINE", "", "Lib"),
):
    suite.add(Case("name-%s-%s%s%s" % (kind[:3], pre, mid, post.strip(".")), files, "any two characters in such a name", kind=kind, pre=pre, mid=mid, post=post))
for f in ("none", "all", "base", "some"):
    for n in (1, 3):
        suite.add(Case("def-%s-%d" % (f, n), defines, "any name and value of %d characters" % n, form=f, n=n))
for f in ("one", "later", "value", "equals", "redefine"):
    suite.add(Case("macro-" + f, macro, "any name of 2 characters and value of 2", n=2, form=f))
for f in ("ok", "noname", "noguid"):
    suite.add(Case("guidlist-" + f, guidlist, "any name and GUID digits", form=f))
