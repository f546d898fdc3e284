"""P23 DSC files: modules, libraries, overrides, PCDs and definitions are exactly those of the active lines, per scope."""

import edk2toollib.uefi.edk2.parsers.dsc_parser as D
from sx.case import Case, Suite

suite = Suite()
COVER = ["lib", "scope", "again", "component", "override", "null", "common", "pcd", "conditional", "include", "define", "nofail", "pcdcond", "prefix"]
ASSUMPTIONS = [
    "Paths are found by a stand-in for FindPath except in the include cases, which use real scratch files.",
    "A macro is defined once; where one is redefined the parser is documented to be an approximation.",
]
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def emit(sx, lines):
    parts = []
    for t in lines:
        parts += [t, "\n"]
    return sx.scat(*parts)


def parse(sx, lines, inp=None, nofail=False):
    p = D.DscParser()
    f = sx.write("Foo.dsc", emit(sx, lines))
    p.FindPath = lambda *a: f if a[0] == "Foo.dsc" else ("found", a[0])
    if inp:
        p.SetInputVars(inp)
    if nofail:
        p.SetNoFailMode()
    p.ParseFile("Foo.dsc")
    return p


def nm(sx, tag, n, free=False, alphabet=NAME):
    t = sx.text("n" + tag, n, alphabet=alphabet)
    return t if free else sx.scat("abcdefghijklmnop"[sum(int(c) * 4**i for i, c in enumerate(tag.split("_"))) % 16], t)


SCOPES = ["", ".common", ".X64", ".IA32.PEIM", ".common.DXE_DRIVER", ".X64,LibraryClasses.IA32", ".common.PEIM, LibraryClasses.common.PEI_CORE"]


def scopes(s, word):
    out = []
    for x in ("[" + word + s + "]").strip("[]").split(","):
        x = x.strip()[len(word):].lstrip(".")
        out.append(x.lower() or "common")
    return out


def libs(sx, nsec, per, sc, sty=0, free=False, upper=False):
    lines, scoped, raw, classes = ["[Defines]", " SUPPORTED_ARCHITECTURES = IA32|X64"], [], [], []
    for s in range(nsec):
        scp = sc[s % len(sc)] if isinstance(sc, (list, tuple)) and sc is not SCOPES else sx.pick("s%d" % s, sc)
        word = "LibraryClasses"
        lines.append(sx.scat([" ", ""][(s + sty) % 2], ("[" + word + scp + "]").upper() if upper else "[" + word + scp + "]", ["", "  # [Components]"][(s + sty) % 2]))
        for e in range(per):
            tag = "%d_%d" % (s, e)
            c = nm(sx, "c" + tag if False else tag, 1, free, "abAB" if free else NAME)
            v = sx.scat("P/", sx.text("v" + tag, 1, alphabet="xyz" if free else NAME), ".inf")
            sp = ["", " ", "  "][(sty + e) % 3]
            lines.append(sx.scat("  " if e % 2 == 0 else "\t", c, sp, "|", sp, v, ["", " # x|y.inf"][(sty + e) % 2]))
            raw.append(v)
            classes.append((c, v))
            for x in scopes(scp, word):
                scoped.append((sx.scat(x, ".", c).lower(), v))
        if (s + sty) % 2:
            lines += ["", "# comment | a.inf"]
    lines += ["[Other]", "  X|P/q.inf"]
    p = parse(sx, lines)
    sx.check(sx.eq(p.Libs, raw), "the libraries are those listed, in order")
    want = []  # (key, [values]) latest first
    for k, v in scoped:
        for w in want:
            if w[0] == k:
                for i in range(len(w[1])):
                    if w[1][i] == v:
                        del w[1][i]
                        sx.cover("again")
                        break
                w[1].insert(0, v)
                break
        else:
            want.append((k, [v]))
    sx.check(len(p.ScopedLibraryDict) == len(want), "there is one list per library class and scope")
    for k, vs in want:
        sx.check(k in p.ScopedLibraryDict and sx.eq(p.ScopedLibraryDict[k], vs), "a class in a scope has every instance listed for it, the last one first")
    by = []
    for c, v in classes:
        for w in by:
            if w[0] == c:
                w[1].append(("found", v))
                break
        else:
            by.append((c, [("found", v)]))
    sx.check(len(p.LibraryClassToInstanceDict) == len(by), "there is one list per library class")
    for c, vs in by:
        got = p.LibraryClassToInstanceDict[c]
        sx.check(len(got) == len(vs) and sx.and_(*[sx.eq(a[1], b[1]) for a, b in zip(got, vs)]), "a library class has the files of its instances")
    sx.cover("lib")
    sx.cover("scope")


CSC = ["", ".common", ".IA32", ".X64", ".x64", ".AARCH64"]


def comps(sx, nsec, per, sty=0, over=None, first=None):
    lines, want, six, three, other, raw = ["[Defines]", " SUPPORTED_ARCHITECTURES = IA32|X64"], [], [], [], [], []
    where = []
    for s in range(nsec):
        scp = first if s == 0 and first is not None else sx.pick("s%d" % s, CSC)
        lines.append(sx.scat(["[Components", "[components", "[COMPONENTS"][(s + sty) % 3], scp, "]", ["", "  # x"][(s + sty) % 2]))
        for e in range(per):
            tag = "%d_%d" % (s, e)
            f = sx.scat("P/", nm(sx, tag, 1), ".inf")
            kind = over[(s * per + e) % len(over)]
            d = {"NULL": []}
            mod = sx.scat("  ", f, [" ", ""][(sty + e) % 2] if kind else "", "{" if kind else "", ["", " # c {"][(sty + e) % 2])
            lines.append(mod)
            ln = len(lines)
            if kind:
                sx.cover("override")
                lib = sx.text("l" + tag, 1, alphabet="abAB")
                inst = sx.scat("P/", sx.text("i" + tag, 1, alphabet=NAME), ".inf")
                if "p" in kind:
                    lines += ["    <PcdsFixedAtBuild>", sx.scat("      gATokenSpaceGuid.Pcd", lib, "|", "TRUE")]
                if "b" in kind:
                    lines += ["    <BuildOptions>", "      *_*_*_CC_FLAGS = -DX={1}"]
                if "l" in kind:
                    lines += [["    <LibraryClasses>", "  <libraryclasses> # x"][sty % 2], sx.scat("      L", lib, [" | ", "|"][sty % 2], inst, ["", " # y"][sty % 2])]
                    d[sx.scat("L", lib).lower()] = inst
                    raw.append(inst)
                if "n" in kind:
                    sx.cover("null")
                    lines += [] if "l" in kind else ["    <LibraryClasses>"]
                    lines += [sx.scat("      NULL|", inst), "    null|P/z.inf"]
                    d["NULL"] = [inst, "P/z.inf"]
                    raw += [inst, "P/z.inf"]
                if "q" in kind:
                    lines += ["    <Defines>", "      FILE_GUID = 1|2"]
                lines.append(["  }", "}"][e % 2])
            arch = scp.lstrip(".")
            if arch.lower() in ("", "common"):
                sx.cover("common")
                want += [(f, "IA32", d), (f, "X64", d)]
                other.append(f)
            else:
                want.append((f, arch.lower(), d))
                (six if arch.upper() == "X64" else three if arch == "IA32" else other).append(f)
            where.append((arch.upper(), ln, f))
    lines += ["[BuildOptions]", "  GCC:*_*_*_CC_FLAGS = P/q.inf"]
    p = parse(sx, lines)
    sx.check(sx.eq(p.SixMods, six) and sx.eq(p.ThreeMods, three) and sx.eq(p.OtherMods, other), "every module is listed once, for its architecture, in order")
    sx.check(sx.eq(p.GetMods(), three + six + other), "the modules are those of all architectures")
    sx.check(sx.eq(p.Libs, raw), "the libraries are those of the overrides, in order")
    sx.check(len(p.Components) == len(want), "every component is reported once per architecture")
    for g, w in zip(p.Components, want):
        sx.check(sx.eq(g[0], w[0]), "a component keeps its path")
        sx.check(sx.eq(g[1], w[1]), "a component belongs to its section's architecture, or to all supported ones")
        sx.check(sx.eq(g[2], w[2]), "a component has the library overrides of its own block")
    for attr, a in ((p.SixModsEnhanced, "X64"), (p.ThreeModsEnhanced, "IA32")):
        mine = [w for w in where if w[0] == a]
        sx.check(len(attr) == len(mine) and sx.and_(*[sx.and_(g["lineno"] == w[1], sx.eq(g["data"], w[2])) for g, w in zip(attr, mine)]), "a module is reported with the line it is on")
    sx.cover("component")


def pcds(sx, n, sty, cond):
    """the PCDs of active lines, each once"""
    lines, want = ["[Defines]", " SUPPORTED_ARCHITECTURES = X64"], []
    v = sx.int("v", 0, 9)
    lines.append(["[PcdsFixedAtBuild]", "[PcdsFeatureFlag.common]", "[PcdsDynamicDefault.common.DEFAULT]", "[PcdsPatchableInModule.X64, PcdsPatchableInModule.IA32]"][sty % 4])
    if cond:
        lines.append("!if $(V) == 3")
    for i in range(n):
        t = sx.scat("gTokenSpaceGuid.Pcd", "AB"[i % 2], sx.text("n%d" % i, 1, alphabet=NAME))
        val = sx.text("v%d" % i, 1, alphabet=NAME)
        lines.append(sx.scat("  ", t, [" | ", "|"][(i + sty) % 2], val, ["", "|UINT8", " # x|y"][(i + sty) % 3]))
        if not cond or v == 3:
            want.append((t, sx.scat(val, ["", "|UINT8", ""][(i + sty) % 3])))
    if cond:
        lines.append("!endif")
        sx.cover("conditional")
    p = parse(sx, lines, {"V": v})
    sx.check(sx.eq(p.Pcds, [w[0] for w in want]), "the PCDs are those of the active lines, each once")
    d = {}
    for t, x in want:
        d[t] = x
    sx.check(sx.eq(p.PcdValueDict, d), "a PCD has the value set for it")
    sx.cover("pcd")


def conditional(sx, where, form):
    """lines count exactly when the condition holds"""
    a = sx.int("a", 0, 12)
    x = sx.text("x", 1, alphabet=NAME)
    lines = ["[Defines]", " SUPPORTED_ARCHITECTURES = X64", " DEFINE K = 7"]
    body = {"lib": ["[LibraryClasses]"], "comp": ["[Components]"], "def": [], "over": ["[Components]", "  P/m.inf {", "  <LibraryClasses>"]}[where]
    one, two = [{"lib": sx.scat(" C|P/", x, t, ".inf"), "comp": sx.scat(" P/", x, t, ".inf"), "def": sx.scat(" D", " = ", x, t), "over": sx.scat(" C|P/", x, t, ".inf")}[where] for t in "12"]
    if form == "else":
        lines += body + ["!if $(A) == $(K)", one, "!else # x", two, "!endif"]
        sel = [a == 7, sx.not_(a == 7)]
    elif form == "elseif":
        lines += body + ["!if $(A) > $(K)", one, "!elseif $(A) < 3", two, "!endif"]
        sel = [a > 7, a < 3]
    elif form == "nested":
        lines += body + ["!if $(A) > 2", "!if $(A) < 7", one, "!endif", two, "!endif"]
        sel = [sx.and_(a > 2, a < 7), a > 2]
    elif form == "section":
        lines += ["!if $(A) == 7"] + body + [one, "!endif"] + (["[Defines]"] if where == "def" else []) + ["!if $(A) != 7"] + body + [two, "!endif"]
        sel = [a == 7, a != 7]
    else:
        lines += ["[Defines]", "!ifdef $(A)", "  DEFINE W = 1", "!endif", "!ifndef Q"] + body + ["!if $(W) == 1 AND $(A) < 7", one, "!endif", two, "!endif"]
        sel = [a < 7, True]
    if where == "over":
        lines += ["  }"]
        if form == "section":
            return
    p = parse(sx, lines, {"A": a})
    got = [i for i in (0, 1) if sel[i]]
    val = [sx.scat(x, "12"[i]) for i in got]
    if where == "lib":
        sx.check(sx.eq(p.Libs, [sx.scat("P/", t, ".inf") for t in val]), "a library counts exactly when its line is active")
        w = [sx.scat("P/", t, ".inf") for t in reversed(val)]
        sx.check(sx.eq(p.ScopedLibraryDict, {"common.c": w} if w else {}), "a library counts exactly when its line is active")
    elif where == "comp":
        sx.check(sx.eq([c[0] for c in p.Components], [sx.scat("P/", t, ".inf") for t in val]), "a component counts exactly when its line is active")
        sx.check(sx.eq(p.OtherMods, [sx.scat("P/", t, ".inf") for t in val]), "a component counts exactly when its line is active")
    elif where == "over":
        d = p.Components[0][2]
        sx.check(len(p.Components) == 1, "a component counts exactly when its line is active")
        sx.check(sx.eq(d, {"NULL": [], "c": sx.scat("P/", val[-1], ".inf")} if val else {"NULL": []}), "an override counts exactly when its line is active")
    else:
        sx.check(sx.eq(p.LocalVars.get("D"), val[-1]) if val else "D" not in p.LocalVars, "a definition counts exactly when its line is active")
    sx.cover("conditional")


def pcdcond(sx, form):
    """a PCD in a condition stands for its value"""
    x, y = sx.int("x", 0, 9), sx.int("y", 0, 9)
    n = sx.text("n", 1, alphabet=NAME)
    if form == "prefix":
        second = sx.scat("gATokenSpaceGuid.PcdOne", n)
        sx.cover("prefix")
    else:
        second = sx.scat("gATokenSpaceGuid.PcdTwo", n)
    lines = [
        "[Defines]", " SUPPORTED_ARCHITECTURES = X64", "[PcdsFixedAtBuild]", sx.scat("  gATokenSpaceGuid.PcdOne|", sx.decimal(x)), sx.scat("  ", second, "|", sx.decimal(y)), "[LibraryClasses]",
        sx.scat("!if gATokenSpaceGuid.PcdOne == 3 AND ", second, " < 5"), "  C|P/a.inf", "!endif",
        sx.scat("!if (", second, "==3)||(gATokenSpaceGuid.PcdOne>5)"), "  C|P/b.inf", "!endif",
    ]
    p = parse(sx, lines)
    a, b = sx.and_(x == 3, y < 5), sx.or_(y == 3, x > 5)
    w = (["P/a.inf"] if a else []) + (["P/b.inf"] if b else [])
    sx.check(sx.eq(p.Libs, w), "a PCD in a condition stands for its value")
    sx.cover("pcdcond")


def defines(sx, form, n):
    k = sx.scat("K", sx.text("k", n, alphabet=NAME))
    v = sx.text("v", n, alphabet=NAME + "/.-:")
    sx.assume(v[0] != "/")
    head = {"plain": "  ", "define": "  DEFINE ", "edk": " EDK_GLOBAL   "}[form.split("-")[0]]
    lines = ["[Defines]", sx.scat(head, k, "  =  ", v, "   # x = y"), sx.scat(" DEFINE USE = a/$(", k, ")/b=c"), " EMPTY =", " SUPPORTED_ARCHITECTURES = X64", "[Components]", sx.scat(" P/$(", k, ").inf"), " $(USE)/$(UNKNOWN).inf", "[LibraryClasses]", sx.scat(" $(USE)|$(", k, ").inf")]
    p = parse(sx, lines)
    use = sx.scat("a/", v, "/b=c")
    sx.check(sx.eq(p.LocalVars, {k: v, "USE": use, "EMPTY": "", "SUPPORTED_ARCHITECTURES": "X64"}), "a definition has the value written, with macros replaced")
    sx.check(sx.eq([c[0] for c in p.Components], [sx.scat("P/", v, ".inf"), sx.scat(use, "/$(UNKNOWN).inf")]), "macros are replaced in components")
    sx.check(sx.eq(p.Libs, [sx.scat(v, ".inf")]), "macros are replaced in libraries")
    sx.cover("define")


def noequal(sx, n):
    """a line that defines nothing changes nothing"""
    t = sx.scat("w", sx.text("t", n, alphabet=NAME + " "))
    lines = ["[Defines]", " A = 1", sx.scat("  ", t), " SUPPORTED_ARCHITECTURES = X64", "[BuildOptions]", sx.scat("  ", t), "[Components]", " P/x.inf"]
    p = parse(sx, lines)
    sx.check(sx.eq(p.LocalVars, {"A": "1", "SUPPORTED_ARCHITECTURES": "X64"}), "a line that defines nothing changes nothing")
    sx.check(sx.eq([c[0] for c in p.Components], ["P/x.inf"]), "a line that defines nothing changes nothing")


class Path:
    def GetAbsolutePathOnThisSystemFromEdk2RelativePath(self, p, log_errors=True):
        return None


def include(sx, layout):
    """lines of an included file count where the include is; files are looked up next to the file that includes them"""
    a, b = sx.text("a", 1, alphabet=NAME), sx.text("b", 1, alphabet=NAME)
    f1, f2, i1, i2 = {
        "same": ("a/one.inc", "a/two.inc", "one.inc", "two.inc"),
        "sub": ("a/s/one.inc", "a/s/two.inc", "s/one.inc", "s/two.inc"),
        "subsame": ("a/s/one.inc", "a/two.inc", "s/one.inc", "two.inc"),
        "up": ("one.inc", "a/two.inc", "../one.inc", "two.inc"),
        "nested": ("a/s/one.inc", "a/s/t/two.inc", "s/one.inc", "t/two.inc"),
        "nested-sibling": ("a/s/one.inc", "a/t/two.inc", "s/one.inc", "../t/two.inc"),
    }[layout]
    nested = layout.startswith("nested")
    root = ["[Defines]", " SUPPORTED_ARCHITECTURES = X64", " DEFINE INC = " + i1, "[LibraryClasses.X64]", " A|P/r.inf", ["!include $(INC)", "!INCLUDE " + i1 + " # x"][len(layout) % 2]]
    one = [sx.scat(" B|P/", a, ".inf"), "[LibraryClasses]"]
    two = [sx.scat(" C|P/", b, ".inf"), "[Defines]", sx.scat("  TWO = ", b)]
    if nested:
        one.append("!include " + i2)
    else:
        root += ["!if $(NO) == 1", "!include missing.inc", "!endif", "!include " + i2]
    root += ["[LibraryClasses.IA32]", " D|P/s.inf"]
    f = sx.write("a/Foo.dsc", emit(sx, root))
    p1, p2 = sx.write(f1, emit(sx, one)), sx.write(f2, emit(sx, two))
    p = D.DscParser()
    p.SetInputVars({"NO": "0"})
    p.RootPath = sx.tmp() + "/elsewhere"
    find = p.FindPath
    p.FindPath = lambda *x: ("found", x[0]) if x[0][:2] == "P/" else find(*x)
    p.ParseFile(f)
    sx.check(sx.eq(p.Libs, ["P/r.inf", sx.scat("P/", a, ".inf"), sx.scat("P/", b, ".inf"), "P/s.inf"]), "the lines of an included file count where it is included")
    sx.check(sx.eq(p.ScopedLibraryDict, {"x64.a": ["P/r.inf"], "x64.b": [sx.scat("P/", a, ".inf")], "common.c": [sx.scat("P/", b, ".inf")], "ia32.d": ["P/s.inf"]}), "an included line has the scope of the section it is in")
    sx.check(sx.eq(p.LocalVars["TWO"], b), "definitions of an included file count")
    sx.check(p.GetAllDscPaths() == {f, p1, p2}, "the files that make up the DSC are reported")
    sx.cover("include")


def nofail(sx, form):
    a = sx.text("a", 1, alphabet=NAME)
    bad = {"include": "!include none.inc", "cond": "!if AND", "endif": "!endif"}[form]
    lines = ["[Defines]", " SUPPORTED_ARCHITECTURES = X64", "[LibraryClasses]", sx.scat(" A|P/", a, ".inf"), bad, " B|P/b.inf"]
    f = sx.write("Foo.dsc", emit(sx, lines))

    def go(soft):
        p = D.DscParser()
        find = p.FindPath
        p.FindPath = lambda *x: ("found", x[0]) if x[0][:2] == "P/" else find(*x)
        p.RootPath = sx.tmp()
        if soft:
            p.SetNoFailMode()
        p.ParseFile(f)
        return p

    sx.check(not sx.attempt(go, False).ok, "a line that cannot be read is refused")
    r = sx.attempt(go, True)
    sx.check(r.ok, "in no-fail mode a line that cannot be read is skipped")
    if form == "include":
        sx.check(sx.eq(r.value.Libs, [sx.scat("P/", a, ".inf"), "P/b.inf"]), "in no-fail mode a line that cannot be read is skipped")
    sx.cover("nofail")


for i, s in enumerate(SCOPES):
    suite.add(Case("libs-%d" % i, libs, "a library section of scope %r, then one of any scope, two entries each" % s, nsec=1, per=3, sc=(s,), sty=i))
    suite.add(Case("libs2-%d" % i, libs, "two library sections, any names", nsec=2, per=2, sc=(s, SCOPES[(i * 3 + 1) % 7]), sty=i + 1, upper=i % 2 == 1))
for i, s in enumerate([("",), ("", ".common"), (".X64", ""), (".X64,LibraryClasses.IA32", ".IA32"), (".common.PEIM", ".common.PEIM")]):
    suite.add(Case("again-%d" % i, libs, "library sections whose classes and instances may repeat", nsec=len(s), per=2 if len(s) == 1 else 1, sc=s, sty=i, free=True))
suite.add(Case("again3", libs, "three entries whose classes and instances may repeat", nsec=1, per=3, sc=("",), sty=0, free=True))
suite.add(Case("libs-any", libs, "any three sections", nsec=3, per=1, sc=SCOPES, sty=0))
for i, o in enumerate([("",), ("l",), ("n", ""), ("pl",), ("bl", "n"), ("lb", "qn"), ("ln", "l"), ("p", "b"), ("lp", "")]):
    for sty in (0, 1):
        suite.add(Case("comps-%s-%d" % ("+".join(o), sty), comps, "any two component sections of two components with overrides %s" % (o,), nsec=2, per=2 if len(o) > 1 else 1, sty=sty + i, over=o, first=CSC[(i + 3 * sty) % 6]))
suite.add(Case("comps-three", comps, "any three component sections", nsec=3, per=1, sty=0, over=("", "l", "n")))
for sty in range(4):
    for cond in (False, True):
        suite.add(Case("pcds-%d-%s" % (sty, "c" if cond else "u"), pcds, "any PCD names and values", n=3, sty=sty, cond=cond))
for w in ("lib", "comp", "def", "over"):
    for f in ("else", "elseif", "nested", "section", "ifdef"):
        if (w, f) == ("over", "section") or (w, f) == ("over", "ifdef"):
            continue
        suite.add(Case("cond-%s-%s" % (w, f), conditional, "any value 0-12", where=w, form=f))
for f in ("two", "prefix"):
    suite.add(Case("pcdcond-" + f, pcdcond, "any values 0-9 and any last letter", form=f))
for f in ("plain", "define", "edk"):
    for n in (1, 3):
        suite.add(Case("defines-%s-%d" % (f, n), defines, "any name and value of %d characters" % n, form=f, n=n))
for n in (1, 4):
    suite.add(Case("noequal-%d" % n, noequal, "any text of %d characters" % n, n=n))
for l in ("same", "sub", "subsame", "up", "nested", "nested-sibling"):
    suite.add(Case("include-" + l, include, "any names in the included files", layout=l))
for f in ("include", "cond", "endif"):
    suite.add(Case("nofail-" + f, nofail, "any name", form=f))
