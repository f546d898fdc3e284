"""P24 FDF files: the definitions, INFs and files of every FV are exactly those of its active lines."""

import edk2toollib.uefi.edk2.parsers.fdf_parser as F
from sx.case import Case, Suite

suite = Suite()
COVER = ["inf", "file", "define", "local", "conditional", "include", "skipped", "fd", "other"]
ASSUMPTIONS = [
    "An FV or FD header names one FV or FD, and a FILE name occurs once in an FV, as the FDF specification has it.",
    "The opening brace of a FILE is on its line, its content on later lines; !include is used outside FILE blocks.",
]
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def emit(sx, lines):
    parts = []
    for t in lines:
        parts += [t, "\n"]
    return sx.scat(*parts)


def parse(sx, lines, inp=None):
    p = F.FdfParser()
    f = sx.write("Foo.fdf", emit(sx, lines))
    p.FindPath = lambda *a: f if a[0] == "Foo.fdf" else None
    if inp:
        p.SetInputVars(inp)
    p.ParseFile("Foo.fdf")
    return p


def fvs(sx, shape, sty):
    """shape: per FV a string of i (INF), f (FILE), e (empty FILE), n (FILE with nested sections), g (guided), o (other lines)"""
    lines, want = ["# FDF", "[Defines]", "  DEFINE T = x"], {}
    for k, what in enumerate(shape):
        fv = sx.scat("FV", "ABCD"[k], sx.text("fv%d" % k, 1, alphabet=NAME))
        lines.append(sx.scat(["[FV.", " [Fv.", "[fv."][(k + sty) % 3], fv, ["]", "]  # [FV.x]"][(k + sty) % 2]))
        d = {"Dict": {}, "Infs": [], "Files": {}}
        for i, c in enumerate(what):
            tag = "%d_%d" % (k, i)
            t = sx.text("t" + tag, 2, alphabet=NAME)
            o = (i + sty) % 2
            if c == "i":
                lines.append(sx.scat(["INF  ", "  inf "][o], ["", "RuleOverride=ACPI "][(i + k) % 2], "P/", t, ".inf", ["", " # c = {"][o]))
                d["Infs"].append(sx.scat(["", "RuleOverride=ACPI "][(i + k) % 2], "P/", t, ".inf"))
                sx.cover("inf")
            elif c == "o":
                lines += [sx.scat([" BlockSize = 0x", "READ_STATUS = "][o], t), "APRIORI DXE {", sx.scat("}", ["", " # {"][o])]
            else:
                ty = sx.pick("ty" + tag, ["FREEFORM", "DRIVER", "RAW", "PEIM", "PEI_CORE", "FV_IMAGE"])
                name = sx.scat("aaaa", "pqrstuvwxyz"[k * 5 + i], t)
                lines.append(sx.scat(["FILE ", " file  "][o], ty, [" = ", "="][o], name, [" {", "{"][o], ["", " # }"][o]))
                f = {"type": ty}
                if c in "fn":
                    if c == "n":
                        lines += ["   SECTION COMPRESS {", "  # }"]
                    for j in range(3):
                        st = ["RAW", "UI", "PE32", "RAW", "DXE_DEPEX"][(i + j * (1 + sty)) % 5]
                        v = sx.text("v%s_%d" % (tag, j), 1, alphabet=NAME + "=/.")
                        lines.append(sx.scat(["  SECTION ", "section "][(o + j) % 2], st, [" = ", "="][o], v, "q", ["", " # }"][o]))
                        f.setdefault(st, []).append(sx.scat(v, "q"))
                    if c == "n" and sty % 2:
                        lines += [["  }}", " } } # {"][o]]
                    elif c == "n":
                        lines += [["  }", "  } # {"][o]]
                if c == "g":
                    lines += [sx.scat("   SECTION GUIDED bbbb", t, " PROCESSING_REQUIRED = TRUE {" if o else " {"), " SECTION RAW = $(T).bin", "  }"]
                    f[sx.scat("bbbb", t, " PROCESSING_REQUIRED" if o else "")] = {}
                    f["RAW"] = ["x.bin"]
                if c != "n" or sty % 2 == 0:
                    lines.append(["}", "  }  # end {"][o])
                d["Files"][name] = f
                sx.cover("file")
        if what:
            want[fv] = d
        if (k + sty) % 2:
            lines += [["[Rule.Common.PEIM]", "[Capsule.A]", "[FmpPayload.A]", "[OptionRom.x]"][(k + sty) % 4], "  FILE PEIM = $(NAMED_GUID) {", "   PE32 = x", "  }", "INF P/q.inf"]
            sx.cover("other")
    p = parse(sx, lines)
    sx.check(len(p.FVs) == len(want), "the FVs are those that have lines")
    for fv, d in want.items():
        g = p.FVs[fv]
        sx.check(sx.eq(g["Infs"], d["Infs"]), "the INFs of an FV are those listed, in order")
        sx.check(len(g["Files"]) == len(d["Files"]), "the files of an FV are those listed")
        for name, f in d["Files"].items():
            sx.check(sx.eq(g["Files"][name], f), "a file has its type and the sections of its own block, in order")
    sx.check(sx.eq(p.FDs, {}) and sx.eq(p.Dict, {"T": "x"}), "nothing else is recorded")


def fds(sx, form):
    a, b = sx.text("a", 2, alphabet=NAME), sx.text("b", 2, alphabet=NAME)
    fd = [sx.scat("[FD.", a, "]"), "  BaseAddress = 0x1", "INF P/x.inf", "0x0|0x10", "FILE = a"]
    fv = [sx.scat("[FV.", b, "]"), "INF P/y.inf"]
    lines = {"fdfirst": fd + fv, "fvfirst": fv + fd}[form]
    p = parse(sx, lines)
    sx.check(sx.eq(p.FDs, {a: {"Dict": {}}}), "the FDs are those listed, also one with the name of an FV")
    sx.check(sx.eq(p.FVs, {b: {"Dict": {}, "Infs": ["P/y.inf"], "Files": {}}}), "lines belong to their own section")
    sx.cover("fd")


def define(sx, form, n):
    k = sx.scat("K", sx.text("k", n, alphabet=NAME))
    v = sx.text("v", n, alphabet=NAME + "/.-:")
    head = {"plain": "  ", "define": "  DEFINE ", "wide": "DEFINE   "}[form.split("-")[0]]
    lines = ["[Defines]", sx.scat(head, k, "  =  ", v, "   # x = y"), sx.scat(" OTHER = ", v, "DEFINE"), " DEFINE EMPTY =", "[FV.A]", sx.scat(" INF $(", k, ")/$(EMPTY)x$(UNKNOWN).inf"), sx.scat(" DEFINE L = $(", k, ")DEFINEx=1"), sx.scat(" FILE RAW = $(L)f {"), "  SECTION RAW = $(L)", " }", "[FV.B]", " INF $(L).inf", sx.scat(" INF $(", k, ").inf"), " DEFINED"]
    p = parse(sx, lines)
    sx.check(sx.eq(p.Dict, {k: v, "OTHER": sx.scat(v, "DEFINE"), "EMPTY": ""}), "a definition has the value written")
    sx.check(sx.eq(p.FVs["A"]["Infs"], [sx.scat(v, "/x$(UNKNOWN).inf")]), "definitions are replaced in later sections")
    loc = sx.scat(v, "DEFINEx=1")
    sx.check(sx.eq(p.FVs["A"]["Files"], {sx.scat(loc, "f"): {"type": "RAW", "RAW": [loc]}}), "a definition made in an FV counts in that FV")
    sx.check(sx.eq(p.FVs["B"]["Infs"], ["$(L).inf", sx.scat(v, ".inf")]), "a definition made in an FV ends with it")
    sx.cover("define")
    sx.cover("local")


def noequal(sx, n, kw):
    """a line that defines nothing changes nothing"""
    t = sx.scat(kw, sx.text("t", n, alphabet=NAME + " "))
    lines = ["[Defines]", " A = 1", sx.scat("  ", t), "[FV.A]", sx.scat("  ", t), " INF P/x.inf"]
    p = parse(sx, lines)
    sx.check(sx.eq(p.Dict, {"A": "1"}), "a line that defines nothing changes nothing")
    sx.check(sx.eq(p.FVs, {"A": {"Dict": {}, "Infs": ["P/x.inf"], "Files": {}}}), "a line that defines nothing changes nothing")
    sx.check(sx.eq(p.LocalVars, {"A": "1"}), "a line that defines nothing changes nothing")
    sx.cover("define")


def conditional(sx, where, form):
    a = sx.int("a", 0, 12)
    x = sx.text("x", 1, alphabet=NAME)
    lines = ["[Defines]", " DEFINE K = 7"]
    body = {"inf": ["[FV.A]"], "file": ["[FV.A]"], "sect": ["[FV.A]", " FILE RAW = f {"], "def": []}[where]
    mk = {
        "inf": lambda t: [sx.scat(" INF P/", x, t, ".inf")],
        "file": lambda t: [sx.scat(" FILE RAW = n", x, t, " {"), "  SECTION RAW = r", "}"],
        "sect": lambda t: [sx.scat("  SECTION UI = u", x, t)],
        "def": lambda t: [sx.scat(" DEFINE D = ", x, t)],
    }[where]
    one, two = mk("1"), mk("2")
    if where != "def":
        lines += body
        k = "$(K)"
    else:
        k = "7"
    if form == "else":
        lines += ["!if $(A) == " + k] + one + ["!else # x"] + two + ["!endif"]
        sel = [a == 7, sx.not_(a == 7)]
    elif form == "elseif":
        lines += ["!if $(A) > " + k] + one + ["!elseif $(A) < 3"] + two + ["!endif"]
        sel = [a > 7, a < 3]
    elif form == "nested":
        lines += ["!if $(A) > 2", "!if $(A) < 7"] + one + ["!endif"] + two + ["!endif"]
        sel = [sx.and_(a > 2, a < 7), a > 2]
    else:
        lines += ["!ifdef A", "!ifndef Q", "!if $(A) < 7"] + one + ["!endif", "!endif"] + two + ["!else", " INF P/no.inf", "!endif"]
        sel = [a < 7, True]
    if where == "sect":
        lines += [" }"]
    p = parse(sx, lines, {"A": a})
    got = [i for i in (0, 1) if sel[i]]
    val = [sx.scat(x, "12"[i]) for i in got]
    fv = p.FVs.get("A", {"Infs": [], "Files": {}})
    if where == "inf":
        sx.check(sx.eq(fv["Infs"], [sx.scat("P/", t, ".inf") for t in val]), "an INF counts exactly when its line is active")
    elif where == "file":
        sx.check(sx.eq(fv["Files"], {sx.scat("n", t): {"type": "RAW", "RAW": ["r"]} for t in val}), "a file counts exactly when its lines are active")
    elif where == "sect":
        w = {"type": "RAW"}
        if val:
            w["UI"] = [sx.scat("u", t) for t in val]
        sx.check(sx.eq(fv["Files"], {"f": w}), "a section counts exactly when its line is active")
    else:
        sx.check(sx.eq(p.Dict.get("D"), val[-1]) if val else "D" not in p.Dict, "a definition counts exactly when its line is active")
    sx.cover("conditional")


def include(sx, layout):
    a, b = sx.text("a", 1, alphabet=NAME), sx.text("b", 1, alphabet=NAME)
    eol = "" if layout in ("same", "up") else "\n"
    f1, i1 = {"same": ("a/one.inc", "one.inc"), "sub": ("a/s/one.inc", "s/one.inc"), "up": ("one.inc", "../one.inc"), "root": ("ws/p/one.inc", "p/one.inc")}[layout]
    root = ["[Defines]", " DEFINE INC = " + i1, "[FV.A]", " INF P/r.inf", ["!include $(INC)", "!INCLUDE " + i1 + " # x"][len(layout) % 2], " INF P/s.inf", "!if $(NO) == 1", "!include missing.inc", "!endif"]
    one = [sx.scat(" INF P/", a, ".inf"), " !include two.inc", sx.scat("[FV.B]"), sx.scat("INF P/", b, ".inf")]
    two = [sx.scat(" DEFINE Q = ", b), sx.scat(" FILE RAW = g", a, " {"), " SECTION RAW = $(Q)", "}"]
    f = sx.write("a/Foo.fdf", emit(sx, root))
    sx.write(f1, sx.scat(emit(sx, one[:-1]), one[-1], eol))
    # the last line of a file needs no line end
    sx.write("a/two.inc", sx.scat(emit(sx, two[:-1]), "}"))
    p = F.FdfParser()
    p.SetInputVars({"NO": "0"})
    p.RootPath = sx.tmp() + "/ws"
    p.ParseFile(f)
    sx.check(sx.eq(p.FVs["A"]["Infs"], ["P/r.inf", sx.scat("P/", a, ".inf")]), "the lines of an included file count where it is included")
    sx.check(sx.eq(p.FVs["A"]["Files"], {sx.scat("g", a): {"type": "RAW", "RAW": [b]}}), "the lines of an included file count where it is included")
    sx.check(sx.eq(p.FVs["B"]["Infs"], [sx.scat("P/", b, ".inf"), "P/s.inf"]), "a section an included file starts goes on after it")
    sx.cover("include")


def missing(sx):
    t = sx.scat("m", sx.text("t", 2, alphabet=NAME), ".inc")
    r = sx.attempt(parse, sx, ["[Defines]", " A = 1", sx.scat("!include ", t)])
    sx.check(r.raised(FileNotFoundError), "a missing include is reported")


def long(sx, n, form):
    """any number of lines that do not count may come between lines that do"""
    t = sx.text("t", 1, alphabet=NAME)
    skip = {"comment": ["# x"], "blank": [""], "inactive": [" INF P/no.inf"]}[form] * n
    if form == "inactive":
        skip = ["!if 0"] + skip + ["!endif"]
    p = parse(sx, ["[FV.A]", sx.scat(" INF P/", t, ".inf")] + skip + [" INF P/z.inf"])
    sx.check(sx.eq(p.FVs["A"]["Infs"], [sx.scat("P/", t, ".inf"), "P/z.inf"]), "lines that do not count change nothing")
    sx.cover("skipped")


def badfile(sx):
    t = sx.text("t", 2, alphabet=NAME)
    r = sx.attempt(parse, sx, ["[FV.A]", sx.scat(" FILE RAW ", t, " {"), "}"])
    sx.check(r.raised(RuntimeError), "a FILE line without a name is reported")


for shape in (["i"], ["f"], ["n"], ["g"], ["iif"], ["fii", "i"], ["fg", "ifi"], ["o", "io"], ["ef", "e"]):
    for sty in (0, 1):
        suite.add(Case("fv-%s-%d" % ("+".join(shape), sty), fvs, shape=shape, sty=sty, bounds={"fvs": len(shape), "lines": sum(map(len, shape))}))
for shape in (["inif", "ifg", "eii"], ["fff", "", "nn"], ["iiiiii", "i", "i", "f"]):
    for sty in (0, 1, 2, 3):
        suite.add(Case("fv-%s-%d" % ("+".join(shape), sty), fvs, shape=shape, sty=sty, bounds={"fvs": len(shape), "lines": sum(map(len, shape))}), tier="thorough")
for form in ("fdfirst", "fvfirst"):
    suite.add(Case("fd-" + form, fds, form=form, bounds=dict(names=2)))
for form in ("plain", "define", "wide"):
    for n in (1, 3, 6):
        suite.add(Case("define-%s-%d" % (form, n), define, form=form, n=n, bounds=dict(chars=n)), tier="quick" if n < 4 else "thorough")
for kw in ("DEFINE", "w", "DEFINE "):
    for n in (1, 3):
        suite.add(Case("noequal-%s-%d" % (kw.replace(" ", "_"), n), noequal, n=n, kw=kw, bounds=dict(chars=n)))
for where in ("inf", "file", "sect", "def"):
    for form in ("else", "elseif", "nested", "ifdef"):
        suite.add(Case("cond-%s-%s" % (where, form), conditional, where=where, form=form, bounds=dict(condition="0..12")))
for layout in ("same", "sub", "up", "root"):
    suite.add(Case("include-" + layout, include, layout=layout, bounds=dict(files=3)))
suite.add(Case("missing", missing, bounds=dict(chars=2)))
suite.add(Case("badfile", badfile, bounds=dict(chars=2)))
for form in ("comment", "blank", "inactive"):
    suite.add(Case("long-" + form, long, n=1200, form=form, max_steps=20_000_000, bounds=dict(lines=1200)))
