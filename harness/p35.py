"""P35 build reports: every module once, with the libraries, PCDs, dependency expression and firmware volume the report gives it."""

import edk2toollib.uefi.edk2.parsers.buildreport_parser as B
from sx.case import Case, Suite

suite = Suite()
COVER = ["module", "library", "null", "outside", "pcd", "default", "array", "quoted", "depex", "fv", "wrapped", "header", "empty", "find", "none", "protected", "other", "tails"]
ASSUMPTIONS = [
    "Edk2Path is a stand-in here that knows which paths lie below the workspace (P25 covers the real one); modules have distinct GUIDs and library classes, apart from NULL, are distinct.",
    "A module is listed in one firmware volume. String values have no escaped quotes.",
]
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
START, END = ">" + "=" * 118 + "<", "<" + "=" * 118 + ">"
SUB, SUBEND = ">" + "-" * 118 + "<", "<" + "-" * 118 + ">"
SEP, SUBSEP = "=" * 120, "-" * 120
WS, PP = "/ws/", "/ws/pp/"


class Paths:
    """a workspace in WS with one package path"""

    def __init__(self, ws, pp):
        self.ws, self.pp = ws, pp

    def GetEdk2RelativePathFromAbsolutePath(self, p):
        for root in [PP, WS]:
            if p.startswith(root):
                return p[len(root):]
        return None


def report(sx, lines, words=None, ends=True):
    body = []
    for i, t in enumerate(lines):
        body += [t, "\n" if ends or i + 1 < len(lines) else ""]
    B.pu = type("pu", (), {"Edk2Path": Paths})
    r = B.BuildReport(sx.write("report.txt", sx.scat(*body) if body else ""), WS, " pp , other,", words or {})
    r.BasicParse()
    return r


def inf(sx, tag, n=1, out=False, root=None):
    """(absolute path, EDK2 path)"""
    t = sx.scat(sx.text(tag, n, alphabet=NAME), "M", tag, ".inf")
    if out:
        p = sx.scat("/else/", t)
        return p, p
    r = root or (PP if len(tag) % 2 else WS)
    return sx.scat(r, "P/", t), sx.scat("P/", t)


def module(sx, tag, parts, sty, n, out=False, rel=False):
    """(lines, expectation) of a module with the parts: l library, n NULL library, x library of another place, w library on one line,
    p PCD, d PCD with defaults, a array, q quoted value, c PCD with an odd value, e depex, u unknown section"""
    name, guid = sx.text("m" + tag, n, alphabet=NAME), sx.scat(sx.text("g" + tag, n, alphabet="0123456789ABCDEF"), tag)
    path, short = inf(sx, "i" + tag, 1, out)
    ty = sx.pick("ty" + tag, ["DRIVER", "PEIM", "BASE"])
    shown = short if rel else path
    cut = sty == 1
    lines = [START, "Module Summary", sx.scat("Module Name:          ", name)]
    arch = "Module Arch:          X64" if sty else "Nothing here"
    if cut:
        lines += [arch, sx.scat("Module INF Path:      ", shown[:6]), sx.scat("  ", shown[6:])]
        sx.cover("wrapped")
    else:
        lines += [sx.scat("Module INF Path:      ", shown), arch]
    lines += [sx.scat("File GUID:            ", guid), "Size:                 0x10 (0.02K)", sx.scat("Driver Type:          0x7 (", ty, ")")]
    if parts or sty != 2:
        lines.append(SEP)
    want = dict(Name=name, Guid=guid, InfPath=shown, Type=ty, Libraries={}, PCDs={}, Depex="", final=short)
    top, secs = lines, []
    libs = [c for c in parts if c in "lnxw"]
    if libs:
        lines = []
        secs.append(lines)
        lines += [SUB, "Library", SUBSEP]
        nulls = 0
        for j, c in enumerate(libs):
            k = tag + str(j)
            p, s = inf(sx, "l" + k, 1, c == "x")
            cls = sx.scat(sx.text("c" + k, 1, alphabet=NAME), "C", str(j))
            if c == "n":
                cls = ["NULL", "Null"][j % 2]
            info = [": C = x", "", ": C = LibCtor D = LibDtor"][(j + sty) % 3]
            t = sx.scat("{", cls, info, "}")
            if c == "w":
                lines.append(sx.scat(p, " ", t))
            elif j % 2:
                lines += [p, sx.scat("{", cls), sx.scat(info, "}")]
            else:
                lines += [p, t]
            key = sx.scat(cls, str(nulls)) if c == "n" else cls
            nulls += c == "n"
            want["Libraries"][key] = s
            sx.cover({"n": "null", "x": "outside"}.get(c, "library"))
        lines.append(SUBEND)
    pcds = [c for c in parts if c in "pdaqc"]
    if pcds:
        lines = []
        secs.append(lines)
        lines += [SUB, "PCD", SUBSEP]
        for j, c in enumerate(pcds):
            k = tag + str(j)
            if j % 2 == 0:
                space = sx.scat("g", sx.text("s" + k, 1, alphabet=NAME), "Guid")
                lines.append(sx.scat(["", "  "][(j + sty) % 2], space))
            nm = sx.scat("Pcd", sx.text("p" + k, 1, alphabet=NAME), str(j))
            flag = ["*P ", "   ", "*M "][(j + sty) % 3]
            v = sx.text("v" + k, n, alphabet=NAME)
            head = sx.scat(flag, nm, "  :  FIXED (UINT32) = ")
            if c == "p":
                lines.append(sx.scat(head, v))
            elif c == "d":
                lines += [sx.scat(head, v), "          DSC DEFAULT = 0x0", '          DEC DEFAULT = "a:b', '   c = d"', "          .Field = 0x1"]
                sx.cover("default")
            elif c == "a":
                lines += [sx.scat(head, "{"), sx.scat("0x", v, ","), "0x01", "}", "          DSC DEFAULT = {", "0x01,", "0x02}"]
                v = sx.scat("{ 0x", v, ", 0x01 }")
                sx.cover("array")
            elif c == "q":
                q = sx.text("q" + k, n, alphabet=NAME + " {}:=,")
                lines.append(sx.scat(head, '"', q, '"'))
                v = sx.scat('"', q, '"')
                sx.cover("quoted")
            else:
                odd = [sx.scat(v, ":=", v), sx.scat('"', v), sx.scat('{"', v, '}", 0x1}'), sx.scat("=", v)][(j + sty) % 4]
                lines.append(sx.scat(head, odd))
                if (j + sty) % 4 == 1:
                    lines.append(' g"')
                    odd = sx.scat(odd, ' g"')
                v = odd
            want["PCDs"][sx.scat(space, ".", nm)] = v
            sx.cover("pcd")
        lines.append(SUBEND)
    if "u" in parts:
        lines = []
        secs.append(lines)
        lines += [SUB, ["EOT", "Build Flags"][sty % 2], "text of it", SUBEND]
        sx.cover("other")
    if "e" in parts:
        d = sx.text("d" + tag, n, alphabet=NAME + "() ")
        d = sx.scat("(", d, ")")
        lines = [SUB]
        secs.append(lines)
        if sty % 2 == 0:
            lines += ["Final Dependency Expression (DEPEX) Instructions", "PUSH gGuid", "END", SUBSEP]
        lines.append("Dependency Expression (DEPEX) from INF")
        lines.append(d)
        if sty:
            lines.append("AND TRUE")
        lines += [SUBSEP, "From Module INF: x", "From Library INF: y", SUBEND]
        want["Depex"] = sx.scat(" ", d, " AND TRUE" if sty else "")
        sx.cover("depex")
    lines = top
    for x in secs[sty % 2:] + secs[: sty % 2]:
        lines += x
    lines.append(END)
    sx.cover("module")
    return lines, want


def same(sx, m, w):
    sx.check(sx.eq(m.Name, w["Name"]) and sx.eq(m.Guid, w["Guid"]) and sx.eq(m.Type, w["Type"]), "a module has the name, GUID and type given")
    sx.check(sx.eq(m.InfPath, w["InfPath"]), "a module has the INF path given")
    sx.check(sx.eq(m.Libraries, w["Libraries"]), "a module has the libraries of its own list, by EDK2 path")
    sx.check(sx.eq(m.PCDs, w["PCDs"]), "a module has the PCDs of its own list with their values")
    sx.check(sx.eq(m.Depex, w["Depex"]), "a module has its own dependency expression")


def header(sx, n, sty):
    v = [sx.scat(sx.text("h%d" % i, n, alphabet=NAME + "/-."), ["", ":x"][(i + sty) % 2]) for i in range(3)]
    lines = [sx.scat(["Platform Name:        ", "platform name : "][sty % 2], v[0]), sx.scat("Platform DSC Path:    ", v[1]), "Architectures:        X64", sx.scat("Output Path:     ", v[2]), "Build Environment:    Linux", "Other", "Build Duration:"]
    sx.cover("header")
    return lines, v


def modules(sx, specs, sty, n, head=True):
    """a report with modules of the given parts and some other region between"""
    lines, v = header(sx, n, sty) if head else ([], ["", "", ""])
    want = []
    for i, parts in enumerate(specs):
        if parts is None:
            lines += [START, "Platform Configuration Database Report", "Module Name: none", "File GUID: none", END]
            sx.cover("other")
            continue
        l, w = module(sx, "ABCD"[i], parts, (sty + i) % 3, n)
        lines += [""] + l
        want.append(w)
    r = report(sx, lines, ends=sty % 2)
    sx.check(sx.eq([r.PlatformName, r.DscPath, r.BuildOutputDir], v), "the header is read")
    sx.check(len(r.Modules) == len(want), "there is one module per summary")
    for w in want:
        sx.check(w["Guid"] in r.Modules, "every module is there")
        same(sx, r.Modules[w["Guid"]], w)
        sx.check(r.Modules[w["Guid"]].FvName is None, "a module that is in no volume has none")
    if not want:
        sx.cover("empty")


def volumes(sx, fvs, sty, n, early):
    """modules listed in firmware volumes: the digits of fvs are modules, o lines of other kinds, w a module that is not in the report, y one outside"""
    lines, _ = header(sx, 1, sty)
    mods, want = [], {}
    for i in range(3):
        l, w = module(sx, "ABC"[i], "e" if i else "", (sty + i) % 3, 1, rel=(i + sty) % 3 == 2)
        mods += l
        want["ABC"[i]] = (w, inf(sx, "i" + "ABC"[i]) if False else (w["InfPath"], w["final"]))
    fd = [START, "Firmware Device (FD)", "FD Name:            X", "Base Address: 0x0", SEP]
    names = {}
    for k, what in enumerate(fvs):
        fv = sx.scat(sx.text("f%d" % k, n, alphabet=NAME), "V", str(k))
        fd += [SUB, "FD Region", "Type:               FV", sx.scat("Fv Name:            ", fv, ["", " (99.5% Full)"][(k + sty) % 2]), "Offset     Module", SUBSEP]
        for j, c in enumerate(what):
            if c == "o":
                fd += ["0x00000010 (x)", "0x0 a b c", "0x00001000 0x2000 RAW", "Nothing"]
                continue
            if c in "wy":
                p = sx.scat(WS if c == "w" else "/nowhere/", "Q/", sx.text("w%d%d" % (k, j), 1, alphabet=NAME), ".inf")
            else:
                w = want["ABC"[int(c)]][0]
                p = sx.scat(WS if w["final"] == w["InfPath"] else "", w["InfPath"])
                names["ABC"[int(c)]] = fv
            t = sx.scat("0x000", str(j), " Mod", str(j), " (")
            if (j + sty) % 2:
                fd += [sx.scat(t, p[:7]), sx.scat("   ", p[7:], ")")]
                sx.cover("wrapped")
            else:
                fd.append(sx.scat(t, p, ")"))
        fd.append(SUBEND)
    fd.append(END)
    lines += fd + mods if early else mods + fd
    r = report(sx, lines)
    sx.check(len(r.Modules) == 3, "there is one module per summary")
    for t, (w, _) in want.items():
        m = r.Modules[w["Guid"]]
        if t in names:
            sx.check(m.FvName is not None and sx.eq(m.FvName, names[t]), "a module has the volume that lists it")
        else:
            sx.check(m.FvName is None, "a module no volume lists has none")
    sx.cover("fv")


def find(sx, sty, out):
    """looking for a module by any path in any spelling"""
    lines, want = [], []
    for i in range(3):
        l, w = module(sx, "ABC"[i], "", (sty + i) % 3, 1, out=(i == out), rel=i == 1)
        lines += l
        want.append(w)
    r = report(sx, lines)
    q = sx.text("q", 1, alphabet=NAME)
    k = sx.pick("k", [0, 1, 2])
    tag = "iABC"[k + 1]
    path = sx.scat(["P/", "p/"][sty % 2], q, "Mi", tag, ".inf")
    m = r.FindComponentByInfPath(path)
    t = want[k]
    # the name of module k is one arbitrary character and what follows
    at = t["final"].rindex("/") + 1
    c = t["final"][at]
    fold = lambda x: x.lower()
    if k != out and fold(c) == fold(q):
        sx.check(m is not None and sx.eq(m.Guid, t["Guid"]), "the module with this INF is found, whatever the case of letters")
        sx.cover("find")
    else:
        sx.check(m is None, "no module is found for an INF that is not there")
        sx.cover("none")
    if m is not None:
        sx.check(sx.eq(m.InfPath, t["final"]), "the INF path becomes the EDK2 path")


def tails(sx, order):
    """modules whose paths end in one another"""
    c = sx.text("c", 1, alphabet=NAME)
    paths = [sx.scat(d, "M", c, ".inf") for d in ("P/", "X/P/", "XP/", "")]
    lines = []
    for i in order:
        lines += [START, "Module Summary", "Module Name: n%d" % i, sx.scat("Module INF Path: ", WS, paths[i]), "File GUID: %d" % i, "Driver Type: 0x1 (A)", END]
    r = report(sx, lines)
    k = sx.pick("k", [0, 1, 2, 3])
    m = r.FindComponentByInfPath(paths[k])
    sx.check(m is not None and m.Guid == str(k), "the module found is the one with exactly this INF")
    sx.check(r.FindComponentByInfPath(sx.scat("Q/", paths[k])) is None and r.FindComponentByInfPath(".inf") is None and r.FindComponentByInfPath(sx.scat("/M", c, ".inf")) is None, "no module is found for an INF that is not there")
    sx.cover("tails")


def protected(sx, n):
    """protected words are replaced everywhere"""
    w = sx.text("w", n, alphabet=NAME)
    sx.assume(not sx.eq(w, "x"))
    lines = ["Platform Name: a@1@b@1@", START, "Module Summary", "Module Name: @1@", "Module INF Path: /ws/@2@.inf", "File GUID: 1", "Driver Type: 0x1 (A)", END]
    r = report(sx, lines, {"@1@": w, "@2@": "z"})
    m = r.Modules["1"]
    sx.check(sx.eq(r.PlatformName, sx.scat("a", w, "b", w)) and sx.eq(m.Name, w) and sx.eq(m.InfPath, "/ws/z.inf"), "protected words are replaced in every line")
    sx.check(r.PackagePathList == ["pp", "other"] and r.Workspace == WS, "the package paths are those given")
    sx.cover("protected")


SPECS = [[""], ["l"], ["lnl"], ["nxnw"], ["p"], ["pdp"], ["ap"], ["cp"], ["qp"], ["ccp"], ["dap"], ["e"], ["lpe"], ["nue", "pu"], ["le", "pe"], ["pe", None, "l"], [None, "ae"], [], [None], ["", "", ""], ["c", "d"]]
for i, sp in enumerate(SPECS):
    for sty in range(3):
        nm = "+".join("-" if p is None else p or "0" for p in sp) or "none"
        suite.add(Case("modules-%s-%d" % (nm, sty), modules, bounds="modules with the parts %s; names and values of 1-2 arbitrary characters" % (sp,), specs=sp, sty=sty, n=2 if len(sp) == 1 and len(sp[0] or "xxx") < 3 else 1, head=i % 4 != 3))
suite.add(Case("modules-long", modules, bounds="a module with a library, a PCD and a depex; names and values of 10 arbitrary characters", specs=["lpe"], sty=0, n=10))
for i, f in enumerate([["0"], ["01", "2"], ["o0", "1o"], ["w0", "y", "1"], ["", "012"], ["2o0w"]]):
    for sty in range(3):
        suite.add(Case("volumes-%s-%d" % ("+".join(f), sty), volumes, bounds="3 modules, volumes with %s" % (f,), fvs=f, sty=sty, n=2 if len(f) < 3 else 1, early=(i + sty) % 2))
suite.add(Case("volumes-long", volumes, bounds="3 modules, 2 volumes with names of 20 arbitrary characters", fvs=["0", "21"], sty=0, n=20, early=True))
for sty in range(3):
    for out in (None, 0, 1 + sty % 2):
        suite.add(Case("find-%d-%s" % (sty, out), find, bounds="3 modules with names of an arbitrary character and any query", sty=sty, out=out))
for i, o in enumerate([(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)]):
    suite.add(Case("tails-%d" % i, tails, bounds="4 modules whose paths end in one another, in one order, with an arbitrary character", order=o))
for n in (1, 2):
    suite.add(Case("protected-%d" % n, protected, bounds="a word replaced by %d arbitrary characters" % n, n=n))
