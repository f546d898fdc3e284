"""P40 plug-ins and lookup: the class of a module is the most specific one, whatever the names; parsers find files in the documented order; the GUIDs of a tree are those of its files that are not ignored."""

import os as _os
import sys as _sys
import types as _types

import edk2toollib.uefi.edk2.guid_list as GL
import edk2toollib.uefi.edk2.parsers.base_parser as B
import edk2toollib.utility_functions as U
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from harness.p30 import ignored
from sx.case import Case, Suite

suite = Suite()
COVER = ["most", "none", "several", "imported", "loaded", "broken", "root", "target", "package", "absolute", "nofile", "written", "guid", "pruned", "skipped", "other"]
ASSUMPTIONS = [
    "An imported class that is unrelated to one the module defines is not claimed (documentation and code disagree).",
    "Files and folders are real; which of them exist is symbolic. The rules of ignore files are P30's.",
]


# ------------------------------------------------------------------ classes
def classes(sx, n, order, others):
    """n classes; which one derives from which is free"""
    class Desired:
        pass

    class Unrelated:
        pass

    mod = _types.ModuleType("plugin")
    made, sub = [], []
    for i in range(n):
        bases = [made[j] for j in range(i) if sx.bool("b%d%d" % (i, j))]
        bases = [b for b in bases if not any(c is not b and issubclass(c, b) for c in bases)]
        wanted = any(sub[made.index(b)] for b in bases)
        if not wanted and sx.bool("d%d" % i):
            bases, wanted = bases + [Desired], True
        made.append(type("C%d" % i, tuple(reversed(bases)), {"__module__": "elsewhere" if sx.bool("i%d" % i) else "plugin"} if others else {"__module__": "plugin"}))
        sub.append(wanted)
    for i, p in enumerate(order[:n]):
        setattr(mod, p, made[i])
    if others:
        mod.Desired, mod.Unrelated, mod.value, mod.f = Desired, Unrelated, Desired(), lambda: None
        mod.alias = made[-1]
    cand = [c for c, s in zip(made, sub) if s]
    most = [c for c in cand if all(issubclass(c, d) for d in cand)]
    r = sx.attempt(U.locate_class_in_module, mod, Desired)
    if not cand:
        sx.check(r.ok and r.value is None, "without a class there is none")
        sx.cover("none")
    elif most:
        sx.check(r.ok and r.value is most[0], "the class that is most specific is found, whatever the names")
        sx.cover("most")
        if most[0].__module__ != "plugin":
            sx.cover("imported")
    else:
        home = [c for c in cand if c.__module__ == "plugin" and not any(d is not c and issubclass(d, c) for d in cand)]
        if len(home) > 1 or not others:
            sx.check(r.raised(RuntimeError), "several unrelated classes are reported")
            sx.cover("several")


def load(sx, n):
    """a file is a module of its own"""
    d = sx.tmp()
    v = sx.int("v", 0, 9)
    kind = sx.pick("kind", ["good", "raises", "syntax", "nofile", "nopy"])
    name = sx.pick("name", ["m.py", "json.py", "a b.py", "x.y.py"])
    fs = []
    for i in range(n):
        f = _os.path.join(d, "d%d" % i, name)
        _os.makedirs(_os.path.dirname(f), exist_ok=True)
        h = _os.open(f, _os.O_WRONLY | _os.O_CREAT)
        _os.write(h, ("VALUE = %d\nWHERE = __file__\n" % (i + 10) if i < n - 1 or kind == "good" else {"raises": "VALUE = 1\nraise KeyError('x')\n", "syntax": "VALUE =\n"}.get(kind, "")).encode())
        _os.close(h)
        fs.append(f)
    if kind == "nofile":
        fs[-1] = _os.path.join(d, "none", name)
    if kind == "nopy":
        fs[-1] = fs[-1][:-3] + ".txt"
    import json

    before = _sys.dont_write_bytecode
    _sys.dont_write_bytecode = True
    try:
        rs = [sx.attempt(U.import_module_by_file_name, f) for f in fs]
    finally:
        _sys.dont_write_bytecode = before
    for i, r in enumerate(rs):
        if i < n - 1 or kind == "good":
            sx.check(r.ok and r.value.VALUE == i + 10 and r.value.WHERE == fs[i], "each file is a module of its own")
            sx.cover("loaded")
        else:
            sx.check(r.raised({"raises": KeyError, "syntax": SyntaxError, "nofile": FileNotFoundError, "nopy": RuntimeError}[kind]), "a file that is no module is reported")
            sx.cover("broken")
    sx.check(_sys.modules.get("json") is json and v >= 0, "other modules are left alone")


# ------------------------------------------------------------------ files
def find(sx, cfg, rel):
    """where a parser looks for a file"""
    d = sx.tmp()
    ws = _os.path.join(d, "ws")
    pps = [_os.path.join(d, "pp1"), _os.path.join(ws, "pp2")]
    tgt = _os.path.join(d, "t", "x")
    for x in [ws, tgt] + pps:
        _os.makedirs(x, exist_ok=True)
    here = {"root": ws, "target": tgt, "p1": pps[0], "p2": pps[1]}
    has = {k: sx.int("at_" + k, 0, 2) if k in ("root", "target") else sx.int("at_" + k, 0, 1) for k in here}  # nothing, file, folder
    for k, x in here.items():
        f = _os.path.join(x, rel)
        if has[k] != 0:
            _os.makedirs(_os.path.dirname(f), exist_ok=True)
        if has[k] == 1:
            with open(f, "w") as h:
                h.write(k)
        elif has[k] == 2:
            _os.makedirs(f, exist_ok=True)
    p = B.BaseParser("x")
    packages = []
    if cfg == "path":
        p.SetEdk2Path(Edk2Path(ws, pps))
        packages = ["p1", "p2"]
    elif cfg == "old":
        p.SetBaseAbsPath(ws).SetPackagePaths(pps)
        packages = ["p1", "p2"]
    elif cfg == "base":
        p.SetBaseAbsPath(ws)
    target = sx.bool("target")
    if target:
        p.TargetFilePath = _os.path.join(tgt, "file.dsc")
    how = sx.pick("how", ["one", "parts", "absolute", "gone", "none"])
    if how == "none":
        sx.check(p.FindPath(None) is None, "nothing is found for no path")
        return
    if how in ("absolute", "gone"):
        k = sx.pick("k", ["root", "target", "p1"])
        f = _os.path.join(here[k], rel) + ("" if how == "absolute" else "_gone")
        r = sx.attempt(p.FindPath, f)
        sx.check(r.ok and (r.value == f if how == "absolute" and has[k] != 0 else r.value is None), "an absolute path is found if it exists")
        sx.cover("absolute" if how == "absolute" and has[k] != 0 else "nofile")
        return
    r = sx.attempt(p.FindPath, *(rel.split("/") if how == "parts" else [rel]))
    order = ["root"] + (["target"] if target else []) + packages
    want = [k for k in order if has[k] != 0]
    if not want:
        sx.check(r.ok and r.value is None, "a file that is nowhere is not found")
        sx.cover("nofile")
        return
    sx.check(r.ok and r.value is not None and _os.path.isabs(r.value) and r.value == _os.path.join(here[want[0]], rel), "a file is looked for below the root, beside the file parsed, then in the package paths")
    sx.cover({"root": "root", "target": "target"}.get(want[0], "package"))


def write(sx, n, m):
    """the lines of a parser are written one per line"""
    d = sx.tmp()
    p = B.BaseParser("x")
    lines = [sx.text("l%d" % i, n, exclude="\n\r", maxcp=0x10FFFF) for i in range(m)]
    for x in lines:
        for c in x:
            sx.assume(sx.or_(ord(c) < 0xD800, ord(c) > 0xDFFF))
    own = [sx.bool("own%d" % i) for i in range(m)]
    p.Lines = [sx.scat(x, "\n") if o else x for x, o in zip(lines, own)]
    f = _os.path.join(d, "out.txt")
    if sx.bool("old"):
        with open(f, "w") as h:
            h.write("a line that is longer than the rest\n" * 3)
    p.WriteLinesToFile(f)
    sx.check(sx.eq(sx.read_text(f), sx.scat(*[t for x in lines for t in (x, "\n")])), "the file holds each line once")
    sx.check(len(p.Lines) == m, "the lines stay")
    sx.cover("written")


# ------------------------------------------------------------------ GUIDs of a tree
def tree(sx, rules, files, n):
    """the GUIDs of the files that are not ignored"""
    d = sx.tmp()
    base = _os.path.join(d, "root dir")
    _os.makedirs(base)
    lines = [sx.pick("r%d" % i, x) for i, x in enumerate(rules)]
    want = []
    for i, f in enumerate(files):
        if not sx.bool("f%d" % i):
            continue
        name = sx.scat("N", sx.text("n%d" % i, n, alphabet="aB_1")) if n else "N%d" % i
        g = str(sx.uuid("g%d" % i)) if n == 2 else "0000000%d-1111-2222-3333-44445555aaBB" % i
        p = _os.path.join(base, f)
        _os.makedirs(_os.path.dirname(p), exist_ok=True)
        if f.lower().endswith(".dec"):
            t = sx.scat("[Defines]\n  PACKAGE_NAME = ", name, "\n  PACKAGE_GUID = ", g, "\n")
        else:
            t = sx.scat("[Defines]\n  BASE_NAME = ", name, "\n  FILE_GUID = ", g, "\n")
        sx.write(_os.path.relpath(p, d), t)
        comps = f.split("/")
        gone = [k for k in range(len(comps)) if ignored(sx, lines, comps[: k + 1], False)]
        if f.lower()[-4:] not in (".dec", ".inf"):
            sx.cover("other")
        elif gone:
            sx.cover("skipped" if gone[0] == len(comps) - 1 else "pruned")
        else:
            want.append((p, name, g.upper()))
            sx.cover("guid")
    given = list(lines)
    r = sx.attempt(GL.GuidList.guidlist_from_filesystem, base, *([given] if rules else []))
    sx.check(r.ok and sorted(e.absfilepath for e in r.value) == sorted(w[0] for w in want), "each file that is not ignored is read once, and no other")
    sx.check(given == lines, "the rules given are not changed")
    by = {w[0]: w for w in want}
    for e in r.value:
        sx.check(sx.eq(e.name, by[e.absfilepath][1]) and sx.eq(e.guid.upper(), by[e.absfilepath][2]), "each GUID has its name and file")


for n in (1, 2, 3):
    for i, order in enumerate((["A", "B", "C"], ["C", "B", "A"], ["B", "C", "A"], ["C", "A", "B"])):
        if n == 1 and i:
            continue
        suite.add(Case("classes-%d-%d" % (n, i), classes, n=n, order=order, others=False, bounds={"classes": n}))
suite.add(Case("classes-others-2", classes, n=2, order=["B", "A"], others=True, bounds={"classes": 2}))
suite.add(Case("classes-others-3", classes, n=3, order=["A", "C", "B"], others=True, bounds={"classes": 3}))
suite.add(Case("classes-4", classes, n=4, order=["B", "A", "D", "C"], others=False, bounds={"classes": 4}), tier="thorough")
for n in (1, 2):
    suite.add(Case("load-%d" % n, load, n=n, bounds={"files": n}))
for cfg in ("path", "old", "base"):
    for rel in ("a.inc", "d/b.inc", "../c.inc"):
        suite.add(Case("find-%s-%s" % (cfg, rel), find, cfg=cfg, rel=rel, bounds={"places": 4}), tier="quick" if rel != "../c.inc" and (cfg != "old" or rel == "a.inc") else "thorough") if rel != "../c.inc" else None
for n, m in ((0, 2), (1, 1), (2, 2), (3, 3)):
    suite.add(Case("write-%d-%d" % (n, m), write, n=n, m=m, bounds={"lines": m, "chars": n}))
RULES = ["*.inf", "A", "/A", "A/", "B/*.dec", "!x.inf", "**/B", "*", "y.DEC", "#A", "A/B"]
FILES = ["x.inf", "A/x.inf", "A/B/y.DEC", "C/A/z.Inf", "A.dec", "C/n.txt"]
suite.add(Case("tree-none", tree, rules=[], files=FILES[:4], n=2, bounds={"files": 4}))
suite.add(Case("tree-one", tree, rules=[RULES], files=FILES[:5], n=0, bounds={"files": 5, "rules": 1}))
suite.add(Case("tree-two", tree, rules=[["*.inf", "A/", "*"], ["!x.inf", "!A", "B", "!/A/"]], files=FILES[:3], n=0, bounds={"files": 3, "rules": 2}))
suite.add(Case("tree-other", tree, rules=[["A", "x"]], files=FILES[3:], n=1, bounds={"files": 3, "rules": 1}))
suite.add(Case("tree-flat", tree, rules=[["x.inf", "y.inf", "z.dec"]], files=["x.inf", "y.inf", "z.dec"], n=0, bounds={"files": 3, "rules": 1}))
suite.add(Case("tree-dirs", tree, rules=[["D?/", "D[0-2]", "d*"]], files=["D1/x.inf", "D2/y.inf", "D3/x.inf", "D2/D1/u.dec"], n=0, bounds={"files": 4, "rules": 1}))
suite.add(Case("tree-two-all", tree, rules=[RULES, RULES], files=FILES[:4], n=0, bounds={"files": 4, "rules": 2}), tier="thorough")
