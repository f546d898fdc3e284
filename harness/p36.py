"""P36 instanced INFs: each component is recorded once per architecture with exactly the library instances, sources, package and volumes the DSC and FDF give it."""

import os as _os

import edk2toollib.database.tables.instanced_fv_table as V
import edk2toollib.database.tables.instanced_inf_table as I
from edk2toollib.database import Edk2DB, Fv, InstancedInf, Package, Repository, Source
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from harness.rows import Row, Session
from sx.case import Case, Suite

suite = Suite()
COVER = ["override", "scoped", "unsupported", "missing", "reached", "cycle", "null", "arch", "common", "library", "noguid", "source", "package", "repository", "local", "closest", "again", "fv", "option", "unknown"]
ASSUMPTIONS = [
    "In the symbolic runs the DSC, FDF and INF parsers (P22-P24) and the database session are stand-ins; a sample of the explored paths and every violation is replayed with the real parsers on real files and the real SQLite database.",
    "A component is listed once per architecture, library classes of one INF are distinct ignoring case, and every INF listed exists.",
]
REAL = (I.DscP, I.InfP, I.InstancedInf, I.Source, I.Package, I.Repository, V.FdfP, V.InstancedInf, V.Fv)
NAME = "abcXYZ019_"
PHASES = ["SEC", "PEIM", "DXE_DRIVER"]


# ------------------------------------------------------------------ stand-ins
class RInf(Row):
    pass


class RSource(Row):
    pass


class RPackage(Row):
    pass


class RRepository(Row):
    pass


class RFv(Row):
    pass


class World:
    def __init__(self, sx, pps=()):
        self.sx, self.infs, self.order = sx, {}, []
        self.root = sx.tmp()
        for p in pps:
            _os.makedirs(_os.path.join(self.root, p), exist_ok=True)
        self.pps = list(pps)
        self.libs, self.comps, self.fvs, self.n = [], [], {}, 0

    def inf(self, path, cls=None, phases=None, module="PEIM", libs=(), sources=(), guid="g", alias=()):
        """libs and sources: (scope, name); alias: other paths of the INF, relative to other roots"""
        d = dict(path=path, cls=cls, phases=phases, module=module, libs=list(libs), sources=list(sources), guid=guid, alias=tuple(alias))
        self.infs[path] = d
        return path

    def lib(self, scope, cls, path):
        self.libs.append((scope, cls, path))

    def comp(self, scope, path, over=()):
        self.comps.append((scope, path, list(over)))

    def find(self, path):
        for d in self.infs.values():
            if d["path"] == path or path in d["alias"]:
                return d
        raise KeyError(path)

    def file(self, d):
        """where an INF lies: its longest name"""
        return max([d["path"]] + list(d["alias"]), key=len)

    # -- the files
    def write(self):
        sx = self.sx
        for d in self.infs.values():
            t = ["[Defines]\n  BASE_NAME = N_", d["path"].rsplit("/", 1)[-1][:-4], "\n  MODULE_TYPE = ", d["module"], "\n"]
            if d["guid"]:
                t += ["  FILE_GUID = ", d["guid"], "\n"]
            if d["cls"] is not None:
                t += ["  LIBRARY_CLASS = ", d["cls"]] + (["|", " ".join(d["phases"])] if d["phases"] is not None else []) + ["\n"]
            for k, key in (("libs", "LibraryClasses"), ("sources", "Sources")):
                for s, x in d[k]:
                    t += ["[", key, "." + s if s != "common" else "", "]\n  ", x, "\n"]
            f = sx.write(self.file(d), "" if sx.symbolic else sx.scat(*t))
            for s, x in d["sources"]:
                g = _os.path.normpath(_os.path.join(_os.path.dirname(f), x))
                if not _os.path.exists(g):
                    sx.write(_os.path.relpath(g, self.root), "")
        t = ["[Defines]\n  SUPPORTED_ARCHITECTURES = IA32|X64\n"]
        for s, c, p in self.libs:
            t += ["[LibraryClasses", "." + s if s != "common" else "", "]\n  ", c, "|", p, "\n"]
        for s, p, over in self.comps:
            t += ["[Components", "." + s if s != "common" else "", "]\n  ", p]
            if over:
                t += [" {\n  <LibraryClasses>\n"]
                for c, q in over:
                    t += ["    ", c, "|", q, "\n"]
                t += ["  }"]
            t += ["\n"]
        sx.write("T.dsc", "" if sx.symbolic else sx.scat(*t))
        t = []
        for n, infs in self.fvs.items():
            t += ["[FV.", n, "]\n"]
            for x in infs:
                t += ["  INF ", x, "\n"]
        sx.write("T.fdf", "" if sx.symbolic else sx.scat(*t))

    # -- the parsers
    def parsers(self):
        w = self

        class InfP:
            def SetEdk2Path(self, p):
                self.p = p
                return self

            def ParseFile(self, path):
                # an INF path may be relative to any root
                d = w.find(path)
                self.d = d
                self.Dict = {"BASE_NAME": "N_" + d["path"].rsplit("/", 1)[-1][:-4], "MODULE_TYPE": d["module"]}
                if d["guid"]:
                    self.Dict["FILE_GUID"] = d["guid"]
                if d["cls"] is not None:
                    self.Dict["LIBRARY_CLASS"] = d["cls"]
                self.SupportedPhases = [] if d["cls"] is None else (PHASES if d["phases"] is None else d["phases"])
                self.PcdsUsed = []

            def get_libraries(self, archs):
                return [x for s, x in self.d["libs"] if s == "common" or s.lower() in [a.lower() for a in archs]]

            def get_sources(self, archs):
                return [x for s, x in self.d["sources"] if s == "common" or s.lower() in [a.lower() for a in archs]]

        class DscP:
            Lines = []

            def SetEdk2Path(self, p):
                return self

            def SetInputVars(self, v):
                pass

            def GetAllDscPaths(self):
                return []

            def ParseFile(self, path):
                self.Components, self.ScopedLibraryDict = [], {}
                for s, c, p in w.libs:
                    key = w.sx.scat(s.lower(), ".", c).lower()
                    v = self.ScopedLibraryDict.setdefault(key, [])
                    if p in v:
                        v.remove(p)
                    v.insert(0, p)
                for s, p, over in w.comps:
                    o = {"NULL": []}
                    for c, q in over:
                        if c == "NULL":
                            o["NULL"].append(q)
                        else:
                            o[c.lower()] = q
                    for a in ["IA32", "X64"] if s == "common" else [s.lower()]:
                        self.Components.append((p, a, o))

        class FdfP(DscP):
            def ParseFile(self, path):
                self.FVs = {n: {"Infs": list(x)} for n, x in w.fvs.items()}

        I.InfP, I.DscP, V.FdfP = InfP, DscP, FdfP

    # -- what is expected
    def resolve(self, cls, arch, module, over):
        """the INF of a library class: the override, else the last listed one of the closest scope that supports the module"""
        low = cls.lower()
        for c, q in reversed(over):
            if c != "NULL" and c.lower() == low:
                self.sx.cover("override")
                return self.find(q)
        m = module.lower()
        for scope in [arch.lower() + "." + m, "common." + m, arch.lower(), "common"]:
            for s, c, p in reversed(self.libs):
                if s.lower() == scope and c.lower() == low:
                    d = self.find(p)
                    if d["phases"] is None or m in [x.lower() for x in d["phases"]]:
                        self.sx.cover("scoped")
                        return d
                    self.sx.cover("unsupported")
        self.sx.cover("missing")
        return None

    def expect(self, archs):
        """(component, path, arch) -> (classes it may be recorded for, paths of its libraries, sources)"""
        out = {}
        for s, p, over in self.comps:
            for arch in ["IA32", "X64"] if s == "common" else [s.upper()]:
                c = self.find(p)
                if arch not in archs:
                    self.sx.cover("arch")
                    continue
                if c["cls"] is not None:
                    self.sx.cover("library")
                    continue
                if s == "common":
                    self.sx.cover("common")
                todo, seen = [(c, None)], {}
                while todo:
                    d, cls = todo.pop()
                    if d["path"] in seen:
                        seen[d["path"]][0].append(cls)
                        continue
                    uses = [(self.resolve(x, arch, c["module"], over), x) for sc, x in d["libs"] if sc == "common" or sc.upper() == arch]
                    if d is c:
                        nulls = [q for k, q in over if k == "NULL"]
                        for scope in [arch.lower() + "." + c["module"].lower(), "common." + c["module"].lower(), arch.lower(), "common"]:
                            nulls += [q for sc, k, q in self.libs if sc.lower() == scope and k == "NULL"]
                        uses += [(self.find(q), "NULL") for q in nulls]
                        if nulls:
                            self.sx.cover("null")
                    uses = [(u, x) for u, x in uses if u is not None]
                    seen[d["path"]] = ([cls], [u["path"] for u, _ in uses if u["guid"]], [x for sc, x in d["sources"] if sc == "common" or sc.upper() == arch])
                    todo += uses
                for path, v in seen.items():
                    if self.infs[path]["guid"]:
                        out[(c["path"], path, arch)] = v
                    else:
                        self.sx.cover("noguid")
        return out

    # -- running
    def open(self):
        self.write()
        self.pathobj = Edk2Path(self.root, self.pps)
        if self.sx.symbolic:
            self.parsers()
            I.InstancedInf = V.InstancedInf = RInf
            I.Source, I.Package, I.Repository, V.Fv = RSource, RPackage, RRepository, RFv
            self.s = Session()
            self.C = (RInf, RSource, RPackage, RRepository, RFv)
        else:
            I.DscP, I.InfP, I.InstancedInf, I.Source, I.Package, I.Repository, V.FdfP, V.InstancedInf, V.Fv = REAL
            from sqlalchemy.orm import Session as S
            self.db = Edk2DB(":memory:", pathobj=self.pathobj)
            self.s = S(self.db.engine)
            self.C = (InstancedInf, Source, Package, Repository, Fv)
        self.table = I.InstancedInfTable()
        return self

    def env(self, archs):
        return {"ACTIVE_PLATFORM": "T.dsc", "FLASH_DEFINITION": "T.fdf", "TARGET_ARCH": " ".join(archs), "TARGET": "DEBUG"}

    def run(self, archs, env="e1"):
        self.table.parse(self.s, self.pathobj, env, self.env(archs))

    def close(self):
        if not self.sx.symbolic:
            self.s.close()
            self.db.engine.dispose()
        I.DscP, I.InfP, I.InstancedInf, I.Source, I.Package, I.Repository, V.FdfP, V.InstancedInf, V.Fv = REAL

    def source(self, d, x):
        f = _os.path.normpath(_os.path.join(_os.path.dirname(self.file(d)), x))
        for p in sorted(self.pps, key=len, reverse=True):
            if f.startswith(p + "/"):
                return f[len(p) + 1:]
        return f

    def verify(self, archs, env="e1"):
        sx = self.sx
        want = self.expect(archs)
        rows = self.s.query(self.C[0]).filter_by(env=env).all()
        got = {}
        for r in rows:
            sx.check((r.component, r.path, r.arch) not in got, "every INF is recorded once per component and architecture")
            got[(r.component, r.path, r.arch)] = r
        sx.check(sorted(got) == sorted(want), "the INFs recorded are the components and the libraries they reach")
        for k, r in got.items():
            classes, libs, sources = want[k]
            d = self.infs[k[1]]
            sx.check(sorted(x.path for x in r.libraries) == sorted(set(libs)), "an INF is linked to the instances of the library classes it uses")
            sx.check(all(x.component == r.component and x.arch == r.arch and x.env == env for x in r.libraries), "an INF is linked to the instances of its own component, architecture and run")
            sx.check(sorted(x.path for x in r.sources) == sorted(set(self.source(d, x) for x in sources)), "an INF has the sources of its architecture")
            if r.cls is None:
                sx.check(any(c is None for c in classes), "a library has the class it is used for")
            else:
                sx.check(sx.or_(*[r.cls == c for c in classes if c is not None]), "a library has a class it is used for")
            sx.check(r.name == "N_" + k[1].rsplit("/", 1)[-1][:-4] and r.dsc == "T.dsc", "an INF has its name and DSC")
        src = [x.path for x in self.s.query(self.C[1]).all()]
        sx.check(len(src) == len(set(src)), "every source is recorded once")
        if not want:
            return got
        sx.cover("reached")
        if any(v[2] for v in want.values()):
            sx.cover("source")
        return got


# ------------------------------------------------------------------ cases
def resolve(sx, scopes, two, module, sect, over):
    """one library class, listed or not in every scope, once or twice, supporting the module or not"""
    w = World(sx)
    cls = sx.text("c", 2, alphabet=NAME)
    use = sx.scat(cls[0].swapcase() if two else cls[0], cls[1])
    arch = "X64"
    for i, s in enumerate(scopes):
        for j in range(2 if two else 1):
            if sx.bool("has%d%d" % (i, j)):
                sup = sx.pick("sup%d%d" % (i, j), [None, [module], ["SEC" if module != "SEC" else "PEIM"]])
                p = w.inf("P/L%d%d.inf" % (i, j), cls, sup)
                w.lib(s.replace("ARCH", arch).replace("MOD", module), cls, p)
    o = []
    if over and sx.bool("over"):
        o = [(cls, w.inf("P/O.inf", cls, ["SEC"]))]
    w.comp(sect, w.inf("P/C.inf", module=module, libs=[("common", use)]), o)
    w.open()
    try:
        w.run(["X64"])
        w.verify(["X64"])
    finally:
        w.close()


def graph(sx, n, double):
    """n libraries that use each other in any way"""
    w = World(sx)
    for i in range(n):
        uses = [("common", "C%d" % j) for j in range(n) if sx.bool("u%d%d" % (i, j))]
        w.inf("P/L%d.inf" % i, "C%d" % i, libs=uses, sources=[("common", "s%d.c" % i), ("common", "../all.c")])
        w.lib("common", "C%d" % i, "P/L%d.inf" % i)
    if double:
        # the class D is provided by L1 too
        w.lib("common", "D", "P/L1.inf")
        w.infs["P/L0.inf"]["libs"].append(("common", "D"))
    top = [("common", "C%d" % j) for j in range(n) if sx.bool("t%d" % j)]
    w.comp("X64", w.inf("P/C.inf", libs=top, sources=[("X64", "c.c"), ("IA32", "no.c")]))
    w.open()
    try:
        w.run(["X64"])
        w.verify(["X64"])
        sx.cover("cycle")
    finally:
        w.close()


def nulls(sx, sect):
    """NULL libraries of the component and of every scope"""
    w = World(sx)
    over = []
    for i in range(2):
        if sx.bool("o%d" % i):
            over.append(("NULL", w.inf("P/O%d.inf" % i, "NULL", libs=[("common", "A")])))
    for i, s in enumerate(["common", "X64", "X64.PEIM", "common.PEIM", "IA32"]):
        if sx.bool("n%d" % i):
            w.lib(s, "NULL", w.inf("P/N%d.inf" % i, "NULL"))
    w.inf("P/A.inf", "A")
    if sx.bool("a"):
        w.lib("common", "A", "P/A.inf")
        if sx.bool("b"):
            w.lib("X64", "NULL", "P/A.inf")
    w.comp(sect, w.inf("P/C.inf", libs=[("common", "A")]), over)
    w.open()
    try:
        w.run(["X64"])
        w.verify(["X64"])
    finally:
        w.close()


def archs(sx, how):
    """components of several architectures, kinds and runs"""
    w = World(sx)
    w.inf("P/L0.inf", "A", sources=[("IA32", "x.c"), ("X64", "y.c"), ("common", "z.c")])
    w.inf("P/L1.inf", "A", ["SEC"], libs=[("X64", "B")], sources=[("common", "z.c")])
    w.inf("P/B.inf", "B", guid="g" if sx.bool("bg") else "")
    w.lib("common", "B", "P/B.inf")
    w.lib("common", "A", "P/L0.inf")
    w.lib(sx.pick("s1", ["IA32", "X64", "IA32.SEC", "X64.SEC", "common.SEC"]), "a", "P/L1.inf")
    kinds = [("SEC", None), ("PEIM", None), ("SEC", "K")]
    for i in range(2):
        m, c = sx.pick("k%d" % i, kinds)
        w.comp(sx.pick("a%d" % i, ["common", "IA32", "X64"]), w.inf("P/C%d.inf" % i, cls=c, module=m, libs=[("IA32", "A"), ("X64", "A"), ("common", "B")], guid="g"))
    t = sx.pick("t", [["X64"], ["IA32", "X64"], ["IA32"], ["ARM"]]) if how == "one" else ["IA32", "X64"]
    w.open()
    try:
        w.run(t)
        w.verify(t)
        if how == "again":
            w.run(["X64"], "e2")
            w.verify(t)
            w.verify(["X64"], "e2")
            sx.cover("again")
    finally:
        w.close()


def roots(sx):
    """INFs listed relative to any of the package paths are recorded relative to the closest one"""
    w = World(sx, ["Common", "Common/Sub"])
    def path(tag, f):
        return sx.pick(tag, [f, "Sub/" + f, "Common/Sub/" + f])
    al = lambda f: ("Sub/" + f, "Common/Sub/" + f)
    for n in ("A", "B", "N", "M"):
        w.inf("P/%s.inf" % n, n if n in "AB" else "NULL", libs=[("common", "A")] if n == "B" else [], sources=[("common", "x.c")], alias=al("P/%s.inf" % n))
    w.inf("P/C.inf", libs=[("common", "A"), ("common", "B")], alias=al("P/C.inf"))
    w.lib("common", "A", path("a", "P/A.inf"))
    w.lib("X64", "NULL", path("n", "P/N.inf"))
    w.comp("X64", path("c", "P/C.inf"), [("B", path("b", "P/B.inf")), ("NULL", path("m", "P/M.inf"))])
    w.open()
    try:
        w.run(["X64"])
        w.verify(["X64"])
        sx.cover("closest")
    finally:
        w.close()


def owners(sx):
    """the package and the repository of an INF"""
    w = World(sx)
    folder = sx.pick("f", ["R/A", "R/AB", "R/A/P", "Q"])
    repo = sx.pick("r", ["R/A", "R/AB", "R"])
    dec = sx.bool("dec")
    known = sx.bool("known")
    w.inf(folder + "/x/L.inf", "A")
    w.lib("common", "A", folder + "/x/L.inf")
    w.comp("X64", w.inf("Z/C.inf", libs=[("common", "A")]))
    if dec:
        sx.write(folder + "/P.dec", "")
    w.open()
    try:
        RepositoryC, PackageC = w.C[3], w.C[2]
        local, other, third = RepositoryC(name="BASE", path=None), RepositoryC(name="sub", path=repo), RepositoryC(name="third", path="S")
        w.s.add_all([third, local, other])
        if known:
            w.s.add(PackageC(name=folder.rsplit("/", 1)[-1], path=folder, repository=third))
        w.s.add(w.C[1](path="P/seen.c"))
        w.s.commit()
        w.run(["X64"])
        got = w.verify(["X64"])
        r = got[("Z/C.inf", folder + "/x/L.inf", "X64")]
        if dec and known:
            sx.check(r.package is not None and r.package.path == folder and r.repository is third, "an INF of a known package belongs to it and its repository")
            sx.cover("package")
        else:
            sx.check(r.package is None, "an INF without known package has none")
            inside = (folder + "/").startswith(repo + "/")
            sx.check((r.repository is other) if inside else (r.repository is local), "an INF belongs to the repository whose folder holds it, or to the workspace")
            sx.cover("repository" if inside else "local")
    finally:
        w.close()


def volumes(sx, first):
    """FVs with INFs of any form"""
    w = World(sx, ["Common", "Common/Sub"])
    al = lambda f: ("Sub/" + f, "Common/Sub/" + f)
    for i in (0, 1, "x"):
        w.inf("P/C%s.inf" % i, alias=al("P/C%s.inf" % i), libs=[("common", "A")])
    w.inf("P/A.inf", "A", alias=al("P/A.inf"))
    w.lib("common", "A", "P/A.inf")
    w.comp("X64", "P/C0.inf")
    w.comp("X64", "P/C1.inf")
    want = {}
    for k in range(2):
        n = sx.scat("F", sx.text("n%d" % k, 1, alphabet=NAME), str(k))
        infs, exp = [], []
        for j in range(2 - k):
            i = sx.pick("i%d%d" % (k, j), [0, 1, "x", "A"])
            opt = sx.pick("o%d%d" % (k, j), OPTIONS) if (k, j) == first else OPTIONS[k + j]
            infs.append(opt + (["P/C%s.inf", "Sub/P/C%s.inf"][k] % i).replace("CA", "A"))
            if i in (0, 1):
                exp.append("P/C%d.inf" % i)
            else:
                sx.cover("unknown")
            if opt:
                sx.cover("option")
        w.fvs[n] = infs
        want[k] = (n, exp)
    w.open()
    try:
        w.run(["X64"], "e0")
        w.run(["X64"])
        w.run(["X64"], "e2")
        V.InstancedFvTable().parse(w.s, w.pathobj, "e1", w.env(["X64"]))
        rows = w.s.query(w.C[4]).all()
        sx.check(len(rows) == 2, "there is one row per FV")
        for n, exp in want.values():
            r = [r for r in rows if r.name == n]
            sx.check(len(r) == 1 and r[0].env == "e1" and r[0].fdf == "T.fdf", "an FV has its name and file")
            sx.check(sorted(set(x.path for x in r[0].infs)) == sorted(set(exp)), "an FV has the components it lists")
            sx.check(all(x.env == "e1" and x.cls is None for x in r[0].infs), "an FV has the components of its own run")
        sx.cover("fv")
    finally:
        w.close()


OPTIONS = ["", "RuleOverride = ACPI ", "FILE_GUID=0-1 ui = x.inf VERSION = 1  ", "USE = X64 ", "file_guid = 1 "]
SC = ["ARCH.MOD", "common.MOD", "ARCH", "common"]
for m in ("PEIM", "DXE_DRIVER"):
    suite.add(Case("resolve-%s" % m, resolve, bounds="a library class of 2 arbitrary characters, in each of the 4 scopes absent or with an instance that supports all, this or other modules; override or not", scopes=SC, two=False, module=m, sect="X64", over=True))
suite.add(Case("resolve-common", resolve, bounds="the same for a component of all architectures", scopes=SC, two=False, module="SEC", sect="common", over=True))
for i, s in enumerate([(0, 1), (2, 3), (1, 2), (0, 3)]):
    suite.add(Case("resolve-two-%d" % i, resolve, bounds="2 scopes with up to 2 instances", scopes=[SC[x] for x in s] if i % 2 else [SC[x] for x in s][::-1], two=True, module="PEIM", sect=["common", "X64"][i % 2], over=False))
suite.add(Case("resolve-other", resolve, bounds="scopes of other modules and architectures", scopes=["IA32.MOD", "X64.DXE_CORE", "common.SEC", "IA32", "common"], two=False, module="PEIM", sect="X64", over=False))
for n in (1, 2):
    suite.add(Case("graph-%d" % n, graph, bounds="%d libraries that use each other in any way" % n, n=n, double=n > 1))
suite.add(Case("graph-3", graph, bounds="3 libraries that use each other in any way", n=3, double=False), tier="thorough")
for s in ("X64", "common"):
    suite.add(Case("nulls-%s" % s, nulls, bounds="up to 7 NULL libraries", sect=s))
suite.add(Case("archs-one", archs, bounds="2 components of any architectures and kinds and target architectures", how="one"))
suite.add(Case("archs-again", archs, bounds="the same, two runs", how="again"))
suite.add(Case("roots", roots, bounds="5 INFs listed relative to any of 3 roots"))
suite.add(Case("owners", owners, bounds="4 folders and 3 repositories"))
for x in ((0, 0), (0, 1), (1, 0)):
    suite.add(Case("volumes-%d%d" % x, volumes, bounds="FVs of 2 and 1 INFs, of 4 INFs (components, unused, a library), one of them in 5 forms", first=x))
