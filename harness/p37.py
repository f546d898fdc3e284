"""P37 workspace tables: every package, INF and source of the workspace once, with what its files say, however often the workspace is read."""

import os as _os
import types as _types

import edk2toollib.database.edk2_db as D
import edk2toollib.database.tables.environment_table as E
import edk2toollib.database.tables.inf_table as F
import edk2toollib.database.tables.package_table as P
import edk2toollib.database.tables.source_table as S
from edk2toollib.database import Edk2DB, Environment, Inf, Library, Package, Repository, Source, Value
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from harness.rows import Row, Session
from sx.case import Case, Suite

suite = Suite()
COVER = ["license", "unknown", "stats", "again", "changed", "known", "build", "folder", "roots", "origin", "remote", "base", "submodule", "nogit", "inf", "windows", "shared", "env", "fault", "commit", "moved"]
ASSUMPTIONS = [
    "In the symbolic runs the database session is a stand-in; a sample of the explored paths and every violation is replayed with the real SQLite database.",
    "git is a stand-in that gives the remotes, submodules and commit of the workspace; so is the counting of code and comment lines.",
    "Sources are text whose lines end with line breaks; a file is read as it is at the time of the parse. The remote's url ends with a name after a slash.",
]
NAME = "abcXYZ019_"
ANY = "".join(chr(c) for c in range(32, 127)) + "\t"


class RSource(Row):
    pass


class RPackage(Row):
    pass


class RRepository(Row):
    pass


class RInf(Row):
    pass


class RLibrary(Row):
    pass


class REnvironment(Row):
    pass


class RValue(Row):
    pass


ROWS = dict(Source=(RSource, Source), Package=(RPackage, Package), Repository=(RRepository, Repository), Inf=(RInf, Inf), Library=(RLibrary, Library), Environment=(REnvironment, Environment), Value=(RValue, Value))
REAL = [(m, n, getattr(m, n)) for m in (S, P, F, E) for n in ROWS if hasattr(m, n)] + [(S, "SourceAnalysis", S.SourceAnalysis), (P, "git", P.git), (E, "git", E.git), (E, "datetime", E.datetime)]


class Db:
    """the database: rows in lists, or SQLite"""

    def __init__(self, sx, pps=()):
        self.sx = sx
        self.root = sx.tmp()
        for p in pps:
            _os.makedirs(_os.path.join(self.root, p), exist_ok=True)
        self.pathobj = Edk2Path(self.root, list(pps))
        for m, n, v in REAL:
            setattr(m, n, v)
            if sx.symbolic and n in ROWS:
                setattr(m, n, ROWS[n][0])
        if sx.symbolic:
            self.s = Session()
        else:
            from sqlalchemy.orm import Session as Real
            self.db = Edk2DB(":memory:", pathobj=self.pathobj)
            self.s = Real(self.db.engine)

    def cls(self, n):
        return ROWS[n][0 if self.sx.symbolic else 1]

    def parse(self, table, id="e1", env=None):
        table.parse(self.s, self.pathobj, id, env or {})
        self.s.commit()

    def add(self, n, **k):
        self.s.add(self.cls(n)(**k))
        self.s.commit()

    def rows(self, n):
        return self.s.query(self.cls(n)).all()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        if not self.sx.symbolic:
            self.s.close()
            self.db.engine.dispose()
        for m, n, v in REAL:
            setattr(m, n, v)


# ------------------------------------------------------------------ sources
class Counts:
    @staticmethod
    def from_file(filename, *_, **k):
        n = len(str(_os.path.basename(filename)))
        return _types.SimpleNamespace(code_count=n * 100 + 1, documentation_count=n * 100 + 2, empty_count=n * 100 + 3)


def content(sx, tag, shape, n, any=ANY):
    """(text, license, lines): l license line, e one without license, t text, b blank; o: no line break at the end"""
    out, lic, k = [], None, 0
    for i, c in enumerate(shape.rstrip("o")):
        k += 1
        if c in "le":
            gap = sx.pick("gap%s%d" % (tag, i), ["", " ", "\t "]) if i == 0 else " "
            lic = sx.text("l%s%d" % (tag, i), n, alphabet=any) if c == "l" else ""
            out.append(sx.scat(sx.text("b%s%d" % (tag, i), 1, alphabet=any), "# SPDX-License-Identifier:", gap, lic))
        elif c == "t":
            out.append(sx.scat("SPDX", sx.text("t%s%d" % (tag, i), n, alphabet=ANY.replace("S", ""))))
        else:
            out.append("")
    body = []
    for i, t in enumerate(out):
        body += [t, "\n" if i + 1 < len(out) or not shape.endswith("o") else ""]
    return sx.scat(*body) if body else "", lic, k


def blank(c):
    return c == " " or c == "\t"


def same(sx, row, lic):
    """the license of a row, blanks around it aside"""
    if lic is None or len(lic.strip(" \t")) == 0:
        sx.cover("unknown")
        return row.license == "Unknown"
    sx.cover("license")
    return sx.eq(row.license.strip(" \t"), lic.strip(" \t"))


def source(sx, shapes, n, stats, known):
    """one file, read once per shape"""
    with Db(sx) as db:
        S.SourceAnalysis = Counts
        if known:
            db.add("Source", path="P/x.c")
            db.add("Source", path="P/y.c")
            sx.cover("known")
        for k, sh in enumerate(shapes):
            t, lic, total = content(sx, str(k), sh, n if k == 0 else 1, ANY if n < 9 else NAME + ".-:/")
            sx.write("P/x.c", t)
            db.parse(S.SourceTable(n_jobs=1, source_stats=stats) if stats else S.SourceTable(n_jobs=1), "e%d" % k)
            rows = db.rows("Source")
            mine = [r for r in rows if r.path == "P/x.c"]
            sx.check(len(mine) == 1 and len(rows) == 1 + known, "every source is recorded once")
            r = mine[0]
            sx.check(same(sx, r, lic), "a source has the license of its last SPDX line, or none")
            sx.check(r.total_lines == total, "a source has the number of its lines")
            if stats:
                sx.check((r.code_lines, r.comment_lines, r.blank_lines) == (301, 302, 303), "a source has the counts of its lines")
                sx.cover("stats")
            else:
                sx.check((r.code_lines, r.comment_lines, r.blank_lines) == (total, 0, 0), "without statistics every line is code")
            if k:
                sx.cover("changed")


def files(sx, twice):
    """which files are sources"""
    with Db(sx, ["Common", "Common/Sub"]) as db:
        folders = ["", "P", "Build", "Build/P", "BuildX", "P/Build", "Common/P", "Common/Sub/P", "Common/Build"]
        want = {}
        for i in range(2):
            d = sx.pick("d%d" % i, folders if i == 0 else ["", "Build", "BuildX", "Common/P"])
            x = sx.pick("x%d" % i, ["c", "h", "cpp", "asm", "s", "nasm", "masm", "rs", "inf", "cx"] if i == 0 else ["c", "txt"])
            f = (d + "/" if d else "") + "f%d.%s" % (i, x)
            if i == 1 and sx.bool("dir"):
                _os.makedirs(_os.path.join(sx.tmp(), f), exist_ok=True)
                sx.cover("folder")
                continue
            sx.write(f, "a\n" * (i + 1))
            if d.startswith("Build") and d != "BuildX":
                sx.cover("build")
            elif x not in ("inf", "cx", "txt"):
                p = f
                for root in ("Common/Sub/", "Common/"):
                    if f.startswith(root):
                        p = f[len(root):]
                        sx.cover("roots")
                        break
                want[p] = i + 1
        for k in range(2 if twice else 1):
            db.parse(S.SourceTable(n_jobs=1))
            rows = db.rows("Source")
            sx.check(sorted(r.path for r in rows) == sorted(want), "the sources are the files of the workspace with the extensions, outside of its build folder")
            for r in rows:
                sx.check(r.total_lines == want[r.path], "a source has the number of its own lines")
        if twice:
            sx.write("Z/new.z", "a\n")
            db.parse(S.SourceTable(n_jobs=1, source_extensions=["*.z", "new.*"]))
            sx.check(sorted(r.path for r in db.rows("Source")) == sorted(list(want) + ["Z/new.z"]), "the extensions are those asked for; known sources stay")
            sx.cover("again")


# ------------------------------------------------------------------ packages
class Bad(Exception):
    pass


class Remotes(list):
    """remotes, by index or name"""

    def __contains__(self, x):
        return any(r.name == x or r is x for r in self)

    def __getattr__(self, n):
        for r in self:
            if r.name == n:
                return r
        raise AttributeError(n)

    def __getitem__(self, k):
        return getattr(self, k) if isinstance(k, str) else list.__getitem__(self, k)


def fake_git(root, remotes, subs, sha="5" * 40, bad=False):
    def repo(path):
        if bad:
            raise Bad(path)
        r = _types.SimpleNamespace(remotes=Remotes(_types.SimpleNamespace(name=n, url=u) for n, u in remotes))
        r.submodules = [_types.SimpleNamespace(name=n, path=p, abspath=_os.path.join(root, p)) for n, p in subs]
        r.head = _types.SimpleNamespace(commit=_types.SimpleNamespace(hexsha=sha))
        return r

    return _types.SimpleNamespace(Repo=repo, InvalidGitRepositoryError=Bad)


def remote(sx, n, form):
    """the name of the repository"""
    with Db(sx) as db:
        sx.write("P/P.dec", "")
        name = sx.text("u", n, alphabet=NAME + ".-git")
        url = sx.scat(["https://h.git/org/", "git@h:o.git/", "/a/b.git/"][form], name, ".git" if sx.bool("ext") else "")
        where = sx.pick("w", ["none", "origin", "first", "last", "other", "single"])
        other = ("fork", "https://h/o/fork.git")
        rem = {"none": [], "origin": [("origin", url)], "first": [("origin", url), other], "last": [other, ("origin", url)], "other": [("up", url), other], "single": [("up", url)]}[where]
        P.git = fake_git(db.root, rem, [])
        db.parse(P.PackageTable())
        pk = db.rows("Package")
        sx.check(len(pk) == 1 and pk[0].name == "P" and pk[0].path == "P", "there is one package")
        last = url.rpartition("/")[2]
        want = "BASE" if where == "none" else (last[:-4] if last.endswith(".git") else last).upper()
        sx.check(sx.eq(pk[0].repository.name, want) and pk[0].repository.path is None, "a package belongs to the repository of the workspace, named after its origin or first remote")
        sx.cover("base" if where == "none" else "remote" if where in ("other", "single") else "origin")


def packages(sx, many):
    """packages in the workspace and its submodules"""
    with Db(sx, ["Common"]) as db:
        folders = ["A", "AB", "A/P", "AB/P", "C/A", "Common/A", "Common/S/P", "Common/S"]
        subs = [[("s1", "A"), ("s2", "AB")], [("s2", "AB"), ("s1", "A")], [("s3", "Common/S"), ("s4", "C")], [("s1", "A"), ("s3", "Common/S")], []][sx.choice("subs", 5)]
        rem = [("origin", "https://h/o/main.git")]
        P.git = fake_git(db.root, rem, subs)
        here = []
        for i in range(3 if many else 2):
            d = folders[sx.choice("d%d" % i, len(folders))]
            here.append(d)
            sx.write(d + "/P%d.dec" % (i if i < 2 else 1), "")
            if i == 0 and many:
                db.parse(P.PackageTable())
        for k in range(2):
            db.parse(P.PackageTable())
            pk = db.rows("Package")
            sx.check(sorted((r.name, r.path) for r in pk) == sorted(set((d.rpartition("/")[2], d) for d in here)), "every folder with a DEC file is one package")
            for r in pk:
                sub = [(n, p) for n, p in subs if (r.path + "/").startswith(p + "/")]
                n, p = sub[0] if sub else ("MAIN", None)
                sx.cover("submodule" if sub else "base")
                sx.check(r.repository is not None and r.repository.name == n and r.repository.path == p, "a package belongs to the submodule that holds it, or to the repository of the workspace")
            rp = [(r.name, r.path) for r in db.rows("Repository")]
            sx.check(len(rp) == len(set(rp)), "every repository is recorded once")
        P.git = fake_git(db.root, rem, subs, bad=True)
        db.parse(P.PackageTable())
        sx.check(len(db.rows("Package")) == len(pk) and len(db.rows("Repository")) == len(rp), "a workspace without git adds nothing")
        sx.cover("nogit")


# ------------------------------------------------------------------ INFs
def infs(sx, n, spots, twice, change=False):
    """up to three INFs that share sources and libraries"""
    with Db(sx, ["Common"]) as db:
        sx.write("P/P.dec", "")
        sx.write("Common/Q/Q.dec", "")
        if change or sx.bool("known"):
            db.add("Source", path="P/a.c")
            db.add("Library", name="abcd")
            sx.cover("known")
        libs = [sx.text("lib%d" % i, n, alphabet=NAME) for i in range(2)]
        want = {}
        for i, d in enumerate(spots):
            f = d + "/I%d.inf" % i
            guid = sx.pick("g%d" % i, ["", "1-2-3"]) if i == 0 else "4-5"
            cls = sx.text("c", n, alphabet=NAME) if i == 0 else None
            use = libs if i == 0 else libs[: 1 if change else sx.choice("u%d" % i, 3)]
            src = [["a.c", "../P/a.c"], [], ["X64/b.c", "a.c", "a.c"], ["../P/M/a.c"]][i if change else sx.choice("s%d" % i, 4)]
            t = ["[Defines]\n  BASE_NAME = B\n  MODULE_TYPE = ", "PEIM" if i else "BASE", "\n"]
            t += ["  FILE_GUID = ", guid, "\n"] if guid else []
            t += ["  LIBRARY_CLASS = ", cls, "|PEIM\n"] if cls is not None else []
            t += ["[LibraryClasses]\n"] + [x for l in use for x in ("  ", l, "\n")]
            t += ["[Sources]\n"] + ["  %s\n" % s for s in src]
            sx.write(f, sx.scat(*t))
            if not guid:
                sx.cover("windows")
                continue
            if (d + "/").startswith("Build/"):
                sx.cover("build")
                continue
            path = f[7:] if f.startswith("Common/") else f
            rel = [_os.path.normpath(d + "/" + s) for s in src]
            rel = [r[7:] if r.startswith("Common/") else r for r in rel]
            want[path] = (guid, cls, "PEIM" if i else "BASE", {"P": "P", "Common": "Q"}.get(d.split("/")[0]), use, rel)
        for k in range(2 if twice else 1):
            if k and change:
                # the workspace goes on: a module that changed and a new one
                d = spots[-1]
                path = d + "/I%d.inf" % (len(spots) - 1)
                text = "[Defines]\n  BASE_NAME = B\n  MODULE_TYPE = PEIM\n  FILE_GUID = %s\n[LibraryClasses]\n" % sx.pick("g", ["4-5", "6-7"])
                text = sx.scat(text, "  ", sx.text("lib", n, alphabet=NAME), "\n[Sources]\n  ", sx.pick("s", ["a.c", "new.c"]), "\n")
                sx.write(path, text)
                sx.write(d + "/New.inf", text)
            db.parse(F.InfTable(n_jobs=1), "e%d" % k)
            rows = db.rows("Inf")
            if k and change:
                new = path.replace("I%d.inf" % (len(spots) - 1), "New.inf")
                new = new[7:] if new.startswith("Common/") else new
                sx.check(sorted(r.path for r in rows) == sorted(set(want) | {new, path[7:] if path.startswith("Common/") else path}), "every INF with a GUID is recorded once, however it changed")
                for n2 in ("Source", "Library"):
                    nm = [x.path if n2 == "Source" else x.name for x in db.rows(n2)]
                    sx.check(not any(bool(a == b) for i, a in enumerate(nm) for b in nm[:i]), "every source and library class is recorded once")
                sx.cover("moved")
                continue
            sx.check(sorted(r.path for r in rows) == sorted(want), "every INF with a GUID, outside of the build folder, is recorded once")
            for r in rows:
                guid, cls, module, pkg, use, rel = want[r.path]
                sx.check(r.guid == guid and r.module_type == module, "an INF has its GUID and module type")
                sx.check(r.library_class is None if cls is None else sx.eq(r.library_class, cls), "an INF has its library class")
                sx.check(r.package_name == pkg, "an INF has its package")
                got = [x.name for x in r.libraries]
                sx.check(all(any(bool(g == u) for g in got) for u in use) and all(any(bool(g == u) for u in use) for g in got), "an INF has the library classes it uses")
                sx.check(sorted(set(x.path for x in r.sources)) == sorted(set(rel)), "an INF has its sources")
            src = [x.path for x in db.rows("Source")]
            sx.check(len(src) == len(set(src)), "every source is recorded once")
            nm = [x.name for x in db.rows("Library")]
            sx.check(not any(bool(a == b) for i, a in enumerate(nm) for b in nm[:i]), "every library class is recorded once")
            sx.cover("shared")
        sx.cover("inf")


# ------------------------------------------------------------------ environment
def environment(sx, keys, n):
    """the variables of every run"""
    with Db(sx) as db:
        want = []
        for k in range(2):
            sha = sx.text("sha%d" % k, 40 if k else 2, alphabet="0123456789abcdef")
            bad = sx.bool("bad%d" % k)
            E.git = fake_git(db.root, [], [], sha=sha, bad=bad)
            env = {}
            for i in range(keys):
                env[sx.scat(sx.text("k%d%d" % (k, i), n, alphabet=NAME), str(i))] = sx.text("v%d%d" % (k, i), n, alphabet=ANY)
            keep = dict(env)
            db.parse(E.EnvironmentTable(), "id%d" % k, env)
            sx.check(len(env) == len(keep) and all(sx.eq(env[a], keep[a]) for a in keep), "the variables are left alone")
            want.append(("UNKNOWN" if bad else sha, keep))
            rows = db.rows("Environment")
            sx.check(sorted(r.id for r in rows) == ["id%d" % j for j in range(k + 1)], "every run has one row")
            for r in rows:
                sha, keep = want[int(r.id[2:])]
                sx.check(sx.eq(r.version, sha), "a run has the commit of the workspace")
                sx.check(len(r.values) == len(keep), "a run has one value per variable")
                for v in r.values:
                    hit = [a for a in keep if bool(a == v.key)]
                    sx.check(len(hit) == 1 and sx.eq(v.value, keep[hit[0]]), "a run has the values of its own variables")
        sx.cover("env")


# ------------------------------------------------------------------ the database
class Boom(Exception):
    pass


def database(sx, n, how):
    """tables that fail at any place"""
    root = sx.tmp()
    po = Edk2Path(root, [])
    Repo = Repository
    log, ids = [], []

    class T(D.TableGenerator):
        def __init__(self, name):
            self.name = name

        def parse(self, session, pathobj, id, env):
            log.append((self.name, id, env))
            sx.check(pathobj is po, "a table gets the paths of the database")
            have = sorted(r.path for r in session.query(Repo).all())
            sx.check(have == sorted(done), "a table sees what the tables before it wrote")
            session.add(Repo(name="r", path=str(len(log))))
            k = fail.get((run, self.name))
            if k == "flush":
                session.flush()
            if k:
                raise Boom(self.name)
            done.append(str(len(log)))

    db = Edk2DB(_os.path.join(root, "x.db") if how == "file" else ":memory:", pathobj=po)
    done, fail, names = [], {}, []
    try:
        for i in range(n):
            names.append("t%d" % i)
        if how == "once":
            for t in names:
                db.register(T(t))
        else:
            db.register(*[T(t) for t in names])
        for run in range(2):
            at = sx.choice("at%d" % run, n + 1)
            kind = sx.pick("kind%d" % run, ["raise", "flush"]) if at < n else None
            fail.clear()
            if at < n:
                fail[(run, names[at])] = kind
            before = list(done)
            env = {"RUN": str(run)}
            n0 = len(log)
            r = sx.attempt(db.parse, env)
            mine = log[n0:]
            sx.check(r.ok == (at == n), "a parse fails exactly if a table does")
            if not r.ok:
                sx.check(r.raised(Boom) and str(r.exc) == names[at], "the failure is the one of the table")
                sx.cover("fault")
            else:
                sx.cover("commit")
            sx.check([m[0] for m in mine] == names[: at + 1], "the tables run in order, each once, up to the one that fails")
            sx.check(len(set(m[1] for m in mine)) == 1 and all(m[2] == env for m in mine), "all tables of a run have its id and variables")
            sx.check(mine[0][1] not in ids, "every run has an id of its own")
            ids.append(mine[0][1])
            with db.session() as s:
                rows = sorted(x.path for x in s.query(Repo).all())
            sx.check(rows == sorted(done) and len(done) == len(before) + at, "what the tables before the failure wrote is kept, and nothing of the one that failed")
        with db.session() as s:
            s.add(Repo(name="r", path="direct"))
        with db.session() as s:
            sx.check(sorted(x.path for x in s.query(Repo).all()) == sorted(done + ["direct"]), "a session is committed at its end")
        db.clear_parsers()
        n0 = len(log)
        db.parse({})
        sx.check(len(log) == n0, "no table runs after they were cleared")
    finally:
        db.engine.dispose()


for i, sh in enumerate([["", "l"], ["o", "tlo"], ["l", "t"], ["tl", "lt"], ["lb", "tto"], ["el", "le"], ["ll", "b"], ["bbto", "e"]]):
    suite.add(Case("source-%s" % "-".join(sh), source, bounds="a file with lines %s, parsed twice; texts of up to 2 arbitrary characters" % sh, shapes=sh, n=2, stats=i % 2 == 1, known=i % 3 == 0))
suite.add(Case("source-long", source, bounds="a license of 12 arbitrary characters", shapes=["tl"], n=12, stats=False, known=True))
for t in (True,):
    suite.add(Case("files", files, bounds="2 files of any folder and extension listed", twice=t))
for i in range(3):
    suite.add(Case("remote-%d" % i, remote, bounds="remotes with a name of 5 arbitrary characters", n=5, form=i))
suite.add(Case("packages-two", packages, bounds="2 packages in 8 folders, 5 sets of submodules, parsed twice", many=False))
suite.add(Case("packages-three", packages, bounds="3 packages in 8 folders, 5 sets of submodules, parsed three times", many=True), tier="thorough")
for i, sp in enumerate([["P/M"], ["P/M", "P/N"], ["Common/Q/M", "Build/M"], ["Build/M", "Z"], ["P", "BuildX"]]):
    suite.add(Case("infs-%d" % i, infs, bounds="INFs in %s with 2 library classes and up to 3 sources" % sp, n=1, spots=sp, twice=i % 2 == 1))
for i, sp in enumerate((["P/M"], ["P/M", "Common/Q"])):
    suite.add(Case("infs-changed-%d" % i, infs, bounds="INFs in %s, the last of which changes between two runs, and a new one" % sp, n=1, spots=sp, twice=True, change=True))
suite.add(Case("infs-three", infs, bounds="3 INFs with 2 library classes and up to 3 sources", n=1, spots=["P/M", "Common/Q", "P/M/N"], twice=True), tier="thorough")
for k in (0, 1, 3):
    suite.add(Case("environment-%d" % k, environment, bounds="2 runs with %d variables of 2 arbitrary characters" % k, keys=k, n=2))
for h in ("memory", "once", "file"):
    suite.add(Case("database-%s" % h, database, bounds="up to 3 tables, of which any fails in each of 2 runs", n=3, how=h))
