"""P25 Edk2Path: conversions and owners of paths are those the directory tree and the configured roots define."""

import os as _os

import edk2toollib.uefi.edk2.path_utilities as U
from sx.case import Case, Suite

suite = Suite()
COVER = ["pp", "ws", "none", "nested", "exists", "missing", "package", "nopackage", "module", "nomodule", "inf", "init", "invalid", "dropped", "cwd"]
ASSUMPTIONS = [
    "In the symbolic runs pathlib.Path is a model of POSIX paths over a symbolic directory tree; every explored path is replayed with the real pathlib on a real tree.",
    "Path components are not '.' or '..', and there are no symbolic links.",
]
REAL = (U.Path, U.os, U.concurrent)
LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


class P:
    """a POSIX path over a symbolic tree"""

    fs = []
    here = None

    def __init__(self, *segs):
        self.abs = False
        self.parts_ = []
        for s in segs:
            if isinstance(s, P):
                if s.abs:
                    self.abs, self.parts_ = True, []
                self.parts_ = self.parts_ + s.parts_
                continue
            bits = s.split("/")
            if len(bits) > 1 and len(bits[0]) == 0:
                self.abs, self.parts_ = True, []
            self.parts_ = self.parts_ + [b for b in bits if len(b) and b != "."]

    @classmethod
    def of(cls, a, parts):
        p = cls()
        p.abs, p.parts_ = a, list(parts)
        return p

    @classmethod
    def cwd(cls):
        return cls.here

    @property
    def parts(self):
        return tuple((["/"] if self.abs else []) + self.parts_)

    def __truediv__(self, o):
        return P(self, o)

    def __rtruediv__(self, o):
        return P(o, self)

    def __str__(self):
        t = "/".join(self.parts_)
        if self.abs:
            return "/" + t
        return t if self.parts_ else "."

    as_posix = __fspath__ = __str__

    def __hash__(self):
        return len(self.parts_)

    def __eq__(self, o):
        if not isinstance(o, P) or self.abs != o.abs or len(self.parts_) != len(o.parts_):
            return False
        for a, b in zip(self.parts_, o.parts_):
            if not a == b:
                return False
        return True

    def __lt__(self, o):
        for a, b in zip(self.parts, o.parts):
            if a == b:
                continue
            return a < b
        return len(self.parts) < len(o.parts)

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return not o < self

    def __ge__(self, o):
        return not self < o

    @property
    def name(self):
        return self.parts_[-1] if self.parts_ else ""

    @property
    def suffix(self):
        i = self.name.rfind(".")
        return self.name[i:] if 0 < i < len(self.name) - 1 else ""

    @property
    def stem(self):
        i = self.name.rfind(".")
        return self.name[:i] if 0 < i < len(self.name) - 1 else self.name

    @property
    def parent(self):
        return P.of(self.abs, self.parts_[:-1])

    @property
    def parents(self):
        return [P.of(self.abs, self.parts_[:n]) for n in range(len(self.parts_) - 1, -1, -1)]

    def is_absolute(self):
        return self.abs

    def is_relative_to(self, o):
        o = o if isinstance(o, P) else P(o)
        n = len(o.parts_)
        return self.abs == o.abs and len(self.parts_) >= n and P.of(self.abs, self.parts_[:n]) == o

    def relative_to(self, o):
        if not self.is_relative_to(o):
            raise ValueError("the path is not in the subpath of the other")
        return P.of(False, self.parts_[len(o.parts_):])

    def joinpath(self, *o):
        return P(self, *o)

    def resolve(self, strict=False):
        return P(P.here, self)

    absolute = resolve

    def _all(self):
        return (P(P.here, self)).parts_

    def exists(self):
        q = self._all()
        for parts, kind in P.fs:
            if len(q) <= len(parts) and P.of(True, parts[: len(q)]) == P.of(True, q):
                return True
        return False

    def is_dir(self):
        q = self._all()
        for parts, kind in P.fs:
            if (len(q) < len(parts) or (len(q) == len(parts) and kind == "d")) and P.of(True, parts[: len(q)]) == P.of(True, q):
                return True
        return False

    def is_file(self):
        q = self._all()
        for parts, kind in P.fs:
            if len(q) == len(parts) and kind == "f" and P.of(True, parts) == P.of(True, q):
                return True
        return False

    def iterdir(self):
        q = self._all()
        if not self.is_dir():
            raise FileNotFoundError(str(self))
        got = []
        for parts, kind in P.fs:
            if len(q) < len(parts) and P.of(True, parts[: len(q)]) == P.of(True, q):
                c = P.of(True, parts[: len(q) + 1])
                if c not in got:
                    got.append(c)
                    yield c

    def glob(self, pat):
        return [c for c in self.iterdir() if pat == "*" or (pat[:1] == "*" and c.name[-len(pat) + 1:] == pat[1:])]


class Os:
    environ = {}
    PathLike = _os.PathLike
    strerror = staticmethod(_os.strerror)

    @staticmethod
    def walk(p):
        return []


class Conc:
    class futures:
        class ThreadPoolExecutor:
            def __init__(self, *a, **k):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def map(self, f, xs):
                return [f(x) for x in xs]


class World:
    """a tree below a scratch root"""

    def __init__(self, sx, here=None):
        self.sx = sx
        self.base = sx.tmp()
        self.root = [b for b in self.base.split("/") if b]
        self.fs = []
        self.here = here or []

    def add(self, parts, kind):
        self.fs.append((list(parts), kind))

    def install(self):
        if self.sx.symbolic:
            P.fs = [(self.root + p, k) for p, k in self.fs] + [(self.root, "d")]
            P.here = P.of(True, self.root + self.here)
            U.Path, U.os, U.concurrent = P, Os, Conc
        else:
            U.Path, U.os, U.concurrent = REAL
            for p, k in self.fs:
                f = _os.path.join(self.base, *p)
                _os.makedirs(f if k == "d" else _os.path.dirname(f), exist_ok=True)
                if k == "f":
                    open(f, "w").close()
            _os.chdir(_os.path.join(self.base, *self.here))

    def abs(self, parts):
        return self.sx.scat(self.base, *[self.sx.scat("/", p) for p in parts])

    def consistent(self):
        """no file is a folder of another entry, or listed twice"""
        for i, (a, k) in enumerate(self.fs):
            for j, (b, m) in enumerate(self.fs):
                if k == "f" and i != j and len(a) <= len(b):
                    self.sx.assume(self.sx.not_(pre(self.sx, a, b)))


def pre(sx, a, b):
    """a is b or a folder above it"""
    if len(a) > len(b):
        return False
    return sx.and_(True, *[sx.eq(x, y) for x, y in zip(a, b)])


def names(sx, tag, n, width=(1,)):
    return [sx.text("%s%d" % (tag, i), width[i % len(width)], alphabet=LET) for i in range(n)]


def slash(sx, w, parts, form):
    """the arguments of a path"""
    if form == "parts" and parts:
        return [w.base] + parts
    if form == "mixed" and len(parts) > 1:
        return [w.abs(parts[:1]), sx.scat(*[x for p in parts[1:] for x in ("/", p)][1:])]
    if form == "back":
        return [sx.scat(w.base.replace("/", "\\"), *[sx.scat("\\", p) for p in parts])]
    if form == "trail":
        return [sx.scat(w.abs(parts), "/")]
    return [w.abs(parts)]


def setup(sx, nws, pps, here=None):
    w = World(sx, here)
    ws = names(sx, "w", int(str(nws)[0]), (2,) if "x" in str(nws) else (1,))
    w.add(ws, "d")
    pl = []
    for i, n in enumerate(pps):
        if n[-1] == "x":
            p = names(sx, "p%d_" % i, int(n[0]), (2,))
            w.add(p, "d")
            pl.append(p)
            continue
        p = ws + names(sx, "p%d_" % i, int(n[1:])) if n[0] == "w" else names(sx, "p%d_" % i, int(n))
        w.add(p, "d")
        pl.append(p)
    return w, ws, pl


def rel(sx, nws, pps, depth, form, wid=(1,)):
    w, ws, pl = setup(sx, nws, pps)
    q = names(sx, "q", depth, wid)
    w.install()
    p = U.Edk2Path(w.abs(ws), [w.abs(x) for x in pl])
    got = p.GetEdk2RelativePathFromAbsolutePath(*slash(sx, w, q, form))
    hit = None
    for x in pl:
        if pre(sx, x, q) and (hit is None or len(x) > len(hit)):
            hit = x
            sx.cover("pp")
    if hit is None and pre(sx, ws, q):
        hit = ws
        sx.cover("ws")
    if hit is None:
        sx.check(got is None, "a path outside every root has no EDK2 path")
        sx.cover("none")
        return
    rest = q[len(hit):]
    want = "." if not rest else sx.scat(rest[0], *[sx.scat("/", r) for r in rest[1:]])
    sx.check(got is not None and sx.eq(got, want), "the EDK2 path is what follows the closest package path, or else the workspace")


def absolute(sx, nws, pps, ents, depth, form):
    """a relative path is looked up in the workspace, then in the package paths in order"""
    w, ws, pl = setup(sx, nws, pps)
    for i, n in enumerate(ents):
        w.add((ws, *pl)[int(n[0])] + names(sx, "e%d_" % i, int(n[1:])), "f")
    q = names(sx, "q", depth)
    w.consistent()
    w.install()
    p = U.Edk2Path(w.abs(ws), [w.abs(x) for x in pl])
    args = {"one": [sx.scat(*[x for a in q for x in ("/", a)][1:])], "parts": q, "back": [sx.scat(*[x for a in q for x in ("\\", a)][1:])]}[form]
    got = p.GetAbsolutePathOnThisSystemFromEdk2RelativePath(*args, log_errors=form != "one")
    for r in [ws] + pl:
        if sx.or_(False, *[pre(sx, r + q, e) for e, k in w.fs]):
            sx.check(got is not None and sx.eq(got, w.abs(r + q)), "the first root that has the path decides")
            sx.cover("exists")
            return
    sx.check(got is None, "a path no root has is not found")
    sx.cover("missing")


def package(sx, nws, pps, ents, depth, ext, wid=(1,)):
    """the package of a path is the closest folder with a DEC file, below its root"""
    w, ws, pl = setup(sx, nws, pps)
    roots = [ws] + pl
    for i, n in enumerate(ents):
        w.add(roots[int(n[0])] + names(sx, "e%d_" % i, int(n[1:])) + [ext if i == 0 else "x.dec"], "f")
    q = names(sx, "q", depth, wid)
    w.install()
    p = U.Edk2Path(w.abs(ws), [w.abs(x) for x in pl])
    got = p.GetContainingPackage(slash(sx, w, q, "back" if ext == "y.DEC" else "one")[0])
    root = None
    for r in roots:
        if pre(sx, r, q):
            root = r
            break
    want = None
    if root is not None:
        isdir = sx.or_(False, *[sx.and_(len(e) > len(q) or k == "d", pre(sx, q, e)) for e, k in w.fs])
        n = len(q) if isdir else len(q) - 1
        while n > len(root):
            if sx.or_(False, *[sx.and_(k == "f" and len(e) == n + 1 and e[-1].lower().endswith(".dec"), pre(sx, q[:n], e)) for e, k in w.fs]):
                want = q[n - 1]
                break
            n -= 1
    if want is None:
        sx.check(got is None, "a path outside every package has none")
        sx.cover("nopackage")
    else:
        sx.check(got is not None and sx.eq(got, want), "the package is the closest folder with a DEC file")
        sx.cover("package")


def modules(sx, nws, pps, ents, depth, ext, last=None, wid=(1,)):
    w, ws, pl = setup(sx, nws, pps)
    roots = [ws] + pl
    for i, n in enumerate(ents):
        w.add(roots[int(n[0])] + names(sx, "e%d_" % i, int(n[1:])) + [[ext, "x.inf", "y.inf"][i]], "f")
    q = names(sx, "q", depth, wid) + ([last] if last else [])
    w.consistent()
    w.install()
    p = U.Edk2Path(w.abs(ws), [w.abs(x) for x in pl])
    got = p.GetContainingModules(slash(sx, w, q, "back" if ext == "y.INF" else "one")[0])
    top = None
    for r in roots:
        if pre(sx, r, q) and (top is None or len(r) < len(top)):
            top = r
    want = []
    if top is not None:
        if last and last.lower().endswith(".inf"):
            want = [q]
            sx.cover("inf")
        else:
            n = len(q) - 1
            while n > len(top) and not want:
                want = [e for e, k in w.fs if k == "f" and len(e) == n + 1 and e[-1].lower().endswith(".inf") and pre(sx, q[:n], e)]
                n -= 1
    if len(roots) > 1 and pre(sx, pl[0], q):
        sx.cover("nested")
    sx.cover("module" if want else "nomodule")
    sx.check(len(got) == len(want), "the modules are those of the closest folder that has any, below the outermost root")
    for x in want:
        sx.check(sx.or_(False, *[sx.eq(g, w.abs(x)) for g in got]), "the modules are those of the closest folder that has any, below the outermost root")
    keep = p.PackagePathList
    sx.check(len(keep) == len(pl) and sx.and_(True, *[sx.eq(a, w.abs(b)) for a, b in zip(keep, pl)]), "a query leaves the package paths as they are")


def notabs(sx):
    w, ws, pl = setup(sx, 1, ["1"])
    q = names(sx, "q", 2)
    w.install()
    p = U.Edk2Path(w.abs(ws), [w.abs(x) for x in pl])
    sx.check(sx.attempt(p.GetContainingModules, sx.scat(q[0], "/", q[1])).raised(Exception), "a relative path is refused")
    sx.check(p.GetEdk2RelativePathFromAbsolutePath(None) is None and p.GetAbsolutePathOnThisSystemFromEdk2RelativePath(None) is None, "no path has no conversion")
    sx.check(p.GetEdk2RelativePathFromAbsolutePath(sx.scat(q[0], "/", q[1])) is None, "a relative path is outside every root")


def init(sx, wform, pforms, strict, dirs):
    """package paths are absolute, or below the workspace, or below the current folder, in that order"""
    here = ["cw"]
    w = World(sx, here)
    w.add(here, "d")
    ws = (here if wform == "rel" else []) + names(sx, "w", 1)
    for i, n in enumerate(dirs):
        d = [[], ws, here][int(n[0])] + names(sx, "d%d_" % i, 1 + len(n) - 2)
        w.add(d, n[1])
    w.consistent()
    w.install()
    pin, cand = [], []
    for i, f in enumerate(pforms):
        q = names(sx, "q%d_" % i, 1)
        if f == "abs":
            pin.append(w.abs(q))
            cand.append([q])
        elif f == "absb":
            pin.append(sx.scat(w.base.replace("/", "\\"), "\\", q[0]))
            cand.append([q])
        else:
            pin.append(q[0])
            cand.append([ws + q, here + q])

    def isdir(x):
        return sx.or_(False, *[sx.and_(len(e) > len(x) or k == "d", pre(sx, x, e)) for e, k in w.fs])

    want, bad = [], False
    for c in cand:
        for x in c:
            if isdir(x):
                want.append(x)
                if x[:1] == here:
                    sx.cover("cwd")
                break
        else:
            bad = True
    wsarg = ws[-1] if wform == "rel" else w.abs(ws)
    r = sx.attempt(U.Edk2Path, wsarg, pin, strict)
    if not isdir(ws):
        sx.check(r.raised(NotADirectoryError), "a workspace that is not a folder is refused")
        sx.cover("invalid")
    elif bad and strict:
        sx.check(r.raised(NotADirectoryError), "a package path that is not a folder is refused")
        sx.cover("invalid")
    else:
        sx.check(r.ok, "valid roots are accepted")
        if bad:
            sx.cover("dropped")
        if r.ok:
            got = r.value.PackagePathList
            sx.check(len(got) == len(want) and sx.and_(True, *[sx.eq(a, w.abs(b)) for a, b in zip(got, want)]), "the package paths are the valid ones, in the order given")
            sx.check(sx.eq(r.value.WorkspacePath, w.abs(ws)), "the workspace is the one given")
            sx.cover("init")


def b(**k):
    return k


i = 0
for nws, pps in ((1, []), (1, ["1"]), (2, ["1"]), (1, ["w1"]), (1, ["w1", "w2"]), (1, ["2", "1"]), (2, ["1", "3"]), (1, ["w1", "1", "w2"])):
    for depth in (1, 2, 3, 4):
        form = ["one", "parts", "back", "mixed", "trail"][i % 5]
        i += 1
        suite.add(Case("rel-%s-%s-%d-%s" % (nws, "+".join(pps), depth, form), rel, nws=nws, pps=pps, depth=depth, form=form, bounds=b(ws=nws, package_paths=len(pps), path=depth)))
for nws, pps in ((2, ["w1", "w2", "1"]), (1, ["1", "2", "3"])):
    for depth in (3, 5):
        for form in ("one", "parts", "back", "mixed"):
            suite.add(Case("rel-%s-%s-%d-%s" % (nws, "+".join(pps), depth, form), rel, nws=nws, pps=pps, depth=depth, form=form, bounds=b(ws=nws, package_paths=len(pps), path=depth)), tier="thorough")
i = 0
for nws, pps, ents in ((1, [], ["02"]), (1, ["1"], ["02", "12"]), (1, ["w1"], ["02", "11"]), (1, ["1", "1"], ["22", "11"]), (1, ["w1", "1"], ["02", "13"])):
    for depth in (1, 2, 3):
        form = ["one", "parts", "back"][i % 3]
        i += 1
        suite.add(Case("abs-%d-%s-%s-%d-%s" % (nws, "+".join(pps), "+".join(ents), depth, form), absolute, nws=nws, pps=pps, ents=ents, depth=depth, form=form, bounds=b(package_paths=len(pps), files=len(ents), path=depth)))
    i += 1
for nws, pps, ents, depth in ((1, [], ["01"], 3), (1, [], ["02"], 4), (1, [], ["01", "02"], 4), (1, ["1"], ["11"], 3), (1, ["w1"], ["11", "01"], 4), (1, ["1", "2"], ["22"], 4), (2, ["1"], ["11", "00"], 4), (1, [], ["00"], 2)):
    for ext in ("y.dec", "y.DEC", "y.dsc"):
        if ext != "y.dec" and len(ents) > 1:
            continue
        suite.add(Case("package-%s-%s-%s-%s" % (nws, "+".join(pps), "+".join(ents), ext), package, nws=nws, pps=pps, ents=ents, depth=depth, ext=ext, bounds=b(package_paths=len(pps), files=len(ents), path=depth)))
for nws, pps, ents, depth in ((1, [], ["01"], 3), (1, [], ["01"], 1), (1, [], ["01", "02"], 4), (1, [], ["01", "01"], 3), (1, ["1"], ["11"], 3), (1, ["w1"], ["11"], 4), (1, ["w1", "w2"], ["21"], 4), (1, ["w2", "w1"], ["01"], 3), (1, ["1", "2"], ["12"], 4), (2, ["1"], ["11"], 4), (1, ["w1", "1"], [], 2)):
    for ext in ("y.inf", "y.INF", "y.dec"):
        if ext != "y.inf" and len(ents) != 1:
            continue
        suite.add(Case("modules-%s-%s-%s-%d-%s" % (nws, "+".join(pps), "+".join(ents), depth, ext), modules, nws=nws, pps=pps, ents=ents, depth=depth, ext=ext, bounds=b(package_paths=len(pps), files=len(ents), path=depth)))
for last in ("z.inf", "z.INF", "z.c"):
    suite.add(Case("modules-" + last, modules, nws=1, pps=["1"], ents=["01"], depth=3, ext="y.inf", last=last, bounds=b(path=3)))
suite.add(Case("notabs", notabs, bounds=b(path=2)))
for wform in ("abs", "rel"):
    for pforms, dirs in ((["abs"], ["0d"]), (["rel"], ["1d", "2d"]), (["rel", "abs"], ["1d", "0f"]), (["absb", "rel"], ["0d", "2dd"]), (["rel", "rel"], ["1f", "2d"]), ([], [])):
        for strict in (True, False):
            if wform == "rel" and not strict and len(pforms) < 2:
                continue
            suite.add(Case("init-%s-%s-%s-%s" % (wform, "+".join(pforms), "+".join(dirs), "strict" if strict else "soft"), init, wform=wform, pforms=pforms, strict=strict, dirs=["0d" if wform == "abs" else "2d"] + dirs, bounds=b(package_paths=len(pforms), folders=len(dirs))))
for wid in ((2,), (2, 1), (1, 2)):
    t = "".join(map(str, wid))
    suite.add(Case("rel-widths-" + t, rel, nws=1, pps=["1", "w1"], depth=3, form="one", wid=wid, bounds=b(path=3)))
    suite.add(Case("package-widths-" + t, package, nws=1, pps=["1"], ents=["01"], depth=3, ext="y.dec", wid=wid, bounds=b(path=3)))
    suite.add(Case("modules-widths-" + t, modules, nws=1, pps=["1", "w1"], ents=["01"], depth=3, ext="y.inf", wid=wid, bounds=b(path=3)))
for nws, pps in (("1x", ["1"]), (1, ["1x"]), (1, ["1", "1x"])):
    t = "%s-%s" % (nws, "+".join(pps))
    suite.add(Case("rel-mixed-" + t, rel, nws=nws, pps=pps, depth=3, form="one", wid=(2, 1), bounds=b(path=3)))
    suite.add(Case("package-mixed-" + t, package, nws=nws, pps=pps, ents=["%d1" % len(pps), "01"], depth=3, ext="y.dec", wid=(2, 1), bounds=b(path=3)))
    suite.add(Case("modules-mixed-" + t, modules, nws=nws, pps=pps, ents=["%d1" % len(pps), "01"], depth=3, ext="y.inf", wid=(2, 1), bounds=b(path=3)))
