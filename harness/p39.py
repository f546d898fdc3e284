"""P39 Visual Studio tools: vswhere is the one installed, on the path or downloaded with the right hash; installs, versions and variables are those vswhere and vcvarsall report for what was asked."""

import collections as _col
import io as _io
import os as _os
import types as _types
import urllib.error as _ue
from pathlib import Path as _Path

import edk2toollib.utility_functions as U
import edk2toollib.windows.locate_tools as L
from harness.shell import words
from sx.case import Case, Suite

suite = Suite()
COVER = ["bin", "path", "downloaded", "badhash", "broken", "unreachable", "nowindows", "kept", "listed", "nothing", "failed", "unsupported", "version", "vars", "novars", "novs", "vcfailed", "missing", "sdk", "host", "nohost", "current", "newest", "notool", "novswhere", "near"]
ASSUMPTIONS = [
    "The host, the network, vswhere.exe and cmd.exe are stand-ins, in replays as well: they do not exist on this system. Files are real.",
    "The hash expected is that of a content of the harness; hashing is an injective uninterpreted function in the symbolic runs.",
]
REAL = (L.GetHostInfo, L.resources, L.urllib, L.RunCmd, L.subprocess)
SHA = "__SHA256"
REALSHA = getattr(L, SHA, None)
GOOD = b"go"
VERSIONS = {"vs2017": (15, 16), "vs2019": (16, 17), "vs2022": (17, 18), "vs2026": (18, 19)}
TEXT = "abAB12 .;:()"


Host = _col.namedtuple("Host", "os arch bit")


class World:
    def __init__(self, sx, host="Windows"):
        self.sx, self.root = sx, sx.tmp()
        self.urls, self.runs, self.calls = [], [], []
        self.net = None
        self.out, self.code = "", 0
        self.vcout, self.vcerr, self.vccode = "", "", 0
        w = self
        L.GetHostInfo = lambda: Host(host, "x86", "64")
        if sx.symbolic:
            sx.e.path_state["uf_all"] = True
        L.resources = _types.SimpleNamespace(files=lambda n: _Path(self.root) / "lib")
        self.bin = _os.path.join(self.root, "lib", "bin", "vswhere.exe")

        class Response:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            close = __exit__

            def read(self, *a):
                if w.net == "broken":
                    raise ConnectionResetError("reset")
                if getattr(self, "done", False):
                    return b""
                self.done = True
                return w.net

        def urlopen(url, *a, **k):
            w.urls.append(url)
            if w.net == "http":
                raise _ue.HTTPError(url, 404, "not found", None, None)
            if w.net == "url":
                raise _ue.URLError("no route")
            return Response()

        L.urllib = _types.SimpleNamespace(request=_types.SimpleNamespace(urlopen=urlopen), error=_ue)

        def run(cmd, params, outstream=None, **k):
            w.runs.append((cmd, params))
            if outstream is not None:
                outstream.write(w.out)
            return w.code

        L.RunCmd = run

        class Text:
            """bytes in the code page of Windows"""

            def __init__(self, t):
                self.t = t

            def decode(self, *a, **k):
                return self.t

        class Popen:
            def __init__(self, cmd, stdout=None, stderr=None, **k):
                w.calls.append(cmd)
                self.stdout, self.stderr = _io.BytesIO(), _io.BytesIO()
                self.returncode = None

            def communicate(self, *a, **k):
                self.wait()
                return Text(w.vcout), Text(w.vcerr)

            def wait(self, *a, **k):
                self.returncode = w.vccode
                return w.vccode

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        L.subprocess = _types.SimpleNamespace(Popen=Popen, PIPE=-1, STDOUT=-2, DEVNULL=-3)

    def expect(self, digest):
        setattr(L, SHA, digest)

    def file(self, path, content=b"there"):
        _os.makedirs(_os.path.dirname(path), exist_ok=True)
        return self.sx.write(_os.path.relpath(path, self.root), content)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        L.GetHostInfo, L.resources, L.urllib, L.RunCmd, L.subprocess = REAL
        setattr(L, SHA, REALSHA)


def sha(b):
    import hashlib

    return hashlib.sha256(b).hexdigest()


def content(sx, kind, w):
    """what the network has: a fixed right or wrong file, or any"""
    if kind == "any":
        w.expect(sha(GOOD))
        return sx.bytes("content", len(GOOD))
    w.expect(sha(GOOD))
    return {"good": GOOD, "bad": b"bad", "empty": b""}[kind]


# ------------------------------------------------------------------ vswhere.exe
def where(sx, n):
    """where vswhere is looked for, and what is downloaded"""
    host = sx.pick("host", ["Windows", "Linux"])
    has = [sx.bool("has%d" % i) for i in range(n + 1)]
    fold = sx.int("folder", 0, n)
    net = sx.pick("net", ["good", "bad", "empty", "broken", "http", "url"])
    fail = sx.bool("fail")
    made = sx.bool("made")
    with World(sx, host) as w:
        dirs = [_os.path.join(w.root, x) for x in ("p1", "p 2", "p3")[:n]]
        files = [w.bin] + [_os.path.join(d, "vswhere.exe") for d in dirs]
        for i, p in enumerate(files):
            if i or made:
                _os.makedirs(_os.path.dirname(p), exist_ok=True)
            if has[i]:
                w.file(p)
            elif i and fold == i:
                _os.makedirs(p)
        w.net = content(sx, net, w) if net in ("good", "bad", "empty") else net
        old = _os.environ["PATH"]
        try:
            _os.environ["PATH"] = _os.pathsep.join(dirs)
            r = sx.attempt(L.GetVsWherePath, fail)
        finally:
            _os.environ["PATH"] = old
        if host != "Windows":
            sx.check(r.raised(EnvironmentError) and not w.urls, "there is no vswhere elsewhere")
            sx.cover("nowindows")
            return
        there = [p for p, h in zip(files, has) if h]
        if there:
            sx.check(r.ok and sx.eq(str(r.value), there[0]) and not w.urls, "vswhere is that of the library, or else the first on the path")
            sx.cover("bin" if has[0] else "path")
        elif net == "good":
            sx.check(r.ok and sx.eq(str(r.value), w.bin) and sx.exists(w.bin) and sx.eq(sx.read_bytes(w.bin), GOOD) and len(w.urls) == 1, "vswhere is downloaded if it is nowhere")
            sx.cover("downloaded")
        else:
            sx.check(not sx.exists(w.bin), "nothing but the right file is kept")
            sx.check(r.ok and (r.value is None or not fail), "a failure to get vswhere is reported")
            sx.cover({"bad": "badhash", "empty": "badhash", "broken": "broken"}.get(net, "unreachable"))


def download(sx, default, kind):
    """a file is kept only if its hash is right"""
    old = sx.bool("old")
    made = sx.bool("made")
    with World(sx) as w:
        d = _os.path.dirname(w.bin) if default else _os.path.join(w.root, "x", "some where")
        f = _os.path.join(d, "vswhere.exe")
        c = content(sx, kind, w)
        if old:
            w.file(f, c)
            w.net = GOOD
        else:
            w.net = c
            if made:
                _os.makedirs(d, exist_ok=True)
        r = sx.attempt(L._DownloadVsWhere, None if default else d)
        good = sx.eq(c, GOOD)
        if good:
            sx.check(r.ok and sx.exists(f) and sx.eq(sx.read_bytes(f), GOOD), "a file with the right hash is kept")
            sx.cover("kept")
        else:
            sx.check(r.raised(Exception) and not sx.exists(f), "a file with another hash is removed and reported")
            sx.cover("badhash")
        sx.check(len(w.urls) == (0 if old else 1), "the file is downloaded once, if it is not there")


def near(sx, cut):
    """a hash that differs in one digit is another hash"""
    old = sx.bool("old")
    with World(sx) as w:
        h = sha(GOOD)
        w.expect(sx.scat(h[:cut], sx.ite(h[cut] == "0", "1", "0"), h[cut + 1 :]))
        d = _os.path.dirname(w.bin)
        if old:
            w.file(w.bin, GOOD)
        w.net = GOOD
        r = sx.attempt(L._DownloadVsWhere, d)
        sx.check(r.raised(Exception) and not sx.exists(w.bin), "a file with another hash is removed and reported")
        sx.cover("near")


# ------------------------------------------------------------------ installs
def ask(sx, params, product, version):
    """the parameters of vswhere"""
    ws = words(params)
    opts, i = {}, 0
    while i < len(ws):
        k = ws[i]
        if k in ("-products", "-version", "-property"):
            opts[k] = ws[i + 1]
            i += 1
        else:
            opts[k] = True
        i += 1
    sx.check(sorted(opts) == sorted(["-nologo", "-all", "-sort", "-property"] + (["-products"] if product is not None else []) + (["-version"] if version else [])), "vswhere lists all installs, newest first")
    sx.check(opts["-property"] == "installationPath" and (product is None or sx.eq(opts["-products"], product)), "vswhere is asked for the product given")
    if version:
        lo, hi = VERSIONS[version]
        parts = opts["-version"].strip("[)").split(",")
        sx.check(parts == ["%d.0" % lo, "%d.0" % hi], "vswhere is asked for the version given")


def installs(sx, n, m, kind):
    """all installs, in the order of vswhere"""
    with World(sx) as w:
        if m == 0 and sx.bool("novswhere"):
            w.expect(sha(GOOD))
            w.net = b"bad"
            old = _os.environ["PATH"]
            try:
                _os.environ["PATH"] = w.root
                r = sx.attempt(sx.pick("f", [L.FindWithVsWhere, L.FindAllWithVsWhere]))
            finally:
                _os.environ["PATH"] = old
            sx.check(r.raised(EnvironmentError) and not w.runs, "without vswhere nothing is claimed about installs")
            sx.cover("novswhere")
            return
        w.file(w.bin)
        lines = []
        for i in range(m):
            t = sx.text("p%d" % i, n, alphabet=TEXT)
            sx.assume(sx.and_(t[0] != " ", t[n - 1] != " "))
            lines.append(t)
        end = sx.pick("end", ["\n", "\r\n", ""])
        w.out = sx.scat(*[x for i, t in enumerate(lines) for x in (t, ("\r\n" if end == "\r\n" else "\n") if i < m - 1 else end)])
        w.code = sx.int("code", 0, 255)
        version = None
        if kind == "free":
            version = sx.text("v", 6, alphabet="vVsS2017963")
        elif kind:
            version = sx.pick("v", ["vs2017", "VS2019", "Vs2022", "vs2026", "vs2015", "", "2019"])
        k = {} if version is None else {"vs_version": version}
        product = None
        if sx.bool("hasproduct"):
            product = k["products"] = sx.text("product", 3, alphabet="ab.*")
        elif sx.bool("noproduct"):
            k["products"] = None
        else:
            product = "*"
        one = sx.bool("one")
        r = sx.attempt(L.FindWithVsWhere if one else L.FindAllWithVsWhere, **k)
        known = None
        if version is not None:
            for x in VERSIONS:
                if version.lower() == x:
                    known = x
            if known is None:
                sx.check(r.raised(ValueError) and not w.runs, "a version that is not supported is refused")
                sx.cover("unsupported")
                return
            sx.cover("version")
        sx.check(len(w.runs) == 1 and sx.eq(str(w.runs[0][0]), w.bin), "vswhere runs once")
        ask(sx, w.runs[0][1], product, known)
        if w.code != 0:
            sx.check(r.raised(RuntimeError), "a failure of vswhere is reported")
            sx.cover("failed")
        elif m == 0:
            sx.check(r.ok and r.value is None, "no install is reported as such")
            sx.cover("nothing")
        elif one:
            sx.check(r.ok and r.value is not None and sx.eq(r.value, lines[0]), "the newest install is found")
        else:
            sx.check(r.ok and r.value is not None and len(r.value) == m and all(sx.eq(a, b) for a, b in zip(r.value, lines)), "every install is found, newest first")
            sx.cover("listed")


# ------------------------------------------------------------------ variables
def installed(sx, w, m):
    """installs, some of which have a vcvarsall.bat"""
    has = [sx.bool("vc%d" % i) for i in range(m)]
    dirs = [_os.path.join(w.root, "VS %d" % i) for i in range(m)]
    for d, h in zip(dirs, has):
        if h:
            w.file(_os.path.join(d, "VC", "Auxiliary", "Build", "vcvarsall.bat"))
        else:
            _os.makedirs(_os.path.join(d, "VC", "Auxiliary"), exist_ok=True)
    w.file(w.bin)
    w.out = "".join(d + "\r\n" for d in dirs)
    return next((_os.path.join(d, "VC", "Auxiliary", "Build", "vcvarsall.bat") for d, h in zip(dirs, has) if h), None)


def variables(sx, n, m, asked, lines, opts):
    """the variables asked for, as the batch file sets them"""
    with World(sx) as w:
        bat = installed(sx, w, m)
        keys = {"one": ["Path"], "two": ["INCLUDE", "VCToolsDir"], "case": ["include"], "none": [], "same": ["Lib", "LIB"]}[asked]
        names, vals = [], []
        for i in range(lines):
            names.append(sx.pick("k%d" % i, ["Path", "INCLUDE", "Include", "VCToolsDir", "LIB", "PATHEXT"] if not opts else ["PATH"]))
            v = sx.text("v%d" % i, n, alphabet="ab=:; ") if n else ""
            if n:
                sx.assume(sx.and_(v[n - 1] != " ", v[0] != "="))
            vals.append(v)
        sx.assume(len({x.upper() for x in names}) == len(names))
        crlf = opts or sx.bool("crlf")
        e = "\r\n" if crlf else "\n"
        w.vcout = sx.scat("** banner **", e, *[x for k, v in zip(names, vals) for x in (k, "=", v, e)])
        w.vccode = sx.pick("vccode", [0, 1])
        w.vcerr = sx.pick("vcerr", ["", "The input line is too long.\r\n"] if opts else [""])
        arch = sx.pick("arch", [None, "x86_arm64"] if opts else ["arm64"])
        product = sx.pick("product", [None, "P.x"] if opts else [None])
        version = sx.pick("version", [None, "vs2022"] if opts else [None])
        vc = sx.pick("vc", [None, "14.4"] if opts else [None])
        k = {a: b for a, b in (("arch", arch), ("product", product), ("vs_version", version), ("vc_version", vc)) if b is not None}
        given = list(keys)
        r = sx.attempt(L.QueryVcVariables, given, **k)
        sx.check(given == keys, "the list given is not changed")
        ask(sx, w.runs[0][1], product or "*", version)
        if bat is None:
            sx.check(r.raised(ValueError) and not w.calls, "an install without the batch file is reported")
            sx.cover("novars" if m else "novs")
            return
        sx.check(len(w.calls) == 1 and words(w.calls[0]) == [bat, arch or "amd64"] + (["-vcvars_ver=" + vc] if vc else []) + ["&", "set"], "the batch file of the newest install that has one runs, for the architecture and compiler given")
        if w.vccode != 0:
            sx.check(r.raised(RuntimeError), "a failure of the batch file is reported")
            sx.cover("vcfailed")
            return
        want = {}
        for name, v in zip(names, vals):
            if name.upper() in [x.upper() for x in keys]:
                want[name] = v[: n - 1] if n and v[n - 1] == _os.pathsep else v
        if len(want) < len({x.upper() for x in keys}):
            sx.check(r.raised(ValueError), "a variable that is not set is reported")
            sx.cover("missing")
            return
        sx.check(r.ok and sorted(r.value) == sorted(want) and all(sx.eq(r.value[x], want[x]) for x in want), "the variables asked for have the values the batch file sets")
        sx.cover("vars")


def tool(sx, m):
    """a tool of the SDK is searched with the product and architecture given"""
    with World(sx) as w:
        bat = installed(sx, w, m)
        sdk = _os.path.join(w.root, "Kits")
        w.vcout = "WindowsSdkDir=%s\r\nWindowsSDKVersion=10.0.1.0\\\r\n" % sdk
        arch = sx.pick("arch", [None, "x86", "arm64"])
        product = sx.pick("product", [None, "P.x", "Q"])
        exe = w.file(_os.path.join(sdk, "bin", "10.0.1.0", "x64", "t.exe"))
        k = {a: b for a, b in (("arch", arch), ("product", product)) if b is not None}
        old = _os.environ.get("ProgramFiles(x86)")
        _os.environ["ProgramFiles(x86)"] = _os.path.join(w.root, "P86")
        dflt = w.file(_os.path.join(w.root, "P86", "Windows Kits", "10", "bin", "10.0.0.1", "x64", "t.exe"))
        try:
            r = sx.attempt(L.FindToolInWinSdk, "t.exe", **k)
        finally:
            if old is None:
                del _os.environ["ProgramFiles(x86)"]
            else:
                _os.environ["ProgramFiles(x86)"] = old
        sx.check(len(w.runs) == 1, "vswhere runs once")
        ask(sx, w.runs[0][1], product or "*", None)
        if bat is None:
            sx.check(not w.calls and r.ok and r.value is not None and _os.path.samefile(r.value, dflt), "without an install the tool is that of the default folder")
            sx.cover("novars" if m else "novs")
            return
        sx.check(len(w.calls) == 1 and words(w.calls[0])[:2] == [bat, arch or "amd64"], "the batch file runs for the architecture given")
        sx.check(r.ok and r.value is not None and _os.path.samefile(r.value, exe), "the tool of the SDK is found")
        sx.cover("sdk")


FITS = {"x86": (("x86", "32"), ("x86", "64")), "x64": (("x86", "64"),), "amd64": (("x86", "64"),), "arm": (("ARM", "32"), ("ARM", "64")), "arm64": (("ARM", "64"),), "AArch64": (("ARM", "64"),)}


def newest(sx, files, free):
    """of several, the tool of the current SDK, or else the newest, that this host can run"""
    host = sx.pick("host", [("x86", "64"), ("ARM", "64"), ("x86", "32"), ("ARM", "32")] if not free else [("x86", "64")])
    with World(sx) as w:
        L.GetHostInfo = lambda: Host("Windows", *host)
        installed_at = installed(sx, w, 1)
        sx.assume(installed_at is not None)
        sdk = _os.path.join(w.root, "Kits x")
        if free:
            cur = ["10", "0", sx.text("cur", free, alphabet="0123456789"), "0"]
        else:
            cur = sx.pick("cur", [["10", "0", "9", "0"], ["10", "0", "10", "7"], ["9", "9", "9", "9"], ["10", "0", "2", "0"]])
        w.vcout = sx.scat("WindowsSdkDir=%s\r\nWindowsSDKVersion=" % sdk, cur[0], ".", cur[1], ".", cur[2], ".", cur[3], "\\\r\n")
        there = []
        for i, (v, a) in enumerate(files):
            if sx.bool("f%d" % i):
                f = w.file(_os.path.join(sdk, "bin", *[x for x in (v, a) if x], "t.exe"))
                there.append((f, [int(x) for x in v.split(".")] if v else [0] * 4, not a or host in FITS[a]))
        w.file(_os.path.join(sdk, "bin", "99.0.0.0", "t.exe.txt"))
        r = sx.attempt(L.FindToolInWinSdk, "t.exe")
        fit = [x for x in there if x[2]]
        if not fit:
            sx.check(r.ok and r.value is None, "a tool that this host cannot run is not found")
            sx.cover("notool")
            return
        got = [x for x in fit if r.ok and r.value is not None and _os.path.samefile(r.value, x[0])]
        sx.check(len(got) == 1, "a tool that this host can run is found")
        c = [int(x) for x in cur]
        if any(x[1] == c for x in fit):
            sx.check(got[0][1] == c, "the tool of the current SDK is preferred")
            sx.cover("current")
        else:
            sx.check(got[0][1] == max(x[1] for x in fit), "the newest tool is preferred")
            sx.cover("newest")


MACHINES = [("x86_64", "x86", "64"), ("AMD64", "x86", "64"), ("aarch64", "ARM", "64"), ("arm64", "ARM", "64"), ("loongarch64", "LOONGARCH", "64"), ("intel64", "x86", "64"), ("x86_32", "x86", "32"), ("arm32", "ARM", "32"), ("riscv64", None, "64"), ("armv7l", "ARM", None), ("ppc", None, None), ("", None, None)]


def host(sx, machine):
    """operating system, architecture and bits of the host"""
    name, arch, bit = machine
    up = [sx.bool("u%d" % i) if c.isalpha() else False for i, c in enumerate(name)]
    m = sx.scat(*[sx.ite(u, c.upper(), c) for c, u in zip(name, up)]) if name else ""
    system = sx.text("system", 3, alphabet="DarwinLux")
    mac = sx.bool("mac")
    old = U.platform
    U.platform = _types.SimpleNamespace(uname=lambda: _types.SimpleNamespace(system="Darwin" if mac else system, machine=m, node="n", release="r", version="v", processor=""), system=lambda: "Darwin" if mac else system, machine=lambda: m)
    try:
        r = sx.attempt(U.GetHostInfo)
    finally:
        U.platform = old
    if arch is None or bit is None:
        sx.check(r.raised(EnvironmentError), "a host that is not known is reported")
        sx.cover("nohost")
    else:
        sx.check(r.ok and sx.eq(r.value.os, "MacOs" if mac else system) and r.value.arch == arch and r.value.bit == bit, "operating system, architecture and bits are those of the host")
        sx.cover("host")


for machine in MACHINES:
    suite.add(Case("host-" + machine[0], host, machine=machine, bounds={"chars": 3}))
for n in (0, 1, 2, 3):
    suite.add(Case("where-%d" % n, where, n=n, bounds={"folders": n}), tier="quick" if n < 3 else "thorough")
for default in (False, True):
    for kind in ("any", "bad", "empty"):
        suite.add(Case("download-%s-%s" % (default, kind), download, default=default, kind=kind, bounds={"bytes": 2}))
for cut in (0, 31, 63):
    suite.add(Case("near-%d" % cut, near, cut=cut, bounds={"digits": 1}))
for m in (0, 1, 2, 3):
    for n in (1, 3):
        if m == 0 and n > 1:
            continue
        suite.add(Case("installs-%d-%d" % (m, n), installs, m=m, n=n, kind=None, bounds={"installs": m, "chars": n}), tier="quick" if m < 3 else "thorough")
for kind in ("free", "known"):
    suite.add(Case("installs-version-" + kind, installs, m=1, n=2, kind=kind, bounds={"installs": 1, "chars": 6}))
for asked, n, m, lines in (("one", 2, 1, 1), ("one", 0, 2, 2), ("two", 1, 1, 2), ("case", 3, 1, 1), ("none", 1, 1, 1), ("same", 2, 1, 1), ("one", 1, 0, 1), ("one", 1, 3, 1), ("two", 2, 1, 3), ("one", 4, 1, 1)):
    suite.add(Case("variables-%s-%d-%d-%d" % (asked, n, m, lines), variables, opts=False, asked=asked, n=n, m=m, lines=lines, bounds={"installs": m, "variables": lines, "chars": n}), tier="quick" if lines < 3 and n < 4 else "thorough")
for i, (files, free) in enumerate((
    ([("10.0.9.0", "x64"), ("10.0.10.0", "x64"), ("9.9.9.9", "x86")], 0),
    ([("10.0.9.0", "arm64"), ("10.0.10.0", "x86"), ("10.0.2.0", "arm"), ("", "x64")], 0),
    ([("10.0.10.7", "amd64"), ("10.0.10.12", "x64"), ("10.0.9.0", "AArch64")], 0),
    ([("", ""), ("10.0.10.0", ""), ("9.9.9.9", "arm")], 0),
    ([("10.0.9.0", "x64"), ("10.0.10.0", "x64"), ("10.0.123.0", "x64")], 2),
    ([("10.0.9.0", "x64"), ("10.0.123.0", "x86"), ("9.9.9.9", "x64")], 3),
)):
    suite.add(Case("newest-%d" % i, newest, files=files, free=free, bounds={"files": len(files), "chars": free}))
for m in (0, 1, 2):
    suite.add(Case("tool-%d" % m, tool, m=m, bounds={"installs": m}))
suite.add(Case("variables-options", variables, opts=True, asked="one", n=1, m=2, lines=1, bounds={"installs": 2, "variables": 1, "chars": 1}))
