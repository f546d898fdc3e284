"""P38 external commands: the command given runs once, with its parameters, folder and environment; its output and its outcome reach the caller completely, and no output makes the caller hang."""

import os as _os
import shlex
import signal
import subprocess as _sp
import sys as _sys
import threading as _th
import types as _types

import edk2toollib.utility_functions as U
from harness.shell import words
from sx.case import Case, Suite

suite = Suite()
COVER = ["output", "file", "nonzero", "raised", "undecodable", "dropped", "big", "cwd", "env", "quoted", "found", "missing", "again", "signed", "refused", "nosignature", "nofile"]
ASSUMPTIONS = [
    "In the symbolic runs the process is a stand-in (a command line splitter for words with and without double quotes, a pipe of 64 KiB, an exit code) and a thread runs to its end when it is started; replays run real processes and threads.",
    "The shell is /bin/sh; names of programs and scripts hold letters, digits, blanks and . - _ /.",
    "Passwords, OIDs and EKUs hold no blanks.",
]
REAL = (U.subprocess, U.logging, U.sys, _th.Thread.start, _th.Thread.join, _th.Thread.is_alive)
PIPE = 65536
BIG = (b"0" * 21999 + b"\n") * 3
WORD = "ab.-_"


class Hang(Exception):
    pass


class Log:
    """logging: what is logged at which level"""

    CRITICAL, ERROR, WARNING, INFO, DEBUG, NOTSET = 50, 40, 30, 20, 10, 0

    def __init__(self):
        self.lines = []

    def log(self, level, msg, *a, **k):
        self.lines.append((level, msg))

    def __getattr__(self, n):
        if n in ("debug", "info", "warning", "error", "critical", "exception"):
            return lambda *a, **k: None
        if n == "getLogger":
            return lambda *a: self
        raise AttributeError(n)


class World:
    """a program: what it writes and returns, and what it saw when it ran"""

    def __init__(self, sx, data=b"", code=0, enc="utf-8", act=None, late=False):
        self.sx, self.data, self.code, self.act = sx, data, code, act
        self.root = sx.tmp()
        self.seen = []
        self.log = Log()
        self.hung = False
        w = self
        U.logging = self.log
        U.sys = _types.SimpleNamespace(stdout=_types.SimpleNamespace(encoding=enc), executable=_sys.executable, platform=_sys.platform, version_info=_sys.version_info)

        class Pipe:
            def __init__(self, data):
                self.s, self.n, self.closed = w.sx.stream(data), len(data), False

            def readline(self, *a):
                return self.s.readline(*a)

            def read(self, *a):
                return self.s.read(*a)

            def __iter__(self):
                while True:
                    x = self.readline()
                    if len(x) == 0:
                        return
                    yield x

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def close(self):
                self.closed = True

        class Popen:
            """the stand-in"""

            def __init__(self, cmd, stdout=None, stderr=None, cwd=None, shell=False, env=None, close_fds=True, **k):
                line = words(cmd) if shell else list(cmd)
                w.seen.append(dict(line=line, cwd=_os.getcwd() if cwd is None else cwd, env=_os.environ if env is None else env, err=stderr == _sp.STDOUT or stdout == stderr == _sp.DEVNULL))
                self.returncode, self.code = None, w.code
                if w.act and w.act(line) is not None:
                    self.code = 2
                self.stdout = Pipe(w.data) if stdout == _sp.PIPE else None

            def wait(self, timeout=None):
                if late and self.stdout is not None and self.stdout.n > PIPE:
                    for t in list(w.pending):
                        w.go(t)
                if self.stdout is not None and not self.stdout.closed and self.stdout.n - self.stdout.s.tell() > PIPE:
                    w.hung = True
                    raise Hang()
                self.returncode = self.code
                return self.code

            def poll(self):
                return self.wait()

            def communicate(self, *a, **k):
                x = None if self.stdout is None else self.stdout.read()
                self.wait()
                return x, None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()

        class RealPopen(_sp.Popen):
            def __init__(self, *a, **k):
                super().__init__(*a, start_new_session=True, **k)
                self.watch = _th.Timer(5, self.stop)
                self.watch.daemon = True
                self.watch.start()

            def stop(self):
                w.hung = True
                _os.killpg(self.pid, signal.SIGKILL)

            def wait(self, timeout=None):
                r = super().wait(timeout)
                self.watch.cancel()
                return r

        U.subprocess = _types.SimpleNamespace(PIPE=_sp.PIPE, STDOUT=_sp.STDOUT, DEVNULL=_sp.DEVNULL, Popen=Popen if sx.symbolic else RealPopen, CalledProcessError=_sp.CalledProcessError)
        self.pending, asked = [], []

        def start(t):
            w.pending.append(t)

        def join(t, timeout=None):
            # a thread that gets no time of its own before someone waits for its end; the first limited wait ends too early
            if t in w.pending and (timeout is None or t in asked):
                w.go(t)
            asked.append(t)

        if late:
            _th.Thread.start = lambda t: REAL[3](t) if isinstance(t, _th.Timer) else start(t)
            _th.Thread.join = lambda t, timeout=None: REAL[4](t, timeout) if isinstance(t, _th.Timer) else join(t, timeout)
            _th.Thread.is_alive = lambda t: REAL[5](t) if isinstance(t, _th.Timer) else t in w.pending
        elif sx.symbolic:
            _th.Thread.start = lambda t: t.run()
            _th.Thread.join = lambda t, timeout=None: None

    def go(self, t):
        self.pending.remove(t)
        t.run()

    def script(self, name, body=""):
        """the program, as a real file"""
        d = _os.path.join(self.root, "seen")
        _os.makedirs(d, exist_ok=True)
        if self.sx.symbolic:
            return _os.path.join(self.root, name)
        p = _os.path.join(self.root, name)
        _os.makedirs(_os.path.dirname(p), exist_ok=True)
        with open(_os.path.join(d, "data"), "wb") as f:
            f.write(self.data)
        with open(p, "w") as f:
            f.write("#!/bin/sh\nn=$(ls '%s' | wc -l)\nout='%s'/run$n\n{ pwd; printf '%%s\\n' \"$V\" \"${HOME-none}\" \"$0\" \"$@\"; } > $out\n%s\n/bin/cat '%s/data' >&2\nexit %d\n" % (d, d, body, d, self.code))
        _os.chmod(p, 0o755)
        return p

    def runs(self):
        if self.sx.symbolic:
            return self.seen
        d = _os.path.join(self.root, "seen")
        out = []
        for n in sorted(_os.listdir(d)):
            if n.startswith("run"):
                with open(_os.path.join(d, n)) as f:
                    t = f.read().split("\n")[:-1]
                out.append(dict(line=t[3:], cwd=t[0], env={"V": t[1], "HOME": t[2]}, err=True))
        return out

    def __enter__(self):
        return self

    def __exit__(self, *a):
        restore()


def restore():
    U.subprocess, U.logging, U.sys, _th.Thread.start, _th.Thread.join, _th.Thread.is_alive = REAL


def same(sx, got, want):
    return len(got) == len(want) and all(sx.eq(a, b) for a, b in zip(got, want))


def lines(text):
    """the lines of an output, as they are logged"""
    out = text.split("\n")
    if len(out[-1]) == 0:
        out.pop()
    return [x.rstrip() for x in out]


# ------------------------------------------------------------------ output and outcome
def output(sx, n, kind, enc=None, where="both", runs=1, late=False):
    """all of the output, once and in order, to every place asked for"""
    data = sx.bytes("d", n) if n else b""
    if kind == "ascii":
        sx.assume(sx.and_(*[sx.and_(data[i] < 0x80, data[i] != 0x0D) for i in range(n)]))
    if kind == "big":
        data = sx.cat(BIG, data) if n else BIG
        sx.assume(sx.and_(*[sx.and_(b < 0x80, b != 0x0D) for b in (data[-n:] if n else b"")]))
    errors = "strict" if kind in ("ascii", "big", "strict") else kind
    code = sx.int("code", 0, 255)
    rais = sx.bool("raise")
    level = sx.pick("level", [10, 20, 30]) if kind != "big" else 20
    with World(sx, data, code, enc, late=late) as w:
        exe = w.script("tool")
        f = _os.path.join(w.root, "out.txt") if where in ("file", "both") else None
        s = sx.textstream() if where in ("stream", "both") else None
        try:
            text = data.decode(enc or "utf-8", errors)
        except UnicodeDecodeError:
            text = None
        for k in range(runs):
            del w.log.lines[:]
            r = sx.attempt(U.RunCmd, exe, "x", outfile=f, outstream=s, logging_level=level, raise_exception_on_nonzero=rais, encodingErrors=errors)
            sx.check(not w.hung, "the caller does not wait forever")
            seen = w.runs()
            sx.check(len(seen) == k + 1 and same(sx, seen[k]["line"], [exe, "x"]) and seen[k]["err"], "the command runs once; its errors are part of its output")
            if text is None:
                sx.check(r.raised(UnicodeDecodeError), "output that cannot be decoded is reported")
                sx.cover("undecodable")
                continue
            if code != 0 and rais:
                sx.check(r.raised(Exception) and not r.raised(UnicodeError), "a failure is raised if that was asked for")
                sx.cover("raised")
            else:
                sx.check(r.ok and sx.eq(r.value, code), "the exit code of the command is returned")
                sx.cover("nonzero" if code != 0 else "output")
            if f:
                sx.check(sx.exists(f) and sx.eq(sx.read_text(f), text), "the file holds exactly the output of the command")
                sx.cover("file")
            if s is not None:
                sx.check(sx.eq(s.getvalue(), sx.scat(*[text] * (k + 1))), "the stream gets exactly the output of the command")
            if kind == "big":
                sx.cover("big")
            else:
                want = lines(text)
                have = [m for lv, m in w.log.lines if lv == level]
                at = [i for i in range(len(have) - len(want) + 1) if same(sx, have[i : i + len(want)], want)]
                sx.check(len(at) > 0, "each line of the output is logged, in order, at the level given")
            if k:
                sx.cover("again")


def undecodable(sx, errors):
    """output that cannot be decoded, and more of it than a pipe holds"""
    bad = sx.bytes("d", 2)
    code = sx.int("code", 0, 255)
    with World(sx, sx.cat(bad, b"\n", BIG), code, "utf-8") as w:
        exe = w.script("tool")
        f = _os.path.join(w.root, "out.txt")
        r = sx.attempt(U.RunCmd, exe, "x", outfile=f, encodingErrors=errors)
        sx.check(not w.hung, "the caller does not wait forever")
        try:
            bad.decode("utf-8")
        except UnicodeDecodeError:
            if errors == "strict":
                sx.check(r.raised(UnicodeDecodeError), "output that cannot be decoded is reported")
                sx.cover("undecodable")
                return
        sx.check(r.ok and sx.eq(r.value, code), "the exit code of the command is returned")
        sx.cover("big")


def dropped(sx, big):
    """nothing is captured if that was not asked for"""
    n = 2
    data = sx.bytes("d", n)
    code = sx.int("code", 0, 255)
    rais = sx.bool("raise")
    if big:
        data = sx.cat(BIG, data)
    with World(sx, data, code, "utf-8") as w:
        exe = w.script("tool")
        f = _os.path.join(w.root, "out.txt")
        s = sx.textstream()
        r = sx.attempt(U.RunCmd, exe, "x", capture=False, outfile=f, outstream=s, raise_exception_on_nonzero=rais)
        sx.check(not w.hung, "the caller does not wait forever")
        sx.check(len(w.runs()) == 1, "the command runs once")
        sx.check(not sx.exists(f) and sx.eq(s.getvalue(), ""), "nothing is captured")
        sx.check(r.raised(Exception) if code != 0 and rais else r.ok and sx.eq(r.value, code), "the exit code of the command is returned or raised")
        sx.cover("dropped")


def nofile(sx, n):
    """the file cannot be written"""
    data = sx.bytes("d", n) if n < 10 else BIG
    with World(sx, data, 0, "utf-8") as w:
        exe = w.script("tool")
        r = sx.attempt(U.RunCmd, exe, "x", outfile=_os.path.join(w.root, "no", "out.txt"))
        sx.check(not w.hung, "the caller does not wait forever")
        sx.check(len(w.runs()) == 1 and r.raised(OSError), "a file that cannot be written is reported")
        sx.cover("nofile")


# ------------------------------------------------------------------ command lines
def command(sx, n, m, form):
    """the program and its parameters"""
    name = sx.text("name", n, alphabet="ab .-")
    sx.assume(sx.and_(name[0] != " ", name[n - 1] != " ", name[0] != ".", name[0] != "-"))
    q = sx.pick("quotes", ["", '"', "'"])
    par = sx.text("par", m, alphabet='a"b =')
    sx.assume((sum(1 for c in par if c == '"') % 2) == 0)
    with World(sx, b"", 0, "utf-8") as w:
        exe = w.script(name)
        given = sx.scat(q, exe, q)
        p = None if form == "none" else par if form == "bare" else sx.scat(" ", par, "\n ")
        r = sx.attempt(U.RunCmd, given, p)
        want = [exe] + ([] if p is None else words(par) if sx.symbolic else shlex.split(par))
        seen = w.runs()
        sx.check(r.ok and r.value == 0, "a command that succeeds is no failure")
        sx.check(len(seen) == 1 and same(sx, seen[0]["line"], want), "the program given runs with the parameters given")
        if " " in name:
            sx.cover("quoted")


def context(sx, n):
    """folder and environment of the command"""
    v = sx.text("v", n, alphabet="ab =;'\"") if n else ""
    own = sx.bool("own")
    cd = sx.pick("cwd", [None, "sub", "a b"])
    close = sx.bool("close")
    with World(sx, b"", 0, "utf-8") as w:
        exe = w.script("tool")
        for d in ("sub", "a b"):
            _os.makedirs(_os.path.join(w.root, d), exist_ok=True)
        env = {"V": v, "PATH": "/usr/bin:/bin"} if own else None
        here = _os.getcwd()
        old = _os.environ.get("HOME")
        _os.environ["HOME"] = "h"
        try:
            r = sx.attempt(U.RunCmd, exe, "x", workingdir=_os.path.join(w.root, cd) if cd else None, environ=env, close_fds=close)
            seen = w.runs()
            home = seen[0]["env"].get("HOME", "none") if seen else None
        finally:
            if old is None:
                del _os.environ["HOME"]
            else:
                _os.environ["HOME"] = old
        sx.check(r.ok and r.value == 0 and len(seen) == 1, "the command runs once")
        sx.check(_os.path.samefile(seen[0]["cwd"], _os.path.join(w.root, cd) if cd else here), "the command runs in the folder given")
        sx.check(_os.getcwd() == here, "the folder of the caller does not change")
        sx.check(home == ("none" if own else "h"), "an environment that is given replaces that of the caller")
        if own:
            sx.check(sx.eq(seen[0]["env"]["V"], v), "the command gets the environment given")
            sx.check(sx.eq(env["V"], v) and len(env) == 2, "the environment given is not changed")
            sx.cover("env")
        if cd:
            sx.cover("cwd")


# ------------------------------------------------------------------ python scripts
RECORD = "import os, sys\nd = %r\nwith open(os.path.join(d, 'run%%d' %% len(os.listdir(d))), 'w') as f:\n    f.write('\\n'.join([os.getcwd(), '', '', sys.executable] + sys.argv) + '\\n')\nsys.stdout.write(%r)\nsys.exit(%d)\n"


def python(sx, script, q, where, m):
    """a script is found as given, in the folder of the caller or on the path, in this order"""
    dirs = ["p1", "p 2", "x/../p3"]
    has = [sx.bool("has%d" % i) for i in range(4)] if where == "search" else [False] * 4
    fold = sx.int("folder", 0, 4) if where == "search" else 0
    par = sx.text("par", m, alphabet="a =") if m else ""
    blank = sx.bool("blank")
    code = sx.int("code", 0, 3)
    rais = sx.bool("raise")
    with World(sx, b"out\n", code, "utf-8") as w:
        d = _os.path.join(w.root, "seen")
        _os.makedirs(d, exist_ok=True)
        _os.makedirs(_os.path.join(w.root, "x"), exist_ok=True)
        w.act = lambda line: None if _os.path.isfile(line[1]) else 2
        here = _os.getcwd()
        roots = [_os.path.join(w.root, x) for x in ["here"] + dirs]
        text = RECORD % (d, "out\n", 0 if sx.symbolic else code)
        for i, x in enumerate(roots):
            x = _os.path.normpath(x)
            _os.makedirs(x, exist_ok=True)
            if has[i]:
                _os.makedirs(_os.path.dirname(_os.path.join(x, script)), exist_ok=True)
                with open(_os.path.join(x, script), "w") as f:
                    f.write(text)
            elif fold == i + 1:
                _os.makedirs(_os.path.join(x, script))
        given = script
        if where == "abs":
            given = _os.path.join(w.root, "abs dir", script)
            _os.makedirs(_os.path.dirname(given), exist_ok=True)
            with open(given, "w") as f:
                f.write(text)
        s = sx.textstream()
        f = _os.path.join(w.root, "out.txt")
        oldpath = _os.environ["PATH"]
        _os.makedirs(_os.path.join(w.root, "work"), exist_ok=True)
        try:
            _os.chdir(roots[0])
            _os.environ["PATH"] = _os.pathsep.join(roots[1:])
            r = sx.attempt(U.RunPythonScript, q + given + q, sx.scat(" ", par, " ") if blank else par, workingdir=_os.path.join(w.root, "work"), outfile=f, outstream=s, raise_exception_on_nonzero=rais)
        finally:
            _os.chdir(here)
            _os.environ["PATH"] = oldpath
        sx.check(not w.hung, "the caller does not wait forever")
        seen = w.runs()
        at = [_os.path.join(_os.path.normpath(x), script) for x, h in zip(roots, has) if h]
        want = given if where == "abs" else at[0] if at else None
        if want is None:
            if sx.symbolic:
                sx.check(len(seen) == 1 and same(sx, seen[0]["line"][:2], [_sys.executable, script]), "a script that is nowhere is left to the interpreter")
            sx.check(r.raised(Exception) if rais else r.ok and r.value != 0, "a script that is nowhere is a failure")
            sx.cover("missing")
            return
        sx.check(len(seen) == 1 and len(seen[0]["line"]) >= 2 and seen[0]["line"][0] == _sys.executable, "the script runs once, with this interpreter")
        sx.check(sx.eq(_os.path.normpath(seen[0]["line"][1]), _os.path.normpath(want)), "the first script found is run")
        sx.check(same(sx, seen[0]["line"][2:], words(par)), "the script gets the parameters given")
        sx.check(_os.path.samefile(seen[0]["cwd"], _os.path.join(w.root, "work")), "the script runs in the folder given")
        sx.check(r.raised(Exception) if code != 0 and rais else r.ok and sx.eq(r.value, code), "the exit code of the script is returned or raised")
        sx.check(sx.eq(s.getvalue(), "out\n") and sx.eq(sx.read_text(f), "out\n"), "the output of the script is captured")
        sx.cover("found")


# ------------------------------------------------------------------ signtool
def signtool(sx, how, n):
    """what is signed, with what, and where the signature goes"""
    tool = sx.pick("tool", ["tool", "a tool", "none"])
    pfx = sx.scat("k", sx.text("pfx", n, alphabet="a .b"), ".pfx") if n else "k.pfx"
    pw = sx.text("pw", 2, alphabet=WORD) if sx.bool("haspw") else None
    eku = sx.text("eku", 2, alphabet="012.") if how == "detached" and sx.bool("haseku") else None
    oid = sx.text("oid", 2, alphabet="012.") if how == "detached" and sx.bool("hasoid") else None
    src = sx.pick("src", ["in/f.bin", "i n/f", "out dir/f.x.y"])
    dst = sx.pick("dst", ["out/s.p7", "out dir/s g.sig", "same"])
    code = sx.int("code", 0, 255)
    made = sx.bool("made")
    old = sx.bool("old")
    st = {}
    with World(sx, b"", code, "utf-8") as w:
        def act(line):
            for i, x in enumerate(line):
                if x == "/p7":
                    st["dir"] = line[i + 1]
            if made and "dir" in st:
                with open(_os.path.join(st["dir"], _os.path.basename(line[-1]) + ".p7"), "w") as f:
                    f.write("signature")

        w.act = act
        body = 'prev=\nd=\nl=\nfor x in "$@"; do [ "$prev" = /p7 ] && d=$x; prev=$x; l=$x; done\n' + ('[ -n "$d" ] && printf signature > "$d/${l##*/}.p7"\n' if made else "")
        exe = w.script("tool" if tool == "none" else tool, body)
        if sx.symbolic:
            with open(exe, "w") as f:
                f.write("x")
        if tool == "none":
            exe = exe + "x"
        for d in ("in", "i n", "out", "out dir"):
            _os.makedirs(_os.path.join(w.root, d), exist_ok=True)
        src = _os.path.join(w.root, src)
        dst = _os.path.join(w.root, "out", _os.path.basename(src) + ".p7") if dst == "same" else _os.path.join(w.root, dst)
        for p, c in ((src, "content"), (dst, "before")):
            if p == src or old:
                with open(p, "w") as f:
                    f.write(c)
        key = sx.scat(w.root, "/", pfx)
        if how == "detached":
            k = {} if oid is None else {"Oid": oid}
            r = sx.attempt(U.DetachedSignWithSignTool, exe, src, dst, key, pw, Eku=eku, **k)
        else:
            r = sx.attempt(U.CatalogSignWithSignTool, exe, src, key, pw)
        seen = w.runs()
        with open(src) as f:
            sx.check(f.read() == "content", "what is signed does not change")
        if tool == "none":
            sx.check(len(seen) == 0 and r.ok and r.value != 0, "a missing tool is reported")
            sx.cover("refused")
            return
        sx.check(len(seen) == 1, "the tool runs once")
        line = seen[0]["line"]
        opts = [["/fd", "sha256" if how == "detached" else "SHA256"], ["/f", key]] + ([["/p", pw]] if pw is not None else []) + ([["/u", eku]] if eku is not None else [])
        if how == "detached":
            opts += [["/p7ce", "DetachedSignedData"], ["/p7co", oid if oid is not None else "1.2.840.113549.1.7.2"], ["/p7", _os.path.dirname(dst)]]
        else:
            opts += [["/a"]]
            sx.check(_os.path.samefile(seen[0]["cwd"], _os.path.dirname(src)), "the catalog is signed in its folder")
        sx.check(line[0] == exe and line[1] == "sign" and line[-1] == src, "the file given is signed by the tool given")
        mid = line[2:-1]
        for o in opts:
            at = [i for i in range(len(mid)) if same(sx, mid[i : i + len(o)], o)]
            sx.check(len(at) == 1, "key, password, digest and folder are those given")
        rest = len(mid) - sum(len(o) for o in opts)
        sx.check(rest == sum(1 for x in mid if x in ("/debug", "/v")), "the tool gets nothing that was not asked for")
        now = None
        if _os.path.exists(dst):
            with open(dst) as f:
                now = f.read()
        if how != "detached":
            sx.check(r.ok and sx.eq(r.value, code), "the exit code of the tool is returned")
            sx.cover("signed" if code == 0 else "refused")
            return
        if code != 0:
            sx.check(r.ok and sx.eq(r.value, code), "the exit code of the tool is returned")
            sx.cover("refused")
        elif not made and not (_os.path.basename(dst) == _os.path.basename(src) + ".p7" and old):
            sx.check(r.raised(Exception) and now == ("before" if old else None), "a signature that was not made is reported")
            sx.cover("nosignature")
        elif made:
            sx.check(r.ok and r.value == 0 and now == "signature", "the signature is where it was asked for")
            left = _os.listdir(_os.path.dirname(dst))
            sx.check(_os.path.basename(src) + ".p7" == _os.path.basename(dst) or _os.path.basename(src) + ".p7" not in left, "no other copy of the signature is left")
            sx.cover("signed")


for kind, ns in (("ascii", (0, 1, 2, 3, 4, 6)), ("strict", (1, 2, 3)), ("replace", (2, 3)), ("ignore", (2, 3)), ("big", (0, 2))):
    for n in ns:
        q = n <= 3 and (kind, n) not in (("strict", 3), ("replace", 3), ("ignore", 3))
        suite.add(Case("output-%s-%d" % (kind, n), output, n=n, kind=kind, bounds={"bytes": n}), tier="quick" if q else "thorough")
for where in ("none", "file", "stream"):
    suite.add(Case("output-" + where, output, n=2, kind="ascii", where=where, bounds={"bytes": 2}))
for enc in ("utf-8", "latin-1", "ascii"):
    suite.add(Case("output-enc-" + enc, output, n=2, kind="strict", enc=enc, bounds={"bytes": 2}))
for i, kind in enumerate(("ascii", "replace")):
    suite.add(Case("output-late-%s" % kind, output, n=2, kind=kind, late=True, bounds="2 bytes; the reader runs as late as it can"))
suite.add(Case("output-again", output, n=2, kind="ascii", runs=2, bounds={"bytes": 2, "runs": 2}))
for errors in ("strict", "replace"):
    suite.add(Case("undecodable-" + errors, undecodable, errors=errors, bounds={"bytes": 80002}))
for big in (False, True):
    suite.add(Case("dropped-%s" % big, dropped, big=big, bounds={"bytes": 80002 if big else 2}))
for n in (2, 80000):
    suite.add(Case("nofile-%d" % n, nofile, n=n, bounds={"bytes": n}))
for n, m in ((1, 0), (3, 0), (2, 2), (1, 4)):
    for form in ("none", "bare", "blanks"):
        if form == "none" and m:
            continue
        suite.add(Case("command-%d-%d-%s" % (n, m, form), command, n=n, m=m, form=form, bounds={"chars": n + m}), tier="quick" if m < 4 or form == "bare" else "thorough")
for n in (0, 1, 2, 3):
    suite.add(Case("context-%d" % n, context, n=n, bounds={"chars": n}), tier="quick" if n < 3 else "thorough")
for name in ("s.py", "s t.py", "d/s.py"):
    for q in ("", '"', "'"):
        for where in ("search", "abs"):
            m = 2 if name == "s.py" and q == "" else 0
            suite.add(Case("python-%s-%s-%s" % (name, {"": "bare", '"': "double", "'": "single"}[q], where), python, script=name, q=q, where=where, m=m, limit=30, bounds={"folders": 4, "chars": m}), tier="quick" if where == "abs" or q == "" or name == "s t.py" else "thorough")
for how in ("detached", "catalog"):
    for n in (0, 2):
        suite.add(Case("sign-%s-%d" % (how, n), signtool, how=how, n=n, bounds={"chars": n + 6}), tier="quick" if n == 0 or how == "catalog" else "thorough")
