"""P31 Log handlers: every accepted record is written once, in order; colors are added and removed around it and nothing else."""

import logging as _logging

import edk2toollib.log.ansi_handler as A
import edk2toollib.log.file_handler as F
import edk2toollib.log.string_handler as S
from sx.case import Case, Suite

suite = Suite()
COVER = ["plain", "low", "high", "azure", "unknown", "args", "broken", "strip", "keep", "convert", "accepted", "refused", "replaced", "file", "object"]
ASSUMPTIONS = [
    "Time stamps, exception texts and locking are not checked. The Windows console is a stand-in that keeps the attributes it was given.",
    "In the symbolic runs the file of FileHandler is a stand-in; replays use the real file.",
]
ESC = "\033["
NAMES = {"WARNING": 33, "INFO": 36, "DEBUG": 34, "CRITICAL": 97, "ERROR": 31, "STATUS": 32, "PROGRESS": 32, "SECTION": 36}
AZURE = {"CRITICAL": "##[section]", "ERROR": "##[error]"}


def record(name, no, msg, args=()):
    return _logging.makeLogRecord({"name": "n", "levelno": no, "levelname": name, "msg": msg, "args": args})


# ------------------------------------------------------------------ formatter
def colored(sx, azure, mode, n):
    """what the formatter returns, and that the record is as before"""
    name = sx.pick("name", list(NAMES) + ["CUSTOM", "info"])
    no = sx.int("no", 0, 60)
    text = sx.text("m", n, mincp=1, maxcp=0x7E, exclude="%" if mode == "args" else "")
    msg, args, shown = text, (), text
    if mode == "args":
        a = sx.text("a", n, mincp=0x20, maxcp=0x7E)
        msg, args, shown = "x <%s> %%", (a,), sx.scat("x <", a, "> %")
    elif mode == "broken":
        msg, args = sx.pick("bad", ["%d", "%s %s", "no", "%(k)s", "%", "%z"]), ("x",)
    elif mode == "object":
        msg, shown = ["l", 1], "['l', 1]"
    fmt = A.ColoredFormatter("%(levelname)s - %(message)s", use_azure=azure)
    r = record(name, no, msg, args)
    got = sx.attempt(fmt.format, r)
    sx.check(sx.eq(r.levelname, name), "formatting leaves the level name of the record as it was")
    sx.check(r.msg is msg if mode == "object" else sx.eq(r.msg, msg), "formatting leaves the message of the record as it was")
    sx.check(r.args is args, "formatting leaves the arguments of the record as they were")
    if mode == "broken":
        sx.check(not got.ok, "a message that does not fit its arguments is refused")
        sx.cover("broken")
        return
    sx.check(got.ok, "formatting succeeds")
    if azure:
        want = sx.scat(AZURE.get(name, name), " - ", shown)
        sx.cover("azure")
    elif name not in NAMES:
        want = sx.scat(name, " - ", shown)
        sx.cover("unknown")
    elif no < 30:
        want = sx.scat(ESC, str(NAMES[name]), "m", name, ESC, "39m - ", shown)
        sx.cover("low")
    else:
        want = sx.scat(ESC, str(NAMES[name]), "m", name, " - ", shown, ESC, "39m")
        sx.cover("high")
    sx.check(sx.eq(got.value, want), "the level name or the whole line is colored and nothing else changed")
    sx.cover(mode if mode in ("args", "object") else "plain")
    again = fmt.format(r)
    sx.check(sx.eq(again, got.value), "formatting again gives the same text")


def code(sx):
    """the escape sequence of every color number"""
    c = sx.int("c", 0, 255)
    known = [v for k, v in vars(A.AnsiColor).items() if not k.startswith("_") and isinstance(v, int)]
    if sx.or_(*[c == v for v in known]):
        sx.check(sx.eq(A.get_ansi_string(int(c) if not sx.symbolic else c.__index__()), sx.scat(ESC, sx.decimal(c), "m")), "a known color gives its own sequence")
    else:
        sx.check(A.get_ansi_string(int(c) if not sx.symbolic else c.__index__()) == ESC + "39m", "an unknown color gives the reset sequence")
    sx.cover("plain")


# ------------------------------------------------------------------ stripping
def sequence(sx, s, i):
    """None or (end, digits text, letter) of the control sequence that starts at i"""
    n = len(s)
    j = i
    if s[j] == "\001":
        j += 1
    if s[j:j + 2] != ESC:
        return None
    j += 2
    b = j
    while j < n and (s[j].isdigit() or s[j] == ";"):
        j += 1
    if j == n or not s[j].isalpha():
        return None
    e = j + 1
    if e < n and s[e] == "\002":
        e += 1
    return e, s[b:j], s[j]


def without(sx, s):
    """s without its control sequences, and those"""
    out, seqs, i = [], [], 0
    while i < len(s):
        q = sequence(sx, s, i)
        if q is None:
            out.append(s[i])
            i += 1
        else:
            seqs.append(q[1:])
            i = q[0]
    return sx.scat(*out) if out else "", seqs


CH = "\033[0;3mZ\001\002 a\r\n"


def strip(sx, n, lead, tail, on):
    s = sx.scat(lead, sx.text("s", n, alphabet=CH), tail)
    out = sx.textstream()
    h = A.ColoredStreamHandler(out, strip=on, convert=False)
    h.write(s)
    sx.check(sx.eq(out.getvalue(), without(sx, s)[0] if on else s), "exactly the control sequences are removed" if on else "the text is written unchanged")
    sx.cover("strip" if on else "keep")


def both(sx, azure, n):
    """color and strip: the plain text comes out"""
    name = sx.pick("name", list(NAMES) + ["CUSTOM"])
    no = sx.int("no", 0, 60)
    msg = sx.text("m", n, mincp=3, maxcp=0x7E, exclude="\033")
    out = sx.textstream()
    h = A.ColoredStreamHandler(out)
    h.setFormatter(A.ColoredFormatter("%(levelname)s - %(message)s", use_azure=azure))
    errs = []
    h.handleError = errs.append
    h.handle(record(name, no, msg))
    sx.check(not errs, "the record is written")
    sx.check(sx.eq(out.getvalue(), sx.scat(AZURE.get(name, name) if azure else name, " - ", msg, "\n")), "a stream that is no terminal gets the plain text")
    sx.cover("strip")


class Tty:
    """a terminal around a stream"""

    closed = False

    def __init__(self, s):
        self.s = s

    def write(self, t):
        self.s.write(t)

    def flush(self):
        pass

    def isatty(self):
        return True


def console(sx, spec, tty, mixed):
    """on a Windows console the sequences become attributes"""
    default = sx.int("default", 0, 255)
    now = [default]

    class Con:
        STDOUT, STDERR = -11, -12

        @staticmethod
        def winapi_test():
            return True

        @staticmethod
        def GetConsoleScreenBufferInfo(i=-11):
            class I:
                wAttributes = default

            return I

        @staticmethod
        def SetConsoleTextAttribute(h, attrs):
            now.append(attrs)
            return True

    class Host:
        os = "Windows"

    A.Win32Console = Con
    A.GetHostInfo = lambda: Host
    bits, params = [], []
    for i, kind in enumerate(spec):
        if kind == "t":
            bits.append(sx.text("t%d" % i, 1, alphabet="ab "))
        elif kind == "e":
            bits += [ESC, "m"]
        elif kind == "o":
            bits += [ESC, sx.decimal(sx.int("o%d" % i, 30, 37)), "K"]
        else:
            ps = [sx.pick("p%d_%d" % (i, k), [31, 39, 92, 97, 46, 49, 101, 107, 0]) if mixed else sx.int("p%d_%d" % (i, k), 0, 120) for k in range(int(kind))]
            bits.append(ESC)
            for k, p in enumerate(ps):
                bits += [";"] * (k > 0) + [sx.decimal(p)]
            bits.append("m")
            params += ps
    text = sx.scat(*bits)
    out = sx.textstream()
    h = A.ColoredStreamHandler(Tty(out) if tty else out)
    h.write(text)
    plain = sx.scat("", *[b for b, k in zip(split(bits, spec), [k for k in spec if k == "t"])])
    sx.check(sx.eq(out.getvalue(), plain), "the text around the sequences is written")
    base = default & 0x88
    fore, back, df, db = default & 7, (default >> 4) & 7, default & 7, (default >> 4) & 7
    fl, bl = 0, 0
    order = [0, 4, 2, 6, 1, 5, 3, 7]  # ANSI order to console colors
    if tty:
        for p in params:
            for lo, is_fore, light in ((30, 1, 0), (90, 1, 1), (40, 0, 0), (100, 0, 1)):
                for k in range(8):
                    if p == lo + k:
                        if is_fore:
                            fore, fl = order[k], 8 * light
                        else:
                            back, bl = order[k], 0x80 * light
            if p == 39:
                fore, fl = df, 0
            elif p == 49:
                back, bl = db, 0
    sx.check(sx.eq(now[-1] & 0x77, (fore + 16 * back) & 0x77), "the colors of the console are those asked for last")
    sx.check(sx.eq(now[-1] & 0x88, base | fl | bl), "the brightness of the console is that asked for last")
    sx.check(len(now) == 1 or tty, "only a terminal gets attributes")
    sx.cover("convert")


def split(bits, spec):
    return [b for b in bits if not isinstance(b, str) or b in ("a", "b", " ")] if all(k == "t" for k in spec) else texts(bits, spec)


def texts(bits, spec):
    out, i = [], 0
    for kind in spec:
        if kind == "t":
            out.append(bits[i])
            i += 1
        elif kind == "e":
            i += 2
        elif kind == "o":
            i += 3
        else:
            i += 2 + 2 * int(kind) - 1
    return out


# ------------------------------------------------------------------ handlers
def content(sx, h, kind, out, path):
    if kind != "file" or sx.symbolic:
        return out.getvalue()
    h.close()
    with open(path, encoding="utf-8", newline="") as f:
        return f.read()


def stream(sx, kind, k, n, old=False):
    """records pass the level and the filter, in order, once"""
    path = sx.tmp() + "/log.txt" if kind == "file" else None
    if kind == "file":
        if old:
            with open(path, "w") as f:
                f.write("old text")
        h = F.FileHandler(path)
        if sx.symbolic:
            h.close()
            h.stream = out = sx.textstream()
        else:
            out = None
        sx.cover("file")
    elif kind == "string":
        h = S.StringStreamHandler()
        out = h.stream
    else:
        out = sx.textstream()
        h = A.ColoredStreamHandler(out)
    errs = []
    h.handleError = errs.append
    h.setFormatter(_logging.Formatter("%(levelname)s:%(message)s"))
    level = sx.int("level", 0, 60)
    h.level = level
    modes = [sx.pick("f%d" % i, ["pass", "drop", "replace"]) for i in range(k)]
    seen = []

    def flt(r):
        m = modes[len(seen)]
        seen.append(r)
        if m == "replace":
            return record("NEW", r.levelno, "new")
        return m == "pass"

    h.addFilter(flt)
    want = [""]
    for i in range(k):
        no, msg = sx.int("n%d" % i, 0, 60), sx.text("m%d" % i, n, mincp=1, maxcp=0xD7FF, exclude="\033")
        rv = h.handle(record("L%d" % i, no, msg))
        sx.check(bool(rv) == (modes[i] != "drop"), "handle tells whether the filter let the record pass")
        if modes[i] != "drop" and no >= level:
            want += ["NEW:new\n"] if modes[i] == "replace" else ["L%d:" % i, msg, "\n"]
            sx.cover("replaced" if modes[i] == "replace" else "accepted")
        else:
            sx.cover("refused")
    sx.check(not errs, "no record fails")
    sx.check(sx.eq(content(sx, h, kind, out, path), sx.scat(*want)), "exactly the accepted records are written, each once and in order")


def reading(sx, n, hint):
    """reading back from the start, and going on"""
    h = S.StringStreamHandler()
    h.setFormatter(_logging.Formatter("%(message)s"))
    ms = [sx.text("m%d" % i, n, mincp=1, maxcp=0x2030, exclude="\n") for i in range(3)]
    for m in ms[:2]:
        h.handle(record("I", 20, m))
    sx.check(h.readlines() == [], "after writing there is nothing left to read")
    h.seek_start()
    lines = h.readlines(hint)
    full = [sx.scat(m, "\n") for m in ms]
    sx.check(sx.eq(lines, full[:1] if 0 < hint <= n else full[:2]), "the lines written are read back, up to the hint")
    h.seek_end()
    h.handle(record("I", 20, ms[2]))
    h.seek(0, 0)
    sx.check(sx.eq(h.readlines(), full), "reading never loses a line that was written")
    sx.cover("plain")


for azure in (False, True):
    for mode in ("plain", "args", "broken", "object"):
        for n in (0, 1, 3):
            if mode in ("object", "broken") and n:
                continue
            suite.add(Case("colored-%s-%s-%d" % (azure, mode, n), colored, azure=azure, mode=mode, n=n, bounds={"chars": n}))
    for n in (1, 3):
        suite.add(Case("both-%s-%d" % (azure, n), both, azure=azure, n=n, bounds={"chars": n}))
suite.add(Case("code", code, bounds={"color": 255}))
for n in (0, 1, 2, 3, 4, 5):
    suite.add(Case("strip-%d" % n, strip, n=n, lead="", tail="", on=True, bounds={"chars": n}), tier="quick" if n < 4 else "thorough")
    suite.add(Case("strip-%d-open" % n, strip, n=n, lead="a\033[", tail="mZ", on=True, bounds={"chars": n}), tier="quick" if n < 4 else "thorough")
    suite.add(Case("keep-%d" % n, strip, n=n, lead="\033[", tail="", on=False, bounds={"chars": n}), tier="quick" if n < 4 else "thorough")
for spec in ("t", "e", "1", "t1t", "2", "o", "1o1", "t1t1", "3", "t1t1t1"):
    for tty in (True, False):
        suite.add(Case("console-%s-%s" % (spec, "tty" if tty else "pipe"), console, spec=spec, tty=tty, mixed=False, bounds={"sequences": len(spec), "color": 120}), tier="quick" if spec in ("t", "e", "1", "t1t", "o") else "thorough")
for spec in ("2", "1o1", "t1t1"):
    suite.add(Case("console-%s-some" % spec, console, spec=spec, tty=True, mixed=True, bounds={"sequences": len(spec), "color": "9 of 120"}))
for kind in ("string", "file", "color"):
    for k, n in ((1, 2), (2, 1), (3, 0)):
        suite.add(Case("stream-%s-%d" % (kind, k), stream, kind=kind, k=k, n=n, old=k != 1, bounds={"records": k, "chars": n}))
for n in (0, 2):
    for hint in (-1, 1, 3, 4, 9):
        suite.add(Case("reading-%d-%d" % (n, hint), reading, n=n, hint=hint, bounds={"chars": n}))
