"""P34 target.txt and override records: the settings and the records are those of the lines, as written, and damaged records are refused."""

import edk2toollib.uefi.edk2.parsers.override_parser as O
import edk2toollib.uefi.edk2.parsers.targettxt_parser as T
from sx.case import Case, Suite

suite = Suite()
COVER = ["setting", "again", "comment", "quoted", "none", "several", "free", "record", "version", "fields", "date-ok", "date-bad", "colon", "lines", "nothing", "file", "args"]
ASSUMPTIONS = [
    "The keys and values of target.txt have no quotes except around the whole value, and no backslash in quotes; the object is used for one file.",
    "How strptime and int read a date and a version is what Python does: signs, spaces and underscores in them are not claimed.",
]
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
VALUE = NAME + "/. -\\|:[]{}"


def trim(s):
    i, j = 0, len(s)
    while i < j and s[i] in " \t":
        i += 1
    while j > i and s[j - 1] in " \t":
        j -= 1
    return s[i:j]


# ------------------------------------------------------------------ target.txt
def target(sx, lines, ends):
    body = []
    for i, t in enumerate(lines):
        body += [t, "\n" if ends or i + 1 < len(lines) else ""]
    f = sx.write("target.txt", sx.scat(*body) if body else "")
    p = T.TargetTxtParser()
    p.FindPath = lambda *a: f if a[0] == "target.txt" else None
    p.ParseFile("target.txt")
    sx.check(p.Parsed and p.Path == f, "the file was parsed")
    sx.check(len(p.Lines) == len(lines), "every line is kept")
    for i, t in enumerate(lines):
        sx.check(sx.eq(p.Lines[i].rstrip("\n"), t), "every line is kept as it is, in order")
    return p.Dict


def settings(sx, shape, sty, n):
    """s setting, a the first key again, c comment, b blank, q quoted value, x no '=', m value with '=', e empty value"""
    lines, want, keys = [], {}, []
    for i, c in enumerate(shape):
        o = (i + sty) % 3
        ind, sp, com = ["", "  ", "\t"][o], [" ", "", "   "][o], ["", "  # old = new", "#x"][(i * 2 + sty) % 3]
        if c in "bcx":
            lines.append({"b": ["", "  ", "\t "][o], "c": sx.scat(ind, "#", sp, "KEY", sp, "=", sp, sx.text("c%d" % i, n, alphabet=VALUE + "=#")),
                          "x": sx.scat(ind, sx.text("x%d" % i, n, alphabet=NAME + " "), "ON", com)}[c])
            sx.cover("comment" if c == "c" else "none")
            continue
        k = keys[0] if c == "a" and keys else sx.text("k%d" % i, n, alphabet=NAME)
        v = sx.scat("/", sx.text("v%d" % i, n, alphabet=VALUE if n < 9 else NAME + " .-"), "z")
        if c == "q":
            v = sx.scat('"', sx.text("q%d" % i, n, alphabet=(VALUE + "#'").replace("\\", "")), '"')
            sx.cover("quoted")
        if c == "m":
            v = sx.scat("a=", v, "=b")
            sx.cover("several")
        if c == "e":
            v = ""
        keys.append(k)
        lines.append(sx.scat(ind, k, sp, "=", sp, v, com))
        want[k] = trim(v)
        sx.cover("again" if c == "a" else "setting")
    got = target(sx, lines, sty % 2)
    sx.check(len(got) == len(want), "there is one setting per key")
    for k, v in want.items():
        sx.check(k in got, "every key is there")
        sx.check(sx.eq(got[k], v), "a key has the value of its last line, as written")


def free(sx, n):
    """any line: what is before the comment, split at the first '='"""
    s = sx.text("s", n, alphabet="aB=# \t/")
    body = s
    for i in range(n):
        if s[i] == "#":
            body = s[:i]
            break
    got = target(sx, [s, "K = V"], True)
    want = {}
    for i in range(len(body)):
        if body[i] == "=":
            want[trim(body[:i])] = trim(body[i + 1:])
            break
    want["K"] = "V"
    sx.check(sx.eq(got, want), "the settings are those of the lines")
    sx.cover("free")


# ------------------------------------------------------------------ override records
HASH = "0123456789abcdefABCDEF"


def line(sx, parts, lead, word, tail):
    return sx.scat(lead, word, *parts, tail)


def normal(sx, segs):
    """the path of segments without empty and dot segments, '..' removing the one before"""
    out = []
    for s in segs:
        if len(s) == 0 or s == ".":
            continue
        if s == ".." and out and out[-1] != "..":
            out.pop()
        else:
            out.append(s)
    t = []
    for s in out:
        t += ["/", s]
    return sx.scat(*t[1:]) if out else "."


def record(sx, sty, segs, n, extra):
    """one record of arbitrary fields"""
    path = [sx.text("p%d" % i, k, alphabet=NAME + "-" if k > 9 else NAME + ".- " if k > 1 else NAME + ".") if k else "" for i, k in enumerate(segs)]
    path = [p.strip() if (i in (0, len(path) - 1) and len(p)) else p for i, p in enumerate(path)]
    sx.assume(sx.and_(*[len(p) > 0 for i, p in enumerate(path) if segs[i]]))
    sx.assume(len(path[0]) > 0)
    h = sx.text("h", n, alphabet=HASH)
    zeros = sx.pick("z", ["", "0", "0000000"])
    sp = [" ", "", "  "][sty % 3]
    word = ["#Override", "#OVERRIDE", "#override", "#oVeRrIdE"][sty % 4]
    joined = []
    for p in path:
        joined += ["/", p]
    if extra:
        joined.append(extra)
    t = sx.scat(["", "  ", "\t"][sty % 3], word, sp, ":", sp, zeros, "1", sp, "|", sp, *joined[1:], sp, "|", sp, h, sp, "|", sp, "2018-11-27T22-36-30", ["", " ", "\r"][sty % 3])
    p = O.OverrideParser(inf_contents=sx.scat("## @file\n", t, "\n# end"))
    sx.check(len(p.overrides) == 1, "one record for one line")
    r = p.overrides[0]
    sx.check(sx.and_(sx.eq(len(r), 4), sx.eq(r["version"], 1)), "the version is 1")
    segm = list(path)
    if extra:
        segm[-1] = sx.scat(segm[-1], extra)
    sx.check(sx.eq(r["original_path"], normal(sx, segm)), "the path is the one written, normalized")
    sx.check(sx.eq(r["current_hash"], h), "the hash is the one written")
    d = r["datetime"]
    sx.check(sx.and_(d.year == 2018, d.month == 11, d.day == 27, d.hour == 22, d.minute == 36, d.second == 30), "the time is the one written")
    sx.check(sx.eq(p.override_lines[0]["line"], t.strip()) and p.override_lines[0]["lineno"] == 2, "the line and its number are kept")
    sx.cover("colon" if extra else "record")


def date(sx, which):
    """any digits in a date: taken if there is such a date, refused otherwise"""
    d = [sx.int("d%d" % i, 0, 9) if c == "?" else int(c) for i, c in enumerate(which)]
    txt = [sx.decimal(x) for x in d]
    y = d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3]
    mo, da, ho, mi, se = [d[4 + 2 * i] * 10 + d[5 + 2 * i] for i in range(5)]
    leap = sx.and_(y % 4 == 0, sx.or_(y % 100 != 0, y % 400 == 0))
    dim = sx.ite(mo == 2, sx.ite(leap, 29, 28), sx.ite(sx.or_(mo == 4, mo == 6, mo == 9, mo == 11), 30, 31))
    good = sx.and_(y >= 1, mo >= 1, mo <= 12, da >= 1, da <= dim, ho <= 23, mi <= 59, se <= 59)
    t = sx.scat("#Override : 1 | P/x.inf | 00 | ", *txt[:4], "-", *txt[4:6], "-", *txt[6:8], sx.pick("t", ["T", "t"]), *txt[8:10], "-", *txt[10:12], "-", *txt[12:])
    r = sx.attempt(O.OverrideParser.parse_override_line, t)
    if good:
        sx.check(r.ok, "a date that exists is taken")
        v = r.value["datetime"]
        sx.check(sx.and_(v.year == y, v.month == mo, v.day == da, v.hour == ho, v.minute == mi, v.second == se), "the time is the one written")
        sx.cover("date-ok")
    else:
        sx.check(not r.ok and r.raised(O.OpParseError) and r.exc.type == O.OpParseError.PE_DATE, "a date that does not exist is refused")
        sx.cover("date-bad")


def version(sx, n):
    s = sx.text("s", n, alphabet="0123456789aX.")
    t = sx.scat("#Override : ", s, " | P/x.inf | 00 | 2018-11-27T22-36-30")
    r = sx.attempt(O.OverrideParser.parse_override_line, t)
    one = sx.and_(*[c == "0" for c in s[: n - 1]], s[n - 1] == "1")
    sx.check(sx.eq(r.ok, one), "only version 1 is taken")
    if not r.ok:
        sx.check(r.raised(O.OpParseError) and r.exc.type == O.OpParseError.PE_VER, "another version is refused as such")
    sx.cover("version")


def fields(sx, n, where):
    """any number of fields, any text where they should be"""
    s = sx.text("s", n, alphabet="|: 1aT-#")
    base = ["1", "P/x.inf", "00", "2018-11-27T22-36-30"]
    t = {"after": sx.scat("#Override", s), "tail": sx.scat("#Override : 1 | P | 00 | 2018-11-27T22-36-30", s), "middle": sx.scat("#Override : 1 | P | 0", s, "0 | 2018-11-27T22-36-30"), "cut": sx.scat("#Override : 1 | P", s)}[where]
    r = sx.attempt(O.OverrideParser.parse_override_line, t)
    bars, good = 0, True
    if where == "middle":
        for c in s:
            if c == "|":
                bars += 1
        good = bars == 0
        if good:
            sx.check(r.ok and sx.eq(r.value["current_hash"], sx.scat("0", s, "0")), "whatever stands between the bars is the hash")
    elif where == "tail":
        good = all(c == " " for c in s)
    else:
        good = False
    if good:
        sx.check(r.ok, "a complete record is taken")
    else:
        sx.check(not r.ok and r.raised(O.OpParseError), "a record with missing or additional fields is refused")
        w = sx.attempt(O.OverrideParser, inf_contents=t)
        sx.check(not w.ok and w.raised(ValueError), "a file with such a record is refused")
    sx.cover("fields")


def lines(sx, shape, form):
    """records among other lines: r record, o other text, n near miss, b broken record"""
    body, want, bad = [], [], None
    for i, c in enumerate(shape):
        o = i % 3
        if c == "r":
            h = sx.text("h%d" % i, 2, alphabet=HASH)
            word = ["#", "#oVERRIDE", "#Override"][o] if o else "#OVERRIDE"
            t = sx.scat(["", "  ", "\t"][o], word, " : 00000001 | M", str(i), "/x.inf | ", h, " | 2018-10-0", str(i + 1), "T21-43-51")
            want.append((i + 1, t, h))
            body.append(t)
        elif c == "o":
            body.append(sx.scat(sx.text("o%d" % i, 1, alphabet=NAME + " /"), " Override : 1 | x"))
        elif c == "n":
            body.append(["# Override : 1 | a | b | c", "##Override : 1", "#OVER : 1"][o])
        else:
            body.append("#Override : 2 | a | b | 2018-10-05T21-43-51")
            bad = bad or i + 1
    text = []
    for t in body:
        text += [t, ["\n", "\r\n"][form == "crlf"]]
    text = sx.scat(*text)
    if form == "file":
        f = sx.write("x.inf", text)
        # a path that a program gives is not a text of the file
        r = sx.attempt(O.OverrideParser, f)
        sx.cover("file")
    else:
        r = sx.attempt(O.OverrideParser, inf_contents=text)
    if not want or bad:
        sx.check(not r.ok and r.raised(ValueError), "a file without records, or with a broken one, is refused")
        if bad:
            sx.check(("line %d " % bad) in str(r.exc) and "'VERSION'" in str(r.exc), "the refusal names the line and the field")
        sx.cover("nothing")
        return
    sx.check(r.ok, "the records are read")
    p = r.value
    sx.check(len(p.overrides) == len(want) and len(p.override_lines) == len(want), "one record per line")
    for g, l, (no, t, h) in zip(p.overrides, p.override_lines, want):
        sx.check(sx.eq(g["current_hash"], h) and sx.eq(g["original_path"], "M%d/x.inf" % (no - 1)) and g["datetime"].day == no, "the records are in order, each with its own fields")
        sx.check(l["lineno"] == no and sx.eq(l["line"], t.strip()), "each record has its line and number")
    sx.cover("lines")


def args(sx):
    f = sx.write("x.inf", "#Override : 1 | a | b | 2018-10-05T21-43-51\n")
    e = sx.write("e.inf", "")
    for a in [{}, {"file_path": f, "inf_contents": "x"}, {"file_path": f + "x"}, {"inf_contents": ""}, {"file_path": e}, {"file_path": f, "inf_contents": ""}]:
        r = sx.attempt(O.OverrideParser, **a)
        sx.check(not r.ok and r.raised(ValueError), "exactly one readable source has to be given")
    t = sx.pick("t", ["VERSION", "PATH", "HASH", "DATE", "version", "", None])
    r = sx.attempt(O.OpParseError, t)
    sx.check(sx.eq(r.ok, t in ("VERSION", "PATH", "HASH", "DATE")), "only the kinds of errors there are can be made")
    sx.cover("args")


SHAPES = ["s", "sas", "cbsx", "qsm", "sqae", "mse", "xxs", "ssss", "smac", "qq", "sscsa"]
for i, sh in enumerate(SHAPES):
    for sty in (i % 3, (i + 1) % 3):
        suite.add(Case("target-%s-%d" % (sh, sty), settings, bounds="lines %s of target.txt; keys and values of 1-2 arbitrary characters" % sh, shape=sh, sty=sty, n=1 if len(sh) > 3 or "q" in sh else 2))
suite.add(Case("target-long", settings, bounds="lines sm; keys and values of 16 arbitrary characters", shape="sm", sty=0, n=16))
for n in range(0, 7):
    suite.add(Case("free-%d" % n, free, bounds="any line of %d characters of letters, '=', '#', '/', space and tab" % n, n=n), tier="quick" if n < 6 else "thorough")
for i, segs in enumerate([(1,), (2, 1), (1, 2, 1), (1, 1, 1, 1), (2, 0, 1)]):
    for sty in range(4):
        suite.add(Case("record-%d-%d" % (i, sty), record, bounds="a record of a path of segments of %s and a hash of 4 arbitrary characters" % (segs,), sty=sty, segs=segs, n=4, extra=None))
suite.add(Case("record-long", record, bounds="a path of 16 and a hash of 64 arbitrary characters", sty=0, segs=(16,), n=64, extra=None), tier="thorough")
suite.add(Case("record-colon", record, bounds="a path with a colon", sty=0, segs=(1, 2), n=4, extra=":x"))
for i, w in enumerate(["????1127223630", "2018????223630", "20181127??????", "????02??010101", "20181127223?6?"]):
    suite.add(Case("date-%d" % i, date, bounds="dates %s with arbitrary digits" % w, which=w))
suite.add(Case("date-all", date, bounds="dates of 14 arbitrary digits", which="?" * 14), tier="thorough")
for n in range(1, 6):
    suite.add(Case("version-%d" % n, version, bounds="any version of %d digits and other characters" % n, n=n))
for w in ("after", "tail", "middle", "cut"):
    for n in range(0, 4):
        suite.add(Case("fields-%s-%d" % (w, n), fields, bounds="%d arbitrary characters in place of a part of the record" % n, n=n, where=w))
for i, sh in enumerate(["r", "orn", "rr", "nrorr", "onn", "rb", "bbr", "rbr", "rrrrr"]):
    suite.add(Case("lines-%s" % sh, lines, bounds="lines %s" % sh, shape=sh, form=["text", "crlf", "file"][i % 3]))
    suite.add(Case("lines-%s-2" % sh, lines, bounds="lines %s" % sh, shape=sh, form=["text", "crlf", "file"][(i + 2) % 3]))
suite.add(Case("args", args, bounds="each wrong set of arguments"))
