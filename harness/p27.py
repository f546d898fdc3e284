"""P27 JUnit reports: a reader gets back the counts, states and texts that were recorded."""

import xml.etree.ElementTree as ET

import edk2toollib.log.junit_report_format as J
from sx.case import Case, Suite

suite = Suite()
COVER = ["counts", "text", "attr", "state", "twice", "incomplete", "control", "file"]
ASSUMPTIONS = ["Of time stamps only the order of magnitude is checked. Line breaks and tabs inside attributes are read back as blanks, as XML defines."]
ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}


class Bad(Exception):
    pass


class Node:
    def __init__(self, tag, attrib):
        self.tag, self.attrib, self.text, self.kids = tag, attrib, "", []


def entity(sx, s, i):
    """the character an entity at s[i] stands for, and the position after it"""
    for k, v in ENT.items():
        if s[i + 1:i + 2 + len(k)] == k + ";":
            return v, i + 2 + len(k)
    if s[i + 1:i + 2] == "#":
        j = i + 2
        while s[j] != ";":
            j += 1
        return chr(int(s[i + 2:j])), j + 1
    raise Bad("entity")


def check_char(sx, c):
    o = ord(c)
    if sx.not_(sx.or_(o == 9, o == 10, o == 13, sx.and_(o >= 0x20, o <= 0xD7FF), sx.and_(o >= 0xE000, o <= 0xFFFD), o >= 0x10000)):
        raise Bad("character")


def value(sx, s, i, stop, attr):
    out = []
    while s[i] != stop:
        c = s[i]
        if c == "<":
            raise Bad("markup")
        check_char(sx, c)
        if c == "&":
            c, i = entity(sx, s, i)
            out.append(c)
            continue
        if attr and sx.or_(c == "\n", c == "\t", c == "\r"):
            c = " "
        elif c == "\r":
            c = "\n"
            if s[i + 1] == "\n":
                i += 1
        out.append(c)
        i += 1
    return sx.scat("", *out), i


def parse(sx, s):
    """a small XML reader; the concrete replay also runs the library's reader and compares"""
    i = 0
    root = Node("", {})
    stack = [root]
    while i < len(s):
        if s[i] == "<":
            if s[i + 1] == "?":
                while s[i] != ">":
                    i += 1
                i += 1
            elif s[i + 1] == "/":
                j = i
                while s[j] != ">":
                    j += 1
                if s[i + 2:j] != stack[-1].tag:
                    raise Bad("closing tag")
                stack.pop()
                i = j + 1
            else:
                j = i + 1
                while s[j] not in " />":
                    j += 1
                n = Node(s[i + 1:j], {})
                stack[-1].kids.append(n)
                i = j
                while s[i] not in "/>":
                    if s[i] in " \n\t":
                        i += 1
                        continue
                    j = i
                    while s[j] != "=":
                        j += 1
                    if s[j + 1] != '"':
                        raise Bad("attribute")
                    k = s[i:j]
                    n.attrib[k], i = value(sx, s, j + 2, '"', True)
                    i += 1
                if s[i] == "/":
                    i += 2
                else:
                    stack.append(n)
                    i += 1
        else:
            j = i
            t, i = value(sx, s + "<", i, "<", False) if len(stack) == 1 else value(sx, s, i, "<", False)
            stack[-1].text = sx.scat(stack[-1].text, t)
    if len(stack) != 1:
        raise Bad("open tag")
    if not sx.symbolic:
        same(ET.fromstring(s), root.kids[0])
    return root.kids[0]


def same(a, b):
    if a.tag != b.tag or dict(a.attrib) != dict(b.attrib) or (a.text or "") + "".join(k.tail or "" for k in a) != b.text or len(a) != len(b.kids):
        raise Bad("the readers disagree")
    for x, y in zip(a, b.kids):
        same(x, y)


def norm(sx, t, attr):
    """what XML makes of a text, with characters XML cannot hold replaced"""
    out = []
    t = t.strip()
    i = 0
    while i < len(t):
        c = t[i]
        o = ord(c)
        if sx.and_(sx.or_(o < 32, sx.and_(o >= 0xD800, o <= 0xDFFF), o == 0xFFFE, o == 0xFFFF), o != 9, o != 10, o != 13):
            out.append("?")
        elif attr and sx.or_(o == 9, o == 10, o == 13):
            out.append(" ")
        elif o == 13:
            out.append("\n")
            if i + 1 < len(t) and t[i + 1] == "\n":
                i += 1
        else:
            out.append(c)
        i += 1
    return out


def agree(sx, got, want, msg):
    """a replaced character may be replaced by anything, or left out"""
    n = [w for w in want if w != "?" or True]
    if len(got) == len(n):
        sx.check(sx.and_(True, *[True if isinstance(w, str) and w == "?" else g == w for g, w in zip(got, n)]), msg)
    else:
        keep = [w for w in want if not (isinstance(w, str) and w == "?")]
        sx.check(len(got) == len(keep) and sx.and_(True, *[g == w for g, w in zip(got, keep)]), msg)


def write(sx, report):
    f = sx.tmp() + "/out.xml"
    report.Output(f)
    return sx.read_text(f)


STATES = ["success", "skipped", "failed", "error"]


def put(tc, state, msg="m", typ="t"):
    if state == "success":
        tc.SetSuccess()
    elif state == "skipped":
        tc.SetSkipped()
    elif state == "failed":
        tc.SetFailed(msg, typ)
    else:
        tc.SetError(msg, typ)


def counts(sx, shape, log=0):
    """the counts of a suite are those of its cases"""
    r = J.JunitTestReport()
    want = []
    for i, n in enumerate(shape):
        s = r.create_new_testsuite("s%d" % i, "p%d" % i)
        row = []
        for j in range(n):
            st = sx.pick("st%d_%d" % (i, j), STATES)
            c = s.create_new_testcase("n%d" % j, "c%d" % j)
            if log % 3 == 1 or (log % 3 == 2 and j % 2):
                c.LogStdError("e")
                c.LogStdOut("o")
            put(c, st)
            row.append(st)
        want.append(row)
    x = parse(sx, write(sx, r))
    sx.check(x.tag == "testsuites" and len(x.kids) == len(shape), "there is one suite per suite")
    for i, (s, row) in enumerate(zip(x.kids, want)):
        a = s.attrib
        sx.check(a["name"] == "s%d" % i and a["package"] == "p%d" % i and a["id"] == str(i), "a suite has its name, package and position")
        sx.check(a["tests"] == str(len(row)) and a["failures"] == str(row.count("failed")) and a["errors"] == str(row.count("error")) and a["skipped"] == str(row.count("skipped")), "the counts of a suite are those of its cases")
        sx.check(len(s.kids) == len(row), "every case is reported once, in order")
        for j, (c, st) in enumerate(zip(s.kids, row)):
            sx.check(c.tag == "testcase" and c.attrib["name"] == "n%d" % j and c.attrib["classname"] == "c%d" % j, "a case has its names")
            sx.check(0 <= float(c.attrib["time"]) < 1e6, "the time of a case is the time since it was created")
            marks = [k.tag for k in c.kids if k.tag in ("failure", "error", "skipped")]
            sx.check(marks == {"success": [], "skipped": ["skipped"], "failed": ["failure"], "error": ["error"]}[st], "a case has the state it was given")
    sx.cover("counts")
    sx.cover("file")


def alpha(sx, name, n, kind):
    if kind == "any":
        return sx.text(name, n, maxcp=0x7F)
    if kind == "long":
        return sx.scat("long message " * 300, sx.text(name, n, maxcp=0x7F), " x" * 200, "end")
    if kind == "surrogate":
        return sx.text(name, n, maxcp=0xE00F, mincp=0xD7F0)
    if kind == "last":
        return sx.text(name, n, maxcp=0x1000F, mincp=0xFFF0)
    if kind == "wide":
        return sx.text(name, n, maxcp=0x2FFF, mincp=0x80)
    return sx.text(name, n, alphabet="&<>\"';a \n\r\t\x1b#")


def texts(sx, where, n, kind, twice=False):
    """every text is read back as it was given"""
    r = J.JunitTestReport()
    t = alpha(sx, "t", n, kind)
    u = sx.scat("u", alpha(sx, "u", n - 1, "x"), "v") if n > 1 else "uv"
    s = r.create_new_testsuite(t if where == "suite" else "s", u if where == "suite" else "p")
    c = s.create_new_testcase(t if where == "case" else "n", u if where == "case" else "c")
    if where in ("out", "err", "skipout"):
        log = c.LogStdError if where == "err" else c.LogStdOut
        log(t)
        if twice:
            log(u)
    if where == "failure":
        c.SetFailed(t, u)
    elif where == "error":
        c.SetError(t, u)
    elif where == "skipout":
        c.SetSkipped()
    else:
        c.SetSuccess()
    x = parse(sx, write(sx, r)).kids[0]
    k = x.kids[0]
    sub = {y.tag: y for y in k.kids}
    if where == "suite":
        got = [(x.attrib["name"], t), (x.attrib["package"], u)]
    elif where == "case":
        got = [(k.attrib["name"], t), (k.attrib["classname"], u)]
    elif where in ("failure", "error"):
        got = [(sub[where].attrib["message"], t), (sub[where].attrib["type"], u)]
    else:
        y = sub["system-err" if where == "err" else "system-out"].text
        sx.check(sx.eq(sub["system-out" if where == "err" else "system-err"].text, ""), "the other stream is empty")
        want = norm(sx, t, False)
        if twice:
            want = want + ["\n", " "] + norm(sx, u, False)
        want = want + ["\n", " "]
        agree(sx, y, want, "the output of a case is what was logged, one line per message")
        sx.cover("text")
        return
    for g, w in got:
        agree(sx, g, norm(sx, w, True), "a text is read back as it was given")
    if kind == "any" and sx.or_(False, *[ord(ch) < 9 for ch in t]):
        sx.cover("control")
    sx.cover("attr")


def states(sx, n):
    """a case is given one state, once"""
    r = J.JunitTestReport()
    c = r.create_new_testsuite("s", "p").create_new_testcase("n", "c")
    first = None
    for i in range(n):
        st = sx.pick("st%d" % i, STATES)
        o = sx.attempt(put, c, st, "m%d" % i)
        if first is None:
            sx.check(o.ok, "a new case can be given any state")
            first = st
        else:
            sx.check(o.raised(Exception), "a second state is refused")
            sx.cover("twice")
    x = parse(sx, write(sx, r)).kids[0].kids[0]
    marks = [k for k in x.kids if k.tag in ("failure", "error", "skipped")]
    sx.check([k.tag for k in marks] == {"success": [], "skipped": ["skipped"], "failed": ["failure"], "error": ["error"]}[first], "the first state stays")
    if first in ("failed", "error"):
        sx.check(marks[0].attrib["message"] == "m0", "the first message stays")
    sx.cover("state")


def incomplete(sx, n):
    """a report with a case that has no state is refused"""
    r = J.JunitTestReport()
    s = r.create_new_testsuite("s", "p")
    k = sx.int("k", 0, n - 1)
    for i in range(n):
        c = s.create_new_testcase("n%d" % i, "c")
        if k != i:
            put(c, sx.pick("st%d" % i, STATES))
    sx.check(sx.attempt(write, sx, r).raised(Exception), "a report with a case that has no state is refused")
    sx.cover("incomplete")


for shape in ([], [0], [1], [2], [3], [1, 1], [2, 1], [1, 0, 1]):
    suite.add(Case("counts-%s" % "+".join(map(str, shape)), counts, shape=shape, log=len(shape) + sum(shape), bounds={"suites": len(shape), "cases": sum(shape)}))
for shape in ([4], [2, 2], [1, 2, 1]):
    suite.add(Case("counts-%s" % "+".join(map(str, shape)), counts, shape=shape, log=len(shape) + sum(shape), bounds={"suites": len(shape), "cases": sum(shape)}), tier="thorough")
for where in ("suite", "case", "failure", "error", "out", "err", "skipout"):
    for n, kind in ((0, "any"), (1, "any"), (2, "any"), (2, "wide"), (2, "special"), (3, "special")):
        suite.add(Case("text-%s-%d-%s" % (where, n, kind), texts, where=where, n=n, kind=kind, twice=n == 2, bounds={"chars": n}), tier="quick" if n < 3 else "thorough")
    for kind in ("long", "surrogate", "last"):
        suite.add(Case("text-%s-%s" % (where, kind), texts, where=where, n=1, kind=kind, bounds={"chars": 1}))
for n in (1, 2, 3):
    suite.add(Case("states-%d" % n, states, n=n, bounds={"operations": n}))
for n in (1, 2, 3):
    suite.add(Case("incomplete-%d" % n, incomplete, n=n, bounds={"cases": n}))
