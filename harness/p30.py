"""P30 Ignore files: a path is ignored exactly if the last rule that matches it, by git's wildcard rules, is not negated."""

import itertools
import os as _os

import edk2toollib.gitignore_parser as G
from harness.p25 import P
from sx.case import Case, Suite

suite = Suite()
COVER = ["ignored", "kept", "negated", "outside", "comment", "folder", "file", "link"]
ASSUMPTIONS = [
    "As documented in the code, the matcher does not know which paths are folders: a folder pattern applies to any path, and a negated one to a path given with a trailing slash.",
    "Not claimed: unclosed brackets, '^', backslashes, ranges over '/' and POSIX names in brackets, '//' in patterns, a lone trailing backslash, line breaks in file names, what git says of files below an ignored folder.",
    "In the symbolic runs pathlib.Path is a model of POSIX paths; every explored path is replayed with the real pathlib.",
]
REAL = G.Path
BASE = "/b/r"
LET = "abcX.-! #*?[]\\$^"


# ------------------------------------------------------------------ reference
def tokens(p):
    """pattern text as a list of segments of tokens"""
    segs, cur, i = [], [], 0
    while i < len(p):
        c = p[i]
        i += 1
        if c == "/":
            segs.append(cur)
            cur = []
        elif c == "\\":
            cur.append(("lit", p[i]))
            i += 1
        elif c == "*":
            cur.append(("star",))
        elif c == "?":
            cur.append(("any",))
        elif c == "[":
            neg = p[i] == "!"
            i += neg
            j = i + 1
            while p[j] != "]":
                j += 1
            body, i = p[i:j], j + 1
            items, k = [], 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    items.append((body[k], body[k + 2]))
                    k += 3
                else:
                    items.append((body[k], body[k]))
                    k += 1
            cur.append(("set", neg, items))
        else:
            cur.append(("lit", c))
    return segs + [cur]


def one(sx, t, c):
    if t[0] == "any":
        return True
    if t[0] == "lit":
        return sx.eq(c, t[1])
    inside = sx.or_(*[sx.and_(ord(a) <= ord(c), ord(c) <= ord(b)) for a, b in t[2] if "/" not in (a, b)], False)
    return sx.not_(inside) if t[1] else inside


def glob(sx, toks, s):
    """whole component s against one segment, as a formula"""
    n = len(s)
    row = [i == 0 for i in range(n + 1)]
    for t in toks:
        if t[0] == "star":
            new = [False] * (n + 1)
            for i in range(n + 1):
                new[i] = sx.or_(row[i], new[i - 1]) if i else row[0]
        else:
            new = [False] + [sx.and_(row[i], one(sx, t, s[i])) for i in range(n)]
        row = new
    return row[n]


def fits(sx, segs, comps):
    """the segments against all of the components"""
    if not segs:
        return len(comps) == 0
    if len(segs[0]) > 1 and all(t[0] == "star" for t in segs[0]):
        if len(segs) == 1:
            return len(comps) > 0
        return sx.or_(*[fits(sx, segs[1:], comps[k:]) for k in range(len(comps) + 1)])
    if not comps:
        return False
    return sx.and_(glob(sx, segs[0], comps[0]), fits(sx, segs[1:], comps[1:]))


def rule(p):
    """None or (negated, folder only, segments)"""
    if not p.strip() or p[0] == "#":
        return None
    neg = p[0] == "!"
    p = p[neg:]
    while p.endswith(" ") and not p.endswith("\\ "):
        p = p[:-1]
    if not p.strip("/"):
        return None
    folder = p.endswith("/")
    if folder:
        p = p[:-1]
    anchored = "/" in p
    if p.startswith("/"):
        p = p[1:]
    segs = tokens(p)
    if not anchored:
        segs = [[("star",), ("star",)]] + segs
    return neg, folder, segs


def applies(sx, r, comps, slash):
    neg, folder, segs = r
    if not folder:
        return fits(sx, segs, comps)
    if neg:
        return sx.and_(slash, fits(sx, segs, comps))
    return sx.or_(*[fits(sx, segs, comps[:k + 1]) for k in range(len(comps))])


def ignored(sx, lines, comps, slash):
    out = False
    for ln in lines:
        r = rule(ln)
        if r is not None:
            m = applies(sx, r, comps, slash)
            out = sx.ite(m, not r[0], out) if m is not True and m is not False else (not r[0] if m else out)
    return out


# ------------------------------------------------------------------ cases
def component(sx, name, n):
    s = sx.text(name, n, alphabet=LET)
    if n < 3:
        sx.assume(sx.not_(sx.eq(s, "." * n)))
    return s


def setup(sx):
    if sx.symbolic:
        P.here = P("/nowhere")
        G.Path = P
    else:
        G.Path = REAL


def ask(sx, lines, shape, slash, base=BASE, tail=None):
    comps = [component(sx, "c%d" % i, n) for i, n in enumerate(shape)]
    bits = [BASE]
    for c in comps:
        bits += ["/", c]
    path = sx.scat(*bits, "/" if slash else "")
    return comps, path


def single(sx, pats, shape, slash):
    setup(sx)
    pat = sx.pick("pattern", pats)
    comps, path = ask(sx, [pat], shape, slash)
    got = G.parse_gitignore_lines(["*\n", pat + "\n"] if pat.startswith("!") else [pat + "\n"], BASE + "/.gitignore", BASE)(path)
    want = ignored(sx, ["*", pat] if pat.startswith("!") else [pat], comps, slash)
    sx.check(sx.eq(got, want), "a path is ignored exactly if the pattern matches it")
    sx.cover("folder" if slash else "file")
    sx.cover("ignored" if got else "kept")


def many(sx, sets, shape, slash, twice):
    """the last matching rule decides"""
    setup(sx)
    lines = [sx.pick("l%d" % i, s) for i, s in enumerate(sets)]
    comps, path = ask(sx, lines, shape, slash)
    f = G.parse_gitignore_lines([ln + "\n" for ln in lines], BASE + "/.gitignore", BASE)
    got = f(path)
    sx.check(sx.eq(got, ignored(sx, lines, comps, slash)), "the last rule that matches a path decides")
    if twice:
        sx.check(sx.eq(f(path), got), "asking again gives the same answer")
    sx.cover("negated")


def outside(sx, pat, n, m):
    """paths that are not below the base folder are never ignored"""
    setup(sx)
    f = G.parse_gitignore_lines([pat + "\n", "*\n"], BASE + "/.gitignore", BASE)
    t = sx.text("t", n, alphabet="abcdXr")
    c = component(sx, "c", m)
    sx.check(sx.not_(f(sx.scat("/b/r", t, "/", c))), "a path beside the base folder is not ignored")
    sx.check(sx.not_(f(sx.scat("/b/", c))), "a path above the base folder is not ignored")
    sx.check(sx.not_(f(sx.scat("/", t, "/b/r/", c))), "the same names elsewhere are not ignored")
    sx.cover("outside")


def comment(sx, n):
    """comment lines and blank lines are no rules"""
    setup(sx)
    t = sx.text("t", n, alphabet="ab*/!# ")
    c = component(sx, "c", n)
    got = G.parse_gitignore_lines([sx.scat("#", t, "\n"), "\n", "  \n"], BASE + "/.gitignore", BASE)(sx.scat(BASE, "/", c))
    sx.check(sx.not_(got), "comments and blank lines ignore nothing")
    sx.cover("comment")


def link(sx, pat, n, viafile):
    """a base folder given through a link; the ignore file is read from disk"""
    G.Path = REAL
    d = sx.tmp()
    _os.mkdir(_os.path.join(d, "real"))
    _os.symlink(_os.path.join(d, "real"), _os.path.join(d, "link"))
    with open(_os.path.join(d, "real", "ign"), "w") as f:
        f.write(pat + "\n")
    base = _os.path.join(d, "link")
    c = component(sx, "c", n)
    setup(sx)
    if viafile:
        f = G.parse_gitignore_file(_os.path.join(base, "ign"))
    else:
        f = G.parse_gitignore_lines([pat], _os.path.join(base, "ign"), base)
    got = f(sx.scat(base, "/", c))
    sx.check(sx.eq(got, ignored(sx, [pat], [c], False)), "rules apply below the base folder as it was given")
    sx.cover("link")


SEG = ["a", "*", "a*", "*a", "*.X", "?", "a?", "[ab]", "[!a]", "[a-c]b", "[]a]", "[!]a]", "[.-0]", "a[!b]c", "\\*", "\\a\\?", "a**c", "$", "a.c", "#a", "!"]
SHORT = ["a", "*", "a*", "?b", "[!a]", "**", "\\#"]
ONE = []
for s in SEG + ["**", "***", "[a/]", "[/]", "[!/]", "[c-a]", "\\#a", "\\!", "!"]:
    for lead in ("", "/", "**/", "!"):
        for trail in ("", "/", " ", "/  ", "/**"):
            p = lead + s + trail
            if "//" in p or (p.startswith("#")) or s in ("[a/]", "[/]", "[!/]") and (lead or trail) and trail != "/":
                continue
            if p not in ONE:
                ONE.append(p)
ONE += ["/", "!", "! ", "**/**", "/**/", "a\\ ", "a\\  ", "a \\ ", "\\ ", "a b", "a  "]
TWO = ["a***/b", "a***b/b", "**a/b**", "a/***", "***/a", "a/***/b", "!a***/b", "/****/b"]
TWO += [a + "/" + b + t for a in SHORT for b in SHORT for t in ("", "/")]
THREE = ["/".join(x) for x in itertools.product(SHORT[:4] + ["**"], repeat=3)]


def groups(ps, k):
    return [ps[i::k] for i in range(k)]


for shape in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2)):
    for slash in (False, True):
        for i, g in enumerate(groups(ONE, 6)):
            suite.add(Case("one-%s-%d-%d" % ("+".join(map(str, shape)), slash, i), single, pats=g, shape=shape, slash=slash, bounds={"components": len(shape), "chars": sum(shape), "patterns": len(g)}), tier="quick" if not slash or shape in ((1,), (1, 1)) else "thorough")
for shape in ((1, 1), (1, 2), (1, 1, 1), (2, 1, 1)):
    for i, g in enumerate(groups(TWO, 6)):
        suite.add(Case("two-%s-%d" % ("+".join(map(str, shape)), i), single, pats=g, shape=shape, slash=False, bounds={"components": len(shape), "chars": sum(shape), "patterns": len(g)}), tier="quick" if sum(shape) < 4 else "thorough")
for shape in ((1, 1), (1, 1, 1), (1, 1, 1, 1), (1, 2, 1)):
    for i, g in enumerate(groups(THREE, 6)):
        suite.add(Case("three-%s-%d" % ("+".join(map(str, shape)), i), single, pats=g, shape=shape, slash=False, bounds={"components": len(shape), "chars": sum(shape), "patterns": len(g)}), tier="quick" if shape == (1, 1, 1) else "thorough")
L1 = ["a*", "*", "/a/", "", "#a"]
L2 = ["!a", "!*b", "!/a", "!*/", "!a/b", "b"]
L3 = ["a", "!?", "a/", "**/b", "!**/b/"]
for shape in ((1,), (2,), (1, 1)):
    for slash in (False, True):
        suite.add(Case("rules2-%s-%d" % ("+".join(map(str, shape)), slash), many, sets=(L1, L2), shape=shape, slash=slash, twice=True, bounds={"rules": 2, "chars": sum(shape)}))
        suite.add(Case("rules3-%s-%d" % ("+".join(map(str, shape)), slash), many, sets=(L1, L2, L3), shape=shape, slash=slash, twice=False, bounds={"rules": 3, "chars": sum(shape)}), tier="quick" if shape != (1, 1) else "thorough")
for n in (1, 2):
    suite.add(Case("outside-%d" % n, outside, pat="a", n=n, m=2, bounds={"chars": n + 2}))
    suite.add(Case("comment-%d" % n, comment, n=n + 1, bounds={"chars": n + 1}))
    suite.add(Case("link-%d" % n, link, pat=["a*", "[!a]?"][n - 1], n=n, viafile=n == 1, bounds={"chars": n}))
