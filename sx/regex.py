"""Backtracking matcher over CPython's own regex parse trees, for symbolic strings (str patterns only)."""

import re
import re._constants as C
import re._parser as P

from . import engine as _eng
from . import values as V
from .engine import Unsupported
from .values import SymStr, band, bnot, bor, chars, is_sym, isstr, mkstr

_cache = {}


def parse(pattern, flags):
    key = (pattern, flags)
    if key not in _cache:
        t = P.parse(pattern, flags)
        _cache[key] = t
    return _cache[key]


def ascii_char(e):
    r = V.in_range(e, 0, 127)
    if r is not True and not r:
        raise Unsupported("regex class of a non-ASCII character")


def word(e):
    if isinstance(e, int):
        return bool(re.match(r"\w", chr(e)))
    ascii_char(e)
    return bor(V.in_range(e, 48, 57), V.in_range(e, 65, 90), V.in_range(e, 97, 122), V.eqelem(e, 95))


def category(av, e):
    n = str(av)
    neg = "NOT_" in n
    if "DIGIT" in n:
        if isinstance(e, int):
            r = bool(re.match(r"\d", chr(e)))
        else:
            ascii_char(e)
            r = V.in_range(e, 48, 57)
    elif "SPACE" in n:
        if isinstance(e, int):
            r = bool(re.match(r"\s", chr(e)))
        else:
            r = V.in_set(e, V.WS_STR + ((0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000) + tuple(range(0x2000, 0x200B)) if e.size() > 8 else ()))
    elif "WORD" in n:
        r = word(e)
    else:
        raise Unsupported("regex category " + n)
    return bnot(r) if neg else r


def lit(e, c, ic):
    if not ic:
        return V.eqelem(e, c)
    alts = {c}
    ch = chr(c)
    for x in (ch.lower(), ch.upper()):
        if len(x) == 1:
            alts.add(ord(x))
    if not isinstance(e, int):
        if ch in "kK":
            alts.add(0x212A)
        if ch in "sS":
            alts.add(0x17F)
    return bor(*[V.eqelem(e, a) for a in alts])


def rng(e, a, b, ic):
    r = V.in_range(e, a, b)
    if ic:
        if isinstance(e, int):
            ch = chr(e)
            return r or any(len(x) == 1 and a <= ord(x) <= b for x in (ch.lower(), ch.upper()))
        ascii_char(e)
        lo = V.elem(V._ext(V.case_elem(e, False), False, e.size())) if True else e
        up = V.case_elem(e, True)
        r = bor(r, V.in_range(lo, a, b), V.in_range(up, a, b))
    return r


def in_class(items, e, ic):
    neg = False
    rs = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            rs.append(lit(e, av, ic))
        elif op is C.RANGE:
            rs.append(rng(e, av[0], av[1], ic))
        elif op is C.CATEGORY:
            rs.append(category(av, e))
        else:
            raise Unsupported("regex set item %s" % op)
    r = bor(*rs)
    return bnot(r) if neg else r


ONE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)


def fixed(av):
    """a repeat of one single-character item a fixed number of times"""
    lo, hi, body = av
    return lo == hi and lo > 0 and len(body) == 1 and body[0][0] in ONE


class Matcher:
    def __init__(self, tree, flags, s):
        self.flags = flags
        self.s = s
        self.n = len(s)

    def one(self, op, av, c, ic):
        if op is C.LITERAL:
            return lit(c, av, ic)
        if op is C.NOT_LITERAL:
            return bnot(lit(c, av, ic))
        if op is C.ANY:
            return True if self.flags & re.DOTALL else bnot(V.eqelem(c, 10))
        return in_class(av, c, ic)

    def m(self, nodes, k, pos, g, cont):
        """match nodes[k:] at pos; cont(pos, g) -> result or None"""
        e = _eng.E
        if e is not None:
            e.tick()
        if k == len(nodes):
            return cont(pos, g)
        op, av = nodes[k]
        s, n = self.s, self.n
        ic = bool(self.flags & re.IGNORECASE)
        nxt = lambda p, gg: self.m(nodes, k + 1, p, gg, cont)
        if op in ONE or op is C.MAX_REPEAT and fixed(av):
            # a run of single characters is one condition: no path is split on a prefix of a run that cannot match
            cs = []
            p = pos
            while k < len(nodes):
                op, av = nodes[k]
                if op in ONE:
                    if p >= n:
                        return None
                    cs.append(self.one(op, av, s[p], ic))
                    p += 1
                elif op is C.MAX_REPEAT and fixed(av):
                    if p + av[0] > n:
                        return None
                    for _ in range(av[0]):
                        cs.append(self.one(*av[2][0], s[p], ic))
                        p += 1
                else:
                    break
                if cs and cs[-1] is False:
                    return None
                k += 1
            return self.m(nodes, k, p, g, cont) if band(*cs) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(alt, 0, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, sub, body = av
            old = self.flags
            if add or sub:
                raise Unsupported("inline regex flags")
            if gid is None:
                return self.m(body, 0, pos, g, nxt)

            def done(p, gg):
                g2 = dict(gg)
                g2[gid] = (pos, p)
                return nxt(p, g2)

            return self.m(body, 0, pos, g, done)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            greedy = op is C.MAX_REPEAT

            def rep(cnt, p, gg, last):
                def more():
                    if hi is not C.MAXREPEAT and cnt >= hi:
                        return None
                    return self.m(body, 0, p, gg, lambda p2, g2: rep(cnt + 1, p2, g2, p) if (p2 != p or cnt < lo) else None)

                if cnt < lo:
                    return more()
                if greedy:
                    r = more()
                    if r is not None:
                        return r
                    return nxt(p, gg)
                r = nxt(p, gg)
                return r if r is not None else more()

            return rep(0, pos, g, -1)
        if op is C.AT:
            a = str(av)
            if a in ("AT_BEGINNING_STRING",) or (a == "AT_BEGINNING" and not self.flags & re.MULTILINE):
                return nxt(pos, g) if pos == 0 else None
            if a == "AT_BEGINNING":
                return nxt(pos, g) if pos == 0 or V.eqelem(s[pos - 1], 10) else None
            if a == "AT_END_STRING":
                return nxt(pos, g) if pos == n else None
            if a == "AT_END":
                if pos == n:
                    return nxt(pos, g)
                if (pos == n - 1 or self.flags & re.MULTILINE) and V.eqelem(s[pos], 10):
                    return nxt(pos, g)
                return None
            if a in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                l = bool(pos > 0 and word(s[pos - 1]))
                r = bool(pos < n and word(s[pos]))
                return nxt(pos, g) if (l != r) == (a == "AT_BOUNDARY") else None
            raise Unsupported("regex " + a)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            w = s[a:b]
            if pos + len(w) > n:
                return None
            if ic:
                raise Unsupported("case-insensitive back reference")
            return nxt(pos + len(w), g) if V.eqseq(s[pos : pos + len(w)], w) else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, body = av
            if d < 0:
                w = body.getwidth()[0]
                if body.getwidth()[0] != body.getwidth()[1]:
                    raise Unsupported("look-behind width")
                r = self.m(body, 0, pos - w, g, lambda p, gg: gg) if pos >= w else None
            else:
                r = self.m(body, 0, pos, g, lambda p, gg: gg)
            if op is C.ASSERT:
                return nxt(pos, r) if r is not None else None
            return nxt(pos, g) if r is None else None
        raise Unsupported("regex op %s" % op)


class Match:
    def __init__(self, pat, string, els, span, groups):
        self.re = pat
        self.string = string
        self._els = els
        self._g = dict(groups)
        self._g[0] = span
        self.pos = 0

    def _id(self, x):
        if isinstance(x, str):
            x = self.re.groupindex[x]
        if not 0 <= x <= self.re.groups:
            raise IndexError("no such group")
        return x

    def group(self, *ids):
        if not ids:
            ids = (0,)
        r = tuple(self._one(self._id(i)) for i in ids)
        return r[0] if len(r) == 1 else r

    def _one(self, i, default=None):
        sp = self._g.get(i)
        return default if sp is None else mkstr(self._els[sp[0] : sp[1]])

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(i, default) for k, i in self.re.groupindex.items()}

    def start(self, i=0):
        return self._g.get(self._id(i), (-1, -1))[0]

    def end(self, i=0):
        return self._g.get(self._id(i), (-1, -1))[1]

    def span(self, i=0):
        return self._g.get(self._id(i), (-1, -1))

    def __getitem__(self, i):
        return self.group(i)

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks) if ks else None

    def __bool__(self):
        return True


def compile_(p, flags=0):
    if isinstance(p, re.Pattern):
        return p
    if isinstance(p, SymStr):
        p = p.concretise()
    return re.compile(p, flags)


def tree_of(pat):
    return parse(pat.pattern, pat.flags & ~(re.UNICODE | re.DEBUG))


def at(pat, els, pos, full):
    t = tree_of(pat)
    fl = pat.flags
    mm = Matcher(t, fl, els)

    def end(p, g):
        if full and p != len(els):
            return None
        return (p, g)

    return mm.m(list(t), 0, pos, {}, end)


def match(pat, s, pos=0, full=False):
    els = chars(s)
    r = at(pat, els, pos, full)
    return None if r is None else Match(pat, s, els, (pos, r[0]), r[1])


def search(pat, s, pos=0):
    els = chars(s)
    for i in range(pos, len(els) + 1):
        r = at(pat, els, i, False)
        if r is not None:
            return Match(pat, s, els, (i, r[0]), r[1])
    return None


def finditer(pat, s):
    els = chars(s)
    pos, lastend = 0, -1
    while pos <= len(els):
        m = None
        for i in range(pos, len(els) + 1):
            r = at(pat, els, i, False)
            if r is not None:
                if r[0] == i and i == lastend:
                    # an empty match right after the previous match is still allowed by Python >= 3.7
                    pass
                m = Match(pat, s, els, (i, r[0]), r[1])
                break
        if m is None:
            return
        yield m
        a, b = m.span()
        if b == a:
            pos = b + 1
        else:
            pos = b
        lastend = b


def findall(pat, s):
    out = []
    for m in finditer(pat, s):
        if pat.groups == 0:
            out.append(m.group(0))
        elif pat.groups == 1:
            out.append(m._one(1, ""))
        else:
            out.append(m.groups(""))
    return out


def split(pat, s, maxsplit=0):
    els = chars(s)
    out, last, n = [], 0, 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(mkstr(els[last:a]))
        out.extend(m.groups())
        last = b
        n += 1
    out.append(mkstr(els[last:]))
    return out


def sub(pat, repl, s, count=0):
    return subn(pat, repl, s, count)[0]


def subn(pat, repl, s, count=0):
    els = chars(s)
    out, last, n = [], 0, 0
    tpl = None
    if isinstance(repl, str):
        tpl = P.parse_template(repl, pat)
    elif isinstance(repl, SymStr):
        if not all(bool(bnot(V.eqelem(c, 92))) for c in repl.e):
            raise Unsupported("backslash in a symbolic replacement")
        tpl = [repl]
    for m in finditer(pat, s):
        if count and n >= count:
            break
        a, b = m.span()
        out += els[last:a]
        if tpl is None:
            from . import models

            out += chars(models.call(repl, m))
        else:
            for x in tpl:
                if isinstance(x, int):
                    out += chars(m._one(x, ""))
                else:
                    out += chars(x)
        last = b
        n += 1
    out += els[last:]
    return mkstr(out), n


def run(name, pat, a, k):
    if name == "match":
        return match(pat, *a, **k)
    if name == "fullmatch":
        return match(pat, *a, full=True, **k)
    if name == "search":
        return search(pat, *a, **k)
    if name == "split":
        return split(pat, *a, **k)
    if name == "findall":
        return findall(pat, *a, **k)
    if name == "finditer":
        return finditer(pat, *a, **k)
    if name == "sub":
        return sub(pat, *a, **k)
    if name == "subn":
        return subn(pat, *a, **k)
    raise Unsupported("re." + name)


def pattern_method(pat, name, a, k):
    return run(name, pat, a, k)


def module_func(name, *a, **k):
    from . import models

    if not models.any_sym(a, k) and not (name in ("sub", "subn") and callable(a[1])):
        return getattr(re, name)(*a, **k)
    if name == "escape":
        out = []
        for c in chars(a[0]):
            if isinstance(c, int):
                out += chars(re.escape(chr(c)))
            elif V.in_set(c, tuple(ord(x) for x in "()[]{}?*+-|^$\\.&~# \t\n\r\v\f")):
                out += [92, c]
            else:
                out.append(c)
        return mkstr(out)
    flags = k.pop("flags", 0)
    a = list(a)
    npos = {"match": 2, "search": 2, "fullmatch": 2, "findall": 2, "finditer": 2, "split": 3, "sub": 4, "subn": 4}[name]
    if len(a) > npos:
        flags = a.pop()
    pat = compile_(a[0], flags)
    return run(name, pat, a[1:], k)
