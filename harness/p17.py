"""P17 EDK2 conditionals and macros: exactly one branch is active, expressions evaluate as written, macros expand to their values."""

import edk2toollib.uefi.edk2.parsers.base_parser as B
from sx.case import Case, Suite

suite = Suite()
COVER = ["active", "inactive", "nested", "rel", "str", "in", "not", "paren", "macro", "ifdef", "comment", "refused"]
ASSUMPTIONS = [
    "AND and OR have the same precedence and associate to the left, and IN is substring inclusion: existing tests pin both.",
    "How far an unparenthesized NOT reaches to its right is not claimed.",
]


def parser(sx, inp=None, loc=None):
    p = B.BaseParser("x")
    p.SetInputVars(inp or {})
    p.LocalVars = dict(loc or {})
    return p


def do(p, line):
    """what the file parsers do with every line"""
    return p.ProcessConditional(p.ReplaceVariables(line))


KINDS = ["!if", "!elseif", "!else", "!endif", "!ifdef", "!ifndef"]


def branches(sx, n, first=None, upper=False, seq=None):
    """any well-formed sequence of n directives whose conditions are arbitrary"""
    ops = [sx.choice("op%d" % i, len(KINDS)) for i in range(n)] if seq is None else seq
    v = [sx.int("v%d" % i, 0, 9) for i in range(n)]
    p = parser(sx, {"V%d" % i: v[i] for i in range(n)})
    for i, k in enumerate(first or []):
        sx.assume(ops[i] == k)
    stack = []  # [active now, some branch was active, had else]
    for i in range(n):
        k = kind(ops[i])
        word = k.upper() if upper else k
        if k in ("!elseif", "!else", "!endif"):
            sx.assume(len(stack) > 0)
        c = v[i] == 3
        if k == "!if":
            line = word + " $(V%d) == 3" % i
            stack.append([c, c, False])
        elif k == "!elseif":
            sx.assume(not stack[-1][2])
            line = word + " 3 == $(V%d)" % i
            t = stack[-1]
            stack[-1] = [sx.and_(c, sx.not_(t[1])), sx.or_(c, t[1]), False]
        elif k == "!else":
            sx.assume(not stack[-1][2])
            line = word
            t = stack[-1]
            stack[-1] = [sx.not_(t[1]), True, True]
        elif k == "!endif":
            line = word
            stack.pop()
        else:
            have = i % 2 == 0  # V<i> is defined, W<i> is not
            line = "%s %s%d" % (word, "V" if have else "W", i)
            c = have if k == "!ifdef" else not have
            stack.append([c, c, False])
        sx.check(do(p, line) is True, "a directive is recognized")
        want = sx.and_(True, *[t[0] for t in stack])
        sx.check(p.InActiveCode() == want, "code is active exactly when, at every level, its branch is the first whose condition holds")
        if len(stack) > 1:
            sx.cover("nested")
    sx.check(len(p.ConditionalStack) == len(stack), "every block is open until its endif")
    sx.cover("active" if p.InActiveCode() else "inactive")


def kind(op):
    for i, k in enumerate(KINDS):
        if op == i:
            return k


def num(sx, name, form, hi):
    """(text, value) of a number in one of the accepted notations"""
    v = sx.int(name, 0, hi)
    if form == "dec":
        return v, v
    if form == "hex":
        return sx.scat("0x", sx.hexs(v, 4)), v
    return sx.scat("0X", sx.hexs(v, 4, True)), v


REL = ["==", "!=", "<", ">", "<=", ">=", "EQ", "NE"]


def rel(op, a, b):
    return {"==": lambda: a == b, "EQ": lambda: a == b, "!=": lambda: a != b, "NE": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()


def ev(sx, p, expr):
    """through both directives"""
    r = p.EvaluateConditional("!if " + expr)
    return r


def compare(sx, op, f1, f2, hi, space=" "):
    ta, a = num(sx, "a", f1, hi)
    tb, b = num(sx, "b", f2, hi)
    p = parser(sx, {"A": ta}, {"A": "0", "B": tb})
    word = op.lower() if op in ("EQ", "NE") else op
    got = p.EvaluateConditional("!if $(A)%s%s%s$(B)" % (space, word, space))
    sx.check(got == rel(op, a, b), "a comparison of numbers is the comparison of their values")
    sx.cover("rel")


def literal(sx, op, n):
    """numbers written in the expression itself"""
    t = sx.text("t", n, alphabet="0123456789")
    a = 0
    for ch in t:
        a = a * 10 + (ord(ch) - 48)
    p = parser(sx)
    sx.check(p.EvaluateConditional(sx.scat("!if ", t, op, "41")) == rel(op, a, 41), "a comparison of numbers is the comparison of their values")
    sx.check(p.EvaluateConditional(sx.scat("!elseif 41 ", op, " ", t)) == rel(op, 41, a), "a comparison of numbers is the comparison of their values")


def strings(sx, n, m, quoted):
    a = sx.text("a", n, alphabet="ABCdef_.", )
    b = sx.text("b", m, alphabet="ABCdef_.")
    q = '"' if quoted else ""
    p = parser(sx, {"A": a})
    for t in (a, b):
        sx.assume(sx.not_(sx.or_(*[sx.eq(t.upper(), w) for w in ("EQ", "NE", "IN", "OR", "AND", "NOT")])) if not quoted else True)
    sx.check(p.EvaluateConditional(sx.scat("!if ", q, "$(A)", q, " == ", q, b, q)) == sx.eq(a, b), "text is equal exactly when it is the same text")
    sx.check(p.EvaluateConditional(sx.scat("!if ", q, b, q, " != ", q, "$(A)", q)) == sx.not_(sx.eq(a, b)), "text is equal exactly when it is the same text")
    sx.cover("str")


def quoted(sx, n):
    """a quoted string is one operand whatever it contains"""
    a = sx.text("a", n, alphabet=" ()=<>!&|Ax")
    b = sx.text("b", n, alphabet=" ()=<>!&|Ax")
    p = parser(sx)
    r = p.EvaluateConditional(sx.scat('!if "', a, '" == "', b, '"'))
    sx.check(r == sx.eq(a, b), "a quoted string is one operand whatever it contains")


def inclusion(sx, n, m, word):
    a, b = sx.text("a", n, alphabet="ABC"), sx.text("b", m, alphabet="ABC")
    p = parser(sx, {"L": b})
    want = sx.or_(False, *[sx.eq(b[i : i + n], a) for i in range(m - n + 1)])
    sx.check(p.EvaluateConditional(sx.scat('!if "', a, '" ', word, " $(L)")) == (want if "NOT" not in word.upper() else sx.not_(want)), "IN is inclusion")
    # and it binds tighter than OR / AND
    c = sx.choice("c", 2)
    q = parser(sx, {"L": b, "C": c})
    sx.check(q.EvaluateConditional(sx.scat('!if $(C) AND "', a, '" ', word, " $(L)")) == sx.and_(c == 1, want if "NOT" not in word.upper() else sx.not_(want)), "IN is inclusion")
    sx.cover("in")


def logic(sx, o1, l, o2, paren):
    """(A o1 B) l (C o2 D), with and without the parentheses"""
    v = [sx.int(k, 0, 9) for k in "ABCD"]
    p = parser(sx, dict(zip("ABCD", v)))
    if paren:
        e = "($(A) %s $(B))%s($(C) %s $(D))" % (o1, " " + l + " ", o2)
    else:
        e = "$(A) %s $(B) %s $(C) %s $(D)" % (o1, l, o2)
    x, y = rel(o1, v[0], v[1]), rel(o2, v[2], v[3])
    want = sx.and_(x, y) if l.upper() in ("AND", "&&") else sx.or_(x, y)
    sx.check(p.EvaluateConditional("!if " + e) == want, "AND and OR combine the comparisons beside them")
    sx.cover("paren" if paren else "rel")


def three(sx, l1, l2, form):
    v = [sx.int(k, 0, 2) for k in "ABC"]
    p = parser(sx, dict(zip("ABC", v)))
    b = [x != 0 for x in v]
    f = lambda l, x, y: sx.and_(x, y) if l == "AND" else sx.or_(x, y)
    if form == "flat":
        e, want = "$(A) %s $(B) %s $(C)" % (l1, l2), f(l2, f(l1, b[0], b[1]), b[2])
    elif form == "right":
        e, want = "$(A) %s ($(B) %s $(C))" % (l1, l2), f(l1, b[0], f(l2, b[1], b[2]))
    elif form == "nested":
        e, want = "(($(A)) %s ($(B) == 1 %s ($(C))))" % (l1, l2), f(l1, b[0], f(l2, v[1] == 1, b[2]))
    elif form == "eq":
        e, want = "$(A) == $(B) %s $(B) == $(C) %s $(A) <= $(C)" % (l1, l2), f(l2, f(l1, v[0] == v[1], v[1] == v[2]), v[0] <= v[2])
    sx.check(p.EvaluateConditional("!if " + e) == want, "parentheses group, and without them AND and OR apply from left to right")
    sx.cover("paren")


def negation(sx, form):
    v = [sx.int(k, 0, 2) for k in "AB"]
    p = parser(sx, dict(zip("AB", v)))
    a, b = v[0] != 0, v[1] != 0
    e, want = {
        "one": ("NOT $(A)", sx.not_(a)),
        "bang": ("!$(A)", sx.not_(a)),
        "paren": ("NOT ($(A) OR $(B))", sx.not_(sx.or_(a, b))),
        "last": ("$(A) AND NOT $(B)", sx.and_(a, sx.not_(b))),
        "lastor": ("$(A) OR NOT ($(B) == 2)", sx.or_(a, v[1] != 2)),
        "both": ("(NOT $(A)) AND (NOT $(B))", sx.and_(sx.not_(a), sx.not_(b))),
        "twice": ("NOT (NOT $(A))", a),
        "cmp": ("NOT ($(A) >= $(B))", sx.not_(v[0] >= v[1])),
        "lower": ("$(A) and not ($(B))", sx.and_(a, sx.not_(b))),
        "bangparen": ("$(A) && !($(B))", sx.and_(a, sx.not_(b))),
    }[form]
    sx.check(p.EvaluateConditional("!if " + e) == want, "NOT negates")
    sx.cover("not")


def booleans(sx, form):
    """TRUE and FALSE, and macros with Python booleans"""
    a, b = sx.choice("a", 2), sx.choice("b", 2)
    p = parser(sx, {"A": True if a == 1 else False, "B": "true" if b == 1 else "False"})
    x, y = a == 1, b == 1
    e, want = {"and": ("$(A) AND $(B)", sx.and_(x, y)), "eq": ("$(A) == $(B)", a == b), "ne": ("$(B) != TRUE", sx.not_(y)), "num": ("$(A) == 1 OR $(B) == FALSE", sx.or_(x, sx.not_(y))), "self": ("$(A)", x)}[form]
    sx.check(p.EvaluateConditional("!if " + e) == want, "TRUE and FALSE are truth values")


def refused(sx, form):
    a = sx.int("a", 0, 9)
    p = parser(sx, {"A": a})
    e = {"half": "$(A) ==", "and": "$(A) AND", "two": "$(A) $(A)", "empty": '""', "text": "ROCKET", "rel": "ROCKET > $(A)", "rel2": "$(A) <= ROCKET", "bool": "$(A) > TRUE", "op": "$(A) <> 4"}[form]
    before = len(p.ConditionalStack)
    r = sx.attempt(p.ProcessConditional, "!if " + e)
    sx.check(not r.ok, "a malformed expression is refused")
    sx.check(len(p.ConditionalStack) == before, "a refused conditional opens no block")
    sx.cover("refused")


def macro(sx, shape):
    """text with macro references: every defined one becomes its value and nothing else changes"""
    t = [sx.text("t%d" % i, n, exclude="$()") for i, n in enumerate((1, 0, 2, 1))]
    x, y, z = sx.text("x", 2, exclude="$"), sx.text("y", 1, exclude="$"), sx.text("z", 3, exclude="$()")
    for w in (x, y, z):
        sx.assume(sx.not_(sx.eq(w.upper(), "TRUE")))
    sx.assume(sx.not_(sx.eq(t[0], "!")))
    p = parser(sx, {"X": x, "LONG_NAME": z}, {"X": "local", "Y": y})
    vals = {"X": x, "Y": y, "LONG_NAME": z, "U": None}
    line, want = [t[0]], [t[0]]
    for i, n in enumerate(shape):
        line += ["$(%s)" % n, t[1 + i % 3]]
        want += [vals[n] if vals[n] is not None else "$(%s)" % n, t[1 + i % 3]]
    sx.check(sx.eq(p.ReplaceVariables(sx.scat(*line)), sx.scat(*want)), "defined macros become their values, undefined ones and the rest of the line stay")
    sx.cover("macro")


def macro_nested(sx):
    """a value that looks like a reference is not expanded again and does not disturb the others"""
    y = sx.text("y", 2, exclude="$()")
    sx.assume(sx.not_(sx.eq(y.upper(), "TRUE")))
    p = parser(sx, {"X": "$(Y)", "Y": y, "S": "a$(S)"})
    sx.check(sx.eq(p.ReplaceVariables("$(X)-$(Y)"), sx.scat("$(Y)-", y)), "each reference becomes its own value")
    sx.check(sx.eq(p.ReplaceVariables("$(Y)$5 ($(Y))"), sx.scat(y, "$5 (", y, ")")), "other dollar signs stay")
    sx.check(sx.eq(p.ReplaceVariables("<$(S)$(Y)"), sx.scat("<", y)), "a macro defined by itself is empty")


def macro_if(sx):
    v = sx.int("v", 0, 300)
    for w in ("!if", "!ELSEIF"):
        p = parser(sx, {"V": v})
        sx.check(sx.eq(p.ReplaceVariables(w + " $(U) == $(V)"), sx.scat(w, " 0 == ", sx.decimal(v))), "an undefined macro is 0 in a condition")


def macro_bool(sx):
    t = sx.text("t", 4, alphabet="TRUEtrue")
    p = parser(sx, {"V": t})
    up = t.upper()
    sx.check(sx.eq(p.ReplaceVariables("a$(V)"), sx.scat("a", up if up == "TRUE" else t)), "truth values are written in upper case")


def ifdef(sx, val):
    """only whether the name is defined counts"""
    name = sx.text("name", 2, alphabet="ABC0")
    p = parser(sx, {"AB": val}, {"CA": val})
    have = sx.or_(sx.eq(name, "AB"), sx.eq(name, "CA"))
    for word, want in (("!ifdef", have), ("!IFNDEF", sx.not_(have))):
        for form in ("%s", "$(%s)"):
            pre, post = form.split("%s")
            sx.check(do(p, sx.scat(word, " ", pre, name, post)) is True, "a directive is recognized")
            sx.check(p.InActiveCode() == want, "a name is defined exactly when a macro of that name exists")
            p.ResetParserState()
    sx.cover("ifdef")


def other(sx, n):
    """a line that is no directive changes nothing"""
    t = sx.text("t", n, alphabet="!iIfelsnd x=")
    sx.assume(t.strip() != "")
    first = t.split()[0].lower()
    sx.assume(first not in ("!if", "!else", "!elseif", "!endif", "!ifdef", "!ifndef"))
    p = parser(sx)
    sx.check(p.ProcessConditional(t) is False, "other lines are not directives")
    sx.check(p.ConditionalStack == [], "other lines change nothing")


def comment(sx, n):
    """the comment starts at the first # outside quotes"""
    t = sx.text("t", n, alphabet="a #\"'")
    out = B.HashFileParser("x").StripComment(t)
    q, keep, cut = "", 0, n
    for i in range(n):
        ch = t[i]
        if q:
            if ch == q:
                q = ""
        elif ch == '"' or ch == "'":
            q = ch
        elif ch == "#":
            cut = i
            break
    want = t[:cut].rstrip() if cut < n or "#" in t else t.strip()
    sx.check(sx.eq(out.strip(), want.strip()), "everything before the first unquoted # is kept, nothing after it")
    sx.cover("comment")


def section(sx, n):
    t = sx.text("t", n, alphabet="AbC ")
    a = sx.text("a", 2, alphabet="XI3")
    p = B.HashFileParser("x")
    sx.check(sx.eq(p.ParseNewSection(sx.scat("[", t, ".", a, ", Other.common]"))[1], t.strip()), "the section is the name before the first dot")
    sx.check(sx.eq(p.CurrentFullSection, sx.scat(t, ".", a).strip()), "the full section is the first name")
    sx.check(p.ParseNewSection(sx.scat(t, "=", a)) == (False, ""), "other lines are no section")


suite.add(Case("branches-3", branches, "any 3 directives, any conditions", n=3))
suite.add(Case("branches-3-upper", branches, "any 3 upper-case directives, any conditions", n=3, upper=True))
for f in (0, 4, 5):
    suite.add(Case("branches-4-%d" % f, branches, "any 4 directives starting with %s" % KINDS[f], n=4, first=[f]))
for f in (0, 4, 5):
    for g in range(6):
        suite.add(Case("branches-5-%d%d" % (f, g), branches, "any 5 directives starting with %s %s" % (KINDS[f], KINDS[g]), n=5, first=[f, g]), tier="thorough")
for sq in ("011123", "001233", "001323", "010233", "002323", "011333", "040233", "002350", "023023", "012301"):
    q = [int(c) for c in sq]
    while len([c for c in q if c == 3]) > len([c for c in q if c in (0, 4, 5)]):
        q.pop()
    suite.add(Case("shape-" + sq, branches, "any conditions at " + " ".join(KINDS[c] for c in q), n=len(q), seq=q))
for op in REL:
    suite.add(Case("cmp-" + op, compare, "any numbers 0-999", op=op, f1="dec", f2="dec", hi=999))
for op in REL:
    suite.add(Case("cmp-hex-" + op, compare, "any 16-bit numbers, hex against decimal", op=op, f1="hex", f2="dec", hi=0xFFFF))
    suite.add(Case("cmp-HEX-" + op, compare, "any 16-bit numbers, decimal against upper-case hex", op=op, f1="dec", f2="HEX", hi=0xFFFF))
    if op in ("EQ", "NE"):
        continue
    suite.add(Case("cmp-tight-" + op, compare, "no blanks around the operator", op=op, f1="dec", f2="dec", hi=99, space=""))
    suite.add(Case("lit-" + op, literal, "any two digits", op=op, n=2))
for n, m in ((1, 1), (2, 2), (3, 3), (2, 3)):
    for q in (False, True):
        suite.add(Case("str-%d-%d-%s" % (n, m, "q" if q else "u"), strings, "texts of %d and %d characters" % (n, m), n=n, m=m, quoted=q))
for n in (1, 2):
    suite.add(Case("quoted-%d" % n, quoted, "quoted texts of %d characters" % n, n=n))
suite.add(Case("quoted-3", quoted, "quoted texts of 3 characters", n=3), tier="thorough")
for n, m in ((1, 1), (1, 3), (2, 3), (3, 2)):
    for w in ("IN", "in", "NOT IN"):
        suite.add(Case("in-%d-%d-%s" % (n, m, w.replace(" ", "")), inclusion, "texts of %d and %d characters" % (n, m), n=n, m=m, word=w))
for i, o1 in enumerate(REL[:6]):
    for j, o2 in enumerate(REL[:6]):
        l = ["AND", "OR", "&&", "||", "and", "or"][(i + j) % 6]
        suite.add(Case("logic-%s-%s-%s" % (o1, l, o2), logic, "any digits", o1=o1, l=l, o2=o2, paren=False))
        if (i + j) % 3 == 0:
            suite.add(Case("logicp-%s-%s-%s" % (o1, l, o2), logic, "any digits", o1=o1, l=l, o2=o2, paren=True))
for l1 in ("AND", "OR"):
    for l2 in ("AND", "OR"):
        for f in ("flat", "right", "nested", "eq"):
            suite.add(Case("three-%s-%s-%s" % (l1, l2, f), three, "any digits 0-2", l1=l1, l2=l2, form=f))
for f in ("one", "bang", "paren", "last", "lastor", "both", "twice", "cmp", "lower", "bangparen"):
    suite.add(Case("not-" + f, negation, "any digits 0-2", form=f))
for f in ("and", "eq", "ne", "num", "self"):
    suite.add(Case("bool-" + f, booleans, "any truth values", form=f))
for f in ("half", "and", "two", "empty", "text", "rel", "rel2", "bool", "op"):
    suite.add(Case("refused-" + f, refused, "any digit", form=f))
for s in (["X"], ["X", "Y"], ["Y", "Y"], ["U", "X"], ["LONG_NAME", "U", "X"]):
    suite.add(Case("macro-" + "".join(x[0] for x in s), macro, "any text and values of 1-3 characters around %s" % s, shape=s))
suite.add(Case("macro-5", macro, "five references", shape=["Y", "X", "U", "Y", "LONG_NAME"]), tier="thorough")
suite.add(Case("macro-nested", macro_nested, "values that look like references"))
suite.add(Case("macro-if", macro_if, "any value 0-300"))
suite.add(Case("macro-bool", macro_bool, "any four letters of true and TRUE"))
for i, v in enumerate(("", "0", "FALSE", False, 0, "x y")):
    suite.add(Case("ifdef-%d" % i, ifdef, "any 2-character name, value %r" % (v,), val=v))
for n in (2, 4):
    suite.add(Case("other-%d" % n, other, "any %d characters" % n, n=n))
for n in (3, 5):
    suite.add(Case("comment-%d" % n, comment, "any %d characters of blank, quotes, # and a" % n, n=n), tier="quick" if n < 5 else "thorough")
suite.add(Case("section-2", section, "any section name of 2 letters or blanks", n=2))
