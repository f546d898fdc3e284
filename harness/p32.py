"""P32 DSC model: entries are kept once per identity, sections once per scope, and a written DSC reads back as the model."""

import edk2toollib.uefi.edk2.build_objects.dsc as D
import edk2toollib.uefi.edk2.build_objects.dsc_translator as T
from sx.case import Case, Suite

suite = Suite()
COVER = ["equal", "unequal", "replaced", "kept", "refused", "section", "written", "component", "models", "file"]
ASSUMPTIONS = [
    "Texts of a model contain no line breaks, '#', '[', ']', '|', '=', '{', '}', '<', '>' and no spaces at their ends, which DSC files cannot hold there.",
    "SKUs and default stores of two PCD sections do not make them different sections, as the code documents with its hash.",
    "In the symbolic runs all objects hash alike, so that sets compare them by equality; that equal objects hash alike is checked separately.",
]
NAME = "aAbB"
ARCH = ["common", "COMMON", "default", "IA32", "ia32", " X64"]
MODS = ["common", "PEIM", "peim ", "BASE"]


def norm(a):
    a = a.upper().strip()
    return "*" if a in ("COMMON", "DEFAULT") else a


# ------------------------------------------------------------------ one object of each kind, with its identity
def t(sx, n, k=1, alphabet=NAME):
    return sx.text(n, k, alphabet=alphabet)


class Some:
    """inputs of which only texts are symbolic, or none"""

    def __init__(self, sx, text):
        self.sx, self.sym = sx, text

    def text(self, n, k, alphabet):
        return self.sx.text(n, k, alphabet=alphabet) if self.sym else alphabet[0] * k

    def pick(self, n, seq):
        return seq[0]

    def bool(self, n):
        return False

    def int(self, n, lo, hi):
        return lo

    def decimal(self, v):
        return str(v)


def make(sx, kind, n, k=1):
    """an object with symbolic fields, and what identifies it"""
    if kind == "definition":
        name = t(sx, n + "n", k)
        return D.definition(name, t(sx, n + "v", k), sx.bool(n + "l")), (name,)
    if kind == "library":
        inf = t(sx, n + "i", k)
        return D.library(inf), (inf,)
    if kind == "library_class":
        name = sx.pick(n + "c", ["NULL", "null", "NuLl"]) if sx.bool(n + "z") else t(sx, n + "c1", k)
        inf = t(sx, n + "i", k)
        return D.library_class(name, inf), ("null", inf) if name.lower() == "null" else (name.lower(), "")
    if kind == "component":
        inf = t(sx, n + "i", k)
        return D.component(inf), (inf,)
    if kind == "default_store":
        i = sx.int(n + "i", 0, 3)
        return D.default_store(sx.decimal(i) if k > 1 else i, t(sx, n + "v", k)), (i,)
    if kind == "build_option":
        f = [t(sx, n + c, k, "A*") for c in "tgaoc"] if k == 1 else ["T", t(sx, n + "g", k, "A*"), "A", t(sx, n + "o", k, "A*"), "C"]
        family = sx.pick(n + "f", [None, "MSFT", "GCC"])
        return D.build_option(f[3], f[4], t(sx, n + "d"), f[0], f[1], f[2], family, sx.bool(n + "r")), tuple(f) + (family or "",)
    if kind in ("pcd", "pcd_typed", "pcd_variable"):
        ns, name = t(sx, n + "s", k), t(sx, n + "n", k)
        if kind == "pcd":
            o = D.pcd(ns, name, t(sx, n + "v"))
        elif kind == "pcd_typed":
            o = D.pcd_typed(ns, name, t(sx, n + "v"), "VOID*", sx.int(n + "m", 0, 99))
        else:
            o = D.pcd_variable(ns, name, t(sx, n + "v"), "gGuid", "0x0", sx.pick(n + "d", [None, "0", ""]), sx.pick(n + "a", [None, "NV", "nv, BS", ["RT", "ro"]]))
        return o, (ns, name)
    if kind == "section":
        a, m = sx.pick(n + "a", ARCH), sx.pick(n + "m", MODS)
        return D.dsc_section_type(a, m), (norm(a), m.upper().strip())
    if kind == "bo_section":
        a, m, c = sx.pick(n + "a", ["common", "default", "ia32"]), sx.pick(n + "m", MODS[:2]), sx.pick(n + "c", ["common", "EDK", "edk "])
        return D.dsc_buildoption_section_type(a, c, m), (norm(a), m.upper().strip(), c.upper().strip())
    if kind == "pcd_section":
        p, a = sx.pick(n + "p", ["FeatureFlag", "FEATUREFLAG ", "DynamicHii", "Dynamic"]), sx.pick(n + "a", ["common", "IA32", "ia32 "])
        return D.dsc_pcd_section_type(p, a, t(sx, n + "k", 1), t(sx, n + "s", 1) if p == "DynamicHii" and sx.bool(n + "h") else None), (p.upper().strip(), a.upper().strip())
    if kind == "pcd_component":
        p = sx.pick(n + "p", ["FeatureFlag", "FEATUREFLAG ", "DynamicHii", "Dynamic"])
        return D.dsc_pcd_component_type(p), (p.upper().strip(),)
    raise ValueError(kind)


ENTRIES = ["definition", "library", "library_class", "component", "default_store", "build_option", "pcd", "pcd_typed", "pcd_variable"]
HEADERS = ["section", "bo_section", "pcd_section", "pcd_component"]


def same(sx, a, b):
    return len(a) == len(b) and sx.and_(*[sx.eq(x, y) for x, y in zip(a, b)])


def laws(sx, kind, other, k):
    a, ia = make(sx, kind, "a", k)
    b, ib = make(sx, other, "b", k)
    e = same(sx, ia, ib)
    sx.check(a == a, "an entry equals itself")
    sx.check(sx.eq(a == b, e), "entries are equal exactly if they have the same identity")
    sx.check(sx.eq(b == a, e), "equality is symmetric")
    sx.check(sx.implies(e, a.__hash__() == b.__hash__()), "equal entries have equal hashes")
    sx.cover("equal" if e else "unequal")


def strangers(sx, kind):
    """nothing of another kind is equal"""
    a, _ = make(sx, kind, "a")
    for o in ENTRIES + HEADERS:
        if o == kind or {o, kind} <= {"pcd", "pcd_typed", "pcd_variable"}:
            continue
        b, _ = make(Some(sx, False), o, "b" + o)
        sx.check(not (a == b) and not (b == a), "entries of different kinds are never equal")
    for b in (None, "a", 0, (), D.sku_id()):
        sx.check(not (a == b), "an entry is not equal to anything else")
    sx.cover("unequal")


def skus(sx):
    a, b = D.sku_id(sx.int("i", 0, 3), t(sx, "n"), t(sx, "p")), D.sku_id(sx.int("j", 0, 3), t(sx, "m"), t(sx, "q"))
    sx.check(sx.eq(a == b, sx.or_(sx.eq(a.id, b.id), sx.eq(a.name, b.name))), "SKUs collide on their id and on their name")
    sx.check(sx.implies(a == b, a.__hash__() == b.__hash__()), "equal SKUs have equal hashes")
    sx.cover("equal" if a == b else "unequal")


# ------------------------------------------------------------------ sets
ALLOWED = {"definition": [D.definition], "library": [D.library, D.definition], "library_class": [D.library_class, D.definition],
           "component": [D.component, D.definition], "default_store": [D.definition, D.default_store], "build_option": [D.build_option, D.definition],
           "pcd": [D.pcd, D.pcd_typed, D.pcd_variable]}  # fmt: skip


def sets(sx, kinds, k):
    """the latest of each identity is kept"""
    sx.flat_hash()
    s = D.dsc_set(ALLOWED.get(kinds[0]))
    kept = []
    for i, kind in enumerate(kinds):
        o, ident = make(sx, kind, "o%d" % i, k)
        s.add(o)
        new = [(x, ix) for x, ix in kept if not (kindof(x) == kindof(o) and same(sx, ix, ident))]
        sx.cover("replaced" if len(new) < len(kept) else "kept")
        kept = new + [(o, ident)]
        got = list(s)
        sx.check(len(got) == len(kept) == len(s), "one entry is kept for each identity")
        for x, _ in kept:
            sx.check(any(g is x for g in got), "the entry added last for an identity is the one kept")
            sx.check(x in s, "an entry kept is found")


def kindof(o):
    return D.pcd if isinstance(o, D.pcd) else type(o)


def skuset(sx, k):
    sx.flat_hash()
    s = D.dsc().skus
    kept = []
    for i in range(k):
        o = D.sku_id(sx.int("i%d" % i, 0, 7), t(sx, "n%d" % i, 1, "abc"))
        s.add(o)
        new = [x for x in kept if not sx.or_(sx.eq(x.id, o.id), sx.eq(x.name, o.name))]
        sx.cover("replaced" if len(new) < len(kept) else "kept")
        kept = new + [o]
        got = list(s)
        sx.check(len(got) == len(kept), "ids and names of SKUs are unique")
        for x in kept:
            sx.check(any(g is x for g in got), "the SKU added last is the one kept")


def restricted(sx, attr, kind):
    """entries of the wrong class are refused and change nothing"""
    sx.flat_hash()
    m = D.dsc()
    allowed = ALLOWED["definition" if attr == "defines" else kind]
    s = getattr(m, attr)
    if not isinstance(s, D.dsc_set):
        s = s[key_of(attr)]
    first, _ = make(sx, kind, "f")
    s.add(first)
    for o in ENTRIES + ["section"]:
        x, _ = make(Some(sx, False), o, "x" + o)
        if type(x) in allowed:
            continue
        r = sx.attempt(s.add, x)
        sx.check(r.raised(ValueError), "an entry of a class that does not belong here is refused")
        sx.check(len(s) == 1 and list(s)[0] is first, "a refused entry changes nothing")
    for x in (D.sku_id(), "a", None):
        if attr != "skus":
            sx.check(sx.attempt(s.add, x).raised(ValueError), "anything else is refused")
    sx.cover("refused")


def key_of(attr):
    return {"build_options": D.dsc_buildoption_section_type, "pcds": lambda: D.dsc_pcd_section_type("Dynamic")}.get(attr, D.dsc_section_type)()


# ------------------------------------------------------------------ sections
SECTION = {"components": ("section", "component"), "libraries": ("section", "library"), "library_classes": ("section", "library_class"),
           "build_options": ("bo_section", "build_option"), "pcds": ("pcd_section", "pcd")}  # fmt: skip


def sections(sx, attr, ops):
    """sections are kept once per scope, in order, with all their entries"""
    sx.flat_hash()
    hk, ek = SECTION[attr]
    d = getattr(D.dsc(), attr)
    ref = []  # [(header, identity, entries)]
    for i, op in enumerate(ops):
        h, ih = make(sx, hk, "h%d" % i)
        hit = [r for r in ref if same(sx, r[1], ih)]
        if op == "get":
            o, _ = make(Some(sx, True), ek, "o%d" % i)
            d[h].add(o)
            if not hit:
                ref.append((h, ih, [o]))
            else:
                hit[0][2][:] = [x for x in hit[0][2] if not (x == o)] + [o]
        else:
            if op == "set":
                val = set()
            elif op == "one":
                val, _ = make(Some(sx, True), ek, "o%d" % i)
            elif op == "dsc":
                val = D.dsc_set(ALLOWED[ek])
                val.add(make(Some(sx, True), ek, "o%d" % i)[0])
            elif op == "other":
                val = D.dsc_set([D.sku_id])
                val.add(D.sku_id())
            elif op == "plain":
                val = {make(Some(sx, True), ek, "o%d" % i)[0]}
            elif op == "bad":
                val = D.sku_id()
            r = sx.attempt(d.__setitem__, h, val)
            if hit or op in ("other", "plain", "bad"):
                sx.check(r.raised(ValueError), "a section that exists, or of entries that do not belong here, is refused")
                sx.cover("refused")
            else:
                sx.check(r.ok, "a new section is accepted")
                ref.append((h, ih, [] if op == "set" else [val] if op == "one" else list(val)))
        sx.check(h in d if hit or op in ("get", "set", "one", "dsc") else h not in d, "the sections that were added are found, no others")
        got = list(d.items())
        sx.check(len(d) == len(got) == len(ref) == len(list(d)) == len(list(d.keys())) == len(list(d.values())), "every section added is there, once")
        for (g, v), (h0, _, es) in zip(got, ref):
            sx.check(g is h0, "the sections are in the order they were added")
            vs = list(v) if isinstance(v, D.dsc_set) else [v]
            sx.check(len(vs) == len(es) and all(any(x is y for y in vs) for x in es), "a section has exactly its entries")
    sx.cover("section")


def wrongkey(sx, attr):
    sx.flat_hash()
    d = getattr(D.dsc(), attr)
    for hk in HEADERS:
        if hk == SECTION[attr][0]:
            continue
        h, _ = make(Some(sx, False), hk, "h" + hk)
        sx.check(sx.attempt(d.__setitem__, h, set()).raised(ValueError), "a header of the wrong kind is refused")
        sx.check(sx.attempt(d.__getitem__, h).raised(ValueError), "a header of the wrong kind makes no section")
    sx.check(len(d) == 0 and list(d) == [], "refused sections leave nothing")
    x = D.dsc_dict()
    sx.check(sx.attempt(x.__getitem__, "a").raised(KeyError), "a dictionary without classes makes no sections by itself")
    sx.cover("refused")


# ------------------------------------------------------------------ headers
def headers(sx):
    """exactly the types the specification knows are accepted"""
    w = sx.pick("word", list(D.dsc_section_type.dsc_module_types) + D.dsc_pcd_types + ["EDK", "EDKII", "", "PEI", "EDK2"])
    form = sx.pick("form", [str.upper, str.lower, lambda s: " " + s, lambda s: s + "\t"])
    v = form(w)
    mods = ["COMMON", "BASE", "SEC", "PEI_CORE", "PEIM", "DXE_CORE", "DXE_DRIVER", "DXE_RUNTIME_DRIVER", "DXE_SAL_DRIVER", "DXE_SMM_DRIVER", "SMM_CORE", "UEFI_DRIVER", "UEFI_APPLICATION", "USER_DEFINED"]
    pcds = ["FEATUREFLAG", "PATCHABLEINMODULE", "FIXEDATBUILD", "DYNAMIC", "DYNAMICEX", "DYNAMICDEFAULT", "DYNAMICHII", "DYNAMICVPD", "DYNAMICEXHII", "DYNAMICEXVPD"]

    def answer(r, good, what):
        sx.check(r.ok if good else r.raised(ValueError), what)

    answer(sx.attempt(D.dsc_section_type, "IA32", v), w in mods, "exactly the module types of the specification are accepted")
    answer(sx.attempt(D.dsc_buildoption_section_type, "IA32", "EDK", v), w in mods, "exactly the module types of the specification are accepted")
    answer(sx.attempt(D.dsc_buildoption_section_type, "IA32", v), w in ("COMMON", "EDK", "EDKII"), "exactly COMMON, EDK and EDKII are code bases")
    answer(sx.attempt(D.dsc_pcd_section_type, v), w in pcds, "exactly the PCD types of the specification are accepted")
    answer(sx.attempt(D.dsc_pcd_section_type, v, "IA32", "SKU", "store"), w in pcds and w.endswith("HII"), "only HII sections have a default store")
    answer(sx.attempt(D.dsc_pcd_component_type, v), w in pcds, "exactly the PCD types of the specification are accepted")
    sx.cover("section")


def attributes(sx, n, listed):
    """the attributes of a variable PCD"""
    def answer(r, good, what):
        sx.check(r.ok if good else r.raised(ValueError), what)

    if listed:
        words = [sx.pick("w%d" % i, ["NV", "bs", "Rt", "RO", "XX", "N", ""]) for i in range(n)]
        a = words if sx.bool("list") else sx.pick("sep", [",", ", ", " ,"]).join(words)
    else:
        a = sx.text("attr", n, alphabet="NVBSRTnrb, ")
    r = sx.attempt(D.pcd_variable, "n", "m", "v", "g", "0", None, a)
    words = [x.strip().upper() for x in (a.split(",") if isinstance(a, str) else a)]
    answer(r, all(x in ("NV", "BS", "RT", "RO") for x in words), "exactly NV, BS, RT and RO are attributes")
    if r.ok:
        sx.check(sx.eq(r.value.attributes, words), "the attributes are those given")
    sx.cover("section")


# ------------------------------------------------------------------ writing, and reading with an independent reader
def fields(line, sep):
    return [x.strip() for x in line.split(sep)]


def entry(section, line, sub=False):
    """one line of a section as a tuple"""
    if line.startswith("DEFINE "):
        return ("def", True) + tuple(fields(line[7:], "="))
    kind = section.lower()
    if kind.startswith("pcds"):
        f = fields(line, "|")
        return ("pcd",) + tuple(f[0].split(".")) + tuple(f[1:])
    if kind == "buildoptions":
        if ":" not in line and "_" not in line:
            return ("def", False) + tuple(fields(line, "="))
        i = line.index("=")
        rep = line[i + 1] == "="
        left = line[:i].strip()
        fam = None
        if ":" in left:
            fam, left = left.split(":")
        return ("opt", fam) + tuple(left.split("_")) + (rep, line[i + 1 + rep :].strip())
    if "=" in line:
        return ("def", False) + tuple(fields(line, "="))
    return (kind,) + tuple(fields(line, "|"))


def read(lines):
    """[(section name, scope words, entries)]; a component is ('component', inf, {subsection: entries})"""
    out, comp, sub = [], None, None
    for line in lines:
        line = line.strip()
        if len(line) == 0:
            continue
        if line.startswith("["):
            words = line[1:-1].split(".")
            out.append((words[0].lower(), [norm(w) for w in words[1:]], []))
        elif line.startswith("<"):
            sub = line[1:-1]
            comp[2].append((sub.lower(), []))
        elif line == "}":
            comp = None
        elif comp is not None:
            comp[2][-1][1].append(entry(sub, line, True))
        elif out[-1][0] == "components" and "=" not in line:
            block = line.endswith("{")
            c = ("component", (line[:-1] if block else line).strip(), [])
            out[-1][2].append(c)
            comp = c if block else None
        else:
            out[-1][2].append(entry(out[-1][0], line))
    return out


def expect(o):
    if type(o) is D.definition:
        return ("def", bool(o.local), o.name, o.value)
    if type(o) is D.library:
        return ("libraries", o.inf)
    if type(o) is D.library_class:
        return ("libraryclasses", o.libraryclass, o.inf)
    if type(o) is D.default_store:
        return ("defaultstores", str(o.index), o.value)
    if type(o) is D.sku_id:
        return ("skuids", str(o.id), o.name, o.parent)
    if type(o) is D.pcd:
        return ("pcd", o.namespace, o.name, o.value)
    if type(o) is D.pcd_typed:
        return ("pcd", o.namespace, o.name, o.value, o.datum_type) + ((str(o.max_size),) if o.max_size > 0 else ())
    if type(o) is D.pcd_variable:
        r = ("pcd", o.namespace, o.name, o.var_name, o.var_guid, o.var_offset)
        if o.default is not None or o.attributes:
            r += (o.default or "",)
        if o.attributes:
            r += (o.attributes,)
        return r
    if type(o) is D.build_option:
        return ("opt", o.family, o.target, o.tagname, o.arch, o.tool_code, o.attribute, bool(o.replace), o.data)
    if type(o) is D.component:
        return ("component", o.inf, sorted([("pcds" + k.pcd_type.lower(), [expect(x) for x in v]) for k, v in o.pcds.items()], key=lambda x: x[0])
                + [(n, [expect(x) for x in v]) for n, v in (("libraryclasses", o.library_classes), ("defines", o.defines), ("buildoptions", o.build_options)) if v])  # fmt: skip


def alike(sx, got, want):
    if isinstance(want, tuple) and isinstance(got, tuple):
        if want and want[0] == "component":
            if got[0] != "component" or len(got) != 3:
                return False
            subs = sorted([g[0] for g in got[2]]) == sorted([w[0] for w in want[2]])
            if not subs:
                return False
            ok = [sx.eq(got[1], want[1])]
            for name, es in want[2]:
                g = [x for x in got[2] if x[0] == name][0][1]
                ok.append(bag(sx, g, es))
            return sx.and_(*ok)
        return len(got) == len(want) and sx.and_(*[alike(sx, g, w) for g, w in zip(got, want)])
    if isinstance(want, list):  # attributes
        return isinstance(got, str) and [x.strip() for x in got.split(",")] == want
    if want is None or isinstance(want, bool):
        return got is want or (isinstance(want, bool) and isinstance(got, bool) and got == want)
    return got is not None and not isinstance(got, (bool, tuple)) and sx.eq(got, want)


def bag(sx, got, want):
    """the same entries, in any order"""
    if len(got) != len(want):
        return False
    used = []
    for w in want:
        for i, g in enumerate(got):
            if i not in used and alike(sx, g, w):
                used.append(i)
                break
        else:
            return False
    return True


def scope(h):
    if isinstance(h, D.dsc_buildoption_section_type):
        return ("buildoptions", [norm(h.arch), norm(h.codebase), norm(h.module_type)])
    if isinstance(h, D.dsc_pcd_section_type):
        return ("pcds" + h.pcd_type.lower(), [norm(h.arch), norm(h.sku)] + ([h.default_store.upper()] if h.default_store is not None else []))
    return (None, [norm(h.arch), norm(h.module_type)])


def compare(sx, m, lines):
    got = read(lines)
    want = []
    for name, s in (("defines", m.defines), ("skuids", m.skus), ("defaultstores", m.default_stores)):
        if len(s) or name in [g[0] for g in got]:
            want.append((name, [], [expect(x) for x in s]))
    for name, d in (("libraries", m.libraries), ("libraryclasses", m.library_classes), ("components", m.components), (None, m.pcds), ("buildoptions", m.build_options)):
        for h, s in d.items():
            n, sc = scope(h)
            want.append((n or name, sc, [expect(x) for x in (s if isinstance(s, set) else [s])]))
    sx.check(len(got) == len(want), "every section is written once and no other")
    for name, sc, es in want:
        hit = [g for g in got if g[0] == name and pad(g[1]) == pad(sc) and bag(sx, g[2], es)]
        sx.check(len(hit) == 1, "section %s reads back with exactly its entries" % name)
    sx.cover("written")


def pad(words):
    words = list(words)
    while words and words[-1] in ("*", "COMMON"):
        words.pop()
    return words


def write(sx, m, how):
    if how == "lines":
        return T.DscTranslator._GetDscLinesFromDscObj(m)
    path = sx.tmp() + "/out.dsc"
    if sx.symbolic:
        out = sx.textstream()
        T.open = lambda p, mode="r", **k: Out(out)
        T.DscTranslator.dsc_to_file(m, path)
        text = out.getvalue()
    else:
        T.DscTranslator.dsc_to_file(m, path)
        with open(path) as f:
            text = f.read()
    sx.cover("file")
    return text.split("\n")


class Out:
    def __init__(self, s):
        self.s = s

    def write(self, x):
        return self.s.write(x)

    def writelines(self, xs):
        for x in xs:
            self.s.write(x)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def translate(sx, attr, kinds, nh, k, how):
    """sections of one kind with symbolic entries"""
    sx.flat_hash()
    m = D.dsc("a.dsc")
    if attr in ("defines", "default_stores"):
        for i, kind in enumerate(kinds):
            getattr(m, attr).add(make(sx, kind, "o%d" % i, k)[0])
    else:
        for j in range(nh):
            h, _ = make(sx, SECTION[attr][0], "h%d" % j)
            s = getattr(m, attr)[h]
            for i, kind in enumerate(kinds):
                s.add(make(Some(sx, True) if nh > 1 else sx, kind, "o%d_%d" % (j, i), k)[0])
    compare(sx, m, write(sx, m, how))


def skulines(sx, k, how):
    sx.flat_hash()
    m = D.dsc()
    for i in range(k):
        m.skus.add(D.sku_id(sx.int("i%d" % i, 0, 300), t(sx, "n%d" % i, 2), t(sx, "p%d" % i, 2)))
    compare(sx, m, write(sx, m, how))


def comp(sx, parts, k, both, how):
    """components with their own sections"""
    sx.flat_hash()
    m = D.dsc()
    s = m.components[D.dsc_section_type("IA32")]
    for j in range(2 if both else 1):
        c = D.component(t(sx, "inf%d" % j, 1, "ab") if both else t(sx, "inf", 2))
        for p in parts:
            if p == "p":
                for i in range(k):
                    h = D.dsc_pcd_component_type(sx.pick("t%d_%d" % (j, i), ["FeatureFlag", "Dynamic"]))
                    c.pcds.setdefault(h, set()).add(make(sx, "pcd" if i else "pcd_typed", "p%d_%d" % (j, i))[0])
            else:
                kind, dst = {"l": ("library_class", c.library_classes), "d": ("definition", c.defines), "b": ("build_option", c.build_options)}[p]
                for i in range(k):
                    dst.add(make(sx, kind, "%s%d_%d" % (p, j, i), 2 if p == "b" else 1)[0])
        s.add(c)
    compare(sx, m, write(sx, m, how))
    sx.cover("component")


def everything(sx, how):
    """a model with all sections"""
    sx.flat_hash()
    m = D.dsc()
    have = [sx.bool("has_%d" % i) for i in range(8)]
    for i, attr in enumerate(("defines", "default_stores", "components", "libraries", "library_classes", "build_options", "pcds")):
        if have[i]:
            kind = {"defines": "definition", "default_stores": "default_store"}.get(attr) or SECTION[attr][1]
            s = getattr(m, attr)
            if not isinstance(s, D.dsc_set):
                s = s[key_of(attr)]
            s.add(make(Some(sx, True), kind, attr, 1 if kind != "build_option" else 2)[0])
    if have[7]:
        m.skus.add(D.sku_id(sx.int("sku", 0, 9), t(sx, "skun"), t(sx, "skup")))
    compare(sx, m, write(sx, m, how))


def models(sx, attr):
    """two models are equal if they define the same things"""
    sx.flat_hash()
    a, b = D.dsc("a"), D.dsc("b")
    sx.check(a == b and not (a != b), "empty models are equal")
    same_ = True
    for m, n in ((a, "a"), (b, "b")):
        s = getattr(m, attr)
        if attr == "skus":
            o = D.sku_id(1, t(sx, n + "n"))
            i = ()
            s.add(o)
        elif isinstance(s, D.dsc_set):
            o, i = make(sx, "definition" if attr == "defines" else "default_store", n)
            s.add(o)
        else:
            h, ih = make(sx, SECTION[attr][0], n + "h")
            o, i = make(Some(sx, True), SECTION[attr][1], n)
            s[h].add(o)
            i = tuple(ih) + tuple(i)
        if n == "a":
            sx.check(not (a == b) and not (b == a), "a model with something more is not equal")
            first = i
        else:
            same_ = same(sx, first, i)
    sx.check(sx.eq(a == b, same_), "models are equal exactly if they define the same things")
    sx.check(a != None and not (a == 1), "a model is equal to no other object")  # noqa: E711
    sx.cover("models")


def fresh(sx):
    """no two objects share a collection"""
    sx.flat_hash()
    a, b = D.dsc(), D.dsc()
    c, d = D.component("a"), D.component("b")
    c.library_classes.add(D.library_class("L", t(sx, "i")))
    c.pcds["x"] = 1
    c.defines.add(1)
    c.build_options.add(1)
    sx.check(not d.library_classes and not d.pcds and not d.defines and not d.build_options, "components do not share their overrides")
    a.defines.add(make(sx, "definition", "a")[0])
    a.library_classes[D.dsc_section_type()].add(make(sx, "library_class", "l")[0])
    sx.check(len(b.defines) == 0 and len(b.library_classes) == 0, "models do not share their sections")
    s1, s2 = D.dsc_set(), D.dsc_set([D.library])
    sx.check(sx.attempt(s1.add, "a").ok and sx.attempt(s2.add, "a").raised(ValueError), "a set without classes is not restricted")
    v, w = D.pcd_variable("n", "m", "v", "g", "0"), D.pcd_variable("n", "m", "v", "g", "0")
    v.attributes.append("NV")
    sx.check(w.attributes == [] and D.pcd_variable("n", "m", "v", "g", "0").attributes == [], "PCDs do not share their attributes")
    sx.cover("kept")


def shows(sx, n):
    """what an entry is, in messages"""
    src = D.source_info(t(sx, "f", n), sx.int("line", 1, 999) if sx.bool("has") else None)
    c = D.component(t(sx, "inf", n), src if sx.bool("src") else None)
    where = "" if c.source_info is None else src.file if src.lineno is None else sx.scat(src.file, ":", sx.decimal(src.lineno))
    sx.check(sx.eq(c.__repr__(), sx.scat(c.inf, " @ ", where)), "a component shows where it comes from")
    sx.cover("component")


for kind in ENTRIES + HEADERS:
    for k in (1, 2) if kind in ENTRIES else (1,):
        suite.add(Case("laws-%s-%d" % (kind, k), laws, kind=kind, other=kind, k=k, bounds={"chars": k}))
    suite.add(Case("strangers-%s" % kind, strangers, kind=kind, bounds={"chars": 1}))
for a, b in (("pcd", "pcd_typed"), ("pcd", "pcd_variable"), ("pcd_typed", "pcd_variable")):
    suite.add(Case("laws-%s-%s" % (a, b), laws, kind=a, other=b, k=1, bounds={"chars": 1}))
suite.add(Case("skus", skus, bounds={"chars": 1}))
for kind in ENTRIES:
    if kind not in ("pcd_typed", "pcd_variable"):
        for k in (2, 3):
            suite.add(Case("sets-%s-%d" % (kind, k), sets, kinds=[kind] * k, k=1, bounds={"entries": k, "chars": 1}), tier="quick" if k == 2 or kind in ("definition", "library_class", "pcd") else "thorough")
        suite.add(Case("sets-%s-long" % kind, sets, kinds=[kind] * 2, k=2, bounds={"entries": 2, "chars": 2}), tier="thorough")
for kinds in (["library_class", "definition", "library_class"], ["pcd", "pcd_typed", "pcd_variable"], ["component", "definition", "definition"]):
    suite.add(Case("sets-mixed-" + "+".join(kinds), sets, kinds=kinds, k=1, bounds={"entries": 3, "chars": 1}))
for k in (2, 3, 4):
    suite.add(Case("skuset-%d" % k, skuset, k=k, bounds={"entries": k}), tier="quick" if k < 4 else "thorough")
for attr, kind in [("defines", "definition"), ("default_stores", "default_store"), ("skus", "definition")] + [(a, v[1]) for a, v in SECTION.items()]:
    suite.add(Case("restricted-" + attr, restricted, attr=attr, kind=kind, bounds={"chars": 1}))
for attr in SECTION:
    suite.add(Case("wrongkey-" + attr, wrongkey, attr=attr, bounds={"headers": 3}))
    for ops in (["get", "get"], ["set", "get"], ["get", "set"], ["one", "dsc"], ["dsc", "get"], ["plain", "bad"], ["other", "get"]):
        suite.add(Case("sections-%s-%s" % (attr, "+".join(ops)), sections, attr=attr, ops=ops, bounds={"operations": 2, "chars": 1}), tier="quick" if attr in ("components", "build_options", "pcds") or ops[0] == "get" else "thorough")
    suite.add(Case("sections-%s-three" % attr, sections, attr=attr, ops=["get", "get", "get"], bounds={"operations": 3, "chars": 1}), tier="thorough")
suite.add(Case("headers", headers, bounds={"words": 28}))
for n in (0, 1, 2, 3):
    suite.add(Case("attributes-%d" % n, attributes, n=n, listed=False, bounds={"chars": n}))
    if n:
        suite.add(Case("attributes-listed-%d" % n, attributes, n=n, listed=True, bounds={"words": n}), tier="quick" if n < 3 else "thorough")
for how in ("lines", "file"):
    for attr, kinds, nh in [("defines", ["definition"] * 2, 0), ("default_stores", ["default_store", "definition"], 0)] + [
        (a, ks, nh)
        for a, ks, nh in (("library_classes", ["library_class", "definition"], 1), ("library_classes", ["library_class"], 2), ("libraries", ["library"], 2), ("components", ["component", "definition"], 1),
                          ("components", ["component"], 2), ("build_options", ["build_option"], 1), ("build_options", ["definition"], 2), ("pcds", ["pcd", "pcd_typed"], 1), ("pcds", ["pcd_variable"], 1), ("pcds", ["pcd"], 2))
    ]:  # fmt: skip
        for k in (1, 2):
            q = how == "lines" and k == 1 or attr == "library_classes" and k == 1 and nh == 1
            suite.add(Case("write-%s-%s-%d-%d-%s" % (attr, "+".join(kinds), nh, k, how), translate, attr=attr, kinds=kinds, nh=nh, k=k, how=how, bounds={"sections": max(nh, 1), "entries": len(kinds), "chars": k}), tier="quick" if q else "thorough")
    suite.add(Case("write-skus-" + how, skulines, k=2, how=how, bounds={"entries": 2}), tier="quick" if how == "lines" else "thorough")
    for parts, k, both in (("p", 2, False), ("l", 2, False), ("d", 2, False), ("b", 1, False), ("pldb", 1, False), ("l", 1, True), ("", 0, True)):
        suite.add(Case("component-%s-%d-%s-%s" % (parts, k, both, how), comp, parts=parts, k=k, both=both, how=how, bounds={"components": 1 + both, "entries": k}), tier="quick" if how == "lines" else "thorough")
    suite.add(Case("everything-" + how, everything, how=how, bounds={"sections": 8}))
for attr in ["defines", "default_stores", "skus"] + list(SECTION):
    suite.add(Case("models-" + attr, models, attr=attr, bounds={"chars": 1}))
suite.add(Case("fresh", fresh, bounds={"objects": 2}))
suite.add(Case("shows", shows, n=2, bounds={"chars": 2}))
