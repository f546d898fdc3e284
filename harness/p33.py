"""P33 INF files: what Windows reads from a generated INF is exactly the firmware, files, versions and texts that were given."""

import datetime
import os as _os

import edk2toollib.windows.capsule.cat_generator as C
import edk2toollib.windows.capsule.inf_generator as G
import edk2toollib.windows.capsule.inf_generator2 as H
from sx.case import Case, Suite

suite = Suite()
COVER = ["one", "two", "rollback", "plain", "integrity", "quote", "refused", "accepted", "default", "cat", "nofile", "strings"]
ASSUMPTIONS = [
    "Names, tags and file names are ASCII; texts hold no line breaks and no '%'; tags differ in more than case. Dates are from the year 1000 on.",
    "Inf2Cat is a stand-in that records how it was called.",
]
WORD = "aZ0_-"
ARCHS = {"amd64": "amd64", "x64": "amd64", "arm": "arm", "arm64": "ARM64", "aarch64": "ARM64"}
DEFAULT = "10.0...17134"


# ------------------------------------------------------------------ reader of INF files
def read(sx, text):
    """{section: [lines]}, comments and blank lines left out"""
    out = {}
    cur = None
    for line in text.split("\n"):
        line = line.strip()
        if len(line) == 0 or line.startswith(";"):
            continue
        if line.startswith("["):
            sx.check(line.endswith("]"), "a section header ends with a bracket")
            cur = line[1:-1]
            for k in out:
                sx.check(not (k == cur), "no section is written twice")
            out[cur] = []
        else:
            out[cur].append(line)
    return out


def section(sx, inf, name):
    for k, v in inf.items():
        if k == name:
            return v
    sx.check(False, "section is missing")
    return []


def pairs(sx, lines, sep="="):
    out = []
    for line in lines:
        i = line.index(sep)
        out.append((line[:i].strip(), line[i + 1 :].strip()))
    return out


def value(sx, lines, key):
    got = [v for k, v in pairs(sx, lines) if k == key]
    sx.check(len(got) == 1, "a key is written once")
    return got[0] if got else ""


def unquote(sx, v):
    """a quoted string of an INF file"""
    if not v.startswith('"'):
        return v
    sx.check(len(v) >= 2 and v.endswith('"'), "a quoted text ends with a quote")
    out, i, inner = [], 0, v[1:-1]
    while i < len(inner):
        if inner[i] == '"':
            sx.check(i + 1 < len(inner) and inner[i + 1] == '"', "a quote inside a text is doubled")
            sx.cover("quote")
            i += 1
        out.append(inner[i])
        i += 1
    return sx.scat("", *out)


def string(sx, inf, ref):
    """the text a %key% stands for"""
    sx.check(ref.startswith("%") and ref.endswith("%"), "texts are given by their keys")
    return unquote(sx, value(sx, section(sx, inf, "Strings"), ref[1:-1]))


def firmware(sx, inf, names, label, want):
    """one firmware: want = (desc, guid, version, file, rollback, integrity)"""
    desc, guid, version, file, rollback, integrity = want
    models = section(sx, inf, names)
    hits = [(d, v) for d, v in pairs(sx, models) if v.split(",")[1].strip() == sx.scat("UEFI\\RES_{", guid, "}")]
    if label is not None:
        hits = [(d, v) for d, v in hits if v.split(",")[0].strip() == sx.scat(label, "_Install")]
    sx.check(len(hits) == 1, "the firmware is listed once with its hardware id")
    if not hits:
        return
    d, v = hits[0]
    sx.check(sx.eq(string(sx, inf, d), desc), "the description is the one given")
    install = v.split(",")[0].strip()
    nt = section(sx, inf, install + ".NT")
    files = section(sx, inf, value(sx, nt, "CopyFiles"))
    sx.check(len(files) == 1 + (integrity is not None), "exactly the files of the firmware are copied")
    sx.check(sx.eq(files, [file] + ([integrity] if integrity is not None else [])), "the files copied are those given")
    regs = [x for k, x in pairs(sx, nt) if k == "AddReg"]
    sx.check(len(regs) == (1 if rollback else 0) and len(nt) == 1 + len(regs), "the policy is changed for rollback only")
    if rollback:
        lines = section(sx, inf, regs[0])
        sx.check(len(lines) == 1 and sx.eq(lines[0], sx.scat("HKLM,SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\{", guid, "},Policy,%REG_DWORD%,1")), "the rollback policy is that of this firmware")
        sx.cover("rollback")
    else:
        sx.cover("plain")
    sx.check(sx.eq(section(sx, inf, install + ".NT.Services"), ["AddService=,2"]), "no service is added")
    hw = section(sx, inf, install + ".NT.Hw")
    lines = section(sx, inf, value(sx, hw, "AddReg"))
    ref = [sx.scat("HKR,,FirmwareId,,{", guid, "}"), None, sx.scat("HKR,,FirmwareFilename,,%13%\\", file)]
    if integrity is not None:
        ref.append(sx.scat("HKR,,FirmwareIntegrityFilename,,%13%\\", integrity))
        sx.cover("integrity")
    sx.check(len(lines) == len(ref), "the registry entries are those of the firmware")
    for i, (a, b) in enumerate(zip(lines, ref)):
        if b is not None:
            sx.check(sx.eq(a, b), "id and files in the registry are those of the firmware")
        else:
            f = a.split(",")
            sx.check(len(f) == 5 and sx.eq(f[:4], ["HKR", "", "FirmwareVersion", "%REG_DWORD%"]) and sx.eq(int(f[4], 0), version), "the version in the registry is that of the firmware")
    sx.check(sx.eq(string(sx, inf, "%REG_DWORD%"), "0x00010001"), "versions are double words")


def common(sx, inf, name, version, date, arch, provider, mfr, disk, osver, files):
    v = section(sx, inf, "Version")
    for key, want in (("Signature", '"$WINDOWS NT$"'), ("Class", "Firmware"), ("ClassGuid", "{f2e7dd72-6468-4e36-b6f1-6488f42c1b52}"), ("PnpLockdown", "1")):
        sx.check(sx.eq(value(sx, v, key), want), "the class is firmware")
    sx.check(sx.eq(value(sx, v, "CatalogFile"), sx.scat(name, ".cat")), "the catalog is named after the INF")
    sx.check(sx.eq(value(sx, v, "DriverVer"), sx.scat(date, ",", version)), "date and version are those given")
    sx.check(sx.eq(string(sx, inf, value(sx, v, "Provider")), provider), "the provider is the one given")
    m = pairs(sx, section(sx, inf, "Manufacturer"))
    sx.check(len(m) == 1 and sx.eq(string(sx, inf, m[0][0]), mfr), "the manufacturer is the one given")
    sx.check(sx.eq(m[0][1], sx.scat("Firmware,NT", arch, ".", osver)), "architecture and OS version are those given")
    src = pairs(sx, section(sx, inf, "SourceDisksFiles"))
    distinct = []
    for f in files:
        if not any(f == g for g in distinct):
            distinct.append(f)
    sx.check(len(src) == len(distinct), "each file is on the disk once")
    sx.check(sx.eq([k for k, _ in src], distinct) and all(x == "1" for _, x in src), "the files on the disk are those given")
    disks = pairs(sx, section(sx, inf, "SourceDisksNames"))
    sx.check(len(disks) == 1 and disks[0][0] == "1" and sx.eq(string(sx, inf, disks[0][1]), disk), "there is one disk, of the name given")
    sx.check(sx.eq(pairs(sx, section(sx, inf, "DestinationDirs")), [("DefaultDestDir", "13")]), "files stay in the driver store")
    return sx.scat("Firmware.NT", arch, ".", osver)


def guidtext(sx, n, form, symbolic):
    """a GUID in one of the forms uuid.UUID accepts, and as INF files have it"""
    g = sx.uuid(n) if symbolic else "34e094e9-4079-44cd-9450-3f2cb7824c9" + n[-1]
    s = str(g)
    return {"plain": s, "braces": "{" + s + "}", "urn": "urn:uuid:" + s, "bare": s.replace("-", "")}[form], s


def version32(sx, n, base):
    v = sx.u32(n)
    if base == "dec":
        v = sx.int(n + "d", 0, 9999)
        return sx.decimal(v), v
    return sx.scat("0x", sx.hexs(v, 8, base == "HEX")), v


def freetext(sx, n, k):
    return sx.text(n, k, mincp=0x21, maxcp=0x7E, exclude="%")


# ------------------------------------------------------------------ INF files of one firmware
def single(sx, what, rollback, integrity, form, how):
    text = freetext(sx, "p", 2) if what == "texts" else "Prov"
    desc = freetext(sx, "d", 2) if what == "texts" else "Desc"
    name = sx.text("n", 2, alphabet=WORD) if what == "names" else "Nm"
    g, gs = guidtext(sx, "g1", form, what == "guid")
    vs, v = version32(sx, "v", {"dec": "dec", "HEX": "HEX"}.get(what, "hex")) if what in ("hex", "dec", "HEX") else ("0x1020304", 0x1020304)
    ver = sx.scat(sx.decimal(sx.int("a", 0, 99)), ".", sx.decimal(sx.int("b", 0, 99)), ".3.4") if what == "names" else "1.2"
    arch = sx.pick("arch", list(ARCHS) + ["AMD64", "AArch64"]) if what == "arch" else "x64"
    file = sx.text("f", 2, alphabet="aB0._-") if what == "files" else "fw.bin"
    integ = (sx.text("i", 2, alphabet="aB0._-") if what == "files" else "int.bin") if integrity else None
    if what == "files" and integ is not None:
        sx.assume(sx.not_(sx.eq(integ, file)))
    o = G.InfGenerator(name, text, g, arch, desc, ver, vs)
    mfr = text
    if what == "texts" and sx.bool("hasm"):
        mfr = freetext(sx, "m", 1) if sx.bool("long") else ""
        o.Manufacturer = mfr
    o.Date = datetime.date(sx.pick("y", [1999, 2024]), sx.pick("mo", [1, 12]), 9) if what == "arch" else datetime.date(2024, 2, 29)
    date = "%02d/%02d/%04d" % (o._date.month, o._date.day, o._date.year)
    if integ is not None:
        o.IntegrityFilename = integ
    path = sx.tmp() + "/out.inf"
    given = "some/where/" + file if what == "files" and sx.bool("dir") else file
    if sx.symbolic:
        out = sx.textstream()
        G.open = lambda p, mode="r", **k: Out(out)
    r = o.MakeInf(path, given, rollback)
    sx.check(r == 0, "success is reported")
    text2 = out.getvalue() if sx.symbolic else open(path).read()
    inf = read(sx, text2)
    models = common(sx, inf, name, ver, date, ARCHS[arch.lower()], text, mfr, "Firmware Update", DEFAULT, [file] + ([integ] if integ is not None else []))
    firmware(sx, inf, models, None, (desc, gs, v, file, rollback, integ))
    sx.check(len(section(sx, inf, models)) == 1, "there is one firmware")
    sx.check(sx.eq(o.EsrtGuid, gs) and sx.eq(int(o.VersionHex, 0), v) and sx.eq(o.Date, date) and sx.eq(o.Manufacturer, mfr), "the generator holds what was given")
    sx.cover("one")


class Out:
    def __init__(self, s):
        self.s = s

    def write(self, x):
        return self.s.write(x)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ------------------------------------------------------------------ INF files of several firmware
def several(sx, what, k, form):
    name = sx.text("n", 2, alphabet=WORD) if what == "names" else "Nm"
    text = lambda n: freetext(sx, n, 2) if what == "texts" and n in ("p", "t0") or what == "texts2" and n in ("m", "k", "t1") else "Tx" + n  # noqa: E731
    prov, mfr, disk = text("p"), text("m"), text("k")
    ver = sx.scat(sx.decimal(sx.int("a", 0, 99)), ".", sx.decimal(sx.int("b", 0, 99)), ".3") if what == "names" else "1.2"
    arch = sx.pick("arch", list(ARCHS) + ["AMD64", "AArch64", None]) if what == "arch" else "amd64"
    osver = sx.pick("os", [None, "10.0...17763", "10.0", " 10.0.19041\t", "10.0.1...22000\n"]) if what == "arch" else None
    day, date = sx.pick("date", [("1/2/2021", "01/02/2021"), ("12/31/1999", "12/31/1999"), ("02/29/2024", "02/29/2024")]) if what == "arch" else ("01/01/2021", "01/01/2021")
    opts = {} if arch is None else {"Arch": arch}
    if disk != "Txk":
        opts["DiskName"] = disk
    else:
        disk = "Firmware Update"
    o = H.InfFile(name, ver, day, prov, mfr, TargetOsVersion=osver, **opts)
    fws, files, tags = [], [], []
    for i in range(k):
        tag = sx.text("tag%d" % i, 1, alphabet=WORD) if what == "tags" else "F%d" % i
        for t in tags:
            sx.assume(sx.not_(sx.eq(t, tag)))
        tags.append(tag)
        g, gs = guidtext(sx, "g%d" % i, form, what == "guid")
        vs, v = version32(sx, "v%d" % i, "dec" if i else "hex") if what == "versions" else (str(i + 1), i + 1)
        file = sx.text("f%d" % i, 1, alphabet="aB0._-") if what == "files" else "fw%d.bin" % i
        rollback = sx.bool("r%d" % i) if what == "options" else i == 0
        integ = None
        if what == "files" or what == "options" and sx.bool("hasi%d" % i):
            integ = sx.text("i%d" % i, 1, alphabet="aB0.") if what == "files" and i == 0 else "int%d.bin" % i
        if what == "files" and integ is not None:
            sx.assume(sx.not_(sx.eq(integ, file)))
        desc = text("t%d" % i)
        args = {}
        if rollback or what != "options":
            args["Rollback"] = rollback
        if integ is not None:
            args["IntegrityFile"] = integ
        o.AddFirmware(tag, desc, g, vs, file, **args)
        fws.append((tag, (desc, gs, v, file, rollback, integ)))
        files += [file] + ([integ] if integ is not None else [])
    for again in (False, True):
        inf = read(sx, str(o))
        models = common(sx, inf, name, ver, date, ARCHS[(arch or "amd64").lower()], prov, mfr, disk, DEFAULT if osver is None else osver.strip(), files)
        if len(tags) > 1 and what == "guid":
            sx.assume(sx.not_(sx.eq(fws[0][1][1], fws[1][1][1])))
        for tag, want in fws:
            firmware(sx, inf, models, tag, want)
        sx.check(len(section(sx, inf, models)) == k, "exactly the firmware that was added is listed")
        if what not in ("options", "names"):
            break
    sx.cover("two" if k > 1 else "one")
    if osver is None:
        sx.cover("default")


# ------------------------------------------------------------------ what is accepted
def legal(sx, kind, n):
    """exactly the documented values are accepted"""
    chars = sx.text("s", n, mincp=0, maxcp=0x7F)
    ok = True
    extra = {"name": "_-", "name2": "_-", "tag": "_-", "file": "_-.", "integrity": "_-.", "key": "_-", "key2": "_-"}[kind]
    for c in chars:
        o = ord(c)
        ok = sx.and_(ok, sx.or_(sx.and_(o >= 48, o <= 57), sx.and_(o >= 65, o <= 90), sx.and_(o >= 97, o <= 122), *[sx.eq(c, e) for e in extra]))
    st = H.InfStrings()
    src = H.InfSourceFiles("d", st)
    guid = "34e094e9-4079-44cd-9450-3f2cb7824c97"
    if kind == "name":
        r = sx.attempt(G.InfGenerator, chars, "p", guid, "x64", "d", "1.2", "1")
    elif kind == "name2":
        r = sx.attempt(H.InfHeader, chars, "1.2", "01/01/2021", "x64", "p", "m", st)
    elif kind == "tag":
        r = sx.attempt(H.InfFirmware, chars, "d", guid, "1", "f", st, src)
    elif kind == "file":
        r = sx.attempt(src.AddFile, chars)
    elif kind == "integrity":
        r = sx.attempt(H.InfFirmware, "t", "d", guid, "1", "f", st, src, False, chars)
    else:
        r = sx.attempt(st.AddLocalizableString if kind == "key" else st.AddNonLocalizableString, chars, "v")
    if kind.startswith("key") and n == 0:
        ok = False
    sx.check(sx.eq(r.ok, ok), "exactly names of letters, digits and the characters listed are accepted")
    sx.check(r.ok or r.raised(ValueError), "others are refused with ValueError")
    if r.ok and kind == "file":
        sx.check(sx.eq(src.Files, [chars]), "the file is added")
    sx.cover("accepted" if r.ok else "refused")


def versions(sx, kind, n):
    """versions: 32 bits, and two to four parts"""
    guid = "34e094e9-4079-44cd-9450-3f2cb7824c97"
    if kind.startswith("text"):
        s = sx.text("s", n, alphabet="19.")
        dots = sum(1 for c in s if c == ".")
        r = sx.attempt(G.InfGenerator, "n", "p", guid, "x64", "d", s, "1") if kind == "text1" else sx.attempt(H.InfFile, "n", s, "01/01/2021", "p", "m")
        sx.check(r.ok == (1 <= dots <= 3), "versions have two to four parts")
    else:
        v = sx.int("v", -2, (1 << 36) - 1)
        neg = v < 0
        text = sx.scat("-" if neg else "", "0x", sx.hexs(sx.ite(neg, -v, v) if not neg else -v, 9, False)) if not neg else sx.pick("neg", ["-0x1", "-2"])
        r = sx.attempt(G.InfGenerator, "n", "p", guid, "x64", "d", "1.2", text) if kind == "hex1" else sx.attempt(H.InfFirmware, "t", "d", guid, text, "f", H.InfStrings(), H.InfSourceFiles("d", H.InfStrings()))
        good = not neg and v <= 0xFFFFFFFF
        sx.check(r.ok == good, "versions are 32-bit numbers")
        if r.ok:
            sx.check(sx.eq(int(r.value.VersionHex, 0) if kind == "hex1" else r.value.VersionInt, v), "the version is the one given")
    sx.check(r.ok or r.raised(ValueError), "others are refused with ValueError")
    sx.cover("accepted" if r.ok else "refused")


def arches(sx, n):
    """architectures and OS versions"""
    a = sx.text("s", n, alphabet="aArRmM64xXdDcChH") if n else sx.pick("p", list(ARCHS) + ["AMD64", "ARM", "ia32", "arm6", "x86", ""])
    known = ARCHS.get(a.lower()) if not n else None
    if n:
        for k in ARCHS:
            if a.lower() == k:
                known = ARCHS[k]
    guid = "34e094e9-4079-44cd-9450-3f2cb7824c97"
    for make in (lambda: G.InfGenerator("n", "p", guid, a, "d", "1.2", "1").Arch, lambda: H.InfHeader("n", "1.2", "01/01/2021", a, "p", "m", H.InfStrings()).Arch, lambda: H.InfFirmwareSections(a, H.InfStrings()).Arch):
        r = sx.attempt(make)
        sx.check(r.value == known if known else r.raised(ValueError), "exactly the supported architectures are accepted")
    cat = {"amd64": "X64", "x64": "X64", "arm": "ARM", "arm64": "ARM64", "aarch64": "ARM64"}
    r = sx.attempt(lambda: C.CatGenerator(a, "10").Arch)
    want = None
    for k in cat:
        if a.lower() == k:
            want = cat[k]
    sx.check(r.value == want if want else r.raised(ValueError), "exactly the supported architectures are accepted")
    sx.cover("accepted" if known else "refused")


def osversions(sx, n):
    """target OS versions: 10.0, build numbers, surrounding space"""
    s = sx.scat("10.0", sx.text("s", n, alphabet=".17 x"))
    body = s.strip()[4:]
    ok = False
    i, d = 0, 0
    if body.startswith(".") and not body.startswith(".."):
        i = 1
        while i < len(body) and body[i] in "17":
            i += 1
        if i == 1:
            i = -1
    if i >= 0:
        rest = body[i:]
        ok = len(rest) == 0 or (rest.startswith("...") and len(rest) > 3 and all(c in "17" for c in rest[3:]))
    for make in (lambda: H.InfHeader("n", "1.2", "01/01/2021", "x64", "p", "m", H.InfStrings(), s), lambda: H.InfFirmwareSections("x64", H.InfStrings(), s)):
        r = sx.attempt(make)
        sx.check(r.ok == ok, "exactly OS versions 10.0[.n][...n] are accepted")
        sx.check(sx.eq(r.value.TargetOSVersion, s.strip()) if r.ok else r.raised(ValueError), "the OS version is the one given")
    sx.cover("accepted" if ok else "refused")


def strings(sx, a, b):
    """the strings section by itself"""
    st = H.InfStrings()
    want = []
    for i in range(a):
        v = freetext(sx, "v%d" % i, 1)
        key = sx.text("k%d" % i, 1 + i, alphabet="aB_")
        st.AddLocalizableString(key, v)
        want.append((key, v))
    raw = []
    for i in range(b):
        v = sx.text("w%d" % i, 2, alphabet="x0F")
        st.AddNonLocalizableString("N" + "n" * i, v)
        raw.append(("N" + "n" * i, v))
    inf = read(sx, str(st))
    got = pairs(sx, section(sx, inf, "Strings"))
    sx.check(len(got) == a + b, "each string is written once")
    for (k, v), (k2, v2) in zip(got, want):
        sx.check(sx.eq(k, k2) and sx.eq(unquote(sx, v), v2), "the strings are those added")
    for (k, v), (k2, v2) in zip(got[a:], raw):
        sx.check(sx.eq(k, k2) and sx.eq(v, v2), "the strings are those added")
    sx.cover("strings")


# ------------------------------------------------------------------ catalogs
def catalog(sx, where):
    """how Inf2Cat is called, and what its outcome means"""
    d = sx.tmp()
    arch = sx.pick("arch", ["x64", "AMD64", "arm", "ARM64", "aarch64"])
    osname = sx.pick("os", ["win10", "10", "10_AU", "10_rs2", "10_RS3", "10_rs4", "10_RS5", "10_19h1", "10_VB", "10_co", "10_NI", "Server10", "SERVER2016", "serverrs2", "ServerRS3", "serverRS4"])
    tool = sx.pick("tool", ["given", "missing", "found", "notfound"])
    code = sx.int("code", 0, 3)
    made = sx.bool("made")
    exe = _os.path.join(d, "Inf2Cat.exe")
    with open(exe, "w") as f:
        f.write("x")
    calls = []
    cwd = _os.getcwd()
    out = {"abs": _os.path.join(d, "out", "a.cat"), "name": "a.cat"}[where]
    _os.makedirs(_os.path.join(d, "out"), exist_ok=True)

    def run(cmd, params, workingdir=None, **k):
        calls.append((cmd, params, workingdir))
        if made:
            with open(_os.path.join(d, "out", "a.cat"), "w") as f:
                f.write("c")
        return code

    asked = []

    def find(x, *a, **k):
        asked.append(x)
        return exe if tool == "found" else None

    C.RunCmd, C.FindToolInWinSdk = run, find
    try:
        _os.chdir(_os.path.join(d, "out"))
        g = C.CatGenerator(arch, osname)
        r = sx.attempt(g.MakeCat, out, {"given": exe, "missing": exe + "x"}.get(tool))
    finally:
        _os.chdir(cwd)
    there = tool in ("given", "found")
    sx.check(asked == ([] if tool in ("given", "missing") else ["Inf2Cat.exe"]), "the tool is searched only if it is not given")
    sx.check(len(calls) == (1 if there else 0), "the tool is run once, if it is there")
    good = there and code == 0 and made
    sx.check(r.ok and r.value == 0 if good else r.raised(Exception), "a catalog that was not made is reported")
    if calls:
        cmd, params, wd = calls[0]
        a = {"x64": "X64", "amd64": "X64", "arm": "ARM", "arm64": "ARM64", "aarch64": "ARM64"}[arch.lower()]
        o = {"win10": "10", "10": "10"}.get(osname.lower()) or (osname.upper() if osname.startswith("10") else "Server" + osname[6:].upper())
        words = params.split()
        sx.check(cmd == exe and sorted(words) == sorted(["/driver:.", "/os:%s_%s" % (o, a), "/verbose", "/uselocaltime"]), "the catalog is made for the OS and architecture given")
        sx.check(_os.path.isdir(_os.path.join(d, "out", wd)) and _os.path.samefile(_os.path.join(d, "out", wd), _os.path.join(d, "out")), "the tool runs in the folder of the catalog")
        sx.cover("cat")
    sx.cover("accepted" if good else "nofile")


def oses(sx, n):
    s = sx.text("s", n, alphabet="10_aAuUwinrs2") if n else sx.pick("p", ["win10", "win11", "10_au", "11", "", "10_RS6", "server", "server2016", "server2019", "10 "])
    known = {"win10": "10", "server2016": "Server2016", "server10": "Server10"} | {x.lower(): x for x in ["10", "10_AU", "10_RS2", "10_RS3", "10_RS4", "10_RS5", "10_19H1", "10_VB", "10_CO", "10_NI", "ServerRS2", "ServerRS3", "ServerRS4"]}
    want = None
    for k in known:
        if s.lower() == k:
            want = known[k]
    r = sx.attempt(lambda: C.CatGenerator("x64", s).OperatingSystem)
    sx.check(r.value == want if want else r.raised(ValueError), "exactly the supported systems are accepted")
    sx.cover("accepted" if want else "refused")


for what in ("texts", "names", "hex", "HEX", "dec", "arch", "guid"):
    for rollback in (False, True):
        suite.add(Case("single-%s-%s" % (what, rollback), single, what=what, rollback=rollback, integrity=rollback, form="plain", how=None, bounds={"firmware": 1, "chars": 2}))
for rollback, integrity in ((False, False), (False, True), (True, False), (True, True)):
    suite.add(Case("single-files-%s-%s" % (rollback, integrity), single, what="files", rollback=rollback, integrity=integrity, form="plain", how=None, bounds={"firmware": 1, "chars": 2}))
for form in ("braces", "urn", "bare"):
    suite.add(Case("single-guid-" + form, single, what="guid", rollback=True, integrity=False, form=form, how=None, bounds={"firmware": 1}))
    suite.add(Case("several-guid-" + form, several, what="guid", k=1, form=form, bounds={"firmware": 1}))
for what in ("texts", "texts2", "names", "arch", "guid", "tags", "versions", "files", "options"):
    for k in (1, 2, 3):
        q = k == 2 or what in ("options", "arch") and k == 1
        if what == "arch" and k > 1:
            continue
        suite.add(Case("several-%s-%d" % (what, k), several, what=what, k=k, form="plain", bounds={"firmware": k, "chars": 2}), tier="quick" if q else "thorough")
for kind in ("name", "name2", "tag", "file", "integrity", "key", "key2"):
    for n in (0, 1, 2, 3):
        suite.add(Case("legal-%s-%d" % (kind, n), legal, kind=kind, n=n, bounds={"chars": n}), tier="quick" if n < 3 else "thorough")
for n in (3, 5):
    for kind in ("text1", "text2"):
        suite.add(Case("versions-%s-%d" % (kind, n), versions, kind=kind, n=n, bounds={"chars": n}))
for kind in ("hex1", "hex2"):
    suite.add(Case("versions-" + kind, versions, kind=kind, n=0, bounds={"bits": 36}))
for n in (0, 3, 4, 5, 7):
    suite.add(Case("arches-%d" % n, arches, n=n, bounds={"chars": n}))
for n in (0, 1, 2, 4, 6):
    suite.add(Case("osversions-%d" % n, osversions, n=n, bounds={"chars": n}), tier="quick" if n < 6 else "thorough")
for a, b in ((0, 0), (1, 0), (0, 1), (2, 1), (2, 2)):
    suite.add(Case("strings-%d-%d" % (a, b), strings, a=a, b=b, bounds={"strings": a + b}))
for where in ("abs", "name"):
    suite.add(Case("catalog-" + where, catalog, where=where, bounds={"systems": 16, "architectures": 5}))
for n in (0, 2, 5, 6):
    suite.add(Case("oses-%d" % n, oses, n=n, bounds={"chars": n}))
