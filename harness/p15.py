"""P15 DMAR tables: one remapping structure per encoded one, its values and device scopes; invalid lengths refused."""

import edk2toollib.acpi.dmar_parser as D
from sx.case import Case, Suite

suite = Suite()
COVER = ["drhd", "rmrr", "atsr", "rhsa", "andd", "table", "bad", "ok-len", "path", "golden", "header", "header-xml"]

SCOPES = {1: "PCI Endpoint Device", 2: "PCI Sub-hierarchy", 3: "IOAPIC", 4: "MSI_CAPABLE_HPET", 5: "ACPI_NAMESPACE_DEVICE"}
HEAD = b"DMAR" + (0).to_bytes(4, "little") + b"\x01\x00" + b"OEMID_" + b"OEMTABLE" + b"\1\0\0\0" + b"CRID" + b"\2\0\0\0" + b"\x26\x05" + bytes(10)


def scope(sx, ty, body, npath):
    return sx.cat(bytes([ty, 6 + 2 * npath]), body)


def head_xml(sx, free):
    """the header in XML; bytes [free) may be anything, the others are large numbers (the number of hex digits forks)"""
    h = sx.bytes("h", 28)
    for i in range(28):
        if not free[0] <= i < free[1]:
            sx.assume(h[i] >= 0x10)
    d = D.DMARTable(sx.cat(b"DMAR", h[0:6], b"OEMID_", b"OEMTABLE", h[6:10], b"CRID", h[10:16], bytes(10)))
    x = list(d.xml)
    a = x[0]
    sx.check(len(x) == 1 and a.tag == "AcpiTableHeader", "the XML has the header")
    for k, v in (("Signature", "DMAR"), ("OEMID", "OEMID_"), ("OEMTableID", "OEMTABLE"), ("CreatorID", "CRID")):
        sx.check(v in a.get(k), "the XML header holds the values")
    for k, lo, hi in (("Length", 0, 4), ("Revision", 4, 5), ("Checksum", 5, 6), ("OEMRevision", 6, 10), ("CreatorRevision", 10, 14), ("HostAddressWidth", 14, 15), ("Flags", 15, 16)):
        sx.check(int(a.get(k), 16) == sx.uint(h[lo:hi]), "the XML header holds the values")
    sx.check(len(a.attrib) == 11, "the XML header has no other fields")
    sx.cover("header-xml")


def check_scope(sx, s, ty, body, npath):
    sx.check(s.Type == ty and s.Length == 6 + 2 * npath and s.TypeString == SCOPES[ty], "device scope type and length")
    sx.check(sx.and_(s.Reserved == sx.uint(body[0:2]), s.EnumerationID == body[2], s.StartBusNumber == body[3]), "device scope values")
    sx.check(len(s.Path) == npath, "one path entry per encoded one")
    for i in range(npath):
        (d,), (f,) = s.Path[i]
        sx.check(sx.and_(d == body[4 + 2 * i], f == body[5 + 2 * i]), "path entries decode in order")


def head(sx):
    h = sx.bytes("head", 38)
    t = D.DMARTable(sx.cat(h, bytes(10))).dmar_table
    u = lambda a, b: sx.uint(h[a:b])
    sx.check(sx.and_(sx.eq(t.Signature, h[0:4]), t.Length == u(4, 8), t.Revision == h[8], t.Checksum == h[9]), "the header decodes")
    sx.check(sx.and_(sx.eq(t.OEMID, h[10:16]), sx.eq(t.OEMTableID, h[16:24]), t.OEMRevision == u(24, 28)), "the header decodes")
    sx.check(sx.and_(sx.eq(t.CreatorID, h[28:32]), t.CreatorRevision == u(32, 36), t.HostAddressWidth == h[36], t.Flags == h[37]), "the header decodes")
    d = D.DMARTable(sx.cat(h, bytes(10)))
    sx.check(d.DMARBitEnabled() == ((h[37] & 4) != 0), "the DMA control platform opt-in flag is bit 2")
    sx.check(d.dmar_table.SubStructs == [], "no structures")
    sx.cover("header")


def one(sx, kind, scopes, xml=None):
    """scopes: (type, number of path entries); the structure sits between two others.
    xml: None, or the index of the bytes that may be anything while the others are large numbers (the number of hex digits forks)
    """
    hl = {"drhd": 16, "rmrr": 24, "atsr": 8, "rhsa": 20, "andd": 8}[kind]
    ty = ["drhd", "rmrr", "atsr", "rhsa", "andd"].index(kind)
    b = sx.bytes("b", hl - 4)
    extra, sc = b"", []
    if kind == "andd":
        extra = sx.bytes("name", scopes)
    else:
        for i, (t, n) in enumerate(scopes):
            body = sx.bytes("s%d" % i, 4 + 2 * n)
            sc.append((t, body, n))
            extra = sx.cat(extra, scope(sx, t, body, n))
    if xml is not None:
        for v in [b] + [x[1] for x in sc]:
            for i in range(len(v)):
                if v is not b or not xml[0] <= i < xml[1]:
                    sx.assume(v[i] >= 0x10)
    ln = hl + len(extra)
    st = sx.cat(ty.to_bytes(2, "little"), ln.to_bytes(2, "little"), b, extra)
    nb = bytes.fromhex("0300140000000000" "1122334455667788" "99000000")
    d = D.DMARTable(sx.cat(HEAD, nb, st, nb))
    sub = d.dmar_table.SubStructs
    sx.check(len(sub) == 3, "one structure per encoded one")
    sx.check(type(sub[0]) is D.DMARTable.RHSAStruct and type(sub[2]) is D.DMARTable.RHSAStruct and sub[2].ProximityDomain == 0x99, "the neighbours are unaffected")
    s = sub[1]
    u = lambda a, c: sx.uint(b[a:c])
    sx.check(s.Type == ty and s.Length == ln, "type and length")
    at = {"Type": ty, "Length": ln}
    if kind == "drhd":
        want = {"Flags": b[0], "Reserved": b[1], "SegmentNumber": u(2, 4), "RegisterBaseAddress": u(4, 12)}
    elif kind == "rmrr":
        want = {"Reserved": u(0, 2), "SegmentNumber": u(2, 4), "ReservedMemoryBaseAddress": u(4, 12), "ReservedMemoryRegionLimitAddress": u(12, 20)}
    elif kind == "atsr":
        want = {"Flags": b[0], "Reserved": b[1], "SegmentNumber": u(2, 4)}
    elif kind == "rhsa":
        want = {"Reserved": u(0, 4), "RegisterBaseAddress": u(4, 12), "ProximityDomain": u(12, 16)}
    else:
        want = {"Reserved": u(0, 3), "ACPIDeviceNumber": b[3]}
        sx.check(sx.eq(s.ACPIObjectName, extra), "the object name is the rest of the structure")
    for k in sorted(want):
        sx.check(getattr(s, k) == want[k], "the fields decode")
    sx.check(len(getattr(s, "DeviceScope", [])) == len(sc), "one device scope per encoded one")
    for got, (t, body, n) in zip(getattr(s, "DeviceScope", []), sc):
        check_scope(sx, got, t, body, n)
    sx.check(d.dmar_table.ANDDCount == (1 if kind == "andd" else 0), "ANDD structures are counted")
    sx.check(len(d.dmar_table.RMRRlist) == (1 if kind == "rmrr" else 0), "RMRR structures are listed")
    sx.cover(kind)
    if xml is not None:
        x = [e for e in d.xml]
        sx.check(len(x) == 4 and x[0].tag == "AcpiTableHeader", "the XML has the header and every structure")
        if kind == "andd":
            sx.check(x[2].get("ACPIObjectName") is not None, "the XML element has the structure's fields")
            del x[2].attrib["ACPIObjectName"]
        same(sx, x[2], {"drhd": "DRHD", "rmrr": "RMRR", "atsr": "ASTR", "rhsa": "RHSA", "andd": "ANDD"}[kind], dict(at, **want), sc)
        sx.cover("table")


def same(sx, el, tag, attrs, sc):
    sx.check(el.tag == tag, "the XML element is named after the structure")
    sx.check(sorted(el.keys()) == sorted(attrs), "the XML element has the structure's fields")
    for k in sorted(attrs):
        sx.check(int(el.get(k), 16) == attrs[k], "the XML attributes hold the values")
    subs = list(el)
    sx.check([e.tag for e in subs] == [SCOPES[t] for t, _b, _n in sc], "the XML element has its device scopes")
    for e, (t, body, n) in zip(subs, sc):
        for k, v in (("Type", t), ("Length", 6 + 2 * n), ("Reserved", sx.uint(body[0:2])), ("EnumerationID", body[2]), ("StartBusNumber", body[3])):
            sx.check(int(e.get(k), 16) == v, "the XML device scopes hold the values")


def lengths(sx, ty, size):
    """any length in a structure at the end of the table"""
    ln, b = sx.u16("len"), sx.bytes("b", size - 4)
    lo = [16, 24, 8, 20, 8][ty]
    if ty < 3:  # one scope with any type and length in what follows
        hl = lo
        room = size - hl
        if room:
            sx.assume(b[hl - 4] <= 5)
            sl = b[hl - 3]
            one_ok = sx.and_(ln == hl + sl, sl >= 6, sl % 2 == 0, b[hl - 4] >= 1)
        else:
            one_ok = False
        good = sx.and_(ln <= size, sx.or_(ln == hl, one_ok))
    else:
        good = sx.and_(ln >= lo, ln <= size)
    sx.assume(sx.or_(ln == size, ln < lo, ln > size))  # what is left over would be another structure
    data = sx.cat(HEAD, ty.to_bytes(2, "little"), sx.le(ln, 2), b)
    r = sx.attempt(D.DMARTable, data)
    sx.check(sx.implies(sx.not_(good), not r.ok), "a structure or scope with an invalid length is refused")
    sx.check(sx.implies(good, r.ok), "a well-formed structure is accepted")
    if r.ok:
        sx.check(len(r.value.dmar_table.SubStructs) == 1, "one structure")
        sx.check(r.value.dmar_table.SubStructs[0].Length == ln, "its length is the stored one")
        sx.cover("ok-len")
    else:
        sx.cover("bad")


def big(sx):
    """the length of a structure uses all its 16 bits"""
    b, z = sx.bytes("b", 4), sx.bytes("z", 2)
    name = sx.cat(b"N" * 32998, z)
    nb = bytes.fromhex("0300140000000000" "1122334455667788" "99000000")
    d = D.DMARTable(sx.cat(HEAD, b"\x04\0", (8 + len(name)).to_bytes(2, "little"), b, name, nb))
    s = d.dmar_table.SubStructs
    sx.check(len(s) == 2 and s[1].ProximityDomain == 0x99, "the structure after a long one is where its length says")
    sx.check(s[0].Length == 33008 and s[0].ACPIDeviceNumber == b[3] and sx.eq(s[0].ACPIObjectName, name), "a long structure has all its fields")
    sx.cover("andd")


def kinds(sx):
    ty, st = sx.u16("type"), sx.u8("scope")
    sx.assume(ty > 4)
    r = sx.attempt(D.DMARTable, sx.cat(HEAD, sx.le(ty, 2), b"\x18\x00", bytes(20)))
    sx.check(not r.ok, "unknown structure types are refused")
    r = sx.attempt(D.DMARTable, sx.cat(HEAD, bytes.fromhex("02001000") + bytes(4), sx.le(st, 1), b"\x08" + bytes(6)))
    sx.check(r.ok == sx.and_(st >= 1, st <= 5), "unknown device scope types are refused")


def rmrr(sx, scopes, i):
    body = b""
    raw = []
    for j, n in enumerate(scopes):
        x = sx.bytes("p%d%d" % (i, j), 1 + 2 * n)
        raw.append(x)
        body = sx.cat(body, bytes([1, 6 + 2 * n, 0, 0, 0]), x)
    return sx.cat(b"\1\0", (24 + len(body)).to_bytes(2, "little"), bytes(20), body), raw


def two(sx, v):
    return sx.scat(sx.decimal(v // 10), sx.decimal(v % 10))


def path(sx, scopes):
    st, raw = rmrr(sx, scopes, 0)
    for x in raw:
        for i in range(len(x)):
            sx.assume(x[i] <= 99 if i % 2 == 0 or i == 0 else x[i] <= 9)
            if i % 2 == 1:
                sx.assume(x[i] <= 99)
    d = D.DMARTable(sx.cat(HEAD, st))
    parts = []
    for k, x in enumerate(raw):
        if k:
            parts.append(", ")
        parts += [two(sx, x[0]), ":"]
        n = (len(x) - 1) // 2
        for i in range(n):
            parts += [two(sx, x[1 + 2 * i]), ".", sx.decimal(x[2 + 2 * i])]
            if i != n - 1:
                parts.append(":")
    sx.check(sx.eq(d.dmar_table.RMRRlist[0].getPath(), sx.scat("", *parts)), "the path is bus:device.function and so on, per scope")
    sx.cover("path")


def golden(sx, rm, go):
    """RMRRs with rm[i] scopes against a golden file whose paths have go[i] parts; upper-case golden text is the same path"""
    n = len(rm)
    bus = [[sx.int("bus%d%d" % (i, j), 0, 9) for j in range(k)] for i, k in enumerate(rm)]
    gold = [[sx.int("gold%d%d" % (i, j), 0, 9) for j in range(k)] for i, k in enumerate(go)]
    data = sx.cat(HEAD, *[sx.cat(b"\1\0", (24 + 8 * len(x)).to_bytes(2, "little"), bytes(20), *[sx.cat(bytes([1, 8, 0, 0, 0]), sx.le(v, 1), b"\x02\x03") for v in x]) for x in bus])
    t = D.DMARTable(data)
    sx.check(len(t.dmar_table.RMRRlist) == n, "RMRR structures are listed")

    class E:
        def __init__(self, text):
            self.text = text

        def find(self, k):
            return self if k == "Path" else None

    class Tree:
        def getroot(self):
            return [E(sx.scat("", *[sx.scat(", " if j else "", "0", sx.decimal(v), ":02.3") for j, v in enumerate(g)])) for g in gold]

    class ET_:
        @staticmethod
        def parse(f):
            return Tree()

    f = sx.write("golden.xml", "<a/>")
    real = D.ET
    D.ET = ET_
    try:
        got = t.CheckRMRRCount(f)
    finally:
        D.ET = real
    want = True
    for x in bus:
        want = sx.and_(want, sx.or_(False, *[sx.and_(*[v == w for v, w in zip(x, g)]) for g in gold if len(g) == len(x)]))
    sx.check(got == want, "the check passes exactly when every RMRR path is in the golden file")
    sx.check(t.CheckRMRRCount(None) == (n == 0), "without a golden file no RMRR is expected")
    sx.cover("golden")


suite.add(Case("header", head, "any header"))
for k, scs in (("drhd", ([], [(1, 1)], [(3, 0), (2, 2)])), ("rmrr", ([(1, 1)], [(5, 1), (4, 3)])), ("atsr", ([], [(1, 2), (2, 1)])), ("rhsa", ([],))):
    for i, sc in enumerate(scs):
        suite.add(Case("%s-%d" % (k, i), one, "any values; device scopes %s" % sc, kind=k, scopes=sc))
suite.add(Case("andd-long", big, "an object name of 33000 bytes, the last 2 arbitrary"))
for n in (0, 1, 5):
    suite.add(Case("andd-%d" % n, one, "any values, a name of %d bytes" % n, kind="andd", scopes=n))
suite.add(Case("drhd-many", one, "any values; 8 device scopes", kind="drhd", scopes=[(1 + i % 5, i % 4) for i in range(8)]), tier="thorough")
for ty in range(5):
    for extra in (0, 6, 10):
        suite.add(Case("lengths-%d-%d" % (ty, extra), lengths, "any length and content in %d bytes" % ([16, 24, 8, 20, 8][ty] + extra), ty=ty, size=[16, 24, 8, 20, 8][ty] + extra))
FIELDS = {"drhd": [(0, 1), (1, 2), (2, 4), (4, 12)], "rmrr": [(0, 2), (2, 4), (4, 12), (12, 20)], "atsr": [(0, 1), (1, 2), (2, 4)], "rhsa": [(0, 4), (4, 12), (12, 16)], "andd": [(0, 3), (3, 4)]}
for k in sorted(FIELDS):
    for i, f in enumerate(FIELDS[k]):
        suite.add(Case("xml-%s-%d" % (k, i), one, "any value in bytes %d-%d, large values elsewhere" % f, kind=k, scopes=[(1 + i, 1)] if k not in ("rhsa", "andd") else [] if k == "rhsa" else 2, xml=f))
suite.add(Case("kinds", kinds, "any structure type; any device scope type"))
suite.add(Case("path-1", path, "one scope with one entry", scopes=[1]))
suite.add(Case("path-21", path, "scopes of two and one entries", scopes=[2, 1]))
for rm, go in (([], []), ([], [1]), ([1], []), ([1], [1]), ([2], [1]), ([2], [2]), ([1, 1], [1]), ([1, 2], [2, 1]), ([1, 1], [1, 1])):
    suite.add(Case("golden-%s-%s" % ("".join(map(str, rm)), "".join(map(str, go))), golden, "RMRRs with %s scopes, golden paths of %s parts" % (rm, go), rm=rm, go=go))
suite.add(Case("golden-111-221", golden, "RMRRs with 1, 1, 2 scopes, golden paths of 2, 2, 1 parts", rm=[1, 1, 2], go=[2, 2, 1]), tier="thorough")
for f in ((0, 4), (4, 5), (5, 6), (6, 10), (10, 14), (14, 15), (15, 16)):
    suite.add(Case("head-xml-%d" % f[0], head_xml, "bytes %d-%d of the header's numbers, large values elsewhere" % f, free=f))
