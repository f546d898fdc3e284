"""P16 IVRS tables: decode/encode identity, lengths and checksum always right, inconsistent tables refused."""

import edk2toollib.acpi.ivrs_parser as I
from sx.case import Case, Suite

suite = Suite()
COVER = ["ivhd", "ivmd", "dte", "built", "reused", "sum-bad", "sum-ok", "len-bad", "len-ok", "xml", "dump", "kind-bad", "kind-ok"]
T = I.IVRS_TABLE

# device table entries: byte size and which of their bytes are reserved (written as zero) or fixed
DTE = {
    "reserved": (0, 4, {}),
    "all": (1, 4, {}),
    "select": (2, 4, {}),
    "range": (3, 8, {4: 4, 7: 0}),
    "alias": (66, 8, {4: 0, 7: 0}),
    "aliasrange": (67, 12, {4: 0, 7: 0, 8: 4, 11: 0}),
    "ext": (70, 8, {}),
    "extrange": (71, 12, {8: 4, 11: 0}),
    "special": (72, 8, {}),
    "acpi0": (240, 22, {20: 0, 21: 0}),
    "acpi1": (240, 30, {20: 1, 21: 8}),
    "acpi2": (240, 25, {20: 2, 21: 3}),
    "acpi2e": (240, 22, {20: 2, 21: 0}),
}


def dte(sx, kind, name):
    ty, n, fixed = DTE[kind]
    b = sx.bytes(name, n - 1)
    parts = [bytes([ty])]
    for i in range(1, n):
        parts.append(bytes([fixed[i]]) if i in fixed else b[i - 1 : i])
    return sx.cat(*parts)


def ivhd(sx, ty, kinds, name):
    b = sx.bytes(name, 37 if ty != 0x10 else 21)
    body = sx.cat(b"", *[dte(sx, k, "%sd%d" % (name, i)) for i, k in enumerate(kinds)])
    n = len(b) + 3 + len(body)
    return sx.cat(bytes([ty]), b[0:1], n.to_bytes(2, "little"), b[1:], body), b


def ivmd(sx, ty, name):
    b = sx.bytes(name, 29)
    return sx.cat(bytes([ty]), b[0:1], b"\x20\x00", b[1:]), b


def total(data):
    t = 0
    for x in data:
        t = t + x
    return t & 0xFF


def table(sx, body, name="head"):
    """a table with a right length and checksum"""
    h = sx.bytes(name, 43)
    sx.assume((h[31] & 0x1E) != 0)
    pre = sx.cat(h[0:4], (48 + len(body)).to_bytes(4, "little"), h[4:5])
    post = sx.cat(h[5:], body)
    s = (-(total(pre) + total(post))) & 0xFF
    return sx.cat(pre, sx.le(s, 1), post), h


def check_header(sx, a, h, n):
    u = lambda x, y: sx.uint(h[x:y])
    sx.check(sx.and_(sx.eq(a.Signature, h[0:4]), a.Length == n, a.Revision == h[4], sx.eq(a.OEMID, h[5:11]), sx.eq(a.OEMTableID, h[11:19])), "the header decodes")
    sx.check(sx.and_(a.OEMRevision == u(19, 23), sx.eq(a.CreatorID, h[23:27]), a.CreatorRevision == u(27, 31), a.IVinfo == u(31, 35), a.Reserved == u(35, 43)), "the header decodes")


def check_dte(sx, d, kind, b):
    u = lambda x, y: sx.uint(b[x:y])
    sx.check(sx.and_(d.Type == b[0], d.DeviceID == u(1, 3), d.DTESetting == b[3], d.Length == len(b)), "a device entry's id and settings decode")
    if kind == "range":
        sx.check(d.EndDeviceID == u(5, 7), "the end of the range decodes")
    elif kind == "alias":
        sx.check(d.SourceDeviceID == u(5, 7), "the source of the alias decodes")
    elif kind == "aliasrange":
        sx.check(sx.and_(d.SourceDeviceID == u(5, 7), d.EndDeviceID == u(9, 11)), "the source and end of the range decode")
    elif kind == "ext":
        sx.check(d.ExtendedDTESetting == u(4, 8), "the extended settings decode")
    elif kind == "extrange":
        sx.check(sx.and_(d.ExtendedDTESetting == u(4, 8), d.EndDeviceID == u(9, 11)), "the extended settings and end of the range decode")
    elif kind == "special":
        sx.check(sx.and_(d.Handle == b[4], d.SourceDeviceID == u(5, 7), d.Variety == b[7]), "the handle, source and variety decode")
    elif kind.startswith("acpi"):
        sx.check(sx.and_(sx.eq(d.HID, b[4:12]), sx.eq(d.CID, b[12:20]), d.UIDFormat == b[20], d.UIDLength == b[21]), "the ACPI ids decode")
        if kind == "acpi0":
            sx.check(d.UID is None, "no unique id")
        elif kind == "acpi1":
            sx.check(d.UID == u(22, 30), "a numeric unique id decodes")
        else:
            sx.check(sx.eq(d.UID, b[22:]), "a text unique id decodes")


def check_ivhd(sx, s, ty, b, n):
    u = lambda x, y: sx.uint(b[x:y])
    sx.check(sx.and_(s.Type == ty, s.Flags == b[0], s.Length == n, s.DeviceID == u(1, 3), s.CapabilityOffset == u(3, 5), s.IOMMUBaseAddress == u(5, 13)), "the IVHD decodes")
    sx.check(sx.and_(s.SegmentGroup == u(13, 15), s.IOMMUInfo == u(15, 17), s.IOMMUFeatureInfo == u(17, 21)), "the IVHD decodes")
    if ty == 0x10:
        sx.check(s.IOMMUEFRImage is None, "a type 10h block has no feature register image")
    else:
        sx.check(sx.and_(s.IOMMUEFRImage == u(21, 29), s.Reserved == u(29, 37)), "the feature register image decodes")


def check_ivmd(sx, s, ty, b):
    u = lambda x, y: sx.uint(b[x:y])
    sx.check(sx.and_(s.Type == ty, s.Flags == b[0], s.Length == 32, s.DeviceID == u(1, 3), s.AuxiliaryData == u(3, 5), s.Reserved == u(5, 13)), "the IVMD decodes")
    sx.check(sx.and_(s.IVMDStartAddress == u(13, 21), s.IVMDMemoryBlockLength == u(21, 29)), "the IVMD decodes")


def blocks(sx, spec, name):
    """spec: ints 20h-22h are IVMDs, (type, entries) are IVHDs"""
    out = []
    for i, s in enumerate(spec):
        if isinstance(s, int):
            raw, b = ivmd(sx, s, "%sm%d" % (name, i))
        else:
            raw, b = ivhd(sx, s[0], s[1], "%sh%d" % (name, i))
        out.append((s, raw, b))
    return out


def check_blocks(sx, t, bl):
    sx.check(len(t.SubStructs) == len(bl), "one block per encoded one, in order")
    md = [x for x in t.SubStructs if isinstance(x, T.IVMD_STRUCT)]
    sx.check(len(md) == len(t.IVMD_list) and all([x is y for x, y in zip(md, t.IVMD_list)]), "the IVMD list is the table's IVMD blocks")
    for x, (s, raw, b) in zip(t.SubStructs, bl):
        if isinstance(s, int):
            sx.check(isinstance(x, T.IVMD_STRUCT), "block kind")
            check_ivmd(sx, x, s, b)
            sx.cover("ivmd")
        else:
            sx.check(isinstance(x, T.IVHD_STRUCT), "block kind")
            check_ivhd(sx, x, s[0], b, len(raw))
            sx.check(len(x.DeviceTableEntries) == len(s[1]), "one device entry per encoded one, in order")
            o = 24 if s[0] == 0x10 else 40
            for d, k in zip(x.DeviceTableEntries, s[1]):
                check_dte(sx, d, k, raw[o : o + DTE[k][1]])
                o += DTE[k][1]
                sx.cover("dte")
            sx.cover("ivhd")


def ident(sx, spec, reuse=None):
    bl = blocks(sx, spec, "")
    data, h = table(sx, sx.cat(b"", *[x[1] for x in bl]))
    if reuse is None:
        t = T(data)
    else:
        first, _ = table(sx, sx.cat(b"", *[x[1] for x in blocks(sx, reuse, "old")]), "oldhead")
        t = T(first)
        t.Decode(data)
        sx.cover("reused")
    check_header(sx, t.acpi_header, h, len(data))
    check_blocks(sx, t, bl)
    sx.check(sx.eq(t.Encode(), data), "a decoded table encodes to the same bytes")
    sx.check(t.IVRSBitEnabled() == ((h[31] & 2) != 0), "the remapping bit is bit 1")
    sx.check(T.validateChecksum8(data) == 0, "the table sums to zero")


def long(sx, count):
    """the length of a block uses all its 16 bits"""
    h, m = sx.bytes("h", 21), sx.bytes("m", 29)
    e = bytes([240]) + bytes(range(1, 20)) + bytes([2, 255]) + b"U" * 255
    body = sx.cat(e * count, dte(sx, "select", "last"))
    n = 24 + len(body)
    raw = sx.cat(b"\x10", h[0:1], n.to_bytes(2, "little"), h[1:], body)
    data, _ = table(sx, sx.cat(raw, b"\x20", m[0:1], b"\x20\0", m[1:]))
    t = T(data)
    sx.check(len(t.SubStructs) == 2, "one block per encoded one, in order")
    check_ivhd(sx, t.SubStructs[0], 0x10, h, n)
    check_ivmd(sx, t.SubStructs[1], 0x20, m)
    es = t.SubStructs[0].DeviceTableEntries
    sx.check(len(es) == count + 1, "one device entry per encoded one, in order")
    check_dte(sx, es[-1], "select", raw[n - 4 :])
    sx.check(sx.eq(t.Encode(), data), "a decoded table encodes to the same bytes")
    sx.cover("ivhd")


def build(sx, spec):
    """blocks are decoded one by one and added to a fresh table"""
    bl = blocks(sx, spec, "")
    data, h = table(sx, sx.cat(b"", *[x[1] for x in bl]))
    t = T()
    t.acpi_header = T.ACPI_TABLE_HEADER(sx.cat(h[0:4], b"\x30\0\0\0", h[4:5], b"\0", h[5:]))
    pos = 48
    for s, raw, b in bl:
        if isinstance(s, int):
            t.addIVMDEntry(T.IVMD_STRUCT(raw))
        else:
            v = T.IVHD_STRUCT(sx.cat(raw[0:2], (24 if s[0] == 0x10 else 40).to_bytes(2, "little"), raw[4 : 24 if s[0] == 0x10 else 40]))
            o = 24 if s[0] == 0x10 else 40
            for k in s[1]:
                v.addDTEEntry(T.DEVICE_TABLE_ENTRY.Factory(raw[o : o + DTE[k][1]]))
                o += DTE[k][1]
            t.addIVHDEntry(v)
        pos += len(raw)
        sx.check(t.acpi_header.Length == pos, "the length counts every added block")
        sx.check((total(t.Encode()) & 0xFF) == 0, "the table sums to zero after every addition")
    sx.check(sx.eq(t.Encode(), data), "a table built from its blocks has the same bytes")
    t.acpi_header.OEMRevision = t.acpi_header.OEMRevision ^ 0x55
    t.updateACPISum()
    sx.check((total(t.Encode()) & 0xFF) == 0, "updateACPISum makes the table sum to zero")
    sx.cover("built")


def sums(sx, spec):
    """any checksum byte: accepted exactly when the table sums to zero"""
    bl = blocks(sx, spec, "")
    data, h = table(sx, sx.cat(b"", *[x[1] for x in bl]))
    c = sx.u8("sum")
    r = sx.attempt(T, sx.cat(data[:9], sx.le(c, 1), data[10:]))
    sx.check(r.ok == (c == data[9]), "a table is accepted exactly when it sums to zero")
    sx.cover("sum-ok" if r.ok else "sum-bad")


def fixsum(sx, data):
    pre, post = data[:9], data[10:]
    return sx.cat(pre, sx.le((-(total(pre) + total(post))) & 0xFF, 1), post)


def table_len(sx, spec, cut):
    """any table length field; the data may have extra bytes"""
    bl = blocks(sx, spec, "")
    body = sx.cat(b"", *[x[1] for x in bl])
    data, h = table(sx, body)
    n = sx.int("len", 0, 0xFFFFFFFF)
    data = sx.cat(data[:4], sx.le(n, 4), data[8:])
    if cut < 0:
        data = data[:cut]
    else:
        data = sx.cat(data, bytes(cut))
    r = sx.attempt(T, fixsum(sx, data))
    if cut:
        sx.check(not r.ok, "a table with missing or extra bytes is refused")
        sx.cover("len-bad")
    else:
        sx.check(r.ok == (n == len(data)), "a table is accepted exactly when its length is right")
        sx.cover("len-ok" if r.ok else "len-bad")


def ivhd_len(sx, ty, kinds, follow):
    """any IVHD length field; more blocks may follow"""
    raw, b = ivhd(sx, ty, kinds, "h")
    n = sx.u16("len")
    body = sx.cat(raw[0:2], sx.le(n, 2), raw[4:])
    if follow:
        body = sx.cat(body, bytes([0x20, 0, 0x20, 0]), bytes(28))
    data, h = table(sx, body)
    r = sx.attempt(T, data)
    if follow:
        sx.check(sx.implies(n == len(raw), r.ok), "a right length is accepted")
        if r.ok:
            sx.check(sx.eq(r.value.Encode()[48:], body), "nothing is lost or invented")
    else:
        sx.check(r.ok == (n == len(raw)), "an IVHD is accepted exactly when its length is that of its entries")
    sx.cover("len-ok" if r.ok else "len-bad")


def ivmd_len(sx):
    n, ty = sx.u16("len"), sx.choice("type", 3)
    raw, b = ivmd(sx, 0x20, "m")
    data, h = table(sx, sx.cat(sx.le(0x20 + ty, 1), raw[1:2], sx.le(n, 2), raw[4:]))
    r = sx.attempt(T, data)
    sx.check(r.ok == (n == 32), "an IVMD is accepted exactly when its length is 32")


def kinds(sx):
    """any block type and any device entry type"""
    ty, de = sx.u8("type"), sx.u8("dte")
    data, h = table(sx, sx.cat(sx.le(ty, 1), b"\0\x20\0", bytes(28)))
    r = sx.attempt(T, data)
    sx.check(sx.implies(sx.and_(ty >= 0x20, ty <= 0x22), r.ok), "IVMD types are accepted")
    sx.check(sx.implies(sx.not_(sx.or_(ty == 0x10, ty == 0x11, ty == 0x40, sx.and_(ty >= 0x20, ty <= 0x22))), not r.ok), "unknown block types are refused")
    data = fixsum(sx, sx.cat(data[:4], b"\x4c\0\0\0", data[8:48], b"\x10\0\x1c\0", bytes(20), sx.le(de, 1), b"\1\2\3"))
    r = sx.attempt(T, data)
    sx.check(r.ok == (de <= 2), "a 4-byte entry is accepted exactly when its type has that size")
    sx.cover("kind-ok" if r.ok else "kind-bad")


def info(sx):
    """IVinfo must name an IVHD revision"""
    h = sx.bytes("head", 48)
    h = fixsum(sx, sx.cat(h[:4], b"\x30\0\0\0", h[8:]))
    r = sx.attempt(T, h)
    sx.check(r.ok == ((h[36] & 0x1E) != 0), "an information field without virtualization bits is refused")


def big(sx, *vs):
    for v in vs:
        sx.assume(v >= 0x10)


def xml(sx, spec, free):
    """one block; bytes [free) may be anything, the others are large numbers (the number of hex digits forks)"""
    bl = blocks(sx, [spec], "")
    s, raw, b = bl[0]
    o = 0 if isinstance(spec, int) else (24 if spec[0] == 0x10 else 40)
    skip = {0, 2, 3, o} | ({o + i for i in DTE[spec[1][0]][2]} if o and spec[1] else set())
    for i in range(len(raw)):
        if not free[0] <= i < free[1] and i not in skip:
            sx.assume(raw[i] >= 0x10)
    data, h = table(sx, raw)
    for i in range(len(h)):
        sx.assume(h[i] >= 0x10)
    t = T(data)
    root = t.ToXmlElementTree()
    x = list(root)
    sx.check(root.tag == "IVRSTable" and len(x) == 2 and x[0].tag == "AcpiTableHeader", "the XML has the header and the block")
    hu = lambda lo, hi: sx.uint(data[lo:hi])
    a = x[0]
    sx.check(sorted(a.keys()) == ["Checksum", "CreatorID", "CreatorRevision", "IVinfo", "Length", "OEMID", "OEMRevision", "OEMTableID", "Revision", "Signature"], "the XML header has the fields")
    for k, v in (("Length", len(data)), ("Revision", data[8]), ("OEMRevision", hu(24, 28)), ("CreatorRevision", hu(32, 36)), ("IVinfo", hu(36, 40))):
        sx.check(int(a.get(k), 16) == v, "the XML header holds the values")
    u = lambda lo, hi: sx.uint(raw[lo:hi])
    if isinstance(spec, int):
        sx.check(x[1].tag == "IVMD", "block kind")
        want = {"Type": raw[0], "Flags": raw[1], "Length": 32, "DeviceID": u(4, 6), "EndofRange" if spec == 0x22 else "AuxiliaryData": u(6, 8), "Reserved": u(8, 16), "IVMDStartAddress": u(16, 24), "IVMDMemoryBlockLength": u(24, 32)}
        e = x[1]
    else:
        sx.check(x[1].tag == "IVHD", "block kind")
        e = x[1]
        if spec[1]:
            e = list(e)[0]
            k = spec[1][0]
            want = {"DeviceID": u(o + 1, o + 3), "DTESetting": raw[o + 3], "Type": raw[o]}
            if "range" in k:
                want["StartofRange"] = want.pop("DeviceID")
                want["EndofRange"] = u(o + DTE[k][1] - 3, o + DTE[k][1] - 1)
            if "alias" in k or k == "special":
                want["SourceDeviceID"] = u(o + 5, o + 7)
            if k == "special":
                want["Handle"] = raw[o + 4]
        else:
            want = {"Type": raw[0], "Flags": raw[1], "Length": len(raw), "IOMMUDeviceID": u(4, 6), "CapabilityOffset": u(6, 8), "IOMMUBaseAddress": u(8, 16), "SegmentGroup": u(16, 18), "IOMMUInfo": u(18, 20), "IOMMUFeatureInfo": u(20, 24)}
            if spec[0] != 0x10:
                want["IOMMUEFRImage"] = u(24, 32)
    for k in sorted(want):
        sx.check(int(e.get(k), 16) == want[k], "the XML holds the values")
    if not isinstance(spec, int) and spec[1]:
        k = spec[1][0]
        if k.startswith("ext"):
            sx.check(e.get("ExtendedDTESetting") == ("ATS requests blocked" if (raw[o + 7] & 0x80) != 0 else "ATS allowed"), "the ATS setting is described")
        if k == "special":
            v = e.get("Variety")
            sx.check(sx.and_((v == "IOAPIC") == (raw[o + 7] == 1), (v == "HPET") == (raw[o + 7] == 2)), "the variety is described")
    sx.cover("xml")


def dump(sx, spec):
    """the printed dump shows the stored numbers"""
    bl = blocks(sx, [spec], "")
    s, raw, b = bl[0]
    lines = []
    I.print = lambda *a: lines.append(a[0])
    try:
        (T.IVMD_STRUCT if isinstance(spec, int) else T.IVHD_STRUCT)(raw).DumpInfo()
    finally:
        del I.print
    u = lambda lo, hi: sx.uint(raw[lo:hi])
    if isinstance(spec, int):
        want = [("Type", raw[0]), ("Flags", raw[1]), ("Length", 32), ("DeviceID", u(4, 6)), ("AuxiliaryData", u(6, 8)), ("Reserved", u(8, 16)), ("IVMD Start Address", u(16, 24)), ("IVMD Memory Block Length", u(24, 32))]
    else:
        want = [("Type", raw[0]), ("Flags", raw[1]), ("Length", len(raw)), ("IOMMU Device ID", u(4, 6)), ("Capability Offset", u(6, 8)), ("IOMMU Base Address", u(8, 16)), ("Segment Group", u(16, 18)), ("IOMMU Info", u(18, 20)), ("IOMMU Feature Info", u(20, 24))]
    got = lines[2:]
    sx.check(len(got) == len(want), "one line per field")
    for line, (k, v) in zip(got, want):
        sx.check(line.split(":")[0].strip() == k, "the fields are in order")
        sx.check(int(line.split(":")[1].strip(), 16) == v, "the dump shows the stored values")
    sx.cover("dump")


for k in sorted(DTE):
    suite.add(Case("dte-" + k, ident, "one block with one %s entry, any values" % k, spec=[(0x10, [k])]))
suite.add(Case("two-blocks", ident, "an IVHD with two entries and an IVMD, any values", spec=[(0x11, ["range", "select"]), 0x21]))
suite.add(Case("order", ident, "IVMD, IVHD, IVMD", spec=[0x20, (0x40, ["special"]), 0x22]))
suite.add(Case("empty", ident, "no blocks", spec=[]))
suite.add(Case("reuse", ident, "decoding into a used table", spec=[(0x11, ["alias"])], reuse=[0x20, (0x10, ["range"])]))
suite.add(Case("reuse-none", ident, "decoding an empty table into a used one", spec=[], reuse=[0x21]))
suite.add(Case("many", ident, "every entry kind, all block kinds", spec=[(0x10, sorted(DTE)), 0x20, (0x11, sorted(DTE)), 0x21, (0x40, sorted(DTE)[::-1]), 0x22]), tier="thorough")
for k in (2, 120):
    suite.add(Case("long-%d" % k, long, "an IVHD of %d large entries and one more, then an IVMD" % k, count=k))
suite.add(Case("build-1", build, "an IVHD with two entries", spec=[(0x10, ["aliasrange", "acpi1"])]))
suite.add(Case("build-2", build, "IVHD, IVMD", spec=[(0x40, ["ext"]), 0x20]))
suite.add(Case("build-3", build, "IVHD, IVMD, IVMD", spec=[(0x11, ["extrange", "all"]), 0x22, 0x21]), tier="thorough")
suite.add(Case("sum", sums, "any checksum", spec=[(0x10, ["select"])]))
for c in (0, -1, -4, 1, 4):
    suite.add(Case("tlen%+d" % c, table_len, "any table length, %+d bytes" % c, spec=[(0x10, ["select"])], cut=c))
suite.add(Case("tlen-ivmd", table_len, "any table length", spec=[0x20], cut=0))
for ty in (0x10, 0x11):
    suite.add(Case("hlen-%x" % ty, ivhd_len, "any IVHD length", ty=ty, kinds=["select", "range"], follow=False))
    suite.add(Case("hlen-%x-follow" % ty, ivhd_len, "any IVHD length, IVMD follows", ty=ty, kinds=["ext"], follow=True))
suite.add(Case("mlen", ivmd_len, "any IVMD length and type"))
suite.add(Case("kinds", kinds, "any block type, any entry type"))
suite.add(Case("info", info, "any header"))
for ty in (0x10, 0x40):
    for f in ((1, 2), (4, 6), (6, 8), (8, 16), (16, 18), (18, 20), (20, 24)) + (((24, 32),) if ty != 0x10 else ()):
        suite.add(Case("xml-%x-%d" % (ty, f[0]), xml, "bytes %d-%d of an IVHD" % f, spec=(ty, []), free=f))
for ty in (0x20, 0x22):
    for f in ((1, 2), (4, 6), (6, 8), (8, 16), (16, 24), (24, 32)):
        suite.add(Case("xml-%x-%d" % (ty, f[0]), xml, "bytes %d-%d of an IVMD" % f, spec=ty, free=f))
for k in sorted(DTE):
    if not k.startswith("acpi"):
        suite.add(Case("xml-dte-" + k, xml, "a %s entry" % k, spec=(0x10, [k]), free=(0, 0) if k != "special" else (31, 32)))
suite.add(Case("dump-ivmd", dump, "any IVMD", spec=0x20))
suite.add(Case("dump-ivhd", dump, "any IVHD", spec=(0x10, [])))
