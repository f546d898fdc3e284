"""P14 UEFI device paths: one node per encoded node, specified field values, bad lengths refused, always terminates."""

import uuid

import edk2toollib.uefi.device_path as D
from sx.case import Case, Suite

suite = Suite()
COVER = ["pci", "pccard", "acpi", "usb", "mac", "ipv4", "sata", "disk", "file", "fv", "ffs", "range", "raw", "end", "unknown", "walk-ok", "walk-bad", "sub", "long"]
END = b"\x7f\xff\x04\x00"


def node(sx, ty, sub, data):
    return sx.cat(bytes([ty, sub]), (4 + len(data)).to_bytes(2, "little"), data)


def parse1(sx, ty, sub, data, name):
    """the node sits between two others; its neighbours must not matter"""
    pre = node(sx, 1, 1, b"\x01\x02")
    out = D.DevicePathFactory.from_binary(sx.cat(pre, node(sx, ty, sub, data), END))
    sx.check(len(out) == 3, "one node per encoded node")
    n = out[1]
    sx.check(sx.and_(n.dev_type == ty, n.dev_subtype == sub, n.dev_length == 4 + len(data)), "the node header decodes")
    sx.check(sx.eq(n.dev_data, data), "the node data is what follows its header")
    d = n.__dict__()
    sx.check(list(d) == [name], "the node is described by its type and subtype")
    h = d[name]["Header"]
    sx.check(h["type"] == name.split(" / ")[0] and h["subtype"] == name.split(" / ")[1] and h["length"] == 4 + len(data), "the described header is the node's")
    return n, d[name]


def fields(sx, kind):
    b = sx.bytes("b", {"pci": 2, "pccard": 1, "acpi": 8, "usb": 2, "mac": 33, "ipv4": 23, "sata": 6, "disk": 38, "fv": 16, "ffs": 16, "range": 20}[kind])
    u = lambda lo, hi: sx.uint(b[lo:hi])
    if kind == "pci":
        n, d = parse1(sx, 1, 1, b, "Hardware / PCI")
        sx.check(sx.and_(n.function == b[0], n.device == b[1], d["Function"] == b[0], d["Device"] == b[1]), "function then device")
    elif kind == "pccard":
        n, d = parse1(sx, 1, 2, b, "Hardware / PCCARD")
        sx.check(sx.and_(n.function_number == b[0], d["FunctionNumber"] == b[0]), "function number")
    elif kind == "acpi":
        n, d = parse1(sx, 2, 1, b, "ACPI / ACPI HID")
        sx.check(sx.and_(n.hid == u(0, 4), n.uid == u(4, 8)), "HID then UID")
        sx.check(sx.and_(int(d["HID"], 16) == u(0, 4), int(d["UID"], 16) == u(4, 8)), "HID and UID are described in hex")
        sx.check(sx.and_(sx.eq(d["HID"], d["HID"].upper()), sx.eq(d["UID"], d["UID"].upper())), "hex is upper case")
    elif kind == "usb":
        n, d = parse1(sx, 3, 5, b, "Messaging / USB")
        sx.check(sx.and_(n.parent_port_number == b[0], n.interface_number == b[1], d["ParentPortNumber"] == b[0], d["InterfaceNumber"] == b[1]), "port then interface")
    elif kind == "mac":
        n, d = parse1(sx, 3, 0x0B, b, "Messaging / MAC Address")
        sx.check(sx.eq(bytes(n.mac_address.addr), b[:32]), "32 address bytes")
        sx.check(sx.eq(d["MacAddress"]["Addr"], sx.scat(*[sx.scat(":" if i else "", sx.hexs(b[i], 2, True)) for i in range(32)])), "the address is described in hex")
        t = n.if_type
        sx.check((t[0] if isinstance(t, tuple) else t) == b[32], "interface type")
    elif kind == "ipv4":
        n, d = parse1(sx, 3, 0x0C, b, "Messaging / IPv4")
        for v, s, lo in ((n.local_ip_address, "LocalIpAddress", 0), (n.remote_ip_address, "RemoteIpAddress", 4), (n.gateway_ip_address, "GatewayIpAddress", 15), (n.subnet_mask, "SubnetMask", 19)):
            sx.check(sx.eq(bytes(v.addr), b[lo : lo + 4]), "addresses")
        sx.check(sx.and_(n.local_port == u(8, 10), n.remote_port == u(10, 12), n.protocol == u(12, 14)), "ports and protocol")
        sx.check(sx.and_(d["LocalPort"] == u(8, 10), d["RemotePort"] == u(10, 12), d["Protocol"] == u(12, 14)), "ports and protocol")
    elif kind == "sata":
        n, d = parse1(sx, 3, 0x12, b, "Messaging / SATA")
        sx.check(sx.and_(n.hba_port_number == u(0, 2), n.port_multiplier_port_number == u(2, 4), n.lun == u(4, 6)), "port, multiplier port, LUN")
        sx.check(sx.and_(d["HBAPortNumber"] == u(0, 2), d["PortMultiplierPortNumber"] == u(2, 4), d["Lun"] == u(4, 6)), "port, multiplier port, LUN")
    elif kind == "disk":
        n, d = parse1(sx, 4, 1, b, "Media / Hard Drive")
        sx.check(sx.and_(n.partition_number == u(0, 4), n.partition_start == u(4, 12), n.partition_size == u(12, 20)), "partition number, start, size")
        sx.check(sx.and_(sx.eq(n.signature, b[20:36]), n.MBR_type == b[36], n.signature_type == b[37]), "signature, MBR type, signature type")
        sx.check(sx.and_(d["PartitionNumber"] == u(0, 4), d["PartitionStart"] == u(4, 12), d["PartitionSize"] == u(12, 20)), "partition number, start, size")
        sx.check(sx.and_(sx.eq(d["Signature"], sx.scat(*[sx.hexs(b[20 + i], 2, True) for i in range(16)])), d["MBRType"] == b[36], d["SignatureType"] == b[37]), "signature, MBR type, signature type")
    elif kind in ("fv", "ffs"):
        n, d = parse1(sx, 4, 7 if kind == "fv" else 6, b, "Media / PIWG Firmware " + ("Volume" if kind == "fv" else "File"))
        g = uuid.UUID(bytes_le=b)
        sx.check((n.fv_name if kind == "fv" else n.fv_file_name) == g, "GUID")
        sx.check(sx.eq(d["FvName" if kind == "fv" else "FvFileName"], str(g).upper()), "GUID")
    elif kind == "range":
        n, d = parse1(sx, 4, 8, b, "Media / Relative Offset Range")
        sx.check(sx.and_(n.reserved == u(0, 4), n.starting_offset == u(4, 12), n.ending_offset == u(12, 20)), "start and end offsets")
        sx.check(sx.and_(d["Reserved"] == u(0, 4), d["StartingOffset"] == u(4, 12), d["EndingOffset"] == u(12, 20)), "start and end offsets")
    sx.cover(kind)


def ipv4_static(sx):
    b = sx.bytes("b", 23)
    n = D.DevicePathFactory.from_binary(node(sx, 3, 0x0C, b))[0]
    sx.check(n.static_ip_address == (b[14] != 0), "the static address flag is the stored one")


def nvme(sx):
    """UEFI 10.3.4.21: namespace ID (4 bytes), EUI-64 (8 bytes)"""
    b = sx.bytes("b", 12)
    n, d = parse1(sx, 3, 0x17, b, "Messaging / NVMe Namespace")
    vals = [v for v in list(vars_of(n).values()) + list(d.values()) if not isinstance(v, (dict, str, bytes)) and hasattr(v, "__index__")]
    sx.check(sx.or_(*[v == sx.uint(b[0:4]) for v in vals]), "an NVMe namespace node has its 32-bit namespace ID")


def vars_of(n):
    """the attributes of a node (its class uses the name __dict__ for something else)"""
    return {k: getattr(n, k) for k in ("namespace_id_type", "namespace_id", "subsystem_nqn", "eui64") if hasattr(n, k)}


def nvme_kept(sx, k):
    """whatever the layout, nothing of the data is lost"""
    b, t = sx.bytes("b", 17 if k else 12), sx.text("t", k, mincp=0x21, maxcp=0x7E)
    raw = sx.cat(b, t.encode("ascii"))
    n, d = parse1(sx, 3, 0x17, raw, "Messaging / NVMe Namespace")
    sx.check(sx.eq(n.dev_data, raw), "the node keeps its data")
    if not k:
        sx.check(sx.eq(d["NamespaceId"][-16:], sx.scat(*[sx.hexs(b[4 + i], 2, True) for i in range(8)])), "the EUI-64 is described")


def ipv4_text(sx):
    b = sx.bytes("b", 4)
    sx.assume(sx.and_(b[1] == 0, b[3] == 255))
    data = sx.cat(bytes(15), b, bytes(4))
    n = D.DevicePathFactory.from_binary(node(sx, 3, 0x0C, data))[0]
    t = n.__dict__()["Messaging / IPv4"]["GatewayIpAddress"]
    sx.check(sx.eq(t, sx.scat(sx.decimal(b[0]), ".0.", sx.decimal(b[2]), ".255")), "addresses are described in dotted form")


def file(sx, n, nul):
    """a file path is its characters, without the terminator"""
    t = sx.text("t", n, maxcp=0xFFFF, mincp=1)
    data = b""
    for ch in t:
        data = sx.cat(data, sx.le(ord(ch), 2))
    data = sx.cat(data, bytes(2 * nul))
    nd, d = parse1(sx, 4, 4, data, "Media / File Path")
    sx.check(sx.and_(sx.eq(nd.path_name, t), sx.eq(d["PathName"], t)), "the path is the stored text")
    sx.cover("file")


RAW = [(1, 3, "Hardware / Memory Mapped"), (1, 4, "Hardware / Vendor"), (1, 5, "Hardware / Controller"), (1, 6, "Hardware / BMC"), (2, 2, "ACPI / ACPI Extended HID")]
RAW += [(3, s, "Messaging / " + n) for s, n in ((1, "ATAPI"), (2, "SCSI"), (3, "Fibre Channel"), (4, "1394"), (6, "I2O"), (9, "InfiniBand"), (10, "Vendor"), (13, "IPv6"), (14, "UART"), (15, "USB Class"), (0x10, "USB WWID"), (0x11, "Device Logical Unit"), (0x13, "iSCSI"), (0x14, "VLAN"), (0x15, "Fibre Channel Extended"), (0x16, "SAS Extended"), (0x18, "URI"), (0x19, "UFS"), (0x1A, "SD"), (0x1B, "Bluetooth"), (0x1C, "WiFi"), (0x1D, "eMMC"))]
RAW += [(4, 2, "Media / CD-ROM"), (4, 3, "Media / Vendor"), (4, 5, "Media / Protocol"), (5, 1, "BIOS Boot Specification / BIOS Boot Specification")]


def b64(sx, b):
    """RFC 4648"""
    out = []
    for i in range(0, len(b), 3):
        p = b[i : i + 3]
        v = sx.uint(sx.cat(p, bytes(3 - len(p)))[::-1])
        for k in range(len(p) + 1):
            c = (v >> (18 - 6 * k)) & 63
            out.append(sx.le(sx.ite(c < 26, c + 65, sx.ite(c < 52, c + 71, sx.ite(c < 62, c - 4, sx.ite(c == 62, 43, 47)))), 1))
        out.append(b"=" * (3 - len(p)))
    return sx.cat(*out)


def raw(sx, n):
    """nodes without a decoder keep their data"""
    ty, sub, name = sx.pick("kind", RAW if n < 100 else RAW[::15])
    b = sx.bytes("b", n)
    nd, d = parse1(sx, ty, sub, b, name)
    sx.check(len(d["data"]) == 4 * ((n + 2) // 3), "the data is described completely")
    if n <= 60:
        sx.check(sx.eq(d["data"].encode("ascii"), b64(sx, b)), "the data is described in base64")
    sx.cover("raw")


def long(sx, n):
    """a node of many bytes: the length field uses all its 16 bits"""
    ty, sub, name = sx.pick("kind", RAW[::15] if n < 1000 else RAW[1:2])
    a, z = sx.bytes("a", 3), sx.bytes("z", 3)
    b = sx.cat(a, bytes(n - 6), z)
    out = D.DevicePathFactory.from_binary(sx.cat(node(sx, ty, sub, b), node(sx, 1, 4, a), END))
    sx.check(len(out) == 3, "one node per encoded node")
    sx.check(out[0].dev_length == 4 + n and sx.eq(out[0].dev_data, b), "a long node has all its data")
    sx.check(out[1].dev_length == 7 and sx.eq(out[1].dev_data, a), "the node after a long node is where its length says")
    h = out[0].__dict__()[name]["Header"]
    sx.check(h["length"] == 4 + n, "the described header is the node's")
    sx.cover("long")


def unknown(sx, n):
    """any type and subtype parses: unknown ones keep their data"""
    ty, sub, b = sx.u8("ty"), sx.u8("sub"), sx.bytes("b", n)
    known = [(1, 1), (1, 2), (2, 1), (3, 5), (3, 0xB), (3, 0xC), (3, 0x12), (3, 0x17), (4, 1), (4, 4), (4, 6), (4, 7), (4, 8)]
    for t, s in known:
        sx.assume(sx.not_(sx.and_(ty == t, sub == s)))
    buf = sx.cat(sx.le(ty, 1), sx.le(sub, 1), (4 + n).to_bytes(2, "little"), b, END)
    out = D.DevicePathFactory.from_binary(buf)
    sx.check(len(out) == 2, "one node per encoded node")
    x = out[0]
    sx.check(sx.and_(x.dev_type == ty, x.dev_subtype == sub, x.dev_length == 4 + n), "the node header decodes")
    sx.check(sx.eq(x.dev_data, b), "the node data is what follows its header")
    sx.check(len(x.__dict__()) >= 1, "every node can be described")
    sx.cover("unknown")
    if ty == 0x7F:
        sx.check(x.__dict__() == {"type": "End of Hardware", "subtype": "End of Hardware", "length": 4 + n}, "an end node is described as such")
        sx.cover("end")


def walk(sx, n):
    """arbitrary bytes of vendor nodes: terminates, every node where the lengths say, or refused"""
    b = sx.bytes("b", n)
    offs, good, off = [], True, 0
    r = None
    # the reference walk
    lens = []
    while off < n:
        if n - off < 4:
            good = False
            break
        sx.assume(sx.and_(b[off] == 1, b[off + 1] == 4))
        ln = sx.uint(b[off + 2 : off + 4])
        if sx.or_(ln < 4, ln > n - off):
            good = False
            break
        ln = ln.__index__() if not isinstance(ln, int) else ln
        offs.append(off)
        lens.append(ln)
        off += ln
    r = sx.attempt(D.DevicePathFactory.from_binary, b)
    sx.check(r.ok == good, "a path is accepted exactly when its node lengths tile the data")
    if not r.ok:
        sx.cover("walk-bad")
        return
    sx.check(len(r.value) == len(offs), "one node per encoded node")
    for x, o, ln in zip(r.value, offs, lens):
        sx.check(x.dev_length == ln, "node lengths")
        sx.check(sx.eq(x.dev_data, b[o + 4 : o + ln]), "node data")
    sx.cover("walk-ok")


def badlen(sx, where):
    """a bad length is a ValueError wherever it is, and whatever the node kind"""
    ty, sub, ln, extra = sx.int("ty", 1, 5), sx.u8("sub"), sx.u16("ln"), sx.bytes("extra", 6)
    sx.assume(sx.or_(ln < 4, ln > 10 + (4 if where == "first" else 0)))
    buf = sx.cat(sx.le(ty, 1), sx.le(sub, 1), sx.le(ln, 2), extra)
    buf = sx.cat(buf, END) if where == "first" else sx.cat(node(sx, 1, 1, b"\1\2"), buf)
    r = sx.attempt(D.DevicePathFactory.from_binary, buf)
    sx.check(r.raised(ValueError), "a node shorter than its header or longer than the data is refused")
    sx.cover("sub")


def short(sx, kind):
    """a node too short for its kind is refused"""
    ty, sub, size = kind
    n = sx.choice("n", size)
    b = sx.bytes("b", n)
    r = sx.attempt(D.DevicePathFactory.from_binary, sx.cat(node(sx, ty, sub, b), END))
    sx.check(not r.ok, "a node too short for its kind is refused, not filled from its neighbour")


for k in ("pci", "pccard", "acpi", "usb", "mac", "ipv4", "sata", "disk", "fv", "ffs", "range"):
    suite.add(Case("fields-" + k, fields, "all field values of a %s node" % k, kind=k))
suite.add(Case("ipv4-static", ipv4_static, "all field values of an IPv4 node"))
suite.add(Case("nvme", nvme, "all field values of an NVMe namespace node"))
for k in (0, 3):
    suite.add(Case("nvme-kept-%d" % k, nvme_kept, "any NVMe namespace node of %d bytes" % (17 + k if k else 12), k=k))
suite.add(Case("ipv4-text", ipv4_text, "two symbolic octets"))
for n, z in ((0, 0), (0, 1), (1, 1), (3, 0), (3, 1), (4, 2)):
    suite.add(Case("file-%d-%d" % (n, z), file, "any %d characters of the basic plane except NUL" % n, n=n, nul=z))
for n in (0, 5):
    suite.add(Case("raw-%d" % n, raw, "every node kind without a decoder, any %d data bytes" % n, n=n))
    suite.add(Case("unknown-%d" % n, unknown, "every type and subtype without a decoder, any %d data bytes" % n, n=n))
for n in (0xF9, 0x7FFC, 0xFFFB):
    suite.add(Case("long-%X" % n, long, "nodes without a decoder of %d data bytes, the first and last 3 arbitrary" % n, n=n))
suite.add(Case("raw-300", raw, "three node kinds without a decoder, any 300 data bytes", n=300))
for n in (0, 3, 4, 8, 11, 13):
    suite.add(Case("walk-%d" % n, walk, "any node lengths in %d bytes" % n, n=n))
suite.add(Case("walk-24", walk, "any node lengths in 24 bytes", n=24), tier="thorough")
for w in ("first", "last"):
    suite.add(Case("badlen-" + w, badlen, "any type 1-5, subtype and bad length", where=w))
for k in ((1, 1, 2), (1, 2, 1), (2, 1, 8), (3, 5, 2), (4, 1, 38), (4, 6, 16), (4, 7, 16), (4, 8, 20)):
    suite.add(Case("short-%d-%d" % k[:2], short, "every shorter length, any data", kind=k))
