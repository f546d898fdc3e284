"""P01 variable records: layout, sizes and load/serialize identity."""

import io
import uuid

import edk2toollib.uefi.edk2.variable_format as VF
from sx.case import Case, Suite

suite = Suite()
COVER = ["roundtrip", "rejects", "edited", "intact", "damaged"]

HDR = {"plain": 32, "auth": 60}


def make(kind):
    return VF.VariableHeader() if kind == "plain" else VF.AuthenticatedVariableHeader()


def utf16_units(sx, name, n, maxcp):
    """a name of n characters and its UTF-16LE encoding, built independently"""
    s = sx.text(name, n, maxcp=maxcp, mincp=1)
    out = b""
    for ch in s:
        c = ord(ch)
        if c < 0x10000:
            out = sx.cat(out, sx.le(c, 2))
        else:
            d = c - 0x10000
            out = sx.cat(out, sx.le(0xD800 + (d >> 10), 2), sx.le(0xDC00 + (d & 0x3FF), 2))
    return s, out


def layout(sx, kind, state, attrs, guid_le, name16, data, mono=None, ts=None, pk=None):
    ns = len(name16) + 2
    head = sx.cat(sx.le(0x55AA, 2), sx.le(state, 1), b"\x00", sx.le(attrs, 4))
    if kind == "auth":
        head = sx.cat(head, sx.le(mono, 8), ts, sx.le(pk, 4))
    return sx.cat(head, sx.le(ns, 4), sx.le(len(data), 4), guid_le, name16, b"\x00\x00", data)


def roundtrip(sx, kind, nlen, dlen, maxcp, via):
    state, attrs, g = sx.u8("state"), sx.u32("attrs"), sx.bytes("guid", 16)
    name, name16 = utf16_units(sx, "name", nlen, maxcp)
    data = sx.bytes("data", dlen)
    mono = ts = pk = None
    if kind == "auth":
        mono, ts, pk = sx.u64("mono"), sx.bytes("ts", 16), sx.u32("pk")
    rec = layout(sx, kind, state, attrs, g, name16, data, mono, ts, pk)
    total = HDR[kind] + len(name16) + 2 + dlen
    tail = b"\xff" * ((-total) % 4)
    v = make(kind)
    if via == "bytes":
        v.load_from_bytes(rec)
    else:
        f = sx.stream(sx.cat(b"\x11\x22\x33", rec, b"\x44\x55"))
        f.seek(3)
        v.load_from_file(f)
        sx.check(f.tell() == 3, "loading a record leaves the stream where it was")
    sx.check(sx.eq(v.Name, name), "decoded name equals the stored name")
    sx.check(sx.eq(v.Data, data), "decoded data equals the stored data")
    sx.check(sx.and_(v.State == state, v.Attributes == attrs), "state and attributes decode")
    sx.check(v.VendorGuid == uuid.UUID(bytes_le=g), "vendor GUID decodes")
    if kind == "auth":
        sx.check(sx.and_(v.MonotonicCount == mono, sx.eq(v.TimeStamp, ts), v.PubKeyIndex == pk), "authentication fields decode")
    sx.check(sx.eq(v.serialize(), rec), "serialize reproduces the record")
    sx.check(sx.eq(v.serialize(True), sx.cat(rec, tail)), "padded serialize is the record plus 0xff up to 4-byte alignment")
    sx.check(v.get_buffer_data_size() == total, "data size counts header, name and data")
    sx.check(v.get_buffer_size() == total + len(tail), "buffer size includes the padding")
    sx.check(v.get_buffer_padding_size() == len(tail), "padding size")
    # rebuilt from scratch through the setters
    w = make(kind)
    w.State, w.Attributes, w.VendorGuid = state, attrs, uuid.UUID(bytes_le=g)
    if kind == "auth":
        w.MonotonicCount, w.TimeStamp, w.PubKeyIndex = mono, ts, pk
    w.set_name(name)
    w.set_data(data)
    sx.check(sx.eq(w.serialize(), rec), "a record built through the setters has the same bytes")
    sx.cover("roundtrip")


def rejects(sx, kind, extra, via):
    """any buffer whose start id is wrong is refused; the stream is put back"""
    buf = sx.bytes("buf", HDR[kind] + extra)
    sid = sx.uint(buf[0:2])
    sx.assume(sid != 0x55AA)
    v = make(kind)
    if via == "bytes":
        r = sx.attempt(v.load_from_bytes, buf)
    else:
        f = sx.stream(buf)
        r = sx.attempt(v.load_from_file, f)
        sx.check(f.tell() == 0, "stream restored after a refused record")
    sx.check(r.raised(EOFError), "a record without the start marker is refused as end of variables")
    sx.cover("rejects")


def edited(sx, kind, via, n1, n2, d1, d2):
    """a record that is loaded into a used object, then edited, is the record of its last content"""
    v = make(kind)
    first, last = None, None
    for i, (n, d) in enumerate(((n1, d1), (n2, d2))):
        state, attrs, g = sx.u8("state%d" % i), sx.u32("attrs%d" % i), sx.bytes("guid%d" % i, 16)
        name, name16 = utf16_units(sx, "name%d" % i, min(n, 2), 0x10FFFF if i else 0xD7FF)
        if n > 2:
            name, name16 = sx.scat("Long" * (n // 4), name), sx.cat("Long".encode("utf-16-le") * (n // 4), name16)
        data = sx.cat(sx.bytes("data%d" % i, min(d, 3)), bytes(range(256)) * (d // 256 + 1))[:d]
        x = {}
        if kind == "auth":
            x = dict(mono=sx.u64("mono%d" % i), ts=sx.bytes("ts%d" % i, 16), pk=sx.u32("pk%d" % i))
        rec = layout(sx, kind, state, attrs, g, name16, data, **x)
        if via == "bytes":
            v.load_from_bytes(rec)
        else:
            f = sx.stream(rec)
            v.load_from_file(f)
            sx.check(f.tell() == 0, "loading a record leaves the stream where it was")
        sx.check(sx.eq(v.serialize(), rec), "serialize reproduces the record loaded last")
        sx.check(sx.eq(v.serialize(True), sx.cat(rec, b"\xff" * (-len(rec) % 4))), "padded serialize is the record plus 0xff up to 4-byte alignment")
        sx.check(sx.and_(sx.eq(v.Name, name), sx.eq(v.Data, data), v.NameSize == len(name16) + 2, v.DataSize == len(data)), "name, data and their sizes are those loaded last")
        last = (state, attrs, g, name, name16, data, x)
        first = first or last
    other = make(kind)
    state, attrs, g, name, name16, data, x = last
    v.set_data(first[5])
    rec = layout(sx, kind, state, attrs, g, name16, first[5], **x)
    sx.check(sx.and_(sx.eq(v.serialize(), rec), v.get_buffer_data_size() == len(rec), v.get_buffer_size() == len(rec) + (-len(rec) % 4)), "replaced data is in the record and its sizes")
    v.set_name(first[3])
    rec = layout(sx, kind, state, attrs, g, first[4], first[5], **x)
    sx.check(sx.and_(sx.eq(v.serialize(), rec), sx.eq(v.serialize(), rec), v.get_buffer_data_size() == len(rec)), "a replaced name is in the record and its sizes")
    v.set_data(data)
    v.set_name(name)
    rec = layout(sx, kind, state, attrs, g, name16, data, **x)
    sx.check(sx.and_(sx.eq(v.serialize(), rec), v.get_buffer_data_size() == len(rec)), "name and data put back are in the record and its sizes")
    sx.check(sx.and_(other.NameSize == 0, other.DataSize == 0), "a new record is empty")
    sx.cover("edited")


def damaged(sx, kind, via, nlen, dlen, n):
    """a buffer of n bytes is either exactly what its sizes say, or refused"""
    rec = layout(sx, kind, sx.u8("state"), sx.u32("attrs"), sx.bytes("guid", 16), b"\0" * nlen, b"", *((sx.u64("mono"), sx.bytes("ts", 16), sx.u32("pk")) if kind == "auth" else ()))
    ns, ds = sx.int("namesize", 0, n + 3), sx.u32("datasize")
    h = HDR[kind]
    rest = sx.bytes("rest", n)
    buf = sx.cat(rec[: h - 24], sx.le(ns, 4), sx.le(ds, 4), rec[h - 16 : h], rest)
    v = make(kind)
    if via == "bytes":
        r = sx.attempt(v.load_from_bytes, buf)
    else:
        f = sx.stream(buf)
        r = sx.attempt(v.load_from_file, f)
    if r.ok:
        sx.check(sx.and_(ns >= 2, ns % 2 == 0, ns + ds <= n), "a record that does not have the bytes its sizes say is refused")
        sx.check(sx.eq(v.serialize(), buf[: h + ns + ds]), "an accepted record is written as it was")
        sx.cover("intact")
    else:
        good = sx.and_(ns >= 2, ns % 2 == 0, ns + ds <= n)
        if good:
            t = sx.and_(rest[ns - 2] == 0, rest[ns - 1] == 0)
            hi = sx.or_(False, *[sx.and_(rest[i + 1] >= 0xD8, rest[i + 1] <= 0xDF) for i in range(0, ns, 2)])
            sx.check(sx.or_(sx.not_(t), hi), "a record that has the bytes its sizes say is accepted")
        sx.cover("damaged")


def store_header(sx):
    buf = sx.bytes("buf", 28)
    f = sx.stream(sx.cat(b"\x00" * 5, buf))
    f.seek(5)
    r = sx.attempt(VF.VariableStoreHeader().load_from_file, f)
    sx.check(f.tell() == 5, "stream position restored")
    g = uuid.UUID(bytes_le=buf[0:16])
    plain = g == uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d")
    auth = g == uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792")
    sx.check(sx.or_(plain, auth) == r.ok, "exactly the two known store signatures are accepted")
    if r.ok:
        h = r.value
        sx.check(h.Size == sx.uint(buf[16:20]), "store size decodes")
        sx.check(sx.and_(h.Format == buf[20], h.State == buf[21]), "store format and state decode")
        sx.check((h.Type == "AuthVar") == auth, "store type follows the signature")
        sx.check(sx.eq(h.serialize(), buf), "store header serializes to the same bytes")


for kind in ("plain", "auth"):
    for via in ("bytes", "file"):
        for nlen, dlen in ((0, 0), (1, 1), (1, 2), (2, 3), (3, 0)):
            suite.add(
                Case(
                    "roundtrip-%s-%s-n%d-d%d" % (kind, via, nlen, dlen), roundtrip,
                    "all header fields; every BMP/supplementary name of %d characters (no NUL), every data of %d bytes" % (nlen, dlen),
                    kind=kind, nlen=nlen, dlen=dlen, maxcp=0x10FFFF, via=via, weight=nlen + 1,
                )
            )
        for n in (0, 5):
            suite.add(Case("rejects-%s-%s-%d" % (kind, via, n), rejects, "any buffer of header+%d bytes" % n, kind=kind, extra=n, via=via))
for kind in ("plain", "auth"):
    for via in ("bytes", "file"):
        for i, (n1, n2, d1, d2) in enumerate(((2, 1, 1, 3), (1, 0, 2, 0), (130, 1, 300, 1), (1, 258, 0, 66000))):
            suite.add(Case("edited-%s-%s-%d" % (kind, via, i), edited, "all header fields; names of %d then %d characters, data of %d then %d bytes, the first 2 characters and 3 bytes free" % (n1, n2, d1, d2), kind=kind, via=via, n1=n1, n2=n2, d1=d1, d2=d2))
        for n in (2, 5):
            suite.add(Case("damaged-%s-%s-%d" % (kind, via, n), damaged, "any header with any sizes and %d bytes" % n, kind=kind, via=via, nlen=2, dlen=0, n=n))
suite.add(Case("store-header", store_header, "any 28-byte header"))
