"""P04 UEFI capsule and FMP capsule: encode layout, decode identity, refusal of inconsistent sizes."""

import uuid

from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass
from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass
from sx.case import Case, Suite

suite = Suite()
COVER = ["capsule-decoded", "capsule-refused", "image-decoded", "image-refused", "items-decoded", "items-refused", "built"]

FMP = uuid.UUID("6DCBD5ED-E82D-4C44-BDA1-7194199AD92A")
PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")


def capsule_decode(sx, n):
    """arbitrary bytes as an (other GUID) capsule"""
    buf = sx.bytes("buf", n)
    c = UefiCapsuleHeaderClass()
    if n < 32:
        sx.check(not sx.attempt(c.Decode, buf).ok, "a truncated capsule header is refused")
        sx.cover("capsule-refused")
        return
    sx.assume(uuid.UUID(bytes_le=buf[0:16]) != FMP)
    hs, flags, size = sx.uint(buf[16:20]), sx.uint(buf[20:24]), sx.uint(buf[24:28])
    r = sx.attempt(c.Decode, buf)
    sx.check(r.ok == sx.and_(hs >= 32, size == n, hs <= n), "a capsule is accepted exactly when its sizes agree with the buffer")
    if not r.ok:
        sx.cover("capsule-refused")
        return
    sx.cover("capsule-decoded")
    sx.check(c.CapsuleGuid == uuid.UUID(bytes_le=buf[0:16]), "capsule GUID decodes")
    sx.check(sx.and_(c.HeaderSize == hs, c.CapsuleImageSize == n), "capsule sizes decode")
    sx.check(c.OemFlags == (flags & 0xFFFF), "OEM flags are the low 16 flag bits")
    sx.check(
        sx.and_(c.PersistAcrossReset == ((flags & 0x10000) != 0), c.PopulateSystemTable == ((flags & 0x20000) != 0),
                c.InitiateReset == ((flags & 0x40000) != 0)),
        "capsule flags decode",
    )
    hs = int(hs)
    sx.check(sx.and_(sx.eq(r.value, buf[hs:]), sx.eq(c.Payload, buf[hs:])), "the payload is everything after the header")
    # only the flag bits the class knows, and a zero reserved word, can survive
    sx.assume(sx.and_((flags & 0xFFF80000) == 0, sx.uint(buf[28:32]) == 0))
    sx.check(sx.eq(c.Encode(), buf), "a decoded capsule encodes to the same bytes")


def capsule_encode(sx, plen, hs):
    c = UefiCapsuleHeaderClass()
    g = sx.bytes("guid", 16)
    oem, p, s, i = sx.u16("oem"), sx.bool("persist"), sx.bool("populate"), sx.bool("reset")
    pay = sx.bytes("payload", plen)
    c.CapsuleGuid, c.OemFlags = uuid.UUID(bytes_le=g), oem
    c.PersistAcrossReset, c.PopulateSystemTable, c.InitiateReset = p, s, i
    c.HeaderSize, c.Payload = hs, pay
    out = c.Encode()
    flags = oem + sx.ite(p, 0x10000, 0) + sx.ite(s, 0x20000, 0) + sx.ite(i, 0x40000, 0)
    head = sx.cat(g, sx.le(hs, 4), sx.le(flags, 4), sx.le(hs + plen, 4), bytes(4), bytes(hs - 32))
    sx.check(sx.eq(out, sx.cat(head, pay)), "encode writes the header, its extension and the payload")
    sx.check(c.CapsuleImageSize == hs + plen, "the capsule image size counts header and payload")
    sx.check(sx.eq(c.Encode(), out), "encoding twice gives the same bytes")
    sx.assume(uuid.UUID(bytes_le=g) != FMP)
    d = UefiCapsuleHeaderClass()
    d.Decode(out)
    sx.check(
        sx.and_(d.CapsuleGuid == c.CapsuleGuid, d.OemFlags == oem, d.PersistAcrossReset == p, d.PopulateSystemTable == s,
                d.InitiateReset == i, d.HeaderSize == hs, sx.eq(d.Payload, pay)),
        "decode inverts encode",
    )
    sx.cover("built")


def image_bytes(sx, pre, paylen, vendlen, auth):
    """an FMP image header with its payload, laid out by hand; (bytes, parts)"""
    ver, tid, idx, hw = sx.u32(pre + "ver"), sx.bytes(pre + "tid", 16), sx.u8(pre + "idx"), sx.u64(pre + "hw")
    vend = sx.bytes(pre + "vend", vendlen)
    if auth:
        mono, cert = sx.u64(pre + "mono"), sx.bytes(pre + "cert", paylen)
        fw = sx.bytes(pre + "fw", paylen)
        pay = sx.cat(sx.le(mono, 8), sx.le(24 + paylen, 4), sx.le(0x200, 2), sx.le(0x0EF1, 2), PKCS7.bytes_le, cert,
                     sx.le(0x3153534D, 4), sx.le(16, 4), sx.bytes(pre + "fwver", 4), sx.bytes(pre + "lsv", 4), fw)
    else:
        pay = b""
    out = sx.cat(sx.le(ver, 4), tid, sx.le(idx, 1), bytes(3), sx.le(len(pay), 4), sx.le(vendlen, 4), sx.le(hw, 8), pay, vend)
    return out, dict(ver=ver, tid=tid, idx=idx, hw=hw, vend=vend, pay=pay)


def same_image(sx, h, d):
    return sx.and_(h.Version == d["ver"], h.UpdateImageTypeId == uuid.UUID(bytes_le=d["tid"]), h.UpdateImageIndex == d["idx"],
                   h.UpdateHardwareInstance == d["hw"], sx.eq(h.Payload, d["pay"]), sx.eq(h.VendorCodeBytes, d["vend"]),
                   h.UpdateImageSize == len(d["pay"]), h.UpdateVendorCodeSize == len(d["vend"]))


def image(sx, paylen, vendlen, auth):
    buf, d = image_bytes(sx, "", paylen, vendlen, auth)
    h = FmpCapsuleImageHeaderClass()
    r = sx.attempt(h.Decode, buf)
    sx.check(r.ok == sx.and_(d["ver"] >= 2, d["idx"] >= 1), "an image header is accepted exactly when version and index are valid")
    if not r.ok:
        sx.cover("image-refused")
        return
    sx.cover("image-decoded")
    sx.check(same_image(sx, h, d), "image header fields, payload and vendor code decode")
    sx.check(sx.eq(h.Encode(), buf), "a decoded image encodes to the same bytes")
    w = FmpCapsuleImageHeaderClass()
    w.Version, w.UpdateImageTypeId, w.UpdateImageIndex, w.UpdateHardwareInstance = d["ver"], uuid.UUID(bytes_le=d["tid"]), d["idx"], d["hw"]
    w.Payload, w.VendorCodeBytes = d["pay"], d["vend"]
    sx.check(sx.eq(w.Encode(), buf), "an image built from its fields has the same bytes")


def image_sizes(sx, n):
    """the two size fields must account for every byte that follows"""
    buf = sx.bytes("buf", 40 + n)
    ver, idx = sx.uint(buf[0:4]), sx.uint(buf[20:21])
    isz, vsz = sx.uint(buf[24:28]), sx.uint(buf[28:32])
    sx.assume(isz == 0)
    h = FmpCapsuleImageHeaderClass()
    r = sx.attempt(h.Decode, buf)
    sx.check(r.ok == sx.and_(ver >= 2, idx >= 1, vsz == n), "image and vendor sizes must add up to the bytes present")
    if r.ok:
        sx.check(sx.and_(sx.eq(h.VendorCodeBytes, buf[40:]), sx.eq(r.value, buf[40:])), "vendor code follows the image")
    for k in (0, 39):
        sx.check(not sx.attempt(FmpCapsuleImageHeaderClass().Decode, buf[:k]).ok, "a truncated image header is refused")


def image_bad_total(sx):
    buf = sx.bytes("buf", 44)
    sx.assume(sx.and_(sx.uint(buf[0:4]) == 2, sx.uint(buf[20:21]) == 1))
    isz, vsz = sx.uint(buf[24:28]), sx.uint(buf[28:32])
    sx.assume(isz + vsz != 4)
    sx.check(not sx.attempt(FmpCapsuleImageHeaderClass().Decode, buf).ok, "sizes that do not add up are refused")


def build(sx, drivers, images, plen, wrap):
    """drivers and images appended one by one, encoded, decoded"""
    c = FmpCapsuleHeaderClass()
    c.Version = sx.u32("version")
    ds, ims = [], []
    for k in range(drivers):
        b = sx.bytes("drv%d" % k, plen + k + 1)
        c.AddEmbeddedDriver(b)
        ds.append(b)
    for k in range(images):
        b, d = image_bytes(sx, "im%d" % k, plen + k, k, k % 2 == 0)
        sx.assume(sx.and_(d["ver"] >= 2, d["idx"] >= 1))
        h = FmpCapsuleImageHeaderClass()
        h.Version, h.UpdateImageTypeId, h.UpdateImageIndex = d["ver"], uuid.UUID(bytes_le=d["tid"]), d["idx"]
        h.UpdateHardwareInstance, h.Payload, h.VendorCodeBytes = d["hw"], d["pay"], d["vend"]
        c.AddFmpCapsuleImageHeader(h)
        ims.append((b, d))
    sx.check(sx.and_(c.EmbeddedDriverCount == drivers, c.PayloadItemCount == images), "the item counts follow the added items")
    off = 8 + 8 * (drivers + images)
    exp = sx.cat(sx.le(c.Version, 4), sx.le(drivers, 2), sx.le(images, 2))
    body = b""
    for b in ds + [x for x, _ in ims]:
        exp = sx.cat(exp, sx.le(off + len(body), 8))
        body = sx.cat(body, b)
    exp = sx.cat(exp, body)
    sx.check(sx.eq(c.Encode(), exp), "encode writes the counts, every item offset and the items in order")
    sx.cover("built")
    if wrap:
        u = UefiCapsuleHeaderClass()
        u.FmpCapsuleHeader = c
        out = u.Encode()
        sx.check(sx.eq(out, sx.cat(FMP.bytes_le, sx.le(32, 4), bytes(4), sx.le(32 + len(exp), 4), bytes(4), exp)),
                 "an FMP capsule is the UEFI header around the FMP header")
        v = UefiCapsuleHeaderClass()
        r = sx.attempt(v.Decode, out)
        sx.check(r.ok == (c.Version >= 1), "an FMP capsule decodes when its version is valid")
        if not r.ok:
            sx.cover("items-refused")
            return
        d = v.FmpCapsuleHeader
        sx.check(sx.eq(v.Encode(), out), "re-encoding a decoded FMP capsule gives the same bytes")
    else:
        d = FmpCapsuleHeaderClass()
        r = sx.attempt(d.Decode, exp)
        sx.check(r.ok == (c.Version >= 1), "an FMP header decodes when its version is valid")
        if not r.ok:
            sx.cover("items-refused")
            return
        sx.check(sx.eq(d.Encode(), exp), "re-encoding a decoded FMP header gives the same bytes")
    sx.check(sx.and_(d.EmbeddedDriverCount == drivers, d.PayloadItemCount == images, d.Version == c.Version), "counts and version decode")
    for k, b in enumerate(ds):
        sx.check(sx.eq(d.GetEmbeddedDriver(k), b), "each embedded driver is recovered")
    for k, (b, m) in enumerate(ims):
        sx.check(same_image(sx, d.GetFmpCapsuleImageHeader(k), m), "each image is recovered")
    sx.cover("items-decoded")


def offsets(sx, n, drivers):
    """arbitrary offset list over an n byte buffer: accepted items are exactly the byte ranges between offsets"""
    buf = sx.bytes("buf", n)
    sx.assume(sx.and_(sx.uint(buf[4:6]) == drivers, sx.uint(buf[6:8]) == 0))
    c = FmpCapsuleHeaderClass()
    r = sx.attempt(c.Decode, buf)
    need = 8 + 8 * drivers
    offs = [sx.uint(buf[8 + 8 * k : 16 + 8 * k]) for k in range(drivers)] if n >= need else []
    good = sx.and_(sx.uint(buf[0:4]) >= 1, n >= need, *[o < n for o in offs])
    ordered = sx.and_(*[a <= b for a, b in zip(offs, offs[1:])], *[o >= need for o in offs[:1]])
    sx.check(sx.implies(r.ok, sx.and_(good, ordered)), "an item outside the capsule, inside its header or out of order, a short offset list or version 0 is refused")
    sx.check(sx.implies(sx.and_(good, ordered), r.ok), "an ordered offset list inside the capsule is accepted")
    if not r.ok:
        sx.cover("items-refused")
        return
    ends = [int(o) for o in offs[1:]] + [n]
    for k in range(drivers):
        sx.check(sx.eq(c.GetEmbeddedDriver(k), buf[int(offs[k]) : ends[k]]), "a driver spans from its offset to the next one")
    if drivers and int(offs[0]) == need:
        sx.check(sx.eq(c.Encode(), buf), "a contiguous capsule encodes to the same bytes")
    sx.cover("items-decoded")


def redecode(sx):
    """decoding into a used object leaves nothing of the first capsule"""
    c = FmpCapsuleHeaderClass()
    c.AddEmbeddedDriver(sx.bytes("old", 3))
    b = sx.bytes("drv", 2)
    exp = sx.cat(sx.le(1, 4), sx.le(1, 2), sx.le(0, 2), sx.le(16, 8), b)
    c.Decode(exp)
    sx.check(sx.eq(c.Encode(), exp), "decoding replaces earlier items")
    sx.check(sx.and_(c.EmbeddedDriverCount == 1, c.PayloadItemCount == 0), "decoding replaces the counts")
    # capsules: with and without a nested FMP header, with and without an extended header
    caps = [
        sx.cat(FMP.bytes_le, sx.le(32, 4), sx.le(0x70000 + sx.u16("oem"), 4), sx.le(32 + len(exp), 4), bytes(4), exp),
        sx.cat(sx.bytes("guid", 16), sx.le(40, 4), bytes(4), sx.le(43, 4), bytes(12), sx.bytes("pay", 3)),
        sx.cat(FMP.bytes_le, sx.le(32, 4), bytes(4), sx.le(32, 4), bytes(4)),
    ]
    sx.assume(uuid.UUID(bytes_le=caps[1][0:16]) != FMP)
    u = UefiCapsuleHeaderClass()
    for k in (sx.int("first", 0, 2), sx.int("second", 0, 2), sx.int("third", 0, 2)):
        cap = caps[int(k)]
        u.Decode(cap)
        sx.check(sx.eq(u.Encode(), cap), "a capsule decoded into a used object encodes to its own bytes")
        sx.check((u.FmpCapsuleHeader is not None) == (int(k) == 0), "a capsule has a nested header if its payload is one")
    # images: with and without authentication
    i = FmpCapsuleImageHeaderClass()
    bufs = [image_bytes(sx, "a", 2, 1, True), image_bytes(sx, "b", 0, 3, False)]
    for _, d in bufs:
        sx.assume(sx.and_(d["ver"] >= 2, d["idx"] >= 1))
    for k in (sx.int("i1", 0, 1), sx.int("i2", 0, 1), sx.int("i3", 0, 1)):
        b, d = bufs[int(k)]
        i.Decode(b)
        sx.check(sx.and_(same_image(sx, i, d), (i.FmpAuthHeader is not None) == (int(k) == 0)), "an image decoded into a used object is that image")
        sx.check(sx.eq(i.Encode(), b), "an image decoded into a used object encodes to its own bytes")


for n in (0, 31, 32, 33, 36):
    suite.add(Case("capsule-decode-%d" % n, capsule_decode, "any %d-byte buffer with a non-FMP GUID" % n, n=n))
for plen, hs in ((0, 32), (1, 32), (5, 32), (3, 36), (300, 32), (2, 64)):
    suite.add(Case("capsule-encode-%d-%d" % (plen, hs), capsule_encode, "any fields, any %d-byte payload, header size %d" % (plen, hs), plen=plen, hs=hs))
for p, v, a in ((0, 0, False), (0, 3, False), (0, 0, True), (1, 2, True), (5, 300, True), (256, 1, True)):
    suite.add(Case("image-%d-%d-%s" % (p, v, a), image, "any fields, payload parts of %d bytes, vendor code of %d" % (p, v), paylen=p, vendlen=v, auth=a))
for n in (0, 1, 4):
    suite.add(Case("image-sizes-%d" % n, image_sizes, "any header with image size 0 and %d bytes following" % n, n=n))
suite.add(Case("image-bad-total", image_bad_total, "any sizes that do not total 4"))
for d, i, p, w in ((0, 0, 1, False), (1, 0, 0, False), (0, 1, 1, False), (2, 1, 2, False), (1, 2, 0, True), (3, 3, 1, True), (2, 2, 257, True), (0, 9, 1, True), (9, 0, 1, False)):
    suite.add(Case("build-%d-%d-%d-%s" % (d, i, p, w), build, "%d drivers, %d images, any contents with sizes from %d" % (d, i, p), drivers=d, images=i, plen=p, wrap=w))
for n, d in ((8, 0), (8, 1), (15, 1), (16, 1), (20, 1), (28, 2), (24, 2), (36, 3)):
    suite.add(Case("offsets-%d-%d" % (n, d), offsets, "any %d-byte buffer with %d drivers" % (n, d), n=n, drivers=d))
suite.add(Case("redecode", redecode, "any items"))
