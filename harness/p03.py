"""P03 firmware volume, firmware file and fault-tolerant-write headers: field layout, byte identity, stream position."""

import uuid

from edk2toollib.uefi.edk2 import ftw_working_block_format as FTW
from edk2toollib.uefi.pi_firmware_file import EfiFirmwareFileSystemHeader
from edk2toollib.uefi.pi_firmware_volume import EfiFirmwareVolumeExtHeader, EfiFirmwareVolumeHeader
from sx.case import Case, Suite

suite = Suite()
COVER = ["fv-ok", "fv-bad", "ftw-ok", "ftw-bad"]

U = "uint"
# (attribute, offset, size, kind)
FV = [
    ("ZeroVector", 0, 16, "bytes"), ("FileSystemGuid", 16, 16, "guid"), ("FvLength", 32, 8, U), ("Signature", 40, 4, "bytes"),
    ("Attributes", 44, 4, U), ("HeaderLength", 48, 2, U), ("Checksum", 50, 2, U), ("ExtHeaderOffset", 52, 2, U),
    ("Reserved", 54, 1, U), ("Revision", 55, 1, U), ("Blockmap0", 56, 8, U), ("Blockmap1", 64, 8, U),
]
FVEXT = [("FileSystemGuid", 0, 16, "bytes"), ("ExtHeaderSize", 16, 4, U)]
FFS = [
    ("FileSystemGuid", 0, 16, "guid"), ("Checksum", 16, 2, U), ("Type", 18, 1, U), ("Attributes", 19, 1, U),
    ("Size0", 20, 1, U), ("Size1", 21, 1, U), ("Size2", 22, 1, U), ("State", 23, 1, U),
]
FTWB = [("Signature", 0, 16, "guid"), ("Crc", 16, 4, U), ("WorkingBlockValidFields", 20, 1, U), ("WriteQueueSize", 24, 8, U)]
FTWH = [("StatusBits", 0, 1, U), ("CallerId", 4, 16, "bytes"), ("NumberOfWrites", 24, 8, U), ("PrivateDataSize", 32, 8, U)]
FTWR = [("StatusBits", 0, 1, U), ("Lba", 8, 8, U), ("Offset", 16, 8, U), ("Length", 24, 8, U), ("RelativeOffset", 32, 8, "int")]

TYPES = {
    "fv": (EfiFirmwareVolumeHeader, 72, FV, (40, b"_FVH")),
    "fvext": (EfiFirmwareVolumeExtHeader, 20, FVEXT, None),
    "ffs": (EfiFirmwareFileSystemHeader, 24, FFS, None),
    "ftwblock": (FTW.EfiFtwWorkingBlockHeader, 32, FTWB, (0, uuid.UUID("9e58292b-7c68-497d-a0ce-6500fd9f1b95").bytes_le)),
    "ftwheader": (FTW.EfiFtwWriteHeader, 40, FTWH, None),
    "ftwrecord": (FTW.EfiFtwWriteRecord, 40, FTWR, None),
}


def fields(sx, o, buf, table):
    ok = []
    for name, off, n, kind in table:
        raw, v = buf[off : off + n], getattr(o, name)
        if kind == "bytes":
            ok.append(sx.eq(v, raw))
        elif kind == "guid":
            ok.append(v == uuid.UUID(bytes_le=raw))
        elif kind == "int":
            u = sx.uint(raw)
            ok.append(v == sx.ite(u >= 1 << (8 * n - 1), u - (1 << (8 * n)), u))
        else:
            ok.append(v == sx.uint(raw))
    return sx.and_(*ok)


def load(sx, what, pre, post):
    cls, n, table, magic = TYPES[what]
    buf = sx.bytes("buf", n)
    f = sx.stream(sx.cat(sx.bytes("pre", pre), buf, sx.bytes("post", post)))
    f.seek(pre)
    good = True if magic is None else sx.eq(buf[magic[0] : magic[0] + len(magic[1])], magic[1])
    o = cls()
    r = sx.attempt(o.load_from_file, f)
    sx.check(good == r.ok, "exactly the headers with the right signature are accepted")
    sx.check(f.tell() == pre, "the stream is left at the start of the header")
    if not r.ok:
        sx.cover(what + "-bad" if what == "fv" else "ftw-bad")
        return
    sx.cover("fv-ok" if what == "fv" else "ftw-ok")
    sx.check(r.value is o, "load returns the object")
    sx.check(fields(sx, o, buf, table), "every field is decoded from its place in the structure")
    if what == "ffs":
        sx.check(o.get_size() == sx.uint(buf[20:23]), "the file size is the 24-bit size field")
    if what != "fvext":
        sx.check(sx.eq(o.serialize(), buf), "serialize reproduces the bytes that were loaded")
    # loading something else into the same object forgets the first
    buf2 = sx.bytes("buf2", n)
    if magic is not None:
        sx.assume(sx.eq(buf2[magic[0] : magic[0] + len(magic[1])], magic[1]))
    o.load_from_file(sx.stream(buf2))
    sx.check(fields(sx, o, buf2, table), "reloading replaces every field")
    if what != "fvext":
        sx.check(sx.eq(o.serialize(), buf2), "serialize after a reload gives the new bytes")


def short(sx, what, n):
    cls, size, table, magic = TYPES[what]
    f = sx.stream(sx.bytes("buf", n))
    sx.check(not sx.attempt(cls().load_from_file, f).ok, "a truncated header is refused")
    sx.check(f.tell() == 0, "the stream is left at the start")


def edited(sx, what):
    cls, n, table, magic = TYPES[what]
    buf = sx.bytes("buf", n)
    if magic is not None:
        sx.assume(sx.eq(buf[magic[0] : magic[0] + len(magic[1])], magic[1]))
    for name, off, k, kind in table:
        o = cls()
        o.load_from_file(sx.stream(buf))
        new = sx.bytes("new_" + name, k)
        if kind == "bytes":
            v = new
        elif kind == "guid":
            v = uuid.UUID(bytes_le=new)
        else:
            v = sx.uint(new)
            if kind == "int":
                v = sx.ite(v >= 1 << (8 * k - 1), v - (1 << (8 * k)), v)
        setattr(o, name, v)
        sx.check(sx.eq(o.serialize(), sx.cat(buf[:off], new, buf[off + k :])), "an edited field appears at its place and nothing else changes")


for w in TYPES:
    if w != "fvext":
        suite.add(Case("edited-" + w, edited, "any header bytes, any new value of any one field", what=w))

for w in TYPES:
    for pre, post in ((0, 0), (7, 3)):
        suite.add(Case("load-%s-%d" % (w, pre), load, "any header bytes, %d bytes before and %d after" % (pre, post), what=w, pre=pre, post=post))
    n = TYPES[w][1]
    for k in (0, 1, n // 2, n - 1):
        suite.add(Case("short-%s-%d" % (w, k), short, "any %d-byte prefix" % k, what=w, n=k))
