"""P20 BMP files: fields, color map, padding and pixels are read from their places and written back as the same bytes."""

import edk2toollib.uefi.bmp_object as M
from sx.case import Case, Suite

suite = Suite()
COVER = ["colormap", "no-colormap", "padding", "limited", "used", "refused", "offset", "new", "pixels", "colors"]
ASSUMPTIONS = [
    "An indexed image whose pixel data follow the headers directly has no color map; the library accepts it.",
    "Image headers longer than 40 bytes are kept as bytes between the header and the pixel data (color map entries, then padding), as the library does."]
ENTRIES = {1: 2, 4: 16, 8: 256}
NAMES = [("Size", 4), ("Rsvd16_1", 2), ("Rsvd16_2", 2), ("ImageOffset", 4), ("HeaderSize", 4), ("PixelWidth", 4), ("PixelHeight", 4), ("Planes", 2), ("BitPerPixel", 2),
         ("CompressionType", 4), ("ImageSize", 4), ("XPixelsPerMeter", 4), ("YPixelsPerMeter", 4), ("NumberOfColors", 4), ("ImportantColors", 4)]


def image(sx, bpp, ncol, pad, pix, hs=40, tag="", size=None, off=None):
    """(field values, bytes, color map bytes, padding bytes, pixel bytes) of a BMP file"""
    f = {n: (sx.u32(tag + n) if w == 4 else sx.u16(tag + n)) for n, w in NAMES if n not in ("Size", "ImageOffset", "HeaderSize", "BitPerPixel", "NumberOfColors")}
    cm = sx.bytes(tag + "cm", 4 * ncol)
    pd = sx.bytes(tag + "pd", pad)
    px = sx.bytes(tag + "px", pix)
    f["HeaderSize"] = hs
    f["ImageOffset"] = 54 + 4 * ncol + pad if off is None else off
    f["Size"] = 54 + 4 * ncol + pad + pix if size is None else size
    f["BitPerPixel"] = bpp
    f["NumberOfColors"] = sx.u32(tag + "noc") if bpp not in ENTRIES else (ncol if ncol != ENTRIES[bpp] else sx.pick(tag + "noc", [0, ncol]))
    sig = sx.bytes(tag + "sig", 2)
    data = sx.cat(sig, *[sx.le(f[n], w) for n, w in NAMES], cm, pd, px)
    return f, sig, data, cm, pd, px


def same(sx, o, f, sig, cm, pd, px):
    sx.check(sx.and_(sx.eq(o.CharB, sig[:1]), sx.eq(o.CharM, sig[1:])), "the signature characters")
    sx.check(sx.and_(*[getattr(o, n) == f[n] for n, _ in NAMES]), "every header field is the value stored for it")
    n = len(cm) // 4
    sx.check(len(o.ColorMapList) == n, "one color for each color map entry")
    for i, c in enumerate(o.ColorMapList):
        sx.check(sx.and_(c.Blue == cm[4 * i], c.Green == cm[4 * i + 1], c.Red == cm[4 * i + 2], c.Reserved == cm[4 * i + 3]), "a color has its stored components")
    sx.check(sx.eq(o.ImageData, px), "the pixel data are the bytes from ImageOffset to the end")
    sx.cover("colormap" if n else "no-colormap")


def load(sx, bpp, ncol, pad, pix, hs=40, pre=0, used=False):
    if used:
        f0, sig0, d0, cm0, pd0, px0 = image(sx, used[0], used[1], used[2], used[3], tag="o_")
    f, sig, data, cm, pd, px = image(sx, bpp, ncol, pad, pix, hs)
    junk = sx.bytes("junk", pre)
    if used:
        o = M.BmpObject(sx.stream(d0))
        o.PopulateFromFileStream(sx.stream(data))
        sx.cover("used")
    else:
        fs = sx.stream(sx.cat(junk, data))
        fs.seek(pre)
        o = M.BmpObject(fs)
        sx.check(fs.tell() == pre + len(data), "the whole file is consumed")
    same(sx, o, f, sig, cm, pd, px)
    out = sx.stream()
    o.Write(out)
    sx.check(sx.eq(out.getvalue(), data), "writing a loaded image gives the same bytes")
    o.Print(True, True)
    if pad:
        sx.cover("padding")
    if ncol and ncol != ENTRIES[bpp]:
        sx.cover("limited")
    if pre:
        sx.cover("offset")
    sx.cover("pixels")


def bad(sx, kind, bpp=24, ncol=0, pad=0, pix=4, hs=40):
    """one inconsistent size"""
    total = 54 + 4 * ncol + pad + pix
    size = sx.u32("size") if kind in ("size", "below") else None
    off = sx.u32("off") if kind == "off" else None
    if kind == "size":
        sx.assume(size != total)
    f, sig, data, cm, pd, px = image(sx, bpp, ncol, pad, pix, hs, size=size, off=off)
    if kind == "below":
        sx.assume(size < f["ImageOffset"])
    if kind == "off":
        sx.assume(sx.and_(sx.or_(off < 54 + 4 * ncol, off > total), off != 54))
    r = sx.attempt(M.BmpObject, sx.stream(data))
    sx.check(not r.ok, "a file whose sizes and offsets do not fit is refused")
    sx.cover("refused")


def cut(sx, bpp, ncol, pad, pix, n, extra, hs=40):
    """too short or too long a file"""
    f, sig, data, cm, pd, px = image(sx, bpp, ncol, pad, pix, hs)
    d = sx.cat(data, sx.bytes("x", extra)) if extra else data[: len(data) - n]
    r = sx.attempt(M.BmpObject, sx.stream(d))
    sx.check(not r.ok, "a file that is cut short or too long is refused")
    sx.cover("refused")


def new(sx, pix):
    px = sx.bytes("px", pix)
    w, h, b = sx.u32("w"), sx.u32("h"), sx.pick("b", [0, 1, 4, 8, 24, 32])
    o = M.BmpObject()
    sx.check(sx.and_(o.PixelWidth == 0, o.PixelHeight == 0, o.Planes == 1, o.HeaderSize == 40, o.ImageOffset == 54, o.Size == 54, o.ColorMapList == []), "a new image is an empty 54-byte file")
    out = sx.stream()
    o.Write(out)
    sx.check(sx.eq(out.getvalue()[:2], b"BM") and len(out.getvalue()) == 54, "a new image is an empty 54-byte file")
    p = M.BmpObject(sx.stream(out.getvalue()))
    sx.check(p.ImageOffset == 54 and p.Planes == 1, "a new image can be read back")
    o.PixelWidth, o.PixelHeight, o.BitPerPixel = w, h, b
    for i in range(ENTRIES.get(b, 0) if b < 8 else 0):
        c = M.BmpColorMap()
        c.Blue = i
        o.ColorMapList.append(c)
    sx.check(o.ExpectedColorMapEntires() == ENTRIES.get(b, 0), "the number of colors of a pixel depth")
    if b == 8:
        return
    o.ImageData = px
    o.ImageOffset = 54 + 4 * len(o.ColorMapList)
    o.Size = o.ImageOffset + pix
    out = sx.stream()
    o.Write(out)
    q = M.BmpObject(sx.stream(out.getvalue()))
    sx.check(sx.and_(q.PixelWidth == w, q.PixelHeight == h, q.BitPerPixel == b, sx.eq(q.ImageData, px), len(q.ColorMapList) == len(o.ColorMapList)), "an image that was built can be read back")
    sx.cover("new")


def color(sx, n):
    b = sx.bytes("b", 4)
    c = M.BmpColorMap(sx.stream(b))
    out = sx.stream()
    c.Write(out)
    c.Print()
    sx.check(sx.eq(out.getvalue(), b), "a color is written as the same bytes")
    r = sx.attempt(M.BmpColorMap, sx.stream(b[:n]))
    sx.check(not r.ok, "half a color is refused")
    sx.cover("colors")


SHAPES = [(24, 0, 0, 0), (24, 0, 0, 5), (24, 0, 2, 4), (1, 2, 0, 3), (1, 2, 3, 2), (4, 16, 0, 8), (4, 16, 2, 3), (4, 5, 0, 2), (8, 256, 0, 4), (8, 3, 1, 4), (32, 0, 84, 4), (16, 0, 0, 300)]
for b, c, p, x in SHAPES:
    suite.add(Case("load-%d-%d-%d-%d" % (b, c, p, x), load, "every field, color, padding and pixel value", bpp=b, ncol=c, pad=p, pix=x))
suite.add(Case("load-v5", load, "a 124-byte image header", bpp=24, ncol=0, pad=84, pix=4, hs=124))
for pre in (1, 7):
    suite.add(Case("load-pre%d" % pre, load, "a file that starts inside the stream", bpp=4, ncol=16, pad=1, pix=4, pre=pre))
suite.add(Case("load-pre-24", load, "a file that starts inside the stream", bpp=24, ncol=0, pad=0, pix=4, pre=3))
for i, (a, u) in enumerate([((24, 0, 0, 4), (4, 16, 2, 3)), ((1, 2, 0, 3), (4, 16, 2, 3)), ((4, 16, 0, 3), (24, 0, 0, 4)), ((24, 0, 2, 1), (24, 0, 4, 9)), ((4, 16, 0, 2), (4, 16, 1, 2))]):
    suite.add(Case("used-%d" % i, load, "loading into a used object", bpp=a[0], ncol=a[1], pad=a[2], pix=a[3], used=u))
for k in ("size", "below", "off"):
    for i, (b, c, p, x) in enumerate([(24, 0, 0, 4), (4, 16, 0, 4), (1, 2, 2, 3)]):
        if not (k == "off" and (p or b == 24)):
            suite.add(Case("bad-%s-%d" % (k, i), bad, "every wrong value", kind=k, bpp=b, ncol=c, pad=p, pix=x))
suite.add(Case("bad-size-v5", bad, "every wrong value", kind="size", bpp=24, ncol=0, pad=84, pix=4, hs=124))
suite.add(Case("bad-off-24", bad, "every offset inside the header or past the end", kind="off", bpp=24, ncol=0, pad=0, pix=4))
for n in (1, 3, 4, 5, 8, 30, 44, 57):
    suite.add(Case("cut-%d" % n, cut, "cut by %d bytes" % n, bpp=24, ncol=0, pad=0, pix=4, n=n, extra=0))
for n in (1, 4, 6, 40, 70):
    suite.add(Case("cut-map-%d" % n, cut, "cut by %d bytes" % n, bpp=4, ncol=16, pad=2, pix=4, n=n, extra=0))
    suite.add(Case("cut-v5-%d" % n, cut, "cut by %d bytes" % n, bpp=24, ncol=0, pad=84, pix=4, n=n, extra=0, hs=124))
for n in (1, 9):
    suite.add(Case("extra-%d" % n, cut, "%d bytes too long" % n, bpp=4, ncol=16, pad=2, pix=4, n=0, extra=n))
for x in (0, 4):
    suite.add(Case("new-%d" % x, new, "every width, height and pixel", pix=x))
for n in (0, 3):
    suite.add(Case("color-%d" % n, color, "every color", n=n))
