"""P02 variable store update: flush then reload preserves the variables and touches only the variable region."""

import uuid

import edk2toollib.uefi.edk2.variable_format as VF
from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore
from sx.case import Case, Suite

suite = Suite()
COVER = ["fits", "refused", "badfv", "fills", "beyond", "history"]
ASSUMPTIONS = ["The store lies inside its firmware volume (volume header length + store size <= volume length), as in a valid image."]

NVFV = uuid.UUID("fff12b8d-7696-4c8b-a985-2747075b4f50").bytes_le
SIG = {
    "plain": uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d").bytes_le,
    "auth": uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792").bytes_le,
}
HDR = {"plain": 32, "auth": 60}


def rec(sx, kind, tag, nlen, dlen):
    """a symbolic variable record: (bytes, fields)"""
    state, attrs, g = sx.u8(tag + "state"), sx.u32(tag + "attrs"), sx.bytes(tag + "guid", 16)
    name = sx.text(tag + "name", nlen, mincp=1, maxcp=0x7F)
    data = sx.bytes(tag + "data", dlen)
    n16 = b""
    for c in name:
        n16 = sx.cat(n16, sx.le(ord(c), 2))
    h = sx.cat(sx.le(0x55AA, 2), sx.le(state, 1), b"\x00", sx.le(attrs, 4))
    extra = b""
    if kind == "auth":
        extra = sx.bytes(tag + "auth", 28)
        h = sx.cat(h, extra)
    b = sx.cat(h, sx.le(len(n16) + 2, 4), sx.le(dlen, 4), g, n16, b"\x00\x00", data)
    b = sx.cat(b, b"\xff" * (-len(b) % 4))
    return b, dict(state=state, attrs=attrs, guid=uuid.UUID(bytes_le=g), name=name, data=data, extra=extra)


def mkvar(sx, kind, f):
    v = VF.VariableHeader() if kind == "plain" else VF.AuthenticatedVariableHeader()
    v.State, v.Attributes, v.VendorGuid = f["state"], f["attrs"], f["guid"]
    if kind == "auth":
        v.MonotonicCount = sx.uint(f["extra"][0:8])
        v.TimeStamp = f["extra"][8:24]
        v.PubKeyIndex = sx.uint(f["extra"][24:28])
    v.set_name(f["name"])
    v.set_data(f["data"])
    return v


def same(sx, kind, v, f):
    r = sx.and_(v.State == f["state"], v.Attributes == f["attrs"], v.VendorGuid == f["guid"], sx.eq(v.Name, f["name"]), sx.eq(v.Data, f["data"]))
    if kind == "auth":
        r = sx.and_(r, v.MonotonicCount == sx.uint(f["extra"][0:8]), sx.eq(v.TimeStamp, f["extra"][8:24]), v.PubKeyIndex == sx.uint(f["extra"][24:28]))
    return r


def image(sx, kind, base, hlen, body, room, tail):
    """firmware image; the store region is header(28) + body + 0xff fill, room bytes in all"""
    size = sx.int("storesize", 28, 28 + room)
    fvlen = hlen + 28 + room
    blk = sx.bytes("fvmisc", 16)
    fv = sx.cat(
        sx.bytes("zero", 16), NVFV, sx.le(fvlen, 8), b"_FVH", blk[0:4], sx.le(hlen, 2), blk[4:6], blk[6:8], blk[8:9], blk[9:10],
        sx.bytes("blockmap", 16), b"\xa5" * (hlen - 72),
    )
    st = sx.cat(SIG[kind], sx.le(size, 4), b"\x5a\xfe", sx.bytes("stmisc", 6))
    img = sx.cat(sx.bytes("pre", base), fv, st, body, b"\xff" * (room - len(body)), sx.bytes("post", tail))
    return img, size, fvlen


def update(sx, kind, base, hlen, old, new, room, tail, edit):
    body, olds = b"", []
    for i, (n, d) in enumerate(old):
        b, f = rec(sx, kind, "o%d" % i, n, d)
        body = sx.cat(body, b)
        olds.append(f)
    img, size, fvlen = image(sx, kind, base, hlen, body, room, tail)
    sx.assume(size >= 28 + len(body))
    p = sx.write("rom.bin", img)
    vs = VariableStore(p, base, fvlen)
    sx.check(len(vs.variables) == len(olds), "every stored variable is read, and nothing else")
    for v, f in zip(vs.variables, olds):
        sx.check(same(sx, kind, v, f), "stored variable reads back with its fields")
    want_body, want = b"", []
    for i, f in enumerate(olds):
        if edit == "drop" and i == 0:
            continue
        want.append(f)
    if edit == "drop":
        del vs.variables[0]
    for i, (n, d) in enumerate(new):
        b, f = rec(sx, kind, "n%d" % i, n, d)
        vs.add_variable(mkvar(sx, kind, f))
        want.append(f)
    if edit == "resize":
        nd = sx.bytes("resized", 7)
        vs.variables[0].set_data(nd)
        want[0] = dict(want[0])
        want[0]["data"] = nd
    for f in want:
        want_body = sx.cat(want_body, mkvar(sx, kind, f).serialize(True))
    need = 28 + len(want_body) + HDR[kind]
    r = sx.attempt(vs.flush_to_file)
    after = sx.read_bytes(p)
    start = base + hlen + 28
    if r.ok:
        sx.cover("fits")
        sx.check(need <= size, "an update that does not fit inside the store is refused")
        sx.check(len(after) == len(img), "the image keeps its size")
        sx.check(sx.eq(after[:start], img[:start]), "bytes before the variables are untouched")
        end = start + len(want_body) + HDR[kind]
        sx.check(sx.eq(after[start : start + len(want_body)], want_body), "the variables are written in order")
        sx.check(sx.eq(after[start + len(want_body) : end], b"\xff" * HDR[kind]), "a blank header terminates the variables")
        sx.check(sx.eq(after[end:], img[end:]), "bytes after the written variables are untouched")
        again = VariableStore(p, base, fvlen)
        sx.check(len(again.variables) == len(want), "reload finds the same number of variables")
        for v, f in zip(again.variables, want):
            sx.check(same(sx, kind, v, f), "reload finds the same variables")
    else:
        sx.cover("refused")
        sx.check(need > size, "an update that fits is accepted")
        sx.check(sx.eq(after, img), "a refused update leaves the image untouched")


def badfv(sx):
    """images that are not a healthy variable store are refused without being modified"""
    hlen, room = 72, 32
    fvlen = hlen + 28 + room
    guid, sig = sx.bytes("fvguid", 16), sx.bytes("sig", 4)
    ln = sx.u64("fvlen")
    ssig, fmt, st = sx.bytes("ssig", 16), sx.u8("fmt"), sx.u8("st")
    img = sx.cat(b"\0" * 16, guid, sx.le(ln, 8), sig, b"\0" * 4, sx.le(hlen, 2), b"\0" * 6, b"\0" * 16, ssig, sx.le(60, 4), sx.le(fmt, 1), sx.le(st, 1), b"\0" * 6, b"\xff" * room)
    p = sx.write("rom.bin", img)
    r = sx.attempt(VariableStore, p, 0, fvlen)
    good = sx.and_(
        sx.eq(guid, NVFV), sx.eq(sig, b"_FVH"), ln == fvlen, sx.or_(sx.eq(ssig, SIG["plain"]), sx.eq(ssig, SIG["auth"])), fmt == 0x5A, st == 0xFE
    )
    sx.check(good == r.ok, "exactly the healthy non-volatile stores of the given size are accepted")
    sx.check(sx.eq(sx.read_bytes(p), img), "opening does not modify the image")
    sx.cover("badfv")


def toobig(sx):
    base, size = sx.int("base", 0, 400), sx.int("size", 0, 400)
    body, f = rec(sx, "plain", "o", 1, 1)
    img, ss, fvlen = image(sx, "plain", 0, 72, body, 60, 0)
    p = sx.write("rom.bin", img)
    sx.assume(base + size > len(img))
    sx.check(not sx.attempt(VariableStore, p, base, size).ok, "a store reaching past the end of the image is refused")


def full(sx, kind, slack):
    """a store filled to its end at the end of the image"""
    body, f = rec(sx, kind, "o", 1, 2)
    body2, f2 = rec(sx, kind, "p", 2, 5)
    body = sx.cat(body, body2)
    room = len(body) + slack
    hlen = 72
    fv = sx.cat(b"\0" * 16, NVFV, sx.le(hlen + 28 + room, 8), b"_FVH", b"\0" * 4, sx.le(hlen, 2), b"\0" * 6, b"\0" * 16)
    img = sx.cat(fv, SIG[kind], sx.le(28 + room, 4), b"\x5a\xfe", b"\0" * 6, body, b"\xff" * slack)
    p = sx.write("rom.bin", img)
    vs = VariableStore(p, 0, len(img))
    sx.check(len(vs.variables) == 2, "a store filled to its end is read completely")
    sx.check(sx.and_(same(sx, kind, vs.variables[0], f), same(sx, kind, vs.variables[1], f2)), "its variables read back")


def beyond(sx, kind, n):
    """a variable that reaches past the end of its store"""
    hlen, room = 72, 200
    body, f = rec(sx, kind, "o", 1, 2)
    ds = sx.int("ds", 0, 0xFFFFFFFF)
    h = HDR[kind]
    body = sx.cat(body[: h - 20], sx.le(ds, 4), body[h - 16 :])
    size = 28 + len(body) - (-(h + 6) % 4) + n
    sx.assume(ds >= n + 2)
    fv = sx.cat(b"\0" * 16, NVFV, sx.le(hlen + 28 + room, 8), b"_FVH", b"\0" * 4, sx.le(hlen, 2), b"\0" * 6, b"\0" * 16)
    img = sx.cat(fv, SIG[kind], sx.le(size, 4), b"\x5a\xfe", b"\0" * 6, body, sx.bytes("post", room - len(body)))
    p = sx.write("rom.bin", img)
    r = sx.attempt(VariableStore, p, 0, hlen + 28 + room)
    if ds == n + 2:
        sx.check(r.ok and len(r.value.variables) == 1 and len(r.value.variables[0].Data) == n + 2, "a variable that fills its store is read")
        sx.cover("fills")
    elif r.ok and len(r.value.variables) == 1 and h + 4 + ds <= size - 28:
        sx.cover("fills")
    else:
        sx.check(not r.ok, "a variable that reaches past the end of its store is refused")
        sx.cover("beyond")
    sx.check(sx.eq(sx.read_bytes(p), img), "opening does not modify the image")


def history(sx, kind, big):
    """several updates of one open store, and of the reopened one"""
    hlen, room = 72, 2400 if not big else 70000
    body, f0 = rec(sx, kind, "o", 1, 2)
    fv = sx.cat(b"\0" * 16, NVFV, sx.le(hlen + 28 + room, 8), b"_FVH", b"\0" * 4, sx.le(hlen, 2), b"\0" * 6, b"\0" * 16)
    img = sx.cat(b"x" * 3, fv, SIG[kind], sx.le(28 + room, 4), b"\x5a\xfe", b"\0" * 6, body, b"\xff" * (room - len(body)), b"after")
    p = sx.write("rom.bin", img)
    vs = VariableStore(p, 3, hlen + 28 + room)
    want, old = [f0], [f0]
    for i in range(3):
        op = sx.pick("op%d" % i, ["add", "drop", "rename", "reopen", "long"]) if not big else ["long", "reopen", "add"][i]
        if op in ("add", "long"):
            _, f = rec(sx, kind, "n%d" % i, i % 2 + 1, i + 1)
            if op == "long":
                f["name"] = sx.scat("n" * 129, f["name"])
                f["data"] = sx.cat(f["data"], b"\x5a" * (66000 if big else 256))
            vs.add_variable(mkvar(sx, kind, f))
            want = want + [f]
        elif op == "drop" and want:
            vs.variables.pop(0)
            want = want[1:]
        elif op == "rename" and want:
            nm = sx.text("r%d" % i, 3, mincp=1, maxcp=0x7F)
            vs.variables[-1].set_name(nm)
            want = want[:-1] + [dict(want[-1], name=nm)]
        elif op == "reopen":
            vs = VariableStore(p, 3, hlen + 28 + room)
            want = list(old)
        flush = sx.bool("flush%d" % i) if i < 2 and not big else True
        if flush or op == "reopen":
            r = sx.attempt(vs.flush_to_file)
            sx.check(r.ok, "an update that fits is accepted")
            old = want
    after = sx.read_bytes(p)
    again = VariableStore(p, 3, hlen + 28 + room)
    sx.check(len(again.variables) == len(want) and all(same(sx, kind, v, f) for v, f in zip(again.variables, want)), "the store holds the variables flushed last, in order")
    wb = sx.cat(*[mkvar(sx, kind, f).serialize(True) for f in want]) if want else b""
    a = 3 + hlen + 28
    sx.check(sx.and_(sx.eq(after[:a], img[:a]), sx.eq(after[a : a + len(wb)], wb), sx.eq(after[3 + hlen + 28 + room :], b"after"), len(after) == len(img)), "no byte outside the variables changes")
    sx.cover("history")


B = "store size symbolic in [used, capacity]; all header fields, names and data symbolic; "
shapes = [
    ("empty-add1", [], [(1, 1)], "add"),
    ("one-add1", [(1, 2)], [(2, 3)], "add"),
    ("two-drop", [(1, 1), (2, 2)], [], "drop"),
    ("two-drop-add", [(1, 1), (2, 2)], [(0, 0)], "drop"),
    ("two-resize", [(1, 1), (1, 4)], [], "resize"),
    ("noop", [(1, 3)], [], "add"),
]
for kind in ("plain", "auth"):
    for nm, old, new, edit in shapes:
        for base, hlen, tail in ((0, 72, 0), (5, 88, 9)):
            room = 260 if kind == "auth" else 180
            suite.add(
                Case(
                    "update-%s-%s-b%d" % (kind, nm, base), update,
                    B + "variables (name,data) %s -> +%s, %s, base %d, header %d, capacity %d" % (old, new, edit, base, hlen, room),
                    kind=kind, base=base, hlen=hlen, old=old, new=new, room=room, tail=tail, edit=edit, weight=4,
                )
            )
    for slack in (0, 1, 4, 31, 59):
        suite.add(Case("full-%s-%d" % (kind, slack), full, "two records, %d spare bytes at the end of the image" % slack, kind=kind, slack=slack))
    for n in (0, 3):
        suite.add(Case("beyond-%s-%d" % (kind, n), beyond, "any data size, any bytes after the store", kind=kind, n=n))
    for big in (False, True):
        suite.add(Case("history-%s-%s" % (kind, big), history, "three operations, %s" % ("with 66000 bytes of data" if big else "any of five"), kind=kind, big=big, weight=5))
suite.add(Case("badfv", badfv, "all identifying header fields symbolic"))
suite.add(Case("toobig", toobig, "base and size up to 400"))
