"""P06 variable policy entries: decode, size accounting and CSV/text rendering."""

import uuid

from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry
from sx.case import Case, Suite

suite = Suite()
COVER = ["entry-ok", "entry-bad", "lock-ok", "lock-bad"]

LOCK = {0: "NONE", 1: "NOW", 2: "ON_CREATE", 3: "ON_VAR_STATE"}
ATTR = [
    (0x40, "EFI_VARIABLE_APPEND_WRITE"), (0x20, "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS"),
    (0x10, "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS"), (0x08, "EFI_VARIABLE_HARDWARE_ERROR_RECORD"),
    (0x04, "EFI_VARIABLE_RUNTIME_ACCESS"), (0x02, "EFI_VARIABLE_BOOTSERVICE_ACCESS"), (0x01, "EFI_VARIABLE_NON_VOLATILE"),
]


def utf16(sx, s):
    out = b""
    for ch in s:
        c = ord(ch)
        if c < 0x10000:
            out = sx.cat(out, sx.le(c, 2))
        else:
            d = c - 0x10000
            out = sx.cat(out, sx.le(0xD800 + (d >> 10), 2), sx.le(0xDC00 + (d & 0x3FF), 2))
    return out


def lock(sx, n, tail, maxcp):
    g, value, res = sx.bytes("guid", 16), sx.u8("value"), sx.u8("reserved")
    name, t = sx.text("name", n, maxcp=maxcp, mincp=1), sx.bytes("tail", tail)
    buf = sx.cat(g, sx.le(value, 1), sx.le(res, 1), utf16(sx, name), bytes(2), t)
    p = VariableLockOnVarStatePolicy()
    rest = p.decode(buf)
    sx.check(sx.and_(p.Namespace == uuid.UUID(bytes_le=g), p.Value == value), "lock namespace and value decode")
    sx.check(sx.eq(p.Name, name), "the lock variable name decodes")
    sx.check(sx.eq(rest, t), "decode returns what follows the terminator")
    sx.cover("lock-ok")


def lock_bad(sx, n):
    """arbitrary bytes: no terminator, no policy"""
    buf = sx.bytes("buf", 18 + n)
    term = sx.or_(*[sx.uint(buf[18 + i : 20 + i]) == 0 for i in range(0, n - 1, 2)]) if n >= 4 else False
    r = sx.attempt(VariableLockOnVarStatePolicy().decode, buf)
    sx.check(sx.implies(r.ok, term), "a lock policy whose name is not terminated is refused")
    sx.check(sx.or_(r.ok, r.raised(ValueError)), "refusal is a ValueError")
    sx.cover("lock-bad")


def entry(sx, n, ln, tail, maxcp=0x10FFFF):
    """every header field, lock type 0-3, any name; layout built by hand"""
    f = {k: sx.u32(k) for k in ("min", "max", "must", "cant")}
    g, res = sx.bytes("guid", 16), sx.bytes("reserved", 3)
    lt = sx.choice("locktype", 4)
    name = sx.text("name", n, maxcp=maxcp, mincp=1)
    t = sx.bytes("tail", tail)
    lk = b""
    if lt == 3:
        lg, lv = sx.bytes("lguid", 16), sx.u8("lvalue")
        lname = sx.text("lname", ln, maxcp=min(maxcp, 0xFFFF), mincp=1)
        lk = sx.cat(lg, sx.le(lv, 1), b"\x00", utf16(sx, lname), bytes(2))
    n16 = sx.cat(utf16(sx, name), bytes(2)) if n else b""
    off = 44 + len(lk)
    size = off + len(n16)
    buf = sx.cat(sx.le(0x10000, 4), sx.le(size, 2), sx.le(off, 2), g, sx.le(f["min"], 4), sx.le(f["max"], 4), sx.le(f["must"], 4),
                 sx.le(f["cant"], 4), sx.le(lt, 1), res, lk, n16, t)
    p = VariablePolicyEntry()
    rest = p.decode(buf)
    sx.check(sx.eq(rest, t), "decode returns what follows the entry")
    sx.check(sx.and_(p.Namespace == uuid.UUID(bytes_le=g), p.MinSize == f["min"], p.MaxSize == f["max"], p.AttributesMustHave == f["must"],
                     p.AttributesCantHave == f["cant"], p.LockPolicyType == lt, p.Size == size, p.OffsetToName == off), "every field decodes")
    if n:
        sx.check(sx.eq(p.Name, name), "the name decodes")
    else:
        sx.check(p.Name is None, "an entry without a name has none")
    if lt == 3:
        sx.check(sx.and_(p.LockPolicy.Namespace == uuid.UUID(bytes_le=lg), p.LockPolicy.Value == lv, sx.eq(p.LockPolicy.Name, lname)), "the lock policy decodes")
    sx.assume(sx.and_((f["must"] & 0x7E) == 0, (f["cant"] & 0x7F) == 0))  # attribute cells are the subject of attrs()
    row = p.csv_row()
    sx.check(len(row) == len(VariablePolicyEntry.csv_header()), "a row has one cell per column")
    sx.check(sx.and_(row[0] == p.Namespace, sx.eq(row[1], p.Name) if n else row[1] is None, sx.eq(row[2], LOCK[lt])), "the row starts with namespace, name and lock type")
    if lt == 3:
        sx.check(sx.and_(row[3] == p.LockPolicy.Namespace, sx.eq(row[4], p.LockPolicy.Name), row[5] == lv), "the row holds the lock state")
    else:
        sx.check(row[3:6] == ["N/A", "N/A", "N/A"], "no lock state without a state lock")
    sx.check(sx.and_(sx.eq(row[6], sx.scat("0x", sx.hexs(f["min"], 8, True))), sx.eq(row[7], sx.scat("0x", sx.hexs(f["max"], 8, True)))), "sizes are rendered as 8 hex digits")
    text = str(p)
    if lt == 3:
        lock_text = sx.scat("VARIABLE_LOCK_ON_VAR_STATE_POLICY(", str(p.LockPolicy.Namespace), ", ", sx.decimal(lv), ", ", p.LockPolicy.Name, ")")
    else:
        lock_text = LOCK[lt]
    want = sx.scat("VARIABLE_POLICY_ENTRY(", str(p.Namespace), ", ", p.Name if n else "None", ")\n\tLock        = ", lock_text, "\n\tMin = 0x", sx.hexs(f["min"], 8, True),
                   ", Max = 0x", sx.hexs(f["max"], 8, True), ", Must = 0x", sx.hexs(f["must"], 8, True), ", Cant = 0x", sx.hexs(f["cant"], 8, True), "\n")
    sx.check(sx.eq(text, want), "the text shows every value")
    sx.cover("entry-ok")


def attrs(sx, col):
    """attribute cells name exactly the set bits"""
    p = VariablePolicyEntry()
    p.Name = "n"
    must, cant = sx.int("must", 0, 127), sx.int("cant", 0, 127)
    p.AttributesMustHave, p.AttributesCantHave = (must, 0) if col == 8 else (0, cant)
    v = must if col == 8 else cant
    row = p.csv_row({})
    names = [s for b, s in ATTR if (v & b) != 0]
    sx.check(sx.eq(row[col], ",".join(names)), "attribute cells list exactly the set attributes")
    sx.check(row[17 - col] == "", "the other attribute cell is empty")


def xref(sx):
    """GUID names are substituted exactly for known GUIDs"""
    p = VariablePolicyEntry()
    p.Name = "n"
    g, h = sx.uuid("guid"), sx.uuid("known")
    p.Namespace = g
    p.LockPolicyType = 3
    p.LockPolicy = VariableLockOnVarStatePolicy()
    p.LockPolicy.Namespace = lg = sx.uuid("lockguid")
    p.LockPolicy.Name = "x"
    row = p.csv_row({h: "KNOWN"})
    for cell, who in ((row[0], g), (row[3], lg)):
        if who == h:
            sx.check(sx.eq(cell, "KNOWN"), "a known GUID is replaced by its name")
        else:
            sx.check(cell == who, "an unknown GUID is kept")


def entry_any(sx, n):
    """arbitrary bytes: accepted only with a known version, lock type and sizes inside the buffer"""
    buf = sx.bytes("buf", n)
    p = VariablePolicyEntry()
    r = sx.attempt(p.decode, buf)
    if n < 44:
        sx.check(not r.ok, "a truncated entry is refused")
        return
    size, off = sx.uint(buf[4:6]), sx.uint(buf[6:8])
    good = sx.and_(sx.uint(buf[0:4]) == 0x10000, buf[40] <= 3, off >= 44, off <= size, size <= n)
    sx.check(sx.implies(r.ok, good), "bad version, lock type, size or name offset is refused")
    sx.check(sx.implies(sx.and_(good, buf[40] != 3, off == size), r.ok), "a well-formed nameless entry is accepted")
    if not r.ok:
        sx.cover("entry-bad")
        return
    sx.check(sx.eq(r.value, buf[int(size) :]), "decode consumes exactly the declared size")


def redecode(sx):
    p = VariablePolicyEntry()
    g = sx.bytes("guid", 16)
    lk = sx.cat(g, b"\x01\x00", b"A\x00\x00\x00")
    head = lambda lt, off, size: sx.cat(sx.le(0x10000, 4), sx.le(size, 2), sx.le(off, 2), g, bytes(16), sx.le(lt, 1), bytes(3))
    p.decode(sx.cat(head(3, 66, 70), lk, b"B\x00\x00\x00"))
    sx.check(sx.and_(p.Name == "B", p.LockPolicy is not None), "first entry")
    p.decode(head(0, 44, 44))
    sx.check(sx.and_(p.Name is None, p.LockPolicy is None), "decoding a second entry forgets the first")


for n, t, m in ((0, 2, 0x7F), (1, 0, 0x10FFFF), (1, 1, 0xFFFF), (3, 4, 0x7F), (2, 3, 0x10FFFF), (130, 2, 0x7F)):
    suite.add(Case("lock-%d-%d-%x" % (n, t, m), lock, "any %d-character name up to U+%X, %d bytes after" % (n, m, t), n=n, tail=t, maxcp=m))
for n in (0, 1, 3, 4, 5, 7):
    suite.add(Case("lock-bad-%d" % n, lock_bad, "any %d bytes of name" % n, n=n))
for n, ln, t in ((0, 1, 0), (1, 1, 3), (2, 2, 0), (3, 1, 1)):
    suite.add(Case("entry-%d-%d" % (n, ln), entry, "any fields, %d-character name, lock name %d" % (n, ln), n=n, ln=ln, tail=t))
suite.add(Case("entry-128-130", entry, "any fields, 128-character ASCII name", n=128, ln=130, tail=2, maxcp=0x7F))
suite.add(Case("attrs-must", attrs, "all 7-bit attribute sets", col=8))
suite.add(Case("attrs-cant", attrs, "all 7-bit attribute sets", col=9))
suite.add(Case("xref", xref, "any GUIDs"))
for n in (0, 43, 44, 48):
    suite.add(Case("entry-any-%d" % n, entry_any, "any %d-byte buffer" % n, n=n))
suite.add(Case("redecode", redecode, "any GUID"))
