"""P28 hexdump and C arrays: exactly the bytes given can be read back from the text written."""

import edk2toollib.utility_functions as U
from sx.case import Case, Suite

suite = Suite()
COVER = ["line", "partial", "array", "comment", "empty", "options", "old", "rest"]
ASSUMPTIONS = ["At most four bytes of a longer buffer are symbolic, at every position; the others are fixed."]


def data(sx, n, at):
    """n bytes, those at the positions given symbolic"""
    out = [bytes([(i * 37 + 11) & 0xFF]) for i in range(n)]
    for k, i in enumerate(at):
        if i < n:
            out[i] = sx.bytes("b%d" % k, 1)
    return sx.cat(*out) if out else b""


def hx(sx, b):
    return sx.scat("0x", sx.hexs(b, 2))


def shown(sx, b):
    return chr(b) if sx.and_(b >= 0x20, b <= 0x7E) else "."


def dump(sx, n, at, opts, start):
    d = data(sx, n, at)
    out = sx.textstream()
    kw = {}
    if opts is not None:
        kw = dict(include_ascii="a" in opts, include_offset="o" in opts, include_hex_sep="s" in opts)
    U.hexdump(d, offset_start=start, outfs=out, **kw)
    o = "aos" if opts is None else opts
    rows = []
    for r in range(0, n, 16):
        row = d[r:r + 16]
        parts = ["%s -" % ("0x%02x" % (r + start))] if "o" in o else []
        for i in range(16):
            if "s" in o and i == 8 and i < len(row):
                parts.append(" -")
            if i < len(row):
                parts += [" ", hx(sx, row[i])]
        if "a" in o:
            width = len(sx.scat("", *parts)) - (len("0x%02x -" % (r + start)) if "o" in o else 0)
            parts.append(" " * (80 + (2 if "s" in o else 0) - width) + " ")
            parts += [shown(sx, b) for b in row] + [" "]
        rows.append(sx.scat("", *parts, "\n"))
        sx.cover("line" if len(row) == 16 else "partial")
    if not n:
        rows = ["\n"]
        sx.cover("empty")
    sx.check(sx.eq(out.getvalue(), sx.scat("", *rows)), "a line has the offset, its bytes and their characters, each in its column")
    if opts is not None:
        sx.cover("options")


def old(sx, n, at, opts):
    """the old name gives the same text"""
    d = data(sx, n, at)
    a, b = sx.textstream(), sx.textstream()
    U.hexdump(d, offset_start=5, outfs=a, include_ascii="a" in opts, include_offset="o" in opts, include_hex_sep="s" in opts)
    U.PrintByteList(d, "a" in opts, "o" in opts, "s" in opts, 5, outfs=b)
    sx.check(sx.eq(a.getvalue(), b.getvalue()), "PrintByteList writes what hexdump writes")
    sx.cover("old")


def array(sx, n, at, row, skip, **kw):
    d = data(sx, n, at)
    src = sx.stream(sx.cat(b"#" * skip, d))
    src.seek(skip)
    out = sx.textstream()
    if row != 16:
        kw["bytes_per_row"] = row
    U.export_c_type_array(src, "Name", out, **kw)
    lines = out.getvalue().split("\n")
    head = "%s Name[%s] = {" % (kw.get("data_type", "UINT8"), n if kw.get("include_length", True) else "")
    sx.check(sx.eq(lines[0], head), "the array is declared with its type and length")
    got = []
    count = (n + row - 1) // row
    for r in range(count):
        line = lines[1 + r]
        ind = kw.get("indent", "    ")
        sx.check(sx.eq(line[:len(ind)], ind), "a row is indented")
        body = line[len(ind):]
        mine = d[r * row:(r + 1) * row]
        for i in range(len(mine)):
            sx.check(sx.eq(body[:4], hx(sx, mine[i])), "a row has its bytes in order")
            body = body[4:].lstrip(" ")
            last = r * row + i == n - 1
            sx.check(sx.eq(body[:1], ",") if not last else sx.not_(sx.eq(body[:1], ",")), "bytes are separated by commas")
            if not last:
                body = body[1:].lstrip(" ")
        if kw.get("include_ascii", True):
            want = sx.scat("// ", *[shown(sx, b) for b in mine])
            sx.check(sx.eq(body[:len(want)], want), "a comment shows the characters of the row")
            sx.check(len(body) > len(want) and sx.eq(body[len(want):].strip(), "") and sx.not_(sx.eq(line[-1:], "\\")), "a row does not end with a line continuation")
            sx.cover("comment")
        else:
            sx.check(sx.eq(body.strip(), ""), "a row has nothing but its bytes")
    tail = [t for t in lines[1 + count:] if len(t)]
    want = ["};"]
    if kw.get("length_variable_name"):
        want.append("%s %s = sizeof Name;" % (kw.get("length_data_type", "UINTN"), kw["length_variable_name"]))
    sx.check(sx.eq(tail, want), "the array is closed, and its length declared when asked for")
    sx.cover("array")
    if skip:
        sx.cover("rest")


def empty(sx, skip):
    src = sx.stream(sx.bytes("b", skip)) if skip else sx.stream(b"")
    src.seek(skip)
    sx.check(sx.attempt(U.export_c_type_array, src, "Name", sx.textstream()).raised(ValueError), "an empty array is refused")


OPTS = ["", "a", "o", "s", "ao", "as", "os", "aos"]
for n in (0, 1, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48):
    for k, at in enumerate(((0, 7), (n - 1, 8), (15, 16))):
        if n or at[0] == 0:
            suite.add(Case("dump-%d-%s" % (n, "abc"[k]), dump, n=n, at=tuple(x for x in at if x >= 0), opts=None, start=[0, 0x4000, 0xFF8, 0xFFFFFFF8, 0x123456780, 0xFFFFFFFFFFFFFFF0][(n + k) % 6], bounds={"bytes": n}))
for n in (1, 8, 9, 16, 20, 32):
    for o in OPTS:
        suite.add(Case("dump-%d-opt-%s" % (n, o), dump, n=n, at=(0, n - 1), opts=o, start=n, bounds={"bytes": n}))
for n in (3, 17):
    for o in OPTS:
        suite.add(Case("old-%d-%s" % (n, o), old, n=n, at=(0, n - 1), opts=o, bounds={"bytes": n}))
for n in (1, 2, 15, 16, 17, 31, 32, 33, 48, 50):
    for k, at in enumerate(((0, 1), (n - 1, 15), (n // 2, 16))):
        suite.add(Case("array-%d-at-%s" % (n, "abc"[k]), array, n=n, at=at, row=16, skip=n % 3, bounds={"bytes": n}))
for n, row in ((1, 1), (3, 1), (4, 4), (5, 4), (9, 8), (20, 12), (40, 32)):
    for kw in ({}, {"include_ascii": False}, {"include_length": False, "indent": "\t"}, {"data_type": "CHAR8", "length_variable_name": "Len", "length_data_type": "UINT32"}, {"indent": "", "include_ascii": False, "length_variable_name": "L"}):
        suite.add(Case("array-%d-%d-%s" % (n, row, "+".join(kw)), array, n=n, at=(0, n - 1, row), row=row, skip=0, bounds={"bytes": n}, **kw))
for n in (64, 255, 256, 257, 300):
    suite.add(Case("long-dump-%d" % n, dump, n=n, at=(0, 63, n - 1), opts=None, start=0, bounds={"bytes": n}), tier="quick" if n in (64, 257) else "thorough")
    suite.add(Case("long-array-%d" % n, array, n=n, at=(0, 63, n - 1), row=16, skip=0, bounds={"bytes": n}), tier="quick" if n in (64, 257) else "thorough")
for s in (0, 3):
    suite.add(Case("empty-%d" % s, empty, skip=s, bounds={"bytes": 0}))
