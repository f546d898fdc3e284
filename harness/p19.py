"""P19 Firmware policy blobs: specified layout, decode(encode(x)) == x, malformed blobs refused."""

import uuid

import edk2toollib.windows.policy.firmware_policy as F
from sx.case import Case, Suite

F.print = lambda *a, **k: None
suite = Suite()
COVER = ["built", "string", "dword", "qword", "shared", "reserved2", "refused", "truncated", "dup", "distinct", "target", "used", "stream-mode", "offset0", "wide", "print"]
ASSUMPTIONS = [
    "Reserved1 entries and value types other than DWORD, QWORD and STRING are documented as unsupported and stay outside the claims.",
]
T = F.PolicyValueType
PUB = uuid.UUID("5AE6F808-8384-4EB9-A23A-0CCC1093E3DD")


def u16s(sx, t):
    """UTF-16LE bytes of a text whose characters are declared below 0x10000 or wide"""
    out = []
    for ch in t:
        c = ord(ch)
        if c >= 0x10000:
            c -= 0x10000
            out += [sx.le(0xD800 + (c >> 10), 2), sx.le(0xDC00 + (c & 0x3FF), 2)]
        else:
            out.append(sx.le(c, 2))
    return sx.cat(*out)


def pstr(sx, t):
    b = u16s(sx, t)
    return sx.cat(sx.le(len(b), 2), b)


def value(sx, name, kind, n=2, maxcp=0xFFFF):
    """(PolicyValue, encoded bytes, plain value)"""
    if kind == "s":
        t = sx.text(name, n, maxcp=maxcp)
        return F.PolicyValue(T(T.POLICY_VALUE_TYPE_STRING), F.PolicyString(t)), sx.cat(b"\0\0", pstr(sx, t), b"\0\0"), t
    if kind == "d":
        v = sx.u32(name)
        return F.PolicyValue(T(T.POLICY_VALUE_TYPE_DWORD), v), sx.cat(b"\2\0", sx.le(v, 4)), v
    v = sx.u64(name)
    return F.PolicyValue(T(T.POLICY_VALUE_TYPE_QWORD), v), sx.cat(b"\5\0", sx.le(v, 8)), v


CODE = {"s": 0, "d": 2, "q": 5}


def plain(r):
    v = r.Value.value
    return v.String if isinstance(v, F.PolicyString) else v


def same_rule(sx, r, key, sub, name, kind, v, msg):
    sx.check(sx.and_(r.RootKey == key, sx.eq(r.SubKeyName.String, sub), sx.eq(r.ValueName.String, name), r.Value.valueType.vt == CODE[kind], sx.eq(plain(r), v)), msg)


def decode(sx, data, by_bytes=True, pre=b""):
    fs = sx.stream(sx.cat(pre, data))
    fs.seek(len(pre))
    if by_bytes and not pre:
        return F.FirmwarePolicy(fs)
    p = F.FirmwarePolicy()
    p.FromFileStream(fs, by_bytes)
    return p


def build(sx, kinds, names=(2, 1), maxcp=0xFFFF, vlen=2, pre=b""):
    """a policy built from rules, its bytes, and both ways of reading it back"""
    ver, opt, fmt = sx.u32("ver"), sx.u32("opt"), sx.int("fmt", 0, 2)
    pub = sx.uuid("pub")
    p = F.FirmwarePolicy()
    sx.check(sx.and_(p.FormatVersion == 2, p.PolicyVersion == 1, p.PolicyPublisher == PUB, p.OptionFlags == 0, p.RulesCount == 0), "the defaults of a new policy")
    p.FormatVersion, p.PolicyVersion, p.OptionFlags, p.PolicyPublisher = fmt, ver, opt, pub
    want, table = [], []
    heads = []
    off = 0
    for i, k in enumerate(kinds):
        key = sx.u32("key%d" % i)
        sub = sx.text("sub%d" % i, names[0], maxcp=maxcp)
        nm = sx.text("name%d" % i, names[1], maxcp=maxcp)
        v, enc, pv = value(sx, "v%d" % i, k, vlen, maxcp)
        r = F.Rule(key, F.PolicyString(sub), F.PolicyString(nm), v)
        for w in want:
            sx.assume(key != w[0])
        sx.check(p.AddRule(r) is True, "a rule with a new key is added")
        want.append((key, sub, nm, k, pv))
        a, b = pstr(sx, sub), pstr(sx, nm)
        heads.append(sx.cat(sx.le(key, 4), sx.le(off, 4), sx.le(off + len(a), 4), sx.le(off + len(a) + len(b), 4)))
        table += [a, b, enc]
        off += len(a) + len(b) + len(enc)
        sx.cover({"s": "string", "d": "dword", "q": "qword"}[k])
    out = bytearray(b"\xaa")
    p.Serialize(out)
    exp = sx.cat(sx.le(fmt, 2), sx.le(ver, 4), pub.bytes_le, b"\0\0", sx.le(opt, 4), b"\0\0", sx.le(len(kinds), 2), *heads, *table)
    sx.check(sx.eq(bytes(out), sx.cat(b"\xaa", exp)), "a policy has the documented layout")
    st = sx.stream()
    p.SerializeToStream(st)
    sx.check(sx.eq(st.getvalue(), exp), "both serializers write the same bytes")
    for by in (True, False):
        q = decode(sx, exp, by, pre)
        sx.check(sx.and_(q.FormatVersion == fmt, q.PolicyVersion == ver, q.OptionFlags == opt, sx.eq(q.PolicyPublisher.bytes, pub.bytes)), "decoding restores the header")
        sx.check(q.RulesCount == len(kinds) and len(q.Rules) == len(kinds), "decoding restores every rule")
        for r, w in zip(q.Rules, want):
            same_rule(sx, r, *w, "decoding restores every rule")
        sx.check(q.ValueTableSize == off, "the value table is the rest of the blob")
        o = bytearray()
        q.Serialize(o)
        sx.check(sx.eq(bytes(o), exp), "encoding a decoded policy gives the same bytes")
        if not by:
            sx.cover("stream-mode")
    sx.cover("built")
    if maxcp > 0xFFFF:
        sx.cover("wide")


def shared(sx, used):
    """rules that share value table entries decode by their offsets, in any order"""
    key = [sx.u32("key%d" % i) for i in range(3)]
    a = sx.text("a", 2, maxcp=0x7F)
    b = sx.text("b", 1, maxcp=0x7F)
    d = sx.u32("d")
    q = sx.u64("q")
    ta, tb, td, tq = pstr(sx, a), pstr(sx, b), sx.cat(b"\2\0", sx.le(d, 4)), sx.cat(b"\5\0", sx.le(q, 8))
    oq, oa, od, ob = 0, 10, 16, 22
    table = sx.cat(tq, ta, td, tb)
    rules = [(key[0], a, b, "q", q, oa, ob, oq), (key[1], b, b, "d", d, ob, ob, od), (key[2], a, a, "q", q, oa, oa, oq)]
    body = sx.cat(*[sx.cat(sx.le(r[0], 4), sx.le(r[5], 4), sx.le(r[6], 4), sx.le(r[7], 4)) for r in rules])
    data = sx.cat(b"\2\0\1\0\0\0", PUB.bytes_le, b"\0\0", b"\0\0\0\0", b"\0\0\3\0", body, table)
    for by in (True, False):
        if used:
            p = F.FirmwarePolicy()
            p.SetDevicePolicy(7)
            p.Reserved2.append(F.Reserved2())
            p.Reserved2Count = 1
            p.FromFileStream(sx.stream(data), by)
            sx.cover("used")
        else:
            p = decode(sx, data, by)
        sx.check(p.RulesCount == 3 and len(p.Rules) == 3 and p.Reserved2 == [] and p.Reserved1 == [], "exactly the encoded rules")
        for r, w in zip(p.Rules, rules):
            same_rule(sx, r, *w[:5], "each rule has the entries its offsets point to")
            sx.check(sx.and_(r.OffsetToSubKeyName == w[5], r.OffsetToValueName == w[6], r.OffsetToValue == w[7]), "the offsets of a decoded rule")
        o = bytearray()
        p.Serialize(o)
        z = decode(sx, bytes(o), by)
        for r, w in zip(z.Rules, rules):
            same_rule(sx, r, *w[:5], "re-encoding keeps every rule")
    sx.cover("shared")


def reserved2(sx, n):
    r2 = sx.bytes("r2", 12 * n)
    key, v = sx.u32("key"), sx.u32("v")
    table = sx.cat(b"\2\0A\0", b"\2\0B\0", b"\2\0", sx.le(v, 4))
    data = sx.cat(b"\2\0\1\0\0\0", PUB.bytes_le, b"\0\0", b"\0\0\0\0", sx.le(n, 2), b"\1\0", r2, sx.le(key, 4), sx.le(0, 4), sx.le(4, 4), sx.le(8, 4), table)
    p = decode(sx, data)
    sx.check(p.Reserved2Count == n and len(p.Reserved2) == n, "every Reserved2 entry is read")
    for i, e in enumerate(p.Reserved2):
        w = r2[12 * i : 12 * i + 12]
        sx.check(sx.and_(e.ObjectType == sx.uint(w[:4]), e.Element == sx.uint(w[4:8]), e.OffsetToValue == sx.uint(w[8:])), "the fields of a Reserved2 entry")
    same_rule(sx, p.Rules[0], key, "A", "B", "d", v, "rules follow the Reserved2 entries")
    o = bytearray()
    p.Serialize(o)
    sx.check(sx.eq(bytes(o), data), "a policy with Reserved2 entries encodes to the same bytes")
    sx.cover("reserved2")


def refused(sx, what):
    """inconsistent headers"""
    blob = sx.bytes("tail", 20)
    fmt, r2, rc = sx.u16("fmt"), sx.u16("r2"), sx.u16("rc")
    data = sx.cat(sx.le(fmt, 2), b"\1\0\0\0", PUB.bytes_le, b"\0\0\0\0\0\0", sx.le(r2, 2), sx.le(rc, 2), blob)
    if what == "version":
        sx.assume(fmt > 2)
    else:
        sx.assume(fmt <= 2)
        sx.assume(r2 * 12 + rc * 16 > 20)
    r = sx.attempt(decode, sx, data)
    sx.check(not r.ok, "a policy that is newer than supported or larger than its data is refused")
    sx.cover("refused")


def truncated(sx, cut):
    """a valid one-rule blob cut short anywhere"""
    key, v = sx.u32("key"), sx.u64("v")
    sub = sx.text("sub", 2, maxcp=0x7F)
    table = sx.cat(pstr(sx, sub), b"\2\0B\0", b"\5\0", sx.le(v, 8))
    data = sx.cat(b"\2\0\1\0\0\0", PUB.bytes_le, b"\0\0", b"\0\0\0\0", b"\0\0\1\0", sx.le(key, 4), sx.le(0, 4), sx.le(6, 4), sx.le(10, 4), table)
    for by in (True, False):
        r = sx.attempt(decode, sx, data[: len(data) - cut], by)
        sx.check(not r.ok, "a policy cut short is refused")
    sx.cover("truncated")


def offsets(sx, by):
    """arbitrary offsets: the entry there is decoded, or the blob is refused"""
    o = sx.int("o", 0, 30)
    which = sx.choice("which", 3)
    v = sx.u32("v")
    table = sx.cat(b"\2\0A\0", b"\2\0B\0", b"\2\0", sx.le(v, 4))  # 14 bytes
    offs = [0, 4, 8]
    offs[which] = o
    data = sx.cat(b"\2\0\1\0\0\0", PUB.bytes_le, b"\0\0", b"\0\0\0\0", b"\0\0\1\0", b"\0\0\0\1", *[sx.le(x, 4) for x in offs], table)
    sx.assume(sx.or_(o > 14, o == offs_ok(which), o == 4 - offs_ok(which) if which < 2 else False))
    r = sx.attempt(decode, sx, data, by)
    sx.check(r.ok == (o <= 14), "an offset outside the value table is refused")
    if r.ok:
        rule = r.value.Rules[0]
        got = [rule.SubKeyName.String, rule.ValueName.String][which] if which < 2 else plain(rule)
        sx.check(sx.eq(got, v) if which == 2 else got == ("A" if o == 0 else "B"), "the entry at the offset is decoded")
    else:
        sx.cover("refused")


def offs_ok(which):
    return [0, 4, 8][which]


def mk(sx, key, sub, nm, kind, v):
    t = {"s": T.POLICY_VALUE_TYPE_STRING, "d": T.POLICY_VALUE_TYPE_DWORD, "q": T.POLICY_VALUE_TYPE_QWORD}[kind]
    return F.Rule(key, F.PolicyString(sub), F.PolicyString(nm), F.PolicyValue(T(t), F.PolicyString(v) if kind == "s" else v))


def dup(sx, k1, k2):
    """AddRule refuses exactly a rule that is already there"""
    key = [sx.u32("key%d" % i) for i in range(2)]
    sub = [sx.text("sub%d" % i, 1, maxcp=0x7F) for i in range(2)]
    nm = [sx.text("nm%d" % i, 2, maxcp=0x7F) for i in range(2)]
    v = [value(sx, "v%d" % i, k, 1, 0x7F)[2] for i, k in enumerate((k1, k2))]
    p = F.FirmwarePolicy()
    r1 = mk(sx, key[0], sub[0], nm[0], k1, v[0])
    r2 = mk(sx, key[1], sub[1], nm[1], k2, v[1])
    same = sx.and_(k1 == k2, key[0] == key[1], sx.eq(sub[0], sub[1]), sx.eq(nm[0], nm[1]), sx.eq(v[0], v[1]) if k1 == k2 else False)
    sx.check(p.AddRule(r1) is True, "a rule is added to an empty policy")
    sx.check(p.AddRule(mk(sx, key[0], sub[0], nm[0], k1, v[0])) is False, "a rule that is there already is not added again")
    sx.check((r1 == r2) == same, "rules are equal exactly when key and value are")
    got = p.AddRule(r2)
    sx.check(got == sx.not_(same), "a rule is added exactly when it is not there already")
    sx.check(p.RulesCount == len(p.Rules), "RulesCount is the number of rules")
    sx.check(sx.eq(len(p.Rules) == 1, same), "a rule is added exactly when it is not there already")
    sx.cover("dup" if len(p.Rules) == 1 else "distinct")


def target(sx, twice):
    pol, nonce = sx.u64("pol"), sx.u64("nonce")
    a = sx.text("a", 2, maxcp=0xFFFF)
    e = sx.text("e", 1, maxcp=0x7F)
    p = F.FirmwarePolicy()
    for _ in range(2 if twice else 1):
        p.SetDeviceTarget({"Manufacturer": a, "Nonce": nonce, "OEM_01": e, "OEM_02": ""})
        p.SetDevicePolicy(pol)
    o = bytearray()
    p.Serialize(o)
    q = decode(sx, bytes(o))
    sx.check(len(q.Rules) == 5, "one rule for each target entry and one for the policy, however often they are set")
    want = [("Target", "Manufacturer", "s", a), ("Target", "Nonce", "q", nonce), ("Target", "OEM_01", "s", e), ("Target", "OEM_02", "s", ""), ("UEFI", "Policy", "q", pol)]
    for r, w in zip(q.Rules, want):
        same_rule(sx, r, 0xEF100000, *w, "targets and policy are stored under their well-known keys")
    sx.cover("target")


def pieces(sx, kind):
    """strings and values on their own, at any offset (0 included) of a stream or of bytes"""
    n = sx.choice("pad", 3)
    v, enc, pv = value(sx, "v", kind)
    junk = sx.bytes("junk", 2)
    data = sx.cat(junk[:n] if n else b"", enc, b"\xff")
    fs = sx.stream(data)
    fs.seek(len(data))
    got = F.PolicyValue.FromFileStream(fs, n)
    g2 = F.PolicyValue.FromBytes(data, n)
    fs2 = sx.stream(data)
    fs2.seek(n)
    g3 = F.PolicyValue.FromFileStream(fs2)
    for g in (got, g2, g3):
        sx.check(g.GetValueType().Get() == CODE[kind], "the type of a value")
        x = g.value.String if kind == "s" else g.value
        sx.check(sx.eq(x, pv), "a value is read from the given offset")
    out = bytearray()
    v.Serialize(out)
    sx.check(sx.eq(bytes(out), enc), "a value has the documented layout")
    if kind == "s":
        body = enc[2:-2]
        for cut in (1, 2, 3):
            sx.check(not sx.attempt(F.PolicyString.FromBytes, body[: len(body) - cut], 0).ok, "a string longer than its data is refused")
            sx.check(not sx.attempt(F.PolicyString.FromFileStream, sx.stream(body[: len(body) - cut])).ok, "a string longer than its data is refused")
        fs.seek(1)
        s = F.PolicyString.FromFileStream(fs, n + 2)
        sx.check(sx.eq(s.String, pv), "a string is read from the given offset")
        z = sx.stream(sx.cat(body, b"\0"))
        z.seek(1)
        sx.check(sx.eq(F.PolicyString.FromFileStream(z, 0).String, pv), "a string is read from the given offset")
    if n == 0:
        sx.cover("offset0")


def printed(sx):
    pol = sx.u64("pol")
    out = []
    F.print = lambda *a, **k: out.append(a[0])
    try:
        F.FirmwarePolicy().PrintDevicePolicy(pol)
    finally:
        F.print = lambda *a, **k: None
    sx.check((len([x for x in out if "Secure Boot" in x]) == 1) == (pol % 2 == 1), "the Secure Boot action is shown exactly when its bit is set")
    sx.check((len([x for x in out if "TPM" in x]) == 1) == ((pol // 2) % 2 == 1), "the TPM action is shown exactly when its bit is set")
    sx.cover("print")


for ks in ("", "s", "d", "q", "sd", "qs", "dq", "qqq"):
    suite.add(Case("build-" + (ks or "none"), build, "every header, key, name and value; BMP names of 2 and 1 characters", kinds=ks))
suite.add(Case("build-names", build, "every key, empty and 5-character names", kinds="sq", names=(0, 5), vlen=0))
suite.add(Case("build-wide", build, "names and values with any code points", kinds="s", names=(1, 1), maxcp=0x10FFFF, vlen=1))
suite.add(Case("build-pre", build, "a policy that does not start at the beginning of the stream", kinds="sd", maxcp=0x7F, pre=b"xyz"))
suite.add(Case("build-long", build, "names of 130 and values of 300 characters", kinds="s", names=(130, 128), vlen=300, maxcp=0x7F))
suite.add(Case("build-six", build, "six rules", kinds="sdqsdq", names=(1, 1), vlen=1), tier="thorough")
suite.add(Case("build-wide2", build, "names and values with any code points", kinds="ss", names=(2, 1), maxcp=0x10FFFF, vlen=2), tier="thorough")
suite.add(Case("shared", shared, "every key, text and value at shared entries", used=False))
suite.add(Case("shared-used", shared, "the same into a used object", used=True))
for n in (1, 3):
    suite.add(Case("reserved2-%d" % n, reserved2, "every content of the Reserved2 entries", n=n))
suite.add(Case("refused-version", refused, "every newer format version", what="version"))
suite.add(Case("refused-counts", refused, "every pair of counts larger than the data", what="counts"))
for c in (1, 2, 7, 9, 10, 11, 14, 16, 20, 25, 36, 40, 51):
    suite.add(Case("truncated-%d" % c, truncated, "every content, cut by %d bytes" % c, cut=c))
for by in (True, False):
    suite.add(Case("offsets-%d" % by, offsets, "every offset up to 30 at one place", by=by))
for a in "sdq":
    for b in "sdq":
        if a <= b:
            suite.add(Case("dup-%s%s" % (a, b), dup, "every pair of rules", k1=a, k2=b))
suite.add(Case("target", target, "every target text, nonce and policy", twice=False))
suite.add(Case("target-twice", target, "the same set twice", twice=True))
for k in "sdq":
    suite.add(Case("pieces-" + k, pieces, "every value at offsets 0..2", kind=k))
suite.add(Case("print", printed, "every policy"))
