"""P11 time-based authenticated variables: timestamp, certificate and payload encoding; the digest to be signed."""

import datetime
import types
import uuid

import edk2toollib.uefi.authenticated_variables_structure_support as A
from sx.case import Case, Suite

suite = Suite()
COVER = ["time-ok", "time-bad", "var", "digest", "swapped", "signed", "unsigned"]

PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")
SHA = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328")


def days(sx, y, m):
    leap = sx.and_(y % 4 == 0, sx.or_(y % 100 != 0, y % 400 == 0))
    return sx.ite(m == 2, sx.ite(leap, 29, 28), sx.ite(sx.or_(m == 4, m == 6, m == 9, m == 11), 30, 31))


def stamp(sx, f):
    return sx.cat(sx.le(f[0], 2), *[sx.le(x, 1) for x in f[1:6]], bytes(9))


def time_decode(sx, via):
    """any 16 bytes: accepted exactly when they are a calendar date and time of day"""
    buf = sx.bytes("buf", 16)
    y, mo, d = sx.uint(buf[0:2]), sx.uint(buf[2:3]), sx.uint(buf[3:4])
    h, mi, s, ns = sx.uint(buf[4:5]), sx.uint(buf[5:6]), sx.uint(buf[6:7]), sx.uint(buf[8:12])
    good = sx.and_(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= days(sx, y, mo), h <= 23, mi <= 59, s <= 59, ns <= 999999999)
    if via == "stream":
        f = sx.stream(sx.cat(buf, b"\x77"))
        r = sx.attempt(A.EfiTime, decodefs=f)
    else:
        r = sx.attempt(A.EfiTime.from_binary, buf)
    sx.check(r.ok == good, "a timestamp is accepted exactly when it is a valid date and time")
    if not r.ok:
        sx.check(r.raised(ValueError), "refusal is a ValueError")
        sx.cover("time-bad")
        return
    sx.cover("time-ok")
    t = r.value.get_datetime()
    sx.check(sx.and_(t.year == y, t.month == mo, t.day == d, t.hour == h, t.minute == mi, t.second == s, t.microsecond == ns // 1000), "the time decodes")
    if via == "stream":
        sx.check(f.tell() == 16, "decoding consumes 16 bytes")
    sx.check(sx.eq(r.value.encode(), sx.cat(buf[0:7], bytes(9))), "encode writes the date and time and zero everywhere else")


def time_short(sx, n):
    buf = sx.bytes("buf", n)
    sx.check(not sx.attempt(A.EfiTime, decodefs=sx.stream(buf)).ok, "a truncated timestamp is refused")
    sx.check(not sx.attempt(A.EfiTime.from_binary, buf).ok, "a truncated timestamp is refused")


def when(sx):
    f = [sx.int("year", 1900, 9999), sx.int("month", 1, 12), sx.int("day", 1, 28), sx.int("hour", 0, 23), sx.int("minute", 0, 59), sx.int("second", 0, 59)]
    return f, datetime.datetime(*f)


def var_bytes(sx, f, cert, pay):
    return sx.cat(stamp(sx, f), sx.le(24 + len(cert), 4), sx.le(0x200, 2), sx.le(0x0EF1, 2), PKCS7.bytes_le, cert, pay)


def variable(sx, clen, plen):
    f, t = when(sx)
    cert, pay = sx.bytes("cert", clen), sx.bytes("payload", plen)
    pay2 = sx.bytes("payload2", (plen + 1) % 3)
    if plen > 27:  # not a signature list: those are in siglist()
        sx.assume(sx.eq(pay[16:20], b"\xff" * 4))
    buf = var_bytes(sx, f, cert, pay)
    v = A.EfiVariableAuthentication2(decodefs=sx.stream(buf))
    sx.check(v.time.get_datetime() == t, "the timestamp decodes")
    sx.check(sx.eq(v.auth_info.get_certificate(), cert), "the certificate decodes")
    sx.check(v.payload_size == plen, "the payload size decodes")
    sx.check(sx.eq(bytes(v.payload), pay) if plen else v.payload is None, "the payload is everything after the certificate")
    sx.check(sx.eq(v.encode(), buf), "a decoded authenticated variable encodes to the same bytes")
    out = sx.stream(b"")
    v.write(out)
    sx.check(sx.eq(out.getvalue(), buf), "write emits the encoding")
    sx.cover("var")
    w = A.EfiVariableAuthentication2(time=t)
    w.auth_info.add_cert_data(cert)
    w.set_payload(sx.stream(pay))
    sx.check(sx.eq(w.encode(), buf), "an authenticated variable built from its parts has the same bytes")
    # another payload replaces the first
    w.set_payload(sx.stream(pay2))
    sx.check(sx.eq(w.encode(), var_bytes(sx, f, cert, pay2)), "a new payload replaces the old one")
    sx.cover("swapped")


def siglist(sx, k):
    """a payload that is a signature database is also available as one"""
    f, t = when(sx)
    recs = [sx.bytes("r%d" % i, 48) for i in range(k)]
    pay = sx.cat(SHA.bytes_le, sx.le(28 + 48 * k, 4), bytes(4), sx.le(48, 4), *recs)
    v = A.EfiVariableAuthentication2(decodefs=sx.stream(var_bytes(sx, f, b"\x30\x00", pay)))
    sx.check(v.sig_list_payload is not None, "a signature database payload is recognised")
    sx.check(sx.eq(v.sig_list_payload.encode(), pay), "the signature database is the payload")
    v.set_payload(sx.stream(b"\x00\x01\x02"))
    sx.check(v.sig_list_payload is None, "a payload that is no signature database has none")


def digest(sx, nlen, plen, via):
    """the bytes that are signed: name (no terminator), GUID, attributes, timestamp, payload"""
    f, t = when(sx)
    name = sx.text("name", nlen, maxcp=0x10FFFF, mincp=1)
    g, attrs, pay = sx.bytes("guid", 16), sx.u32("attrs"), sx.bytes("payload", plen)
    others = [sx.bytes("payload%d" % k, k) for k in (2, 0, 1)]
    n16 = b""
    for ch in name:
        c = ord(ch)
        if c < 0x10000:
            n16 = sx.cat(n16, sx.le(c, 2))
        else:
            d = c - 0x10000
            n16 = sx.cat(n16, sx.le(0xD800 + (d >> 10), 2), sx.le(0xDC00 + (d & 0x3FF), 2))
    wrap = (lambda p: p) if via == "bytes" else sx.stream
    b = A.EfiVariableAuthentication2Builder(name, uuid.UUID(bytes_le=g), attrs, wrap(pay), t)
    head = sx.cat(n16, g, sx.le(attrs, 4), stamp(sx, f))
    sx.check(sx.eq(b.get_digest(), sx.cat(head, pay)), "the digest input is name, GUID, attributes, timestamp and payload")
    av = b.authenticated_variable
    sx.check(sx.eq(av.encode(), var_bytes(sx, f, b"", pay)), "the variable carries the payload that is signed")
    for pay2 in others:
        b.update_payload(wrap(pay2))
        sx.check(sx.eq(b.get_digest(), sx.cat(head, pay2)), "a new payload replaces the old one in the digest input")
        sx.check(sx.eq(av.encode(), var_bytes(sx, f, b"", pay2)), "a new payload replaces the old one in the variable")
    sx.cover("digest")


class Signing:
    """stands in for cryptography's PKCS7 builder (same rules: immutable, data only once, no signature without data and signer)"""

    def __init__(self, made):
        self.made, self.data, self.signers, self.certs = made, None, [], []

    def copy(self, **kw):
        n = Signing(self.made)
        n.data, n.signers, n.certs = self.data, list(self.signers), list(self.certs)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def set_data(self, data):
        if self.data is not None:
            raise ValueError("data may only be set once")
        return self.copy(data=data)

    def add_signer(self, cert, key, algorithm):
        return self.copy(signers=self.signers + [(cert, key)])

    def add_certificate(self, cert):
        return self.copy(certs=self.certs + [cert])

    def sign(self, encoding, options):
        if self.data is None or not self.signers:
            raise ValueError("nothing to sign")
        self.made.append((self.data, self.signers, self.certs, list(options)))
        return self.result(len(self.made))

    def result(self, n):
        return SIGNATURES[n - 1]


SIGNATURES = []


def signing(sx, plen, plen2, history):
    """sign / update / finalize in any stated order: what is sent is what was signed"""
    f, t = when(sx)
    g, pays = sx.bytes("guid", 16), [sx.bytes("pay", plen), sx.bytes("pay2_", plen2)]
    made = []
    SIGNATURES[:] = [sx.bytes("sig%d" % i, 5 + i) for i in range(3)]
    cert, extra, key = types.SimpleNamespace(issuer="i", subject="s"), types.SimpleNamespace(certificate=types.SimpleNamespace(issuer="j", subject="u")), object()
    real = A.pkcs7
    A.pkcs7 = types.SimpleNamespace(PKCS7SignatureBuilder=lambda: Signing(made), PKCS7Options=real.PKCS7Options)
    try:
        b = A.EfiVariableAuthentication2Builder("db", uuid.UUID(bytes_le=g), "NV,AT", pays[0], t)
        head = sx.cat(b"d\0b\0", g, sx.le(0x21, 4), stamp(sx, f))
        current, finals = pays[0], 0
        for op in history:
            if op == "s":
                r = sx.attempt(b.sign, cert, key, [extra])
                sx.check(r.ok, "the payload can be signed")
            elif op == "u":
                current = pays[1]
                b.update_payload(current)
            else:
                before = len(made)
                r = sx.attempt(b.finalize, False)
                if not r.ok:
                    sx.check(len(made) == before, "nothing is signed when finalizing fails")
                    sx.cover("unsigned")
                    continue
                sx.check(len(made) == before + 1, "finalizing signs once")
                data, signers, certs, options = made[-1]
                sx.check(sx.eq(data, sx.cat(head, current)), "what is signed is name, GUID, attributes, timestamp and the payload that is sent")
                sx.check(len(signers) == 1 and signers[0][0] is cert and signers[0][1] is key and len(certs) == 1 and certs[0] is extra.certificate, "signer and certificates are those given")
                sx.check(set(options) == {real.PKCS7Options.DetachedSignature, real.PKCS7Options.Binary, real.PKCS7Options.NoAttributes}, "the signature is detached, binary and without attributes")
                sig = SIGNATURES[len(made) - 1]
                sx.check(sx.and_(sx.eq(r.value.encode(), var_bytes(sx, f, sig, current)), sx.eq(b.get_signature(), sig)), "the variable carries the signature and the payload that was signed")
                sx.cover("signed")
    finally:
        A.pkcs7 = real


def offset_payload(sx, skip, n):
    """the payload is what follows the position of the stream"""
    f, t = when(sx)
    all_ = sx.bytes("all", skip + n)
    s = sx.stream(all_)
    s.seek(skip)
    b = A.EfiVariableAuthentication2Builder("x", uuid.UUID(int=0), 0, s, t)
    sx.check(sx.eq(b.get_digest(), sx.cat(b"x\0", bytes(20), stamp(sx, f), all_[skip:])), "what is signed is the rest of the stream")
    sx.check(sx.eq(b.authenticated_variable.encode(), var_bytes(sx, f, b"", all_[skip:])), "what is sent is the rest of the stream")


def digest_attrs(sx):
    """attributes given by name are signed as their bits"""
    f, t = when(sx)
    g = sx.uuid("guid")
    i = sx.choice("i", 4)
    text, bits = [("NV,BS,RT,AT", 0x27), ("EFI_VARIABLE_NON_VOLATILE", 1), ("nv, at, ap", 0x61), ("BS", 2)][i]
    b = A.EfiVariableAuthentication2Builder("db", str(g), text, None, t)
    sx.check(sx.eq(b.get_digest(), sx.cat(b"d\0b\0", g.bytes_le, sx.le(bits, 4), stamp(sx, f))), "names of attributes are signed as their bits")


suite.add(Case("time-stream", time_decode, "any 16 bytes", via="stream"))
suite.add(Case("time-binary", time_decode, "any 16 bytes", via="binary"))
for n in (0, 15):
    suite.add(Case("time-short-%d" % n, time_short, "any %d bytes" % n, n=n))
for c, p in ((0, 0), (1, 1), (3, 5), (300, 2), (2, 300)):
    suite.add(Case("variable-%d-%d" % (c, p), variable, "any time (years 1900-9999, days 1-28), certificate of %d and payload of %d bytes (payloads over 27 bytes: list size field 0xFFFFFFFF)" % (c, p), clen=c, plen=p))
for k in (1, 2):
    suite.add(Case("siglist-%d" % k, siglist, "any %d digests" % k, k=k))
for n, p, via in ((0, 0, "bytes"), (1, 1, "bytes"), (2, 3, "stream"), (1, 0, "stream")):
    suite.add(Case("digest-%d-%d-%s" % (n, p, via), digest, "any %d-character name, GUID, attributes, time, %d-byte payload" % (n, p), nlen=n, plen=p, via=via))
suite.add(Case("digest-attrs", digest_attrs, "any GUID and time"))
for h in ("sf", "suf", "susf", "sfusf", "f", "usf", "ufs", "sfuf"):
    for a, c in ((2, 3), (1, 0), (0, 2)):
        suite.add(Case("signing-%s-%d-%d" % (h, a, c), signing, "sign (s), replace the payload (u) and finalize (f) in the order %s; any payloads of %d and %d bytes" % (h, a, c), plen=a, plen2=c, history=h))
for a, c in ((0, 3), (2, 3), (3, 0)):
    suite.add(Case("offset-%d-%d" % (a, c), offset_payload, "any stream of %d bytes read from %d" % (a + c, a), skip=a, n=c))
