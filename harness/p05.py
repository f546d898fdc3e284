"""P05 signed firmware payloads: authentication header, WIN_CERTIFICATE and FMP payload header."""

import uuid

from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid
from sx.case import Case, Suite

suite = Suite()
COVER = ["payload-ok", "payload-bad", "cert-ok", "cert-bad", "auth-ok", "auth-bad", "pkcs1-ok", "pkcs1-bad", "factory-guid", "factory-pkcs1", "factory-none"]

PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")


def payload(sx, n):
    buf = sx.bytes("buf", n)
    p = FmpPayloadHeaderClass()
    r = sx.attempt(p.Decode, buf)
    if n < 16:
        sx.check(not r.ok, "a truncated payload header is refused")
        return
    sig, hs = sx.uint(buf[0:4]), sx.uint(buf[4:8])
    sx.check(r.ok == sx.and_(sig == 0x3153534D, hs >= 16, hs <= n), "a payload header is accepted exactly when signature and header size are valid")
    if not r.ok:
        sx.cover("payload-bad")
        return
    sx.cover("payload-ok")
    hs = int(hs)
    sx.check(
        sx.and_(p.FwVersion == sx.uint(buf[8:12]), p.LowestSupportedVersion == sx.uint(buf[12:16]), p.HeaderSize == hs,
                sx.eq(p.Payload, buf[hs:]), sx.eq(r.value, buf[hs:])),
        "versions and payload decode",
    )
    sx.check(sx.eq(p.Encode(), buf), "a decoded payload header encodes to the same bytes")


def payload_build(sx, n):
    p = FmpPayloadHeaderClass()
    fw, lsv, data = sx.u32("fw"), sx.u32("lsv"), sx.bytes("data", n)
    p.FwVersion, p.LowestSupportedVersion, p.Payload = fw, lsv, data
    exp = sx.cat(b"MSS1", sx.le(16, 4), sx.le(fw, 4), sx.le(lsv, 4), data)
    sx.check(sx.eq(p.Encode(), exp), "a payload header built from its fields has the specified bytes")
    q = FmpPayloadHeaderClass()
    sx.check(sx.eq(q.Decode(exp), data), "decode returns the payload")
    sx.check(sx.and_(q.FwVersion == fw, q.LowestSupportedVersion == lsv), "versions survive")


def cert(sx, n, via):
    """arbitrary bytes as a WIN_CERTIFICATE_UEFI_GUID"""
    buf = sx.bytes("buf", n)
    w = WinCertUefiGuid()
    if via == "bytes":
        r = sx.attempt(w.decode, buf)
    else:
        f = sx.stream(sx.cat(b"\x01\x02", buf))
        f.seek(2)
        r = sx.attempt(w.decode, f)
    if n < 24:
        sx.check(not r.ok, "a truncated certificate is refused")
        return
    dw = sx.uint(buf[0:4])
    good = sx.and_(dw >= 24, dw <= n, sx.uint(buf[4:6]) == 0x200, sx.uint(buf[6:8]) == 0x0EF1, uuid.UUID(bytes_le=buf[8:24]) == PKCS7)
    sx.check(r.ok == good, "a certificate is accepted exactly when revision, type, GUID and length are valid")
    if not r.ok:
        sx.cover("cert-bad")
        return
    sx.cover("cert-ok")
    dw = int(dw)
    sx.check(sx.and_(sx.eq(w.cert_data, buf[24:dw]), w.get_length() == dw, w.cert_type == PKCS7), "the certificate data is bounded by dwLength")
    sx.check(sx.eq(w.get_certificate(), buf[24:dw]), "get_certificate returns the data")
    if via == "bytes":
        sx.check(sx.eq(r.value, buf[dw:]), "decode returns what follows the certificate")
    else:
        sx.check(f.tell() == 2 + dw, "a stream is left right after the certificate")
    sx.check(sx.eq(w.encode(), buf[:dw]), "a decoded certificate encodes to the same bytes")


def cert_data(sx, n, m, via):
    """data added and replaced: the length always counts the current data"""
    w = WinCertUefiGuid()
    a, b = sx.bytes("a", n), sx.bytes("b", m)
    w.add_cert_data(a if via == "bytes" else sx.stream(a))
    sx.check(sx.and_(w.get_length() == 24 + n, sx.eq(w.get_certificate(), a)), "the length counts header and data")
    w.add_cert_data(b if via == "bytes" else sx.stream(b))
    sx.check(sx.and_(w.get_length() == 24 + m, sx.eq(w.get_certificate(), b)), "replacing the data replaces its length")
    exp = sx.cat(sx.le(24 + m, 4), sx.le(0x200, 2), sx.le(0x0EF1, 2), PKCS7.bytes_le, b)
    sx.check(sx.eq(w.encode(), exp), "encode writes the certificate header and data")
    f = sx.stream(b"")
    w.write(f)
    sx.check(sx.eq(f.getvalue(), exp), "write emits the encoding")


def auth(sx, n, clen):
    """count + certificate of clen bytes + n arbitrary bytes that should be a payload header"""
    mono, cd, tail = sx.u64("mono"), sx.bytes("cert", clen), sx.bytes("tail", n)
    buf = sx.cat(sx.le(mono, 8), sx.le(24 + clen, 4), sx.le(0x200, 2), sx.le(0x0EF1, 2), PKCS7.bytes_le, cd, tail)
    h = FmpAuthHeaderClass()
    r = sx.attempt(h.Decode, buf)
    if n == 0:
        good = True
    elif n < 16:
        good = False
    else:
        good = sx.and_(sx.uint(tail[0:4]) == 0x3153534D, sx.uint(tail[4:8]) >= 16, sx.uint(tail[4:8]) <= n)
    sx.check(r.ok == good, "an authenticated image is accepted exactly when its payload header is valid")
    sx.check(h.IsSigned(buf), "an image with a PKCS7 certificate is reported as signed")
    if not r.ok:
        sx.cover("auth-bad")
        return
    sx.cover("auth-ok")
    sx.check(sx.and_(h.MonotonicCount == mono, sx.eq(h.AuthInfo.cert_data, cd), sx.eq(h.Payload, tail), sx.eq(r.value, tail)), "count, certificate and payload decode")
    sx.check(sx.eq(h.Encode(), buf), "a decoded authenticated image encodes to the same bytes")


def is_signed(sx, n):
    buf = sx.bytes("buf", n)
    r = sx.attempt(FmpAuthHeaderClass().IsSigned, buf)
    if n < 32:
        good = False
    else:
        dw = sx.uint(buf[8:12])
        good = sx.and_(dw >= 24, dw <= n - 8, sx.uint(buf[12:14]) == 0x200, sx.uint(buf[14:16]) == 0x0EF1, uuid.UUID(bytes_le=buf[16:32]) == PKCS7)
    sx.check(r.ok, "the signed test answers for any buffer")
    sx.check(r.value == good, "an image is signed exactly when it holds a valid PKCS7 certificate")


def auth_build(sx, clen, plen, nested):
    mono, cd, data = sx.u64("mono"), sx.bytes("cert", clen), sx.bytes("data", plen)
    h = FmpAuthHeaderClass()
    h.MonotonicCount = mono
    h.AuthInfo.add_cert_data(cd)
    body = data
    if nested:
        h.FmpPayloadHeader = FmpPayloadHeaderClass()
        h.FmpPayloadHeader.FwVersion = fw = sx.u32("fw")
        h.FmpPayloadHeader.LowestSupportedVersion = lsv = sx.u32("lsv")
        h.FmpPayloadHeader.Payload = data
        body = sx.cat(b"MSS1", sx.le(16, 4), sx.le(fw, 4), sx.le(lsv, 4), data)
    else:
        h.Payload = data
    exp = sx.cat(sx.le(mono, 8), sx.le(24 + clen, 4), sx.le(0x200, 2), sx.le(0x0EF1, 2), PKCS7.bytes_le, cd, body)
    sx.check(sx.eq(h.Encode(), exp), "encode writes count, certificate and payload in order")
    sx.check(sx.eq(h.Encode(), exp), "encoding twice gives the same bytes")


def pkcs1(sx, n):
    buf = sx.bytes("buf", n)
    f = sx.stream(buf)
    w = WinCertPkcs1()
    r = sx.attempt(w.decode, f)
    if n < 25:
        sx.check(not r.ok, "a PKCS1 certificate without data is refused")
        return
    dw = sx.uint(buf[0:4])
    sx.check(r.ok == sx.and_(dw >= 24, dw <= n), "a PKCS1 certificate is accepted exactly when its length fits")
    if not r.ok:
        sx.cover("pkcs1-bad")
        return
    sx.cover("pkcs1-ok")
    dw = int(dw)
    sx.check(
        sx.and_(w.Hdr_wRevision == sx.uint(buf[4:6]), w.Hdr_wCertificateType == sx.uint(buf[6:8]), w.hash_algorithm == uuid.UUID(bytes_le=buf[8:24])),
        "PKCS1 header fields decode",
    )
    sx.check(sx.eq(bytes(w.cert_data), buf[24:dw]), "the PKCS1 data is bounded by dwLength")
    sx.check(f.tell() == dw, "the stream is left right after the PKCS1 certificate")
    sx.check(sx.eq(w.encode(), buf[:dw]), "a decoded PKCS1 certificate encodes to the same bytes")


def pkcs1_build(sx, n):
    w = WinCertPkcs1()
    h, d = sx.bytes("hash", 16), sx.bytes("data", n)
    sx.check(not sx.attempt(w.add_cert_data, sx.stream(d)).ok, "data before the hash algorithm is refused")
    w.set_hash_algorithm(uuid.UUID(bytes_le=h))
    w.add_cert_data(sx.stream(d))
    exp = sx.cat(sx.le(24 + n, 4), sx.le(0x200, 2), sx.le(0x0EF0, 2), h, d)
    sx.check(sx.eq(w.encode(), exp), "a PKCS1 certificate built from its fields has the specified bytes")
    sx.check(not sx.attempt(w.add_cert_data, sx.stream(d)).ok, "data is set only once")
    f = sx.stream(b"")
    w.write(f)
    sx.check(sx.eq(f.getvalue(), exp), "write emits the encoding")


def factory(sx, n):
    buf = sx.bytes("buf", n)
    f = sx.stream(sx.cat(b"\x00\x00\x00", buf))
    f.seek(3)
    if n < 8:
        sx.check(not sx.attempt(WinCert.factory, f).ok, "a truncated certificate header is refused")
        return
    dw, rev, typ = sx.uint(buf[0:4]), sx.uint(buf[4:6]), sx.uint(buf[6:8])
    r = sx.attempt(WinCert.factory, f)
    known = sx.or_(typ == 0x0EF0, typ == 0x0EF1)
    if not known:
        sx.check(sx.and_(r.ok, r.value is None), "an unknown certificate type yields nothing")
        sx.check(f.tell() == 3, "the stream is put back for an unknown type")
        sx.cover("factory-none")
        return
    if typ == 0x0EF1:
        good = sx.and_(dw >= 24, dw <= n, rev == 0x200, uuid.UUID(bytes_le=buf[8:24]) == PKCS7) if n >= 24 else False
    else:
        good = sx.and_(dw >= 24, dw <= n) if n >= 25 else False
    sx.check(r.ok == good, "the factory accepts exactly valid certificates")
    if r.ok:
        sx.check(isinstance(r.value, WinCertUefiGuid if typ == 0x0EF1 else WinCertPkcs1), "the certificate class follows the type field")
        sx.check(sx.eq(r.value.encode(), buf[: int(dw)]), "the factory's certificate encodes to the same bytes")
        sx.cover("factory-guid" if typ == 0x0EF1 else "factory-pkcs1")


for n in (0, 15, 16, 19, 24):
    suite.add(Case("payload-%d" % n, payload, "any %d-byte buffer" % n, n=n))
for n in (0, 1, 5, 256):
    suite.add(Case("payload-build-%d" % n, payload_build, "any fields, any %d-byte payload" % n, n=n))
for via in ("bytes", "stream"):
    for n in (0, 3, 4, 23, 24, 25, 30):
        suite.add(Case("cert-%s-%d" % (via, n), cert, "any %d-byte buffer" % n, n=n, via=via))
    for n, m in ((0, 0), (1, 4), (5, 2), (300, 7), (3, 256)):
        suite.add(Case("cert-data-%s-%d-%d" % (via, n, m), cert_data, "any data of %d then %d bytes" % (n, m), n=n, m=m, via=via))
for n, c in ((0, 0), (1, 2), (16, 0), (20, 3), (18, 256)):
    suite.add(Case("auth-%d-%d" % (n, c), auth, "any count, %d-byte certificate and %d-byte payload" % (c, n), n=n, clen=c))
for n in (0, 7, 8, 31, 32, 34):
    suite.add(Case("is-signed-%d" % n, is_signed, "any %d-byte buffer" % n, n=n))
for c, p, nst in ((0, 0, False), (3, 5, True), (300, 1, True), (2, 256, False)):
    suite.add(Case("auth-build-%d-%d" % (c, p), auth_build, "any fields, certificate %d bytes, payload %d" % (c, p), clen=c, plen=p, nested=nst))
for n in (0, 23, 24, 25, 28):
    suite.add(Case("pkcs1-%d" % n, pkcs1, "any %d-byte buffer" % n, n=n))
for n in (1, 4, 256):
    suite.add(Case("pkcs1-build-%d" % n, pkcs1_build, "any hash GUID, any %d-byte signature" % n, n=n))
for n in (0, 7, 8, 24, 26):
    suite.add(Case("factory-%d" % n, factory, "any %d-byte buffer" % n, n=n))
