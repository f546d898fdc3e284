"""P09 signature lists and databases (db/dbx/KEK contents): encoding, sizes, refusal of inconsistent sizes."""

import uuid

import edk2toollib.uefi.authenticated_variables_structure_support as A
from sx.case import Case, Suite

suite = Suite()
COVER = ["esl-ok", "esl-bad", "db-ok", "built", "x509-bad"]

SHA = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328")
X509 = uuid.UUID("a5c059a1-94e4-4aa7-87b5-ab155c2bf072")


def esl_bytes(sx, typ, owners, datas):
    n = 16 + (len(datas[0]) if datas else 0)
    out = sx.cat(typ.bytes_le, sx.le(28 + n * len(datas), 4), sx.le(0, 4), sx.le(n if datas else 0, 4))
    for o, d in zip(owners, datas):
        out = sx.cat(out, o, d)
    return out


def same(sx, esl, typ, owners, datas):
    n = 16 + (len(datas[0]) if datas else 0)
    ok = [esl.signature_type == typ, esl.signature_list_size == 28 + n * len(datas), esl.signature_header_size == 0,
          len(esl.signature_data_list or []) == len(datas)]
    if datas:
        ok.append(esl.signature_size == n)
    for x, o, d in zip(esl.signature_data_list or [], owners, datas):
        ok += [x.signature_owner == uuid.UUID(bytes_le=o), sx.eq(x.signature_data, d), x.get_total_size() == n]
    return sx.and_(*ok)


def inputs(sx, typ, k, n, pre=""):
    n = 32 if typ == SHA else n
    return [sx.bytes("%so%d" % (pre, i), 16) for i in range(k)], [sx.bytes("%sd%d" % (pre, i), n) for i in range(k)]


def decode(sx, typ, k, n, pre, post):
    """a list of k signatures in the middle of a stream"""
    typ = {"sha": SHA, "x509": X509}[typ]
    owners, datas = inputs(sx, typ, k, n)
    body = esl_bytes(sx, typ, owners, datas)
    f = sx.stream(sx.cat(sx.bytes("pre", pre), body, sx.bytes("post", post)))
    f.seek(pre)
    esl = A.EfiSignatureList(f)
    sx.check(f.tell() == pre + len(body), "decoding consumes exactly the list")
    sx.check(same(sx, esl, typ, owners, datas), "every owner and every signature decodes")
    sx.check(sx.eq(esl.encode(), body), "a decoded list encodes to the same bytes")
    out = sx.stream(b"")
    esl.write(out)
    sx.check(sx.eq(out.getvalue(), body), "write emits the encoding")
    # another list in the same object
    for k2, t2 in ((1, SHA if typ == X509 else X509), (0, typ)):
        o2, d2 = inputs(sx, t2, k2, 2, "again%d" % k2)
        body2 = esl_bytes(sx, t2, o2, d2)
        esl.decode(sx.stream(body2))
        sx.check(sx.and_(same(sx, esl, t2, o2, d2), sx.eq(esl.encode(), body2)), "decoding into a used list replaces everything")
    sx.cover("esl-ok")


def build(sx, typ, k, n):
    """built signature by signature"""
    typ = {"sha": SHA, "x509": X509}[typ]
    owners, datas = inputs(sx, typ, k, n)
    m = 16 + (32 if typ == SHA else n)
    esl = A.EfiSignatureList(typeguid=typ)
    sx.check(not sx.attempt(esl.encode).ok, "a list without a header size is refused")
    esl.AddSignatureHeader(None, SigSize=m)
    for o, d in zip(owners, datas):
        if typ == SHA:
            x = A.EfiSignatureDataEfiCertSha256(digest=d, sigowner=uuid.UUID(bytes_le=o))
        else:
            x = A.EfiSignatureDataEfiCertX509(cert=d, sigowner=uuid.UUID(bytes_le=o))
        esl.AddSignatureData(x)
        sx.check(sx.eq(x.encode(), sx.cat(o, d)), "a signature encodes as owner and data")
    other = A.EfiSignatureDataEfiCertX509(cert=bytes(m), sigowner=SHA)
    sx.check(not sx.attempt(esl.AddSignatureData, other).ok, "a signature of another size is refused")
    exp = sx.cat(typ.bytes_le, sx.le(28 + m * k, 4), sx.le(0, 4), sx.le(m, 4), *[sx.cat(o, d) for o, d in zip(owners, datas)])
    sx.check(sx.eq(esl.encode(), exp), "a built list has the specified bytes")
    f = sx.stream(exp)
    again = A.EfiSignatureList(f)
    sx.check(sx.and_(f.tell() == len(exp), sx.eq(again.encode(), exp)), "a built list can be read back")
    sx.check(len(again.signature_data_list or []) == k, "reading back finds every signature")
    sx.cover("built")


def refuse(sx, n, typ):
    """any n bytes: accepted only when the sizes are consistent and inside the stream"""
    buf = sx.bytes("buf", n)
    t = {"sha": SHA, "x509": X509}[typ]
    sx.assume(uuid.UUID(bytes_le=buf[0:16]) == t)
    total, head, size = sx.uint(buf[16:20]), sx.uint(buf[20:24]), sx.uint(buf[24:28])
    f = sx.stream(buf)
    r = sx.attempt(A.EfiSignatureList, f)
    fits = sx.and_(total >= 28, total <= n, head == 0)
    sx.check(sx.implies(r.ok, fits), "a list outside its stream, shorter than its header or with an unknown header is refused")
    if not r.ok:
        sx.check(sx.not_(sx.and_(fits, total == 28)), "an empty list is accepted")
        if n > 28 + 16 and t == X509:
            sx.check(sx.not_(sx.and_(fits, total == n, size == n - 28)), "a single signature filling the list is accepted")
        sx.cover("esl-bad")
        return
    total = int(total)
    sx.check(sx.or_(total == 28, sx.and_(size >= 16, *[sx.implies(size == s, (total - 28) % s == 0) for s in range(16, n)])), "the list holds whole signatures")
    sx.check(sx.and_(f.tell() == total, sx.eq(r.value.encode(), buf[:total])), "an accepted list encodes to the bytes consumed")


def unknown_type(sx):
    g, d = sx.bytes("type", 16), sx.bytes("data", 20)
    sx.assume(sx.and_(uuid.UUID(bytes_le=g) != SHA, uuid.UUID(bytes_le=g) != X509))
    r = sx.attempt(A.EfiSignatureList, sx.stream(sx.cat(g, sx.le(48, 4), sx.le(0, 4), sx.le(20, 4), d)))
    sx.check(not r.ok, "a signature type that is not supported is refused")


def x509_size(sx, n):
    """decode size against the stream"""
    size = sx.int("size", 0, n + 3)
    buf = sx.bytes("buf", n)
    f = sx.stream(buf)
    r = sx.attempt(A.EfiSignatureDataEfiCertX509, f, size)
    sx.check(r.ok == sx.and_(size >= 16, size <= n), "X509 data is accepted exactly when owner and size fit")
    if not r.ok:
        sx.cover("x509-bad")
        return
    size = int(size)
    sx.check(sx.and_(sx.eq(r.value.encode(), buf[:size]), f.tell() == size, r.value.get_total_size() == size), "X509 data consumes and encodes its size")


def sha_hash(sx, n):
    c, o = sx.bytes("content", n), sx.uuid("owner")
    d = A.EfiSignatureDataFactory.create(SHA, sx.stream(c), o)
    import hashlib

    sx.check(sx.and_(sx.eq(d.signature_data, hashlib.sha256(c).digest()), d.signature_owner == o), "a SHA256 signature created from content is its digest")
    x = A.EfiSignatureDataFactory.create(X509, sx.stream(c), o)
    sx.check(sx.and_(sx.eq(x.signature_data, c), x.signature_owner == o, x.get_total_size() == 16 + n), "an X509 signature created from content holds it")
    sx.check(not sx.attempt(A.EfiSignatureDataEfiCertSha256, None, None, sx.bytes("digest", 31), o).ok, "a digest of the wrong length is refused")


def database(sx, lists):
    parts, models = b"", []
    for i, (t, k, n) in enumerate(lists):
        typ = {"sha": SHA, "x509": X509}[t]
        owners, datas = inputs(sx, typ, k, n, "l%d" % i)
        models.append((typ, owners, datas))
        parts = sx.cat(parts, esl_bytes(sx, typ, owners, datas))
    db = A.EfiSignatureDatabase(sx.stream(parts))
    sx.check(len(db.esl_list) == len(lists), "every list of the database is found")
    sx.check(sx.and_(*[same(sx, e, *m) for e, m in zip(db.esl_list, models)]), "every list of the database decodes")
    sx.check(sx.eq(db.encode(), parts), "a decoded database encodes to the same bytes")
    f = sx.stream(b"")
    db.write(f)
    sx.check(sx.eq(f.getvalue(), parts), "write emits the encoding")
    db.decode(sx.stream(b""))
    sx.check(sx.and_(len(db.esl_list) == 0, db.encode() == b""), "decoding replaces the earlier lists")
    for cut in (1, 27):
        sx.check(not sx.attempt(A.EfiSignatureDatabase, sx.stream(sx.cat(parts, bytes(cut)))).ok, "trailing bytes that are no list are refused")
    sx.cover("db-ok")


for t, k, n in (("sha", 0, 0), ("sha", 1, 0), ("sha", 3, 0), ("x509", 1, 0), ("x509", 1, 5), ("x509", 2, 3), ("x509", 1, 300), ("sha", 9, 0)):
    for pre, post in ((0, 0), (5, 3)):
        suite.add(Case("decode-%s-%d-%d-%d" % (t, k, n, pre), decode, "any owners and data; %d signatures of %d bytes" % (k, n), typ=t, k=k, n=n, pre=pre, post=post))
    suite.add(Case("build-%s-%d-%d" % (t, k, n), build, "any owners and data; %d signatures of %d bytes" % (k, n), typ=t, k=k, n=n))
for t in ("sha", "x509"):
    for n in (28, 40, 46, 60, 76):
        suite.add(Case("refuse-%s-%d" % (t, n), refuse, "any %d-byte list, any sizes" % n, n=n, typ=t))
suite.add(Case("unknown-type", unknown_type, "any other type GUID"))
for n in (0, 15, 16, 20):
    suite.add(Case("x509-size-%d" % n, x509_size, "any decode size up to %d over %d bytes" % (n + 3, n), n=n))
for n in (0, 4, 65):
    suite.add(Case("create-%d" % n, sha_hash, "any %d bytes of content (hash uninterpreted)" % n, n=n))
for i, l in enumerate(([], [("sha", 1, 0)], [("sha", 0, 0), ("x509", 1, 2)], [("x509", 1, 3), ("sha", 2, 0), ("x509", 1, 0)], [("sha", 1, 0), ("sha", 2, 0), ("x509", 2, 7), ("x509", 1, 260)])):
    suite.add(Case("database-%d" % i, database, "any owners and data in lists %s" % (l,), lists=l))
