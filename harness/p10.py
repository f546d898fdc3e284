"""P10 canonical signature databases: sorted, deduplicated, nothing lost, the input left alone."""

import uuid

import edk2toollib.uefi.authenticated_variables_structure_support as A
from sx.case import Case, Suite

suite = Suite()
COVER = ["dup", "nodup", "merged", "x509dup", "x509nodup"]

SHA = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328")
X509 = uuid.UUID("a5c059a1-94e4-4aa7-87b5-ab155c2bf072")


def sha_list(sx, pre, k, w):
    """k digests, the last w bytes of each (and the first owner byte) symbolic"""
    esl = A.EfiSignatureList(typeguid=SHA)
    esl.AddSignatureHeader(None, SigSize=48)
    items = []
    for i in range(k):
        o = uuid.UUID(bytes_le=sx.cat(sx.bytes("%so%d" % (pre, i), 1), bytes(15)))
        d = sx.cat(b"\x80" * (32 - w), sx.bytes("%sd%d" % (pre, i), w))
        esl.AddSignatureData(A.EfiSignatureDataEfiCertSha256(digest=d, sigowner=o))
        items.append((o, d))
    return esl, items


def x509_list(sx, pre, n):
    esl = A.EfiSignatureList(typeguid=X509)
    o = uuid.UUID(bytes_le=sx.cat(sx.bytes(pre + "o", 1), bytes(15)))
    d = sx.bytes(pre + "d", n)
    esl.AddSignatureHeader(None, SigSize=16 + n)
    esl.AddSignatureData(A.EfiSignatureDataEfiCertX509(cert=d, sigowner=o))
    return esl, (o, d)


def data(esl):
    return [(x.signature_owner, x.signature_data) for x in esl.signature_data_list or []]


def same_multiset(sx, a, b):
    """a and b hold the same (owner, data) pairs equally often"""
    if len(a) != len(b):
        return False
    out = []
    for o, d in a:
        ca = [sx.ite(sx.and_(o == p, sx.eq(d, e)), 1, 0) for p, e in a]
        cb = [sx.ite(sx.and_(o == p, sx.eq(d, e)), 1, 0) for p, e in b]
        out.append(sum(ca) == sum(cb))
    return sx.and_(*out)


def lt(sx, a, b):
    """bytes a < b, without forking"""
    r = False
    for x, y in zip(reversed(list(a)), reversed(list(b))):
        r = sx.or_(x < y, sx.and_(x == y, r))
    return r if len(a) == len(b) else (a < b)


def sized(sx, esl, per):
    n = len(esl.signature_data_list or [])
    return sx.and_(esl.signature_list_size == 28 + per * n, len(esl.encode()) == 28 + per * n)


def sort(sx, k, w, dedupe):
    esl, items = sha_list(sx, "", k, w)
    dupes = esl.SortBySignatureDataValue(deduplicate=dedupe)
    out = data(esl)
    if dedupe:
        sx.check(sx.and_(*[lt(sx, a[1], b[1]) for a, b in zip(out, out[1:])]), "sorted and deduplicated data strictly ascends")
        sx.check(sx.and_(*[sx.or_(*[sx.eq(d, e) for _, e in out]) for _, d in data(dupes)]), "every removed duplicate still has its data in the list")
    else:
        sx.check(sx.and_(*[sx.not_(lt(sx, b[1], a[1])) for a, b in zip(out, out[1:])]), "sorted data ascends")
        sx.check(len(data(dupes)) == 0, "sorting alone removes nothing")
    sx.check(same_multiset(sx, items, out + data(dupes)), "no signature is lost or invented")
    sx.check(sx.and_(sized(sx, esl, 48), sized(sx, dupes, 48)), "the list sizes follow the content")
    if dupes.signature_data_list:
        sx.check(dupes.signature_size == 48, "a non-empty duplicate list has its signature size")
        sx.cover("dup")
    else:
        sx.cover("nodup")
    again = A.EfiSignatureList(sx.stream(esl.encode()))
    sx.check(sx.eq(again.encode(), esl.encode()), "the sorted list can be read back")
    back = A.EfiSignatureList(sx.stream(dupes.encode()))
    sx.check(sx.eq(back.encode(), dupes.encode()), "the duplicate list can be read back")


def merge(sx, ks, w):
    """lists of digests become one"""
    lists = [sha_list(sx, "l%d" % i, k, w) for i, k in enumerate(ks)]
    db = A.EfiSignatureDatabase(esl_list=[e for e, _ in lists])
    before = db.encode()
    items = [x for _, it in lists for x in it]
    canon, dupes = db.get_canonical_and_dupes()
    sx.check(sx.eq(db.encode(), before), "computing the canonical form leaves the database unchanged")
    got = [x for e in canon.esl_list for x in data(e)]
    gone = [x for e in dupes.esl_list for x in data(e)]
    sx.check(same_multiset(sx, items, got + gone), "no signature is lost or invented")
    sx.check(sx.and_(*[lt(sx, a[1], b[1]) for a, b in zip(got, got[1:])]), "canonical digests strictly ascend")
    sx.check(len(canon.esl_list) == (1 if items else len(canon.esl_list)), "all digests are merged into one list")
    sx.check(sx.and_(*[sized(sx, e, 48) for e in canon.esl_list + dupes.esl_list]), "the list sizes follow the content")
    c2, d2 = db.get_canonical(), db.get_duplicates()
    sx.check(sx.and_(sx.eq(c2.encode(), canon.encode()), sx.eq(d2.encode(), dupes.encode())), "the canonical form does not depend on earlier calls")
    c3, d3 = canon.get_canonical_and_dupes()
    sx.check(sx.eq(c3.encode(), canon.encode()), "the canonical form is a fixed point")
    sx.check(len([x for e in d3.esl_list for x in data(e)]) == 0, "the canonical form has no duplicates")
    sx.cover("merged")


def x509(sx, sizes, k):
    """certificates, one list each, plus k digests"""
    certs = [x509_list(sx, "c%d" % i, n) for i, n in enumerate(sizes)]
    esls = [e for e, _ in certs]
    items = [it for _, it in certs]
    sha = []
    if k:
        e, sha = sha_list(sx, "s", k, 1)
        esls.insert(1, e)
    db = A.EfiSignatureDatabase(esl_list=esls)
    before = db.encode()
    canon, dupes = db.get_canonical_and_dupes()
    sx.check(sx.eq(db.encode(), before), "computing the canonical form leaves the database unchanged")
    types = [e.signature_type for e in canon.esl_list]
    sx.check(types == [SHA] * (1 if k else 0) + [X509] * (len(types) - (1 if k else 0)), "digests come first, then certificates")
    got = [x for e in canon.esl_list if e.signature_type == X509 for x in data(e)]
    gone = [x for e in dupes.esl_list if e.signature_type == X509 for x in data(e)]
    sx.check(same_multiset(sx, items, got + gone), "no certificate is lost or invented")
    sx.check(sx.and_(*[lt(sx, a[1], b[1]) for a, b in zip(got, got[1:])]), "canonical certificates strictly ascend")
    sx.check(sx.and_(*[sx.or_(*[sx.eq(d, e) for _, e in got]) for _, d in gone]), "every removed certificate is still in the canonical form")
    s = [x for e in canon.esl_list + dupes.esl_list if e.signature_type == SHA for x in data(e)]
    sx.check(same_multiset(sx, sha, s), "no digest is lost or invented")
    sx.cover("x509dup" if gone else "x509nodup")


def merge_rules(sx):
    a, ia = sha_list(sx, "a", 1, 1)
    b, ib = x509_list(sx, "b", 32)
    r = sx.attempt(a.MergeSignatureList, b)
    sx.check(not r.ok, "lists of different types do not merge")
    c, ic = x509_list(sx, "c", 32)
    sx.check(not sx.attempt(b.MergeSignatureList, c).ok, "certificate lists do not merge")
    sx.check(sx.and_(sx.eq(data(a), ia), sx.eq(data(b), [ib])), "a refused merge changes nothing")
    z, _ = sha_list(sx, "z", 0, 1)
    full, ifull = sha_list(sx, "f", 2, 1)
    for j, empty in enumerate((z, A.EfiSignatureList(sx.stream(z.encode())), full.SortBySignatureDataValue(deduplicate=False))):
        m, im = sha_list(sx, "m%d" % j, 1, 1)
        sx.check(sx.attempt(m.MergeSignatureList, empty).ok, "an empty list can be merged into another")
        sx.check(sx.and_(sx.eq(data(m), im), sized(sx, m, 48), m.signature_size == 48), "merging an empty list changes nothing")
    e = A.EfiSignatureList(typeguid=SHA)
    e.AddSignatureHeader(None, SigSize=0)
    d, idd = sha_list(sx, "d", 2, 1)
    e.MergeSignatureList(d)
    sx.check(sx.and_(sx.eq(data(e), idd), sized(sx, e, 48), e.signature_size == 48), "merging into an empty list copies the other")
    e.MergeSignatureList(a)
    sx.check(sx.and_(sx.eq(data(e), idd + ia), sized(sx, e, 48)), "merging appends")
    sx.check(sx.and_(sx.eq(data(d), idd), sized(sx, d, 48)), "the merged list is left alone")


for k, w in ((0, 1), (1, 1), (2, 2), (3, 1), (3, 2), (4, 1)):
    for dd in (True, False):
        suite.add(Case("sort-%d-%d-%s" % (k, w, dd), sort, "any %d digests differing in %d bytes, any owners" % (k, w), k=k, w=w, dedupe=dd, weight=k))
suite.add(Case("sort-5-1-True", sort, "any 5 digests differing in one byte", k=5, w=1, dedupe=True), tier="thorough")
for ks in ((1, 1), (2, 1), (0, 2), (1, 0, 2), (2, 2)):
    suite.add(Case("merge-%s" % "-".join(map(str, ks)), merge, "lists of %s digests differing in one byte" % (ks,), ks=ks, w=1, weight=sum(ks)))
suite.add(Case("merge-2-2-1", merge, "lists of 2, 2 and 1 digests", ks=(2, 2, 1), w=1), tier="thorough")
for sizes, k in (((2, 2), 0), ((2, 3), 1), ((1, 1, 1), 0), ((2, 2, 2), 1), ((32, 1), 1), ((0, 1), 0)):
    suite.add(Case("x509-%s-%d" % ("-".join(map(str, sizes)), k), x509, "any certificates of %s bytes, %d digests" % (sizes, k), sizes=sizes, k=k, weight=len(sizes)))
suite.add(Case("merge-rules", merge_rules, "any contents"))
