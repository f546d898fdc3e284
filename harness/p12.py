"""P12 TPM command streams and policy digests."""

import edk2toollib.tpm.tpm2_policy_calc as pc
import edk2toollib.tpm.tpm2_stream as ts
from sx.case import Case, Suite

suite = Suite()
COVER = ["stream", "loc-ok", "loc-bad", "tree", "cc-ok", "cc-bad", "real"]
ASSUMPTIONS = ["The hash inside policy digests is abstracted by an injective function with the same interface (get_size, hash): the claim is about what is hashed, in which order."]


class Hash:
    """injective stand-in for the digest"""

    def __init__(self, sx, size):
        self.sx, self.size = sx, size

    def get_size(self):
        return self.size

    def hash(self, data):
        return self.sx.cat(b"<", len(data).to_bytes(2, "big"), data, b">")


def be(sx, v, n):
    return sx.cat(*[sx.le((v >> (8 * (n - 1 - i))) & 0xFF, 1) for i in range(n)])


SIZES = {1: 0xFF, 2: 0xFFFF, 4: 0xFFFFFFFF, 8: 0xFFFFFFFFFFFFFFFF}


def stream(sx, shape):
    """header with the total size, then the elements in order, all big-endian"""
    tag, code, wrong = sx.u16("tag"), sx.u32("code"), sx.u32("size")
    s = ts.Tpm2CommandStream(tag, wrong, code)
    body = b""
    parts = []
    for i, k in enumerate(shape):
        if k[0] == "p":
            v = sx.int("v%d" % i, 0, SIZES[k[1]])
            parts.append((ts.Tpm2StreamPrimitive(k[1], v), be(sx, v, k[1])))
        elif k[0] == "u":
            d = sx.bytes("d%d" % i, k[1])
            b = ts.TPM2B(b"??????????")
            b.update_data(d)
            parts.append((b, sx.cat(k[1].to_bytes(2, "big"), d)))
        else:
            d = sx.bytes("d%d" % i, k[1])
            parts.append((ts.TPM2B(d), sx.cat(k[1].to_bytes(2, "big"), d)))
    sx.check(sx.eq(s.get_stream(), sx.cat(be(sx, tag, 2), be(sx, 10, 4), be(sx, code, 4))), "an empty command is its header")
    for el, b in parts:
        sx.check(el.get_size() == len(b), "an element reports the size it is written with")
        sx.check(sx.eq(el.marshal(), b), "an element is big-endian, buffers are preceded by their 16-bit length")
        s.add_element(el)
        body = sx.cat(body, b)
        sx.check(s.get_size() == 10 + len(body), "the command reports its total size")
        sx.check(
            sx.eq(s.get_stream(), sx.cat(be(sx, tag, 2), (10 + len(body)).to_bytes(4, "big"), be(sx, code, 4), body)),
            "the command is tag, total size, code and elements in order",
        )
    sx.cover("stream")


def updated(sx, first, second, twice):
    """elements that change after they were added, or are added twice"""
    tag, code, v, w = sx.u16("tag"), sx.u32("code"), sx.u32("v"), sx.u32("w")
    s = ts.Tpm2CommandStream(tag, 0, code)
    a, p = ts.TPM2B(sx.bytes("a", first)), ts.Tpm2StreamPrimitive(4, v)
    els = [a, p, a] if twice else [a, p]
    for e in els:
        s.add_element(e)
    d = sx.bytes("b", second)
    a.update_data(d)
    p.value = w
    b1 = sx.cat(second.to_bytes(2, "big"), d)
    body = sx.cat(b1, be(sx, w, 4), b1) if twice else sx.cat(b1, be(sx, w, 4))
    want = sx.cat(be(sx, tag, 2), (10 + len(body)).to_bytes(4, "big"), be(sx, code, 4), body)
    sx.check(s.get_size() == len(want), "the command reports its total size after an element was updated")
    sx.check(sx.eq(s.get_stream(), want), "the command has the elements' current values and its size is its length")
    sx.check(sx.eq(s.get_stream(), want), "marshalling twice gives the same bytes")
    other = ts.Tpm2CommandStream(tag, 0, code)
    sx.check(len(other.get_stream()) == 10, "another command has no elements")


def primitive_range(sx):
    n = sx.int("n", 0, 16)
    v = sx.int("v", -(1 << 64), 1 << 65)
    r = sx.attempt(ts.Tpm2StreamPrimitive, n, v)
    sx.check(r.ok == sx.or_(n == 1, n == 2, n == 4, n == 8), "primitives have 1, 2, 4 or 8 bytes")
    if not r.ok:
        return
    m = sx.attempt(r.value.marshal)
    top = sx.ite(n == 1, SIZES[1], sx.ite(n == 2, SIZES[2], sx.ite(n == 4, SIZES[4], SIZES[8])))
    sx.check(m.ok == sx.and_(v >= 0, v <= top), "a value that does not fit its size is refused")
    if m.ok:
        sx.check(len(m.value) == n, "a primitive has its size")


def locality(sx, n):
    """TPM 2.0 part 2, TPMA_LOCALITY: bits for 0..4, values 32..255 alone"""
    ls = [sx.int("l%d" % i, -2, 300) for i in range(n)]
    r = sx.attempt(pc.PolicyLocality, ls)
    low = [sx.and_(x >= 0, x <= 4) for x in ls]
    high = [sx.and_(x >= 32, x <= 255) for x in ls]
    good = sx.or_(sx.and_(*low), *([high[0]] if n == 1 else []))
    sx.check(r.ok == good, "localities 0-4 combine, 32-255 stand alone, others are refused")
    if not r.ok:
        sx.check(r.raised(ValueError), "refusal is a ValueError")
        sx.cover("loc-bad")
        return
    want = 0
    for x in ls:
        want = want | sx.ite(x <= 4, 1 << sx.ite(x <= 4, x, 0), x)
    sx.check(r.value.get_bitfield() == want, "the bit of every locality is set and no other")
    sx.check(sx.eq(r.value.get_buffer_for_digest(), sx.cat(b"\0\0\x01\x6f", sx.le(want, 1))), "the locality claim is its command code and its byte")
    sx.cover("loc-ok")


CC = {"TPM_CC_Clear": 0x126, "TPM_CC_ClearControl": 0x127, "TPM_CC_Quote": 0x158, "TPM_CC_NV_UndefineSpaceSpecial": 0x11F, "TPM_CC_PolicyCommandCode": 0x16C, "TPM_CC_EC_Ephemeral": 0x18E}


def command(sx):
    name = sx.pick("name", sorted(CC))
    p = pc.PolicyCommandCode(name)
    sx.check(p.get_code() == name, "the claim names its command")
    sx.check(sx.eq(p.get_buffer_for_digest(), b"\0\0\x01\x6c" + CC[name].to_bytes(4, "big")), "the command claim is its own command code and the command's")
    sx.cover("cc-ok")
    t = sx.text("t", 5, alphabet="TPM_Cl")
    r = sx.attempt(pc.PolicyCommandCode, t)
    sx.check(r.raised(ValueError), "an unknown command is refused")
    sx.cover("cc-bad")


def prim(sx, tag):
    """a claim and the bytes it adds"""
    if sx.choice("kind" + tag, 2):
        a = sx.int("loc" + tag, 32, 255)
        return pc.PolicyLocality([a]), sx.cat(b"\0\0\x01\x6f", sx.le(a, 1))
    n = sx.pick("cc" + tag, ["TPM_CC_Clear", "TPM_CC_EC_Ephemeral"])
    return pc.PolicyCommandCode(n), b"\0\0\x01\x6c" + CC[n].to_bytes(4, "big")


def tree(sx, shape, size):
    """policy digests compose as TPM 2.0 part 1, 19.7 says: each claim extends, OR resets and lists the branches"""
    h = Hash(sx, size)
    zero = bytes(size)
    count = [0]

    def build(sh):
        if sh == "s":
            count[0] += 1
            p, b = prim(sx, str(count[0]))
            node = pc.PolicyTreeSolo(p)
            sx.check(sx.eq(node.get_policy_buffer(h), sx.cat(zero, b)), "a single claim extends the empty digest")
            return node, h.hash(sx.cat(zero, b))
        if sh[0] == "a":
            ps, d = [], zero
            for _ in range(sh[1]):
                count[0] += 1
                p, b = prim(sx, str(count[0]))
                ps.append(p)
                d = h.hash(sx.cat(d, b))
            return pc.PolicyTreeAnd(ps), d
        kids = [build(k) for k in sh[1:]]
        node = pc.PolicyTreeOr([k for k, _ in kids])
        buf = sx.cat(zero, b"\0\0\x01\x71", *[d for _, d in kids])
        sx.check(sx.eq(node.get_policy_buffer(h), buf), "an alternative lists its branches after its command code")
        return node, h.hash(buf)

    node, want = build(shape)
    sx.check(node.validate(), "a tree of claims is valid")
    sx.check(sx.eq(node.get_policy(h), want), "the policy digest is the one the TPM computes")
    sx.check(sx.eq(node.get_policy(h), want), "computing a digest twice gives the same digest")
    sx.cover("tree")


def limits(sx):
    n = sx.choice("n", 11)
    solo = pc.PolicyTreeSolo(pc.PolicyLocality([0]))
    r = sx.attempt(pc.PolicyTreeOr, [solo] * n)
    sx.check(r.ok == (n <= 8), "an alternative has at most 8 branches")
    sx.check(not sx.attempt(pc.PolicyTreeAnd, [solo]).ok, "only claims can be joined")
    sx.check(not sx.attempt(pc.PolicyTreeSolo, solo).ok, "only a claim can stand alone")
    bad = pc.PolicyTreeOr([solo, object()])
    sx.check(not bad.validate(), "an alternative with a branch that is no policy is invalid")
    sx.check(not pc.PolicyTreeOr([solo, pc.PolicyTreeOr([solo, bad])]).validate(), "validity is that of all branches")


def real(sx):
    """the real digests"""
    import hashlib

    for n, sz in (("sha256", 32), ("sha384", 48)):
        h = pc.PolicyHasher(n)
        sx.check(h.get_size() == sz, "digest size")
        for m in (b"", b"abc", bytes(range(200))):
            sx.check(h.hash(m) == hashlib.new(n, m).digest(), "digest of the named algorithm")
    t = sx.text("t", 6, alphabet="sha12563840")
    sx.assume(sx.not_(sx.eq(t, "sha256")))
    sx.assume(sx.not_(sx.eq(t, "sha384")))
    sx.check(sx.attempt(pc.PolicyHasher, t).raised(ValueError), "an unknown algorithm is refused")
    sx.cover("real")


P = lambda n: ("p", n)
for sh in [(P(1),), (P(2), P(4)), (P(8), ("b", 0), P(1)), (("b", 3), P(2)), (("u", 2), ("b", 300), P(1)), (("b", 1), ("u", 0))]:
    suite.add(Case("stream-" + "-".join("%s%d" % k for k in sh), stream, "any tag, code, values and buffers; elements %s" % (sh,), shape=sh))
for a, b, t in ((3, 1, False), (0, 2, True), (2, 300, False), (5, 0, True)):
    suite.add(Case("updated-%d-%d" % (a, b), updated, "any command with a %d-byte buffer replaced by %d bytes%s" % (a, b, ", added twice" if t else ""), first=a, second=b, twice=t))
suite.add(Case("primitive", primitive_range, "sizes 0-16, values -2^64..2^65"))
for n in (1, 2, 3):
    suite.add(Case("locality-%d" % n, locality, "any %d localities in -2..300" % n, n=n))
suite.add(Case("locality-5", locality, "any 5 localities in -2..300", n=5), tier="thorough")
suite.add(Case("command", command, "six commands; every 5-character word over TPM_Cl"))
A = lambda n: ("a", n)
for sh in ["s", A(0), A(1), A(3), ("o", "s"), ("o", "s", A(2)), ("o", ("o", "s", "s"), A(1)), ("o",), ("o", A(2), ("o", "s", ("o", "s")))]:
    suite.add(Case("tree-%s" % (str(sh).replace(" ", "").replace("'", "")), tree, "policy tree %s of locality and command claims, any upper locality" % (sh,), shape=sh, size=32))
suite.add(Case("tree-48", tree, "policy tree, 48-byte digest", shape=("o", "s", A(2)), size=48))
suite.add(Case("tree-o8", tree, "an alternative of 8 claims", shape=("o", "s", "s", "s", "s", "s", "s", "s", "s"), size=32), tier="thorough")
suite.add(Case("limits", limits, "0 to 10 branches"))
suite.add(Case("real", real, "fixed messages; every 6-character name over sha12563840"))
