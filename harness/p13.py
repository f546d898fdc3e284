"""P13 TPM simulator transport: one framed request, one whole response, however the socket splits them."""

import edk2toollib.tpm.tpm2_simulator as sim
from sx.case import Case, Suite

suite = Suite()
COVER = ["answered", "split", "closed", "power"]
ASSUMPTIONS = ["The sockets are stand-ins: send/sendall record bytes, recv returns any non-empty part of what was asked for, or nothing once the peer has closed."]


class Sock:
    def __init__(self, sx=None, incoming=b"", cuts=()):
        self.sx, self.out, self.inc, self.cuts, self.pos = sx, b"", incoming, list(cuts), 0
        self.peer = None

    def connect(self, addr):
        self.peer = addr

    def send(self, data):
        n = len(data)
        if self.cuts:
            k = self.cuts.pop(0)
            if k < n:
                n = k
        self.out = self.sx.cat(self.out, data[:n])
        return n

    def sendall(self, data):
        self.out = self.sx.cat(self.out, data)

    def recv(self, n, flags=0):
        k = n
        if self.cuts:
            c = self.cuts.pop(0)
            if c < k:
                k = c
        part = self.inc[self.pos : self.pos + k]
        self.pos += len(part)
        return part

    def recv_into(self, buf, n=0, flags=0):
        part = self.recv(n or len(buf))
        buf[: len(part)] = part
        return len(part)

    def close(self):
        pass


def made(sx, host, port, inc, cuts, used):
    class Mod:
        AF_INET = sim.socket.AF_INET
        SOCK_STREAM = sim.socket.SOCK_STREAM

        @staticmethod
        def socket(*a, **k):
            s = Sock(sx)
            used.append(s)
            return s

        @staticmethod
        def create_connection(addr, *a, **k):
            s = Sock(sx)
            s.connect(addr)
            used.append(s)
            return s

    real = sim.socket
    sim.socket = Mod
    try:
        t = sim.TpmSimulator(host, port)
    finally:
        sim.socket = real
    tpm = [s for s in used if s.peer[1] == port][0]
    tpm.inc, tpm.cuts, tpm.pos = inc, cuts, 0
    return t, tpm


def exchange(sx, dlen, rlen, zeros, ncuts):
    """the reply may arrive in any pieces, possibly after empty replies"""
    data, reply = sx.bytes("data", dlen), sx.bytes("reply", rlen)
    cuts = [sx.choice("cut%d" % i, 4) + 1 for i in range(ncuts)]
    inc = sx.cat(bytes(4 * zeros), rlen.to_bytes(4, "big"), reply, b"\0\0\0\0")
    used = []
    t, tpm = made(sx, "h", 2321, inc, cuts, used)
    tpm.out = b""
    got = t.send_data(data)
    sx.check(sx.eq(tpm.out, sx.cat((8).to_bytes(4, "big"), b"\x03", dlen.to_bytes(4, "big"), data)), "a request is the command, the locality, the length and all of the data")
    sx.check(sx.eq(got, reply), "the whole response is returned")
    sx.check(tpm.pos == 4 * zeros + 4 + rlen, "nothing beyond the response is read")
    sx.cover("split" if ncuts else "answered")


def several(sx, sizes, ncuts):
    """requests on one connection, each answered and acknowledged"""
    datas, replies, inc = [], [], b""
    for i, (d, r) in enumerate(sizes):
        datas.append(sx.bytes("data%d" % i, d))
        replies.append(sx.bytes("reply%d" % i, r))
        inc = sx.cat(inc, r.to_bytes(4, "big"), replies[-1], bytes(4))
    used = []
    t, tpm = made(sx, "h", 2321, inc, [sx.choice("cut%d" % i, 4) + 1 for i in range(ncuts)], used)
    for (d, r), data, reply in zip(sizes, datas, replies):
        tpm.out = b""
        sx.check(sx.eq(t.send_data(data), reply), "each request gets its own response")
        sx.check(sx.eq(tpm.out, sx.cat((8).to_bytes(4, "big"), b"\x03", d.to_bytes(4, "big"), data)), "each request is framed alone")


def closed(sx, have):
    """the peer closes in the middle of the response: an error, not a short response"""
    reply, cut = sx.bytes("reply", 6), sx.choice("cut", 4) + 1
    inc = sx.cat((6).to_bytes(4, "big"), reply)[:have]
    used = []
    t, tpm = made(sx, "h", 2321, inc, [cut], used)
    r = sx.attempt(t.send_data, b"\x01")
    sx.check(not r.ok, "a connection that closes early is an error")
    sx.cover("closed")


def power(sx):
    port, su = sx.int("port", 1, 65534), sx.u16("su")
    used = []
    t, tpm = made(sx, "localhost", port, sx.cat((2).to_bytes(4, "big"), b"ok"), [], used)
    sx.check(len(used) == 2, "two connections")
    sx.check(sx.or_(used[0].peer[1] == port + 1, used[1].peer[1] == port + 1), "the platform port is the one after the command port")
    plat = used[0] if used[0] is not tpm else used[1]
    sx.check(sx.eq(plat.out, bytes.fromhex("00000002" "00000001" "0000000b")), "connecting powers off, powers on and enables NV")
    sx.check(tpm.out == b"", "nothing is sent on the command port")
    sx.check(sx.eq(t.startup(su), b"ok"), "startup returns the response")
    sx.check(
        sx.eq(tpm.out, sx.cat(bytes.fromhex("00000008" "03" "0000000c" "8001" "0000000c" "00000144"), sx.le(su >> 8, 1), sx.le(su & 0xFF, 1))),
        "startup sends a TPM2_Startup command",
    )
    sx.cover("power")


for d, r, z in ((0, 1, 0), (1, 3, 1), (12, 10, 0), (300, 257, 2)):
    suite.add(Case("exchange-%d-%d-%d" % (d, r, z), exchange, "any %d-byte request, any %d-byte reply" % (d, r), dlen=d, rlen=r, zeros=z, ncuts=0))
for n in (1, 3):
    suite.add(Case("split-%d" % n, exchange, "any reply of 5 bytes, arriving in pieces: the first %d of any size 1-4" % n, dlen=2, rlen=5, zeros=0, ncuts=n))
suite.add(Case("split-5", exchange, "any reply of 9 bytes, the first 5 pieces of any size 1-4", dlen=2, rlen=9, zeros=1, ncuts=5), tier="thorough")
for i, (sizes, n) in enumerate((([(1, 2), (3, 1)], 3), ([(0, 5), (2, 2), (1, 10)], 2))):
    suite.add(Case("several-%d" % i, several, "requests and replies of %s bytes, any contents, any first %d pieces" % (sizes, n), sizes=sizes, ncuts=n))
for h in (0, 3, 4, 7):
    suite.add(Case("closed-%d" % h, closed, "connection closed after %d of 10 bytes" % h, have=h))
suite.add(Case("power", power, "any port and startup type"))
