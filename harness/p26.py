"""P26 UEFI variables on Linux: setting, reading, deleting and listing act as a map from (name, GUID) to data."""

import uuid

import edk2toollib.os.uefivariablesupport as V
from sx.case import Case, Suite

suite = Suite()
COVER = ["get", "missing", "set", "delete", "overwrite", "list", "badname", "nofs", "quoted"]
ASSUMPTIONS = [
    "The efivarfs folder is a stand-in that keeps files in a list; os.system only records the command. The Windows half cannot run here.",
    "GUIDs are given in the lower-case form the kernel uses; a stored file has at least the 4 attribute bytes, as the kernel ensures.",
]
DIR = "/sys/firmware/efi/efivars"
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_. ;$'\"&()"
PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"


class Fs:
    """the folder, as a list of [path, content]"""

    def __init__(self, there=True):
        self.files = []
        self.ran = []
        self.there = there

    def find(self, p):
        for f in self.files:
            if f[0] == p:
                return f
        return None


class Handle:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        if mode == "wb":
            f = fs.find(path)
            if f is None:
                fs.files.append([path, b""])
            else:
                f[1] = b""
        elif fs.find(path) is None:
            raise FileNotFoundError(path)

    def read(self, n=-1):
        return self.fs.find(self.path)[1]

    def write(self, data):
        f = self.fs.find(self.path)
        f[1] = f[1] + bytes(data)
        return len(data)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def fake_os(fs):
    class OsPath:
        @staticmethod
        def exists(p):
            if p == DIR:
                return fs.there
            return fs.find(p) is not None

        isfile = exists
        join = staticmethod(lambda *a: "/".join(a))

    class Os:
        name = "posix"
        path = OsPath

        @staticmethod
        def listdir(p):
            if p != DIR:
                raise FileNotFoundError(p)
            return [f[0][len(DIR) + 1:] for f in fs.files]

        @staticmethod
        def remove(p):
            f = fs.find(p)
            if f is None:
                raise FileNotFoundError(p)
            fs.files.remove(f)

        unlink = remove

        @staticmethod
        def system(c):
            fs.ran.append(c)
            return 0

    return Os


def machine(there=True):
    fs = Fs(there)
    V.os = fake_os(fs)
    V.open = lambda path, mode="r": Handle(fs, path, mode)
    V.create_string_buffer = lambda n: bytearray(n)
    return fs, V.UefiVariable()


GUIDS = ["8be4df61-93ca-11d2-aa0d-00e098032b8c", "d719b2cb-3d3a-4596-a3bc-dad00e67656f"]


def guid(sx, tag):
    """a GUID as its text and its bytes"""
    u = sx.uuid("g" + tag)
    return str(u), u.bytes_le


def history(sx, ops, nlen, glen=0):
    """every sequence of operations acts as on a map"""
    fs, v = machine()
    state = []  # [name, guid, data, attrs]

    def look(n, g):
        for s in state:
            if sx.and_(len(s[0]) == len(n) and sx.eq(s[0], n), s[1] == g):
                return s
        return None

    for i, op in enumerate(ops):
        n = sx.scat(sx.text("n%d" % i, nlen, alphabet=PLAIN))
        g = GUIDS[(i * glen) % 2]
        arg = sx.scat(n, ["", "\x00", "\x00\x00"][i % 3])
        cur = look(n, g)
        if op == "g":
            err, data = v.GetUefiVar(arg, g)
            if cur is None:
                sx.check(err == v.ERROR_ENVVAR_NOT_FOUND and data is None, "a variable that does not exist is not found")
                sx.cover("missing")
            else:
                sx.check(err == 0 and sx.eq(data, cur[2]), "reading gives the data last set")
                sx.cover("get")
        elif op[0] == "s":
            d = sx.bytes("d%d" % i, int(op[1]))
            a = sx.u32("a%d" % i) if op[2:] == "a" else None
            r = v.SetUefiVar(arg, g, d, a) if a is not None else v.SetUefiVar(arg, g, d)
            sx.check(sx.not_(sx.eq(r, 0)), "setting succeeds")
            if cur is None:
                state.append([n, g, d, 7 if a is None else a])
                sx.cover("set")
            else:
                cur[2], cur[3] = d, 7 if a is None else a
                sx.cover("overwrite")
        else:
            r = v.SetUefiVar(arg, g)
            sx.check(sx.eq(r, 0) if cur is None else sx.not_(sx.eq(r, 0)), "deleting succeeds when there is something to delete")
            if cur is not None:
                state.remove(cur)
                sx.cover("delete")
    sx.check(len(fs.files) == len(state), "exactly the variables set and not deleted exist")
    for s in state:
        f = fs.find(sx.scat(DIR, "/", s[0], "-", s[1]))
        sx.check(f is not None and sx.eq(f[1], sx.cat(sx.le(s[3], 4) if not isinstance(s[3], int) else s[3].to_bytes(4, "little"), s[2])), "a variable is stored with its attributes before its data")


def immutable(sx, n):
    """the immutable flag is taken off the file of the variable, and nothing else is run"""
    fs, v = machine()
    name = sx.text("n", n, alphabet=NAME)
    v.SetUefiVar(name, GUIDS[0], b"x")
    sx.check(len(fs.ran) == 0, "nothing is run for a new variable")
    v.SetUefiVar(name, GUIDS[0], b"y")
    path = sx.scat(DIR, "/", name, "-", GUIDS[0])
    sx.check(len(fs.ran) == 1, "the flag of an existing variable is taken off")
    cmd = fs.ran[0]
    plain = sx.and_(True, *[sx.not_(sx.or_(*[c == x for x in " ;$'\"&()"])) for c in name])
    quoted = sx.scat("'", path.replace("'", "'\"'\"'"), "'")
    one = sx.eq(cmd, sx.scat("sudo chattr -i ", path))
    two = sx.eq(cmd, sx.scat("sudo chattr -i ", quoted))
    sx.check(sx.or_(two, sx.and_(plain, one)), "the command names exactly the file of the variable")
    if not plain:
        sx.cover("quoted")


def listing(sx, lens, dashes):
    fs, v = machine()
    want = []
    for i, n in enumerate(lens):
        g, raw = guid(sx, str(i)) if i == 0 or not dashes else (GUIDS[i % 2], uuid.UUID(GUIDS[i % 2]).bytes_le)
        name = sx.text("n%d" % i, n, maxcp=0xD7FF if not dashes else 0x7F, mincp=1, exclude="-/\ud800" if not dashes else "/")
        if dashes:
            name = sx.scat(name, "-", name)
        fs.files.append([sx.scat(DIR, "/", name, "-", g), b"\x07\x00\x00\x00"])
        want.append((name, raw))
    status, buf = v.GetUefiAllVarNames()
    sx.check(status == 0, "listing succeeds")
    at = 0
    raw = bytes(buf)
    for name, g in want:
        u = name.encode("utf-16-le")
        sx.check(sx.eq(raw[at:at + 20], sx.cat((20 + len(u)).to_bytes(4, "little"), g)), "a record has the offset of the next one and the GUID")
        sx.check(sx.eq(raw[at + 20:at + 20 + len(u)], u), "a record has the name")
        at += 20 + len(u)
    sx.check(len(raw) == at, "there is one record per variable and nothing else")
    sx.cover("list")


def bad(sx, n, pat):
    """a file that is no variable is reported"""
    fs, v = machine()
    fs.files.append([sx.scat(DIR, "/x-", GUIDS[0]), b""])
    fs.files.append([sx.scat(DIR, "/", sx.text("n", n, alphabet=PLAIN.replace("-", "") + "z"), pat), b""])
    sx.check(sx.attempt(v.GetUefiAllVarNames).raised(Exception), "a file that is no variable is reported")
    sx.cover("badname")


def nofs(sx):
    fs, v = machine(False)
    n = sx.text("n", 3, alphabet=PLAIN)
    sx.check(sx.eq(v.GetUefiVar(n, GUIDS[0])[0], v.ERROR_ENVVAR_NOT_FOUND), "without efivarfs there are no variables")
    s, b = v.GetUefiAllVarNames()
    sx.check(s == v.ERROR_ENVVAR_NOT_FOUND and b is None, "without efivarfs there are no variables")
    sx.cover("nofs")


for ops in (["g"], ["s2", "g"], ["s0", "g"], ["s1", "s2", "g"], ["s2", "d", "g"], ["s1a", "s2", "g"], ["d", "s1", "g"], ["s2a", "s0a", "g"], ["s1", "s2", "d", "g"], ["s1", "d", "s2", "g"]):
    for g in (0, 1):
        suite.add(Case("history-%s-%d" % ("".join(ops), g), history, ops=ops, nlen=1, glen=g, bounds={"operations": len(ops), "name": 1}))
for ops in (["s1", "s1", "s1", "g", "d", "g"], ["s1a", "d", "s1", "d", "s1", "g"]):
    for g in (0, 1):
        for n in (1, 2):
            suite.add(Case("history-%s-%d-%d" % ("".join(ops), g, n), history, ops=ops, nlen=n, glen=g, bounds={"operations": len(ops), "name": n}), tier="thorough")
for n in (1, 2, 3):
    suite.add(Case("immutable-%d" % n, immutable, n=n, bounds={"name": n}), tier="quick" if n < 3 else "thorough")
for lens in ([], [1], [3], [2, 1], [1, 2, 1]):
    for d in (False, True):
        suite.add(Case("list-%s-%s" % ("+".join(map(str, lens)), d), listing, lens=lens, dashes=d, bounds={"variables": len(lens)}))
for n, pat in ((3, ""), (4, "-1"), (2, "-8be4df61-93ca-11d2-aa0d-00e098032b8"), (1, "-8be4df61-93ca-11d2-aa0d-00e098032b8g")):
    suite.add(Case("bad-%d%s" % (n, pat), bad, n=n, pat=pat, bounds={"name": n}))
suite.add(Case("nofs", nofs, bounds={"name": 3}))
