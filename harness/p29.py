"""P29 Versions: they are ordered part by part as numbers, and the SDK tool found is the configured or else the newest one."""

import edk2toollib.utility_functions as U
import edk2toollib.windows.locate_tools as L
from sx.case import Case, Suite

suite = Suite()
COVER = ["less", "equal", "greater", "sdk", "current", "newest", "none", "arch", "malformed"]
ASSUMPTIONS = ["The folder listing and the visual studio query of FindToolInWinSdk are stand-ins; every tool path holds one version."]
MAX = 99999


def text(sx, parts):
    out = []
    for i, p in enumerate(parts):
        out += ["."] * (i > 0) + [sx.decimal(p)]
    return sx.scat(*out)


def order(sx, a, b):
    """-1, 0, 1 by the first part that differs; missing parts are 0"""
    n = max(len(a), len(b))
    a, b = a + [0] * (n - len(a)), b + [0] * (n - len(b))
    for x, y in zip(a, b):
        if x < y:
            return -1
        if y < x:
            return 1
    return 0


def compare(sx, la, lb, hi, zeros=0):
    """version_compare"""
    a = [sx.int("a%d" % i, 0, hi) for i in range(la)] + [0] * zeros
    b = [sx.int("b%d" % i, 0, hi) for i in range(lb)]
    want = order(sx, a, b)
    ta, tb = text(sx, a), text(sx, b)
    sx.check(sx.eq(U.version_compare(ta, tb), want), "versions are compared part by part as numbers, missing parts are 0")
    sx.check(sx.eq(U.version_compare(tb, ta), -want), "the comparison is antisymmetric")
    sx.cover({-1: "less", 0: "equal", 1: "greater"}[want])


def digits(sx, n, m):
    """leading and trailing zeros do not matter"""
    a = sx.text("a", n, alphabet="0123456789")
    b = sx.text("b", m, alphabet="0123456789")
    x, y = sx.scat("1.", a, ".0"), sx.scat("1.", b)
    p, q = int(a), int(b)
    want = -1 if p < q else 1 if q < p else 0
    sx.check(sx.eq(U.version_compare(x, y), want), "parts are numbers, however many digits they are written with")
    sx.cover({-1: "less", 0: "equal", 1: "greater"}[want])


def windows(sx, tail, hi):
    """versions with four parts"""
    a = [sx.int("a%d" % i, 0, hi) for i in range(4)]
    b = [sx.int("b%d" % i, 0, hi) for i in range(4)]
    want = order(sx, a, b)
    ta, tb = text(sx, a), sx.scat(text(sx, b), tail)
    sx.check(sx.eq(L._CompareWindowVersions(ta, tb), want), "versions are compared in all four parts")
    sx.check(sx.eq(L._CompareWindowVersions(tb, ta), -want), "the comparison is antisymmetric")
    sx.cover("sdk")


def malformed(sx, la, lb):
    """a version with four parts is newer than anything else"""
    a = [sx.int("a%d" % i, 0, 9) for i in range(la)]
    b = [sx.int("b%d" % i, 0, 9) for i in range(lb)]
    want = (la == 4) - (lb == 4)
    sx.check(sx.eq(L._CompareWindowVersions(text(sx, a), text(sx, b)), want), "a complete version is newer than an incomplete one")
    sx.check(sx.eq(L._CompareWindowVersions(text(sx, a), -1), 1 if la == 4 else 0), "a complete version is newer than none")
    sx.cover("malformed")


class Glob:
    def __init__(self, found):
        self.found = found

    def iglob(self, pat, recursive=False):
        return iter(self.found)

    def glob(self, pat, recursive=False):
        return list(self.found)


def find(sx, n, hi, cur, sep=""):
    """the tool of the configured SDK wins; without it, the newest"""
    vers = [[10, 0, sx.int("v%d" % i, 0, hi), sx.int("w%d" % i, 0, 1)] for i in range(n)]
    want = [10, 0, sx.int("c", 0, hi), sx.int("d", 0, 1)]
    paths = [sx.scat("/sdk/bin/", text(sx, v), "/", ["x64", "tools", "x64"][i % 3], "/t.exe") for i, v in enumerate(vers)]
    L.glob = Glob(paths)
    L.GetHostInfo = lambda: ("Linux", "x86", "64")
    if cur:
        L.QueryVcVariables = lambda *a, **k: {"WindowsSdkDir": "/sdk", "WindowsSDKVersion": sx.scat(text(sx, want), sep)}
    else:
        def query(*a, **k):
            raise ValueError("no vc")

        L.QueryVcVariables = query

        class Os:
            path = L_os.path

            @staticmethod
            def getenv(k, d=None):
                return "/pf"

        L.os = Os
        paths = [sx.scat("/pf/Windows Kits/10/bin/", text(sx, v), "/x64/t.exe") for v in vers]
        L.glob = Glob(paths)
    if cur:
        L.os = L_os
    got = L.FindToolInWinSdk("t.exe")
    if not n:
        sx.check(got is None, "without a tool nothing is found")
        sx.cover("none")
        return
    if cur:
        mine = [p for p, v in zip(paths, vers) if order(sx, v, want) == 0]
        if mine:
            sx.check(got is not None and sx.or_(*[sx.eq(got, m) for m in mine]), "the tool of the configured SDK is found")
            sx.cover("current")
            return
    best = [p for p, v in zip(paths, vers) if all(order(sx, v, o) >= 0 for o in vers)]
    sx.check(got is not None and sx.or_(*[sx.eq(got, m) for m in best]), "otherwise the tool of the newest SDK is found")
    sx.cover("newest")


L_os = L.os


def arch(sx, host, bits):
    """tools of another architecture are not offered"""
    names = ["x64", "amd64", "X64", "x86", "arm64", "aarch64", "arm", "i386", "plain"]
    a, b = sx.pick("a", names), sx.pick("b", names)
    L.GetHostInfo = lambda: ("Linux", host, bits)
    fits = {"x64": host == "x86" and bits == "64", "x86": host == "x86", "arm64": host == "ARM" and bits == "64", "arm": host == "ARM", "i386": False, "plain": True}
    fits["amd64"] = fits["X64"] = fits["x64"]
    fits["aarch64"] = fits["arm64"]
    for x in (a, b):
        sx.check(L._CheckArchOfMatch("/bin/%s/t.exe" % x) == fits[x], "a tool fits when its folder names an architecture of the host, or none")
    v = sx.int("v", 0, 9)
    paths = [sx.scat("/sdk/bin/10.0.", sx.decimal(v), ".0/", a, "/t.exe"), "/sdk/bin/10.0.5.0/%s/t.exe" % b]
    L.glob, L.os = Glob(paths), L_os
    L.QueryVcVariables = lambda *a, **k: {"WindowsSdkDir": "/sdk", "WindowsSDKVersion": "10.0.77.0\\"}
    got = L.FindToolInWinSdk("t.exe")
    if not fits[a] and not fits[b]:
        sx.check(got is None, "a tool of another architecture is not found")
    elif not fits[b] or (fits[a] and v > 5):
        sx.check(got is not None and sx.eq(got, paths[0]), "the newest fitting tool is found")
    elif not fits[a] or v < 5:
        sx.check(got is not None and sx.eq(got, paths[1]), "the newest fitting tool is found")
    sx.cover("arch")


for la, lb in ((1, 1), (1, 2), (2, 2), (3, 2), (3, 3), (1, 4), (4, 4)):
    for hi in (9, 120, MAX):
        quick = hi == 9 or (hi == 120 and la + lb < 4)
        suite.add(Case("compare-%d-%d-%d" % (la, lb, hi), compare, la=la, lb=lb, hi=hi, bounds={"parts": max(la, lb), "part": hi}), tier="quick" if quick else "thorough")
for z in (1, 2):
    suite.add(Case("compare-zeros-%d" % z, compare, la=1, lb=2, hi=9, zeros=z, bounds={"parts": 3, "part": 9}))
for n, m in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
    suite.add(Case("digits-%d-%d" % (n, m), digits, n=n, m=m, bounds={"digits": m}), tier="quick" if n + m < 5 else "thorough")
for tail in ("", "\\"):
    for hi in (9, MAX):
        suite.add(Case("windows-%s-%d" % ("backslash" if tail else "plain", hi), windows, tail=tail, hi=hi, bounds={"part": hi}), tier="quick" if hi == 9 else "thorough")
for la, lb in ((4, 3), (3, 3), (2, 4), (1, 1), (4, 5)):
    suite.add(Case("malformed-%d-%d" % (la, lb), malformed, la=la, lb=lb, bounds={"parts": max(la, lb)}))
for n in (0, 1, 2, 3, 4):
    for cur in (True, False):
        suite.add(Case("find-%d-%s" % (n, "current" if cur else "any"), find, n=n, hi=9, cur=cur, sep="\\" if n % 2 else "", bounds={"tools": n}), tier="quick" if n < 3 else "thorough")
for host, bits in (("x86", "64"), ("x86", "32"), ("ARM", "64"), ("ARM", "32")):
    suite.add(Case("arch-%s-%s" % (host, bits), arch, host=host, bits=bits, bounds={"tools": 2}))
