"""Harness API, concrete backend: runs a harness on the unmodified code with given input values (no z3 here)."""

import contextlib
import importlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback
import uuid


class Rejected(BaseException):
    """the values do not satisfy an assumption"""


class TimeUp(BaseException):
    pass


class Outcome:
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types)


class Conc:
    symbolic = False

    def __init__(self, values, scratch):
        self.v = values
        self.fails = []
        self.obs = []
        self.scratch = scratch
        self.root = None

    def int(self, name, lo, hi):
        v = int(self.v[name])
        if not lo <= v <= hi:
            raise Rejected(name)
        return v

    def u8(self, n):
        return self.int(n, 0, 0xFF)

    def u16(self, n):
        return self.int(n, 0, 0xFFFF)

    def u32(self, n):
        return self.int(n, 0, 0xFFFFFFFF)

    def u64(self, n):
        return self.int(n, 0, (1 << 64) - 1)

    def bool(self, n):
        return bool(self.v[n])

    def bytes(self, n, k):
        b = bytes.fromhex(self.v[n])
        if len(b) != k:
            raise Rejected(n)
        return b

    def uuid(self, n):
        return uuid.UUID(bytes=self.bytes(n, 16))

    def text(self, n, k, alphabet=None, maxcp=0x7F, mincp=0, exclude=""):
        s = "".join(map(chr, self.v[n]))
        if len(s) != k:
            raise Rejected(n)
        return s

    def choice(self, n, k):
        return self.int(n, 0, k - 1)

    def pick(self, n, seq):
        seq = list(seq)
        return seq[self.choice(n, len(seq))]

    def assume(self, c):
        if not c:
            raise Rejected("assume")

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.eq(a[k], b[k]) for k in a)
        return bool(a == b)

    def eqv(self, a, b):
        return self.eq(a, b)

    def le(self, v, n):
        return v.to_bytes(n, "little")

    def cat(self, *p):
        return b"".join(bytes(x) for x in p)

    def uint(self, b):
        return int.from_bytes(b, "little")

    def scat(self, *p):
        return "".join(p)

    def stream(self, data=b""):
        return io.BytesIO(data)

    def textstream(self, data=""):
        return io.StringIO(data)

    def decimal(self, v):
        return str(v)

    def hexs(self, v, width, upper=False):
        return ("%0*X" if upper else "%0*x") % (width, v & ((1 << (4 * width)) - 1))

    def check(self, cond, msg):
        if not cond:
            self.fails.append(msg)

    def cover(self, label):
        pass

    def observe(self, label, v):
        self.obs.append([label, norm(v)])

    def attempt(self, f, *a, **k):
        try:
            v = f(*a, **k)
        except (Exception, SystemExit) as ex:  # noqa: BLE001
            self.obs.append(["exc", norm(type(ex).__name__)])
            return Outcome(False, None, ex)
        self.obs.append(["exc", None])
        return Outcome(True, v, None)

    def flat_hash(self):
        pass

    def tmp(self):
        if self.root is None:
            self.root = tempfile.mkdtemp(dir=self.scratch)
        return self.root

    def write(self, name, content):
        p = os.path.join(self.tmp(), name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content.encode("utf-8") if isinstance(content, str) else content)
        return p

    def read_bytes(self, path):
        with open(path, "rb") as f:
            return f.read()

    def read_text(self, path):
        with open(path, "rb") as f:
            return f.read().decode("utf-8")

    def exists(self, path):
        return os.path.exists(path)


def norm(v, depth=6):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return str(int(v))
    if isinstance(v, (bytes, bytearray, memoryview)):
        return "b:" + bytes(v).hex()
    if isinstance(v, str):
        return "s:" + "".join("%x." % ord(c) for c in v)
    if isinstance(v, uuid.UUID):
        return "u:" + v.bytes.hex()
    if isinstance(v, (list, tuple)) and depth:
        return [norm(x, depth - 1) for x in v]
    if isinstance(v, dict) and depth:
        return ["dict"] + [[norm(k, depth - 1), norm(x, depth - 1)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)) and depth:
        return ["set"] + sorted((norm(x, depth - 1) for x in v), key=repr)
    return "o:" + type(v).__name__


def _alarm(*_):
    raise TimeUp()


def run_one(job, scratch):
    """job: {module, case, values, limit}. Returns {status, fails, obs}"""
    mod = importlib.import_module(job["module"])
    case = mod.suite.by_name(job["case"])
    api = Conc(job["values"], scratch)
    res = {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, job.get("limit", 20))
    sink = io.StringIO()
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            case.run(api)
        res["status"] = "ok"
    except Rejected as e:
        res["status"] = "rejected"
        res["detail"] = str(e)
    except TimeUp:
        res["status"] = "hang"
    except MemoryError:
        res["status"] = "hang"
        res["detail"] = "memory"
    except (Exception, SystemExit) as e:  # noqa: BLE001
        res["status"] = "exc"
        res["detail"] = type(e).__name__
        res["trace"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        if api.root:
            shutil.rmtree(api.root, ignore_errors=True)
    res["fails"] = api.fails
    res["obs"] = api.obs
    return res


def main():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    jobs = json.load(open(sys.argv[1]))
    scratch = tempfile.mkdtemp(prefix="sxc")
    try:
        with open(sys.argv[2], "w") as out:
            for j in jobs:
                out.write(json.dumps(run_one(j, scratch)) + "\n")
                out.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
