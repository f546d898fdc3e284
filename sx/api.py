"""Harness API, symbolic backend. sx/conc.py holds the concrete twin that replays models on the unmodified code."""

import os
import shutil
import tempfile
import uuid

import z3

from . import engine as _eng
from . import models as M
from . import values as V
from .engine import Control, Infeasible, Unsupported
from .values import SymBool, SymBytes, SymInt, SymStr, SymUUID, band, bnot, bor, is_sym, mkbytes, mkstr


class PathEnd(Infeasible):
    """internal: the path was fully handled (violation recorded)"""


class Outcome:
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types)


class Sym:
    symbolic = True

    def __init__(self, engine, sink):
        self.e = engine
        self.sink = sink  # case runner
        self.inputs = {}
        self.obs = []
        self.root = None

    # -- inputs ---------------------------------------------------------------------------------
    def _name(self, n):
        if n in self.inputs:
            raise RuntimeError("input %r declared twice" % n)
        return n

    def int(self, name, lo, hi):
        self._name(name)
        if lo == hi:
            self.inputs[name] = ("const", lo)
            return lo
        w = V._uw(hi) if lo >= 0 else V._sw(lo, hi)
        t = z3.BitVec("i_" + name, w)
        v = SymInt.of(t, 0 if lo >= 0 else -(1 << (w - 1)), (1 << w) - 1 if lo >= 0 else (1 << (w - 1)) - 1)
        if lo >= 0:
            if lo > 0:
                self.e.assume(z3.UGE(t, lo))
            if hi != (1 << w) - 1:
                self.e.assume(z3.ULE(t, hi))
        else:
            self.e.assume(z3.And(t >= lo, t <= hi))
        v.lo, v.hi = lo, hi
        self.inputs[name] = ("int", t, lo < 0)
        return v

    def u8(self, name):
        return self.int(name, 0, 0xFF)

    def u16(self, name):
        return self.int(name, 0, 0xFFFF)

    def u32(self, name):
        return self.int(name, 0, 0xFFFFFFFF)

    def u64(self, name):
        return self.int(name, 0, (1 << 64) - 1)

    def bool(self, name):
        self._name(name)
        t = z3.Bool("b_" + name)
        self.inputs[name] = ("bool", t)
        return SymBool(t)

    def bytes(self, name, n):
        self._name(name)
        els = [z3.BitVec("y_%s_%d" % (name, i), 8) for i in range(n)]
        self.inputs[name] = ("bytes", els)
        return mkbytes(els)

    def uuid(self, name):
        b = self.bytes(name, 16)
        return V.mkuuid(V.elems(b))

    def text(self, name, n, alphabet=None, maxcp=0x7F, mincp=0, exclude=""):
        """n symbolic characters, from alphabet or from [mincp, maxcp] minus exclude (surrogates never)"""
        self._name(name)
        if alphabet is not None:
            maxcp = max(ord(c) for c in alphabet)
        w = 7 if maxcp < 128 else 8 if maxcp < 256 else 16 if maxcp < 65536 else 21
        els = [z3.BitVec("s_%s_%d" % (name, i), w) for i in range(n)]
        self.inputs[name] = ("text", els)
        for c in els:
            if alphabet is not None:
                self.e.assume(V.bterm(V.in_set(c, tuple(ord(x) for x in alphabet))))
            else:
                if mincp > 0:
                    self.e.assume(z3.UGE(c, mincp))
                if maxcp != (1 << w) - 1:
                    self.e.assume(z3.ULE(c, maxcp))
                if maxcp >= 0xD800:
                    self.e.assume(z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF)))
                if exclude:
                    self.e.assume(z3.Not(V.bterm(V.in_set(c, tuple(ord(x) for x in exclude)))))
        return mkstr(els)

    def choice(self, name, n):
        """a concrete int in range(n); every value is explored"""
        v = self.int(name, 0, n - 1)
        return v if isinstance(v, int) else v.__index__()

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    # -- logic (never forks) --------------------------------------------------------------------
    def assume(self, c):
        self.e.assume(V.bterm(c) if isinstance(c, SymBool) else bool(c))

    def and_(self, *cs):
        return band(*cs)

    def or_(self, *cs):
        return bor(*cs)

    def not_(self, c):
        return bnot(c)

    def implies(self, a, b):
        return bor(bnot(a), b)

    def ite(self, c, a, b):
        if isinstance(c, SymBool) and isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            return V.ite(c, a, b)
        return a if c else b

    def eq(self, a, b):
        """deep equality"""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return band(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            bi = list(b.items())
            return band(*[bor(*[band(self.eq(k, k2), self.eq(v, v2)) for k2, v2 in bi]) for k, v in a.items()])
        if V.isstr(a) != V.isstr(b) or V.isbytes(a) != V.isbytes(b):
            return False
        r = a == b
        return r if isinstance(r, (SymBool, bool)) else bool(r)

    def eqv(self, a, b):
        return self.eq(a, b)

    def le(self, v, n):
        """n little-endian bytes of v (v in range)"""
        return V.int_to_bytes(v, n, "little")

    def cat(self, *parts):
        out = []
        for p in parts:
            out += V.elems(p)
        return mkbytes(out)

    def uint(self, b):
        """little-endian unsigned value of bytes"""
        return V.int_from_elems(list(V.elems(b)))

    def scat(self, *parts):
        out = []
        for p in parts:
            out += V.chars(p)
        return mkstr(out)

    def stream(self, data=b""):
        return V.SymIO(data)

    def textstream(self, data=""):
        return M.SymTextIO(data)

    def decimal(self, v):
        return M.dec_str(v)

    def hexs(self, v, width, upper=False):
        """fixed-width hex text"""
        if isinstance(v, int):
            return ("%0*X" if upper else "%0*x") % (width, v)
        t = v.unsigned_term(4 * width) if v.t.size() <= 4 * width else z3.Extract(4 * width - 1, 0, v.t)
        return mkstr([V.hexdigit(z3.Extract(4 * i + 3, 4 * i, t), upper) for i in range(width - 1, -1, -1)])

    # -- claims ---------------------------------------------------------------------------------
    def check(self, cond, msg):
        if isinstance(cond, SymInt):
            cond = cond != 0
        c = cond.t if isinstance(cond, SymBool) else bool(cond)
        self.sink.reached.add(msg)
        m = self.e.prove(c)
        if m is not None:
            self.sink.violation(self, m, msg)
            if c is False:
                raise PathEnd()
            self.e.assume(c)

    def cover(self, label):
        self.sink.covered.add(label)

    def observe(self, label, v):
        self.obs.append((label, v))

    def attempt(self, f, *a, **k):
        try:
            v = M.call(f, *a, **k)
        except (Exception, SystemExit) as ex:  # noqa: BLE001
            self.obs.append(("exc", type(ex).__name__))
            return Outcome(False, None, ex)
        self.obs.append(("exc", None))
        return Outcome(True, v, None)

    def flat_hash(self):
        """objects of the code under test all hash alike, so that sets and dictionaries compare them by equality"""
        self.e.path_state["flat_hash"] = True

    # -- files ----------------------------------------------------------------------------------
    def tmp(self):
        if self.root is None:
            base = self.sink.scratch
            for n in os.listdir(base):
                q = os.path.join(base, n)
                shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)
            self.root = base
            self.e.path_state["tmproot"] = base
        return self.root

    def write(self, name, content):
        p = os.path.join(self.tmp(), name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, str):
            content = content.encode("utf-8")
        if isinstance(content, SymStr):
            content = M.LazyText(content, "utf-8")
            n = 1
        else:
            n = len(content)
        with open(p, "wb") as f:
            if isinstance(content, bytes):
                f.write(content)
            else:
                f.truncate(n)
        M.vfs()[os.path.realpath(p)] = content
        return p

    def read_bytes(self, path):
        return M.file_content(path)

    def read_text(self, path):
        return M.file_text(path)

    def exists(self, path):
        return os.path.exists(path)


# ------------------------------------------------------------------------------------------ models -> values
class _Eval:
    """evaluate symbolic values (including lazy text) under a fixed model, without forking"""

    def __init__(self, e, m):
        self.e, self.m = e, m

    def __enter__(self):
        e = self.e
        self.saved = (e.decide, e.note, e.tick, e.assume)
        m = self.m
        ev = lambda t: m.eval(t, model_completion=True)

        def decide(c):
            if c is True or c is False:
                return c
            return z3.is_true(ev(c))

        e.decide = decide
        e.note = lambda fn: fn()
        e.tick = lambda n=1: None
        self.sm = e.model
        e.model = m
        return self

    def __exit__(self, *a):
        e = self.e
        for n in ("decide", "note", "tick"):
            e.__dict__.pop(n, None)
        e.model = self.sm

    def val(self, t):
        return self.m.eval(t, model_completion=True)


def input_values(api, m):
    out = {}
    ev = lambda t: t if isinstance(t, int) else m.eval(t, model_completion=True).as_long()
    for n, d in api.inputs.items():
        if d[0] == "const":
            out[n] = d[1]
        elif d[0] == "int":
            r = m.eval(d[1], model_completion=True)
            out[n] = r.as_signed_long() if d[2] else r.as_long()
        elif d[0] == "bool":
            out[n] = z3.is_true(m.eval(d[1], model_completion=True))
        elif d[0] == "bytes":
            out[n] = bytes(ev(t) for t in d[1]).hex()
        elif d[0] == "text":
            out[n] = [ev(t) for t in d[1]]
    return out


def norm(v, depth=6):
    """JSON-able normal form; identical in sx/conc.py for concrete values"""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymInt):
        return str(v._val())
    if isinstance(v, int):
        return str(int(v))
    if isinstance(v, (bytes, bytearray, SymBytes)):
        return "b:" + bytes(V.concretise_elems(V.elems(v))).hex()
    if isinstance(v, (str, SymStr)):
        return "s:" + "".join("%x." % c for c in V.concretise_elems(V.chars(v)))
    if isinstance(v, SymUUID):
        return "u:" + bytes(V.concretise_elems(v.b)).hex()
    if isinstance(v, uuid.UUID):
        return "u:" + v.bytes.hex()
    if isinstance(v, (list, tuple)) and depth:
        return [norm(x, depth - 1) for x in v]
    if isinstance(v, dict) and depth:
        return ["dict"] + [[norm(k, depth - 1), norm(x, depth - 1)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)) and depth:
        return ["set"] + sorted((norm(x, depth - 1) for x in v), key=repr)
    return "o:" + V.pytype(v).__name__


def evaluate(api, m):
    """(inputs, observations) under model m"""
    ins = input_values(api, m)
    with _Eval(api.e, m):
        obs = [[lab, norm(v)] for lab, v in api.obs]
    return ins, obs
