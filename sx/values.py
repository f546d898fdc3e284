"""Symbolic values: exact (unbounded-integer semantics) ints over bit-vectors, bytes, str, bool, UUID, streams."""

import datetime
import io
import struct
import uuid

import z3

from . import engine as _eng
from .engine import Unsupported


def E():
    return _eng.E


MAX_FANOUT = 300


# ----------------------------------------------------------------------------------------------- bool
class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _eng.E.decide(self.t)

    def _i(self):
        return SymInt.of(z3.If(self.t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == bterm(o))
        return self._i() == o

    def __ne__(self, o):
        return bnot(self == o)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.t, bterm(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.t, bterm(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.t, bterm(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - (o._i() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._i()

    def __neg__(self):
        return -self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __lshift__(self, o):
        return self._i() << o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    r = _eng.E.tri(t)
    if r is not None:
        return r
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bnot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.t))
    return not x


def band(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts)) if len(ts) > 1 else mkbool(ts[0])


def bor(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts)) if len(ts) > 1 else mkbool(ts[0])


# ----------------------------------------------------------------------------------------------- int
def _uw(hi):
    return max(1, hi.bit_length())


def _sw(lo, hi):
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


def _ext(t, signed, w):
    cw = t.size()
    if cw == w:
        return t
    if cw < w:
        return z3.SignExt(w - cw, t) if signed else z3.ZeroExt(w - cw, t)
    return z3.Extract(w - 1, 0, t)


class SymInt:
    """t is a bit-vector; unsigned reading when lo >= 0, two's complement otherwise; lo <= value <= hi always."""

    __slots__ = ("t", "lo", "hi", "_h")

    @staticmethod
    def of(t, lo, hi):
        if lo == hi:
            return lo
        w = _uw(hi) if lo >= 0 else _sw(lo, hi)
        if t.size() != w:
            # callers guarantee the value lies in [lo, hi]; t may be wider, or narrower but unsigned-exact
            if t.size() > w:
                t = z3.Extract(w - 1, 0, t)
            else:
                t = z3.SignExt(w - t.size(), t) if lo < 0 else z3.ZeroExt(w - t.size(), t)
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_long() if lo >= 0 else t.as_signed_long()
        x = SymInt.__new__(SymInt)
        x.t, x.lo, x.hi, x._h = t, lo, hi, None
        return x

    @property
    def signed(self):
        return self.lo < 0

    def at(self, w):
        return _ext(self.t, self.lo < 0, w)

    def unsigned_term(self, w):
        """bit-vector of width w holding value mod 2**w"""
        return self.at(w) if w >= self.t.size() else z3.Extract(w - 1, 0, self.t)

    # arithmetic
    def _arith(self, o, op, lo, hi):
        olo, ohi = rng(o)
        w = _sw(min(self.lo, olo, lo), max(self.hi, ohi, hi))
        return SymInt.of(op(self.at(w), iterm(o, w)), lo, hi)

    def __add__(self, o):
        if not isint(o):
            return NotImplemented
        olo, ohi = rng(o)
        return self._arith(o, lambda a, b: a + b, self.lo + olo, self.hi + ohi)

    __radd__ = __add__

    def __sub__(self, o):
        if not isint(o):
            return NotImplemented
        olo, ohi = rng(o)
        return self._arith(o, lambda a, b: a - b, self.lo - ohi, self.hi - olo)

    def __rsub__(self, o):
        if not isint(o):
            return NotImplemented
        olo, ohi = rng(o)
        return self._arith(o, lambda a, b: b - a, olo - self.hi, ohi - self.lo)

    def __mul__(self, o):
        if not isint(o):
            return NotImplemented
        olo, ohi = rng(o)
        c = [self.lo * olo, self.lo * ohi, self.hi * olo, self.hi * ohi]
        return self._arith(o, lambda a, b: a * b, min(c), max(c))

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return self if self >= 0 else -self

    def __invert__(self):
        return -1 - self

    def _divmod(self, o):
        if isinstance(o, bool):
            o = int(o)
        if not isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if isinstance(o, SymInt) and o.lo >= 0 and (self.lo >= 0 or self >= 0):
                w = max(_uw(self.hi), _uw(o.hi))
                q = SymInt.of(z3.UDiv(self.at(w), o.at(w)), 0, max(self.hi, 0))
                r = SymInt.of(z3.URem(self.at(w), o.at(w)), 0, max(0, min(self.hi, o.hi)))
                return q, r
            o = o.__index__()
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            raise Unsupported("division by a negative constant")
        if o == 1:
            return self, 0
        lo, hi = self.lo // o, self.hi // o
        if self.lo >= 0:
            if self.hi < o:
                return 0, self
            if o & (o - 1) == 0:
                k = o.bit_length() - 1
                w = self.t.size()
                q = SymInt.of(z3.Extract(w - 1, k, self.t), lo, hi)
                r = SymInt.of(z3.Extract(k - 1, 0, self.t), 0, min(o - 1, self.hi))
                return q, r
            w = max(_uw(self.hi), _uw(o))
            a, b = self.at(w), z3.BitVecVal(o, w)
            return SymInt.of(z3.UDiv(a, b), lo, hi), SymInt.of(z3.URem(a, b), 0, o - 1)
        w = _sw(min(self.lo, -o), max(self.hi, o))
        a = self.at(w)
        b = z3.BitVecVal(o, w)
        r = z3.SRem(a, b)
        r = z3.If(r < 0, r + b, r)
        q = (a - r) / b
        return SymInt.of(q, lo, hi), SymInt.of(r, 0, o - 1)

    def __floordiv__(self, o):
        if not isint(o):
            return NotImplemented
        return self._divmod(o)[0]

    def __mod__(self, o):
        if not isint(o):
            return NotImplemented
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __rfloordiv__(self, o):
        return SymInt._divmod(lift_int(o), self)[0] if not isinstance(lift_int(o), int) else o // self.__index__()

    def __rmod__(self, o):
        if not isint(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(o, int) and o >= 0 and self.lo >= 0:
            w = max(_uw(o), _uw(self.hi))
            return SymInt.of(z3.URem(z3.BitVecVal(o, w), self.at(w)), 0, min(o, self.hi))
        return o % self.__index__()

    def __truediv__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0:
            return SymRat(self, o)
        raise Unsupported("true division by symbolic value")

    def __pow__(self, o):
        return pow(self.__index__(), o)

    def __rpow__(self, o):
        return o ** self.__index__()

    # shifts
    def __lshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo << o, self.hi << o
        w = _uw(hi) if lo >= 0 else _sw(lo, hi)
        return SymInt.of(self.at(w) << o, lo, hi)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        if self.lo >= 0:
            w = self.t.size()
            if o >= w:
                return 0
            return SymInt.of(z3.Extract(w - 1, o, self.t), self.lo >> o, self.hi >> o)
        return SymInt.of(self.t >> o, self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    # bit ops
    def _bit(self, o, op, kind):
        olo, ohi = rng(o)
        if self.lo >= 0 and olo >= 0:
            w = max(_uw(self.hi), _uw(ohi))
            if kind == "and":
                lo, hi = 0, min(self.hi, ohi)
            else:
                lo, hi = (max(self.lo, olo) if kind == "or" else 0), (1 << w) - 1
            return SymInt.of(op(self.at(w), iterm(o, w)), lo, hi)
        w = max(_sw(self.lo, self.hi), _sw(olo, ohi))
        if kind == "and" and (self.lo >= 0 or olo >= 0):
            h = self.hi if self.lo >= 0 else ohi
            return SymInt.of(op(self.at(w), iterm(o, w)), 0, h)
        return SymInt.of(op(self.at(w), iterm(o, w)), -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __and__(self, o):
        if not isint(o):
            return NotImplemented
        return self._bit(o, lambda a, b: a & b, "and")

    __rand__ = __and__

    def __or__(self, o):
        if not isint(o):
            return NotImplemented
        return self._bit(o, lambda a, b: a | b, "or")

    __ror__ = __or__

    def __xor__(self, o):
        if not isint(o):
            return NotImplemented
        return self._bit(o, lambda a, b: a ^ b, "xor")

    __rxor__ = __xor__

    # comparison
    def __eq__(self, o):
        if isinstance(o, SymRat):
            return o == self
        if isinstance(o, float):
            if o != int(o):
                return False
            o = int(o)
        if not isint(o):
            return False
        olo, ohi = rng(o)
        if self.hi < olo or self.lo > ohi:
            return False
        w = _sw(min(self.lo, olo), max(self.hi, ohi)) if (self.lo < 0 or olo < 0) else max(_uw(self.hi), _uw(ohi))
        return mkbool(self.at(w) == iterm(o, w))

    def __ne__(self, o):
        return bnot(self == o)

    def _cmp(self, o, which):
        if isinstance(o, SymRat):
            return {"lt": o.__gt__, "le": o.__ge__, "gt": o.__lt__, "ge": o.__le__}[which](self)
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if not isint(o):
            return NotImplemented
        olo, ohi = rng(o)
        if which == "lt":
            if self.hi < olo:
                return True
            if self.lo >= ohi:
                return False
        elif which == "le":
            if self.hi <= olo:
                return True
            if self.lo > ohi:
                return False
        elif which == "gt":
            if self.lo > ohi:
                return True
            if self.hi <= olo:
                return False
        else:
            if self.lo >= ohi:
                return True
            if self.hi < olo:
                return False
        if self.lo >= 0 and olo >= 0:
            w = max(_uw(self.hi), _uw(ohi))
            a, b = self.at(w), iterm(o, w)
            r = {"lt": z3.ULT, "le": z3.ULE, "gt": z3.UGT, "ge": z3.UGE}[which](a, b)
        else:
            w = _sw(min(self.lo, olo), max(self.hi, ohi))
            a, b = self.at(w), iterm(o, w)
            r = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[which]
        return mkbool(r)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return bool(self != 0)

    # conversion
    def __index__(self):
        e = _eng.E
        if e is None or not e.active:
            raise Unsupported("concretisation outside exploration")
        for _ in range(MAX_FANOUT):
            v = e.note(lambda: self._val())
            if e.decide((self == v).t if isinstance(self == v, SymBool) else True):
                return v
        raise Unsupported("more than %d concrete values needed" % MAX_FANOUT)

    def _val(self):
        m = _eng.E.get_model()
        r = m.eval(self.t, model_completion=True)
        return r.as_long() if self.lo >= 0 else r.as_signed_long()

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float of symbolic int")

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(self.__index__())

    def __repr__(self):
        return "<SymInt [%d,%d]>" % (self.lo, self.hi)

    def __str__(self):
        raise Unsupported("native str() of symbolic int")

    def __format__(self, spec):
        raise Unsupported("native format() of symbolic int")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    def bit_count(self):
        v = abs(self)
        if isinstance(v, int):
            return v.bit_count()
        return sum(((v >> i) & 1 for i in range(v.hi.bit_length())), 0)

    def __trunc__(self):
        return self

    __ceil__ = __floor__ = conjugate = __trunc__

    def __round__(self, n=None):
        if n is not None and n < 0:
            raise Unsupported("round to tens")
        return self

    def is_integer(self):
        return True

    numerator = real = property(lambda self: self)
    denominator = property(lambda self: 1)
    imag = property(lambda self: 0)

    def __getattr__(self, name):
        if name != "_h" and hasattr(int, name):
            raise Unsupported("int." + name)
        raise AttributeError("'int' object has no attribute '%s'" % name)

    def bit_length(self):
        if self.lo < 0:
            raise Unsupported("bit_length of possibly negative value")
        n = 0
        while True:
            if n > 200:
                raise Unsupported("bit_length")
            if self < (1 << n):
                return n
            n += 1

    @property
    def real(self):
        return self


class SymRat:
    """num / den for a positive constant den (python float division, exact while |num| < 2**53)."""

    def __init__(self, num, den):
        self.num, self.den = num, den
        lo, hi = rng(num)
        if max(abs(lo), abs(hi)) >= 1 << 53:
            raise Unsupported("float precision")

    def _pair(self, o):
        if isinstance(o, SymRat):
            return self.num * o.den, o.num * self.den, self.den * o.den
        if isinstance(o, float):
            if o != int(o):
                raise Unsupported("float operand")
            o = int(o)
        return self.num, o * self.den, self.den

    def __add__(self, o):
        a, b, d = self._pair(o)
        return SymRat(a + b, d) if not isinstance(a + b, int) else (a + b) / d

    __radd__ = __add__

    def __sub__(self, o):
        a, b, d = self._pair(o)
        return SymRat(a - b, d) if not isinstance(a - b, int) else (a - b) / d

    def __lt__(self, o):
        a, b, _ = self._pair(o)
        return a < b

    def __le__(self, o):
        a, b, _ = self._pair(o)
        return a <= b

    def __gt__(self, o):
        a, b, _ = self._pair(o)
        return a > b

    def __ge__(self, o):
        a, b, _ = self._pair(o)
        return a >= b

    def __eq__(self, o):
        a, b, _ = self._pair(o)
        return a == b

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        raise Unsupported("hash of rational")

    def __bool__(self):
        return bool(self.num != 0)

    def floor(self):
        return self.num // self.den

    def __int__(self):
        return self.trunc().__index__()

    def trunc(self):
        if self.num >= 0:
            return self.num // self.den
        return -((-self.num) // self.den)


def isint(o):
    return isinstance(o, (int, SymInt, SymBool))


def rng(o):
    if isinstance(o, SymInt):
        return o.lo, o.hi
    if isinstance(o, SymBool):
        return 0, 1
    return int(o), int(o)


def iterm(o, w):
    if isinstance(o, SymInt):
        return o.at(w)
    if isinstance(o, SymBool):
        return z3.If(o.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.BitVecVal(int(o), w)


def lift_int(o):
    return o._i() if isinstance(o, SymBool) else o


def ite(c, a, b):
    """if c then a else b, without forking (ints only)."""
    if not isinstance(c, SymBool):
        return a if c else b
    alo, ahi = rng(a)
    blo, bhi = rng(b)
    lo, hi = min(alo, blo), max(ahi, bhi)
    w = _uw(hi) if lo >= 0 else _sw(lo, hi)
    return SymInt.of(z3.If(c.t, iterm(a, w), iterm(b, w)), lo, hi)


def byte_of(v, k):
    """byte k (little endian) of v mod 2**(8(k+1)), as element"""
    if isinstance(v, int):
        return (v >> (8 * k)) & 0xFF
    w = v.t.size()
    need = 8 * (k + 1)
    t = v.at(need) if w < need else v.t
    return elem(z3.Extract(8 * k + 7, 8 * k, t))


def elem(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else t


def int_from_elems(els, signed=False):
    """els little-endian list of byte elements"""
    if all(isinstance(e, int) for e in els):
        return int.from_bytes(bytes(els), "little", signed=signed)
    parts = [z3.BitVecVal(e, 8) if isinstance(e, int) else e for e in reversed(els)]
    t = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    n = 8 * len(els)
    if signed:
        return SymInt.of(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return SymInt.of(t, 0, (1 << n) - 1)


def int_to_bytes(v, length, byteorder, signed=False):
    length = int(length)
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    if not signed and rng(v)[0] < 0 and v < 0:
        raise OverflowError("can't convert negative int to unsigned")
    if band(v >= lo, v <= hi) is not True and not band(v >= lo, v <= hi):
        raise OverflowError("int too big to convert")
    els = [byte_of(v, k) for k in range(length)]
    if byteorder == "big":
        els.reverse()
    return mkbytes(els)


# ----------------------------------------------------------------------------------------------- bytes
def mkbytes(els):
    els = list(els)
    for e in els:
        if not isinstance(e, int):
            return SymBytes(els)
    return bytes(els)


def elems(b):
    """list of elements of bytes-like"""
    if isinstance(b, SymBytes):
        return b.e
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    if isinstance(b, memoryview):
        return list(b.tobytes())
    raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)


def isbytes(b):
    return isinstance(b, (bytes, bytearray, SymBytes, memoryview))


def el2int(e):
    if isinstance(e, int):
        return e
    return SymInt.of(e, 0, 255)


def int2el(v, exc=ValueError("bytes must be in range(0, 256)")):
    if isinstance(v, SymBool):
        v = v._i()
    if isinstance(v, int):
        if not 0 <= v < 256:
            raise exc
        return int(v)
    if isinstance(v, SymInt):
        ok = band(v >= 0, v <= 255)
        if ok is not True and not ok:
            raise exc
        return elem(v.unsigned_term(8))
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)


def eqelem(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return mkbool(a == z3.BitVecVal(b, a.size()))
    if a.size() != b.size():
        w = max(a.size(), b.size())
        a, b = _ext(a, False, w), _ext(b, False, w)
    return mkbool(a == b)


def eqseq(a, b):
    if len(a) != len(b):
        return False
    ts = []
    for x, y in zip(a, b):
        r = eqelem(x, y)
        if r is False:
            return False
        if r is not True:
            ts.append(r.t)
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def clamp_index(i, n, default):
    """slice bound i clamped into [0, n]; forks on symbolic i (at most n+1 outcomes)."""
    if i is None:
        return default
    if isinstance(i, SymBool):
        i = i._i()
    if isinstance(i, int):
        if i < 0:
            i += n
            return max(i, 0)
        return min(i, n)
    if not isinstance(i, SymInt):
        return clamp_index(i.__index__(), n, default)
    if i.lo < 0 and i < 0:
        j = i + n
        if isinstance(j, int):
            return max(j, 0)
        if j <= 0:
            return 0
        return j.__index__()
    if i >= n:
        return n
    return i.__index__()


def slice_bounds(s, n):
    step = s.step
    if step is not None and not isinstance(step, int):
        step = step.__index__()
    if step in (None, 1):
        a = clamp_index(s.start, n, 0)
        b = clamp_index(s.stop, n, n)
        return a, max(a, b), 1
    st = None if s.start is None else (s.start if isinstance(s.start, int) else s.start.__index__())
    sp = None if s.stop is None else (s.stop if isinstance(s.stop, int) else s.stop.__index__())
    a, b, st = slice(st, sp, step).indices(n)
    return a, (None if st < 0 and b < 0 else b), st


def seq_index(i, n, name):
    if isinstance(i, SymBool):
        i = i._i()
    if isinstance(i, SymInt):
        if not band(i >= -n, i < n):
            raise IndexError("%s index out of range" % name)
        i = i.__index__()
    elif not isinstance(i, int):
        i = i.__index__()
    if i < 0:
        i += n
    if not 0 <= i < n:
        raise IndexError("%s index out of range" % name)
    return i


WS_BYTES = (9, 10, 11, 12, 13, 32)
WS_STR = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0)


def in_set(e, codes):
    """e (element) is one of the concrete codes"""
    if isinstance(e, int):
        return e in codes
    mx = (1 << e.size()) - 1
    cs = [c for c in codes if c <= mx]
    if not cs:
        return False
    return mkbool(z3.Or(*[e == z3.BitVecVal(c, e.size()) for c in cs]))


def in_range(e, a, b):
    if isinstance(e, int):
        return a <= e <= b
    mx = (1 << e.size()) - 1
    if a > mx:
        return False
    b = min(b, mx)
    return mkbool(z3.And(z3.UGE(e, a), z3.ULE(e, b)))


class _Seq:
    """shared behaviour of SymBytes / SymStr; self.e is the element list"""

    __slots__ = ()

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def _find(self, sub, start, end, rev=False):
        n, m = len(self.e), len(sub)
        a = clamp_index(start, n, 0)
        b = clamp_index(end, n, n)
        if start is not None and isint(start) and start > n:
            return -1
        rg = range(a, b - m + 1)
        for i in reversed(rg) if rev else rg:
            if eqseq(self.e[i : i + m], sub):
                return i
        return -1

    def _count(self, sub, start=None, end=None):
        n, m = len(self.e), len(sub)
        i, b = clamp_index(start, n, 0), clamp_index(end, n, n)
        if m == 0:
            return max(0, b - i + 1)
        c = 0
        if m == 1:
            tot = 0
            for x in self.e[i:b]:
                r = eqelem(x, sub[0])
                tot = tot + (r if isinstance(r, SymBool) else int(r))
            return tot
        while i + m <= b:
            if eqseq(self.e[i : i + m], sub):
                c += 1
                i += m
            else:
                i += 1
        return c

    def _contains(self, sub):
        m = len(sub)
        if m == 0:
            return True
        return bor(*[eqseq(self.e[i : i + m], sub) for i in range(len(self.e) - m + 1)])

    def _strip(self, test, left, right):
        a, b = 0, len(self.e)
        if left:
            while a < b and test(self.e[a]):
                a += 1
        if right:
            while b > a and test(self.e[b - 1]):
                b -= 1
        return self.e[a:b]

    def _split_ws(self, maxsplit, wsset):
        out, curw = [], []
        i, n = 0, len(self.e)
        while i < n:
            if in_set(self.e[i], wsset):
                if curw:
                    out.append(curw)
                    curw = []
                i += 1
                continue
            if not curw and maxsplit >= 0 and len(out) >= maxsplit:
                rest = self.e[i:]
                while rest and in_set(rest[-1], wsset):
                    rest = rest[:-1]
                out.append(rest)
                return out
            curw.append(self.e[i])
            i += 1
        if curw:
            out.append(curw)
        return out

    def _split(self, sep, maxsplit):
        if len(sep) == 0:
            raise ValueError("empty separator")
        out, start, i, n, m = [], 0, 0, len(self.e), len(sep)
        while i + m <= n:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if eqseq(self.e[i : i + m], sep):
                out.append(self.e[start:i])
                i += m
                start = i
            else:
                i += 1
        out.append(self.e[start:])
        return out

    def _rsplit(self, sep, maxsplit):
        out, end, n, m = [], len(self.e), len(self.e), len(sep)
        i = n - m
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if eqseq(self.e[i : i + m], sep):
                out.append(self.e[i + m : end])
                end = i
                i -= m
            else:
                i -= 1
        out.append(self.e[:end])
        out.reverse()
        return out

    def _replace(self, old, new, count):
        n, m = len(self.e), len(old)
        if m == 0:
            raise Unsupported("replace of the empty string")
        out, i, c = [], 0, 0
        while i < n:
            if (count < 0 or c < count) and i + m <= n and eqseq(self.e[i : i + m], old):
                out.extend(new)
                i += m
                c += 1
            else:
                out.append(self.e[i])
                i += 1
        return out

    def _lex(self, other, strict, less):
        a, b = self.e, other
        res = (len(a) < len(b)) if (strict and less) else (len(a) > len(b)) if strict else (len(a) <= len(b)) if less else (len(a) >= len(b))
        # build from the end: res after a common prefix
        k = min(len(a), len(b))
        for i in range(k - 1, -1, -1):
            x, y = a[i], b[i]
            xi, yi = el_any(x), el_any(y)
            lt = (xi < yi) if less else (xi > yi)
            eq = eqelem(x, y)
            res = bor(lt, band(eq, res))
        return res


def el_any(e):
    if isinstance(e, int):
        return e
    return SymInt.of(e, 0, (1 << e.size()) - 1)


class SymBytes(_Seq):
    __slots__ = ("e", "mutable", "_h")

    def __init__(self, els, mutable=False):
        self._h = None
        self.e = list(els)
        self.mutable = mutable

    def _new(self, els):
        els = list(els)
        if self.mutable:
            return SymBytes(els, True)
        return mkbytes(els)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = slice_bounds(i, len(self.e))
            return self._new(self.e[a:b:st])
        if isinstance(i, SymInt) and self.e:
            return self._sym_get(i)
        return el2int(self.e[seq_index(i, len(self.e), "index" if not self.mutable else "bytearray")])

    def _sym_get(self, i):
        n = len(self.e)
        return el2int(self.e[seq_index(i, n, "index")])

    def __setitem__(self, i, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, slice):
            a, b, st = slice_bounds(i, len(self.e))
            if st != 1:
                raise Unsupported("stepped slice assignment")
            self.e[a:b] = elems(v)
            return
        self.e[seq_index(i, len(self.e), "bytearray")] = int2el(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            a, b, st = slice_bounds(i, len(self.e))
            del self.e[a:b:st]
        else:
            del self.e[seq_index(i, len(self.e), "bytearray")]

    def append(self, v):
        self.e.append(int2el(v))

    def extend(self, v):
        if isbytes(v):
            self.e.extend(elems(v))
        else:
            self.e.extend(int2el(x) for x in v)

    def clear(self):
        self.e[:] = []

    def __iter__(self):
        return iter([el2int(x) for x in self.e])

    def __reversed__(self):
        return iter([el2int(x) for x in reversed(self.e)])

    def __eq__(self, o):
        if not isbytes(o):
            return False
        return eqseq(self.e, elems(o))

    def __ne__(self, o):
        return bnot(self == o)

    def __lt__(self, o):
        return self._lex(elems(o), True, True)

    def __gt__(self, o):
        return self._lex(elems(o), True, False)

    def __le__(self, o):
        return self._lex(elems(o), False, True)

    def __ge__(self, o):
        return self._lex(elems(o), False, False)

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        if self._h is not None:
            return self._h
        return hash(bytes(concretise_elems(self.e)))

    def __add__(self, o):
        if not isbytes(o):
            raise TypeError("can't concat %s to bytes" % type(o).__name__)
        return self._new(self.e + elems(o))

    def __radd__(self, o):
        if not isbytes(o):
            return NotImplemented
        return mkbytes(elems(o) + self.e) if not isinstance(o, bytearray) else SymBytes(elems(o) + self.e, True)

    def __iadd__(self, o):
        if self.mutable:
            self.e.extend(elems(o))
            return self
        return self + o

    def __mul__(self, n):
        return self._new(self.e * n.__index__())

    __rmul__ = __mul__

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if isint(x):
            return bor(*[el2int(v) == x for v in self.e])
        return self._contains(elems(x))

    def __repr__(self):
        return "<SymBytes %d>" % len(self.e)

    def __str__(self):
        raise Unsupported("native str() of symbolic bytes")

    def __buffer__(self, flags):
        raise Unsupported("native buffer access to symbolic bytes")

    def tobytes(self):
        return mkbytes(self.e)

    def tolist(self):
        return [el2int(x) for x in self.e]

    def copy(self):
        return SymBytes(self.e, self.mutable)

    def hex(self, *a):
        if a:
            raise Unsupported("hex with separator")
        out = []
        for x in self.e:
            if isinstance(x, int):
                out += [ord(c) for c in "%02x" % x]
            else:
                out += [hexdigit(z3.Extract(7, 4, x)), hexdigit(z3.Extract(3, 0, x))]
        return mkstr(out)

    def _arg(self, x):
        if isint(x):
            return [int2el(x)]
        return elems(x)

    def find(self, sub, start=None, end=None):
        return self._find(self._arg(sub), start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(self._arg(sub), start, end, True)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub, start=None, end=None):
        return self._count(self._arg(sub), start, end)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return bor(*[self.startswith(q, start, end) for q in p])
        a, b = clamp_index(start, len(self.e), 0), clamp_index(end, len(self.e), len(self.e))
        p = elems(p)
        return eqseq(self.e[a:b][: len(p)], p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return bor(*[self.endswith(q) for q in p])
        p = elems(p)
        return eqseq(self.e[len(self.e) - len(p) :] if len(p) <= len(self.e) else self.e, p)

    def strip(self, chars=None):
        cs = list(WS_BYTES) if chars is None else elems(chars)
        return self._new(self._strip(lambda e: any_eq(e, cs), True, True))

    def lstrip(self, chars=None):
        cs = list(WS_BYTES) if chars is None else elems(chars)
        return self._new(self._strip(lambda e: any_eq(e, cs), True, False))

    def rstrip(self, chars=None):
        cs = list(WS_BYTES) if chars is None else elems(chars)
        return self._new(self._strip(lambda e: any_eq(e, cs), False, True))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [self._new(x) for x in self._split_ws(maxsplit, WS_BYTES)]
        return [self._new(x) for x in self._split(elems(sep), maxsplit)]

    def replace(self, old, new, count=-1):
        return self._new(self._replace(elems(old), elems(new), count))

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.e
            out += elems(p)
        return self._new(out)

    def ljust(self, w, fill=b" "):
        w = w.__index__()
        return self._new(self.e + elems(fill) * max(0, w - len(self.e)))

    def rjust(self, w, fill=b" "):
        w = w.__index__()
        return self._new(elems(fill) * max(0, w - len(self.e)) + self.e)

    def zfill(self, w):
        raise Unsupported("bytes.zfill")

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_elems(self.e, encoding, errors)

    def upper(self):
        return self._new([case_elem(x, True) for x in self.e])

    def lower(self):
        return self._new([case_elem(x, False) for x in self.e])

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def removeprefix(self, p):
        return self[len(elems(p)) :] if self.startswith(p) else self._new(self.e)

    def removesuffix(self, p):
        return self[: len(self.e) - len(elems(p))] if elems(p) and self.endswith(p) else self._new(self.e)

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Unsupported("rsplit(None, n)")
        return [self._new(x) for x in self._rsplit(elems(sep), maxsplit)]

    def partition(self, sep):
        q = self._split(elems(sep), 1)
        if len(q) == 1:
            return (self._new(self.e), self._new([]), self._new([]))
        return (self._new(q[0]), self._new(elems(sep)), self._new(q[1]))

    def rpartition(self, sep):
        q = self._rsplit(elems(sep), 1)
        if len(q) == 1:
            return (self._new([]), self._new([]), self._new(self.e))
        return (self._new(q[0]), self._new(elems(sep)), self._new(q[1]))

    def isdigit(self):
        return bool(self.e) and band(*[in_range(x, 48, 57) for x in self.e])

    def isalpha(self):
        return bool(self.e) and band(*[bor(in_range(x, 65, 90), in_range(x, 97, 122)) for x in self.e])

    def isalnum(self):
        return bool(self.e) and band(*[bor(in_range(x, 48, 57), in_range(x, 65, 90), in_range(x, 97, 122)) for x in self.e])

    def isspace(self):
        return bool(self.e) and band(*[in_set(x, WS_BYTES) for x in self.e])

    def isascii(self):
        return band(*[in_range(x, 0, 127) for x in self.e])

    def insert(self, i, v):
        self._mut()
        i = clamp_index(i, len(self.e), 0)
        self.e.insert(i, int2el(v))

    def pop(self, i=-1):
        self._mut()
        x = self.e.pop(seq_index(i, len(self.e), "pop"))
        return el2int(x)

    def reverse(self):
        self._mut()
        self.e.reverse()

    def _mut(self):
        if not self.mutable:
            raise AttributeError("'bytes' object has no such attribute")

    def __getattr__(self, name):
        if hasattr(bytearray if self.mutable else bytes, name):
            raise Unsupported("bytes." + name)
        raise AttributeError("'%s' object has no attribute '%s'" % ("bytearray" if self.mutable else "bytes", name))


def any_eq(e, cs):
    return bor(*[eqelem(e, c) for c in cs])


def concretise_elems(els):
    out = []
    for x in els:
        out.append(x if isinstance(x, int) else el_any(x).__index__())
    return out


def hexdigit(nib, upper=False):
    """4-bit term -> char element"""
    n = z3.ZeroExt(4, nib)
    return elem(z3.If(z3.ULT(n, 10), n + 48, n + (55 if upper else 87)))


def case_elem(e, upper):
    if isinstance(e, int):
        if e < 128:
            return ord(chr(e).upper() if upper else chr(e).lower())
        raise Unsupported("case mapping of a non-ASCII character")
    w = e.size()
    if upper:
        return elem(z3.If(z3.And(z3.UGE(e, 97), z3.ULE(e, 122)), e - 32, e))
    return elem(z3.If(z3.And(z3.UGE(e, 65), z3.ULE(e, 90)), e + 32, e))


def _ascii_only(els):
    for e in els:
        if isinstance(e, int):
            if e >= 128:
                return False
        elif e.size() > 7:
            r = mkbool(z3.ULT(e, 128))
            if r is not True and not r:
                return False
    return True


# ----------------------------------------------------------------------------------------------- codecs
def norm_enc(enc):
    e = enc.lower().replace("_", "-")
    return {"utf8": "utf-8", "utf-16le": "utf-16-le", "utf16": "utf-16", "us-ascii": "ascii", "latin1": "latin-1", "iso-8859-1": "latin-1", "utf-8-sig": "utf-8-sig"}.get(e, e)


def decode_elems(els, encoding, errors="strict"):
    enc = norm_enc(encoding)
    if all(isinstance(x, int) for x in els):
        return bytes(els).decode(encoding, errors)
    n = len(els)
    if errors in ("replace", "ignore") and enc in ("ascii", "utf-8"):
        out, i = [], 0
        while i < n:
            try:
                out += chars(decode_elems(els[i:], encoding))
                break
            except UnicodeDecodeError as ex:
                out += chars(decode_elems(els[i : i + ex.start], encoding)) + ([0xFFFD] if errors == "replace" else [])
                i += ex.end
        return mkstr(out)
    if errors not in ("strict",) and enc != "latin-1":
        raise Unsupported("decode errors=%s" % errors)

    def fail(i, j, why):
        raise UnicodeDecodeError(enc, b"\x00" * n, i, max(j, i + 1), why)

    if enc == "latin-1":
        return mkstr(els)
    if enc == "ascii":
        for i, e in enumerate(els):
            if not in_range(e, 0, 127):
                fail(i, i + 1, "ordinal not in range(128)")
        return mkstr(els)
    if enc == "utf-8":
        out, i = [], 0
        while i < n:
            e = els[i]
            if in_range(e, 0, 127):
                out.append(e)
                i += 1
                continue
            for ln, a, b, mask in ((2, 0xC2, 0xDF, 5), (3, 0xE0, 0xEF, 4), (4, 0xF0, 0xF4, 3)):
                if in_range(e, a, b):
                    break
            else:
                fail(i, i + 1, "invalid start byte")
            t = z3.Extract(mask - 1, 0, e) if not isinstance(e, int) else z3.BitVecVal(e & ((1 << mask) - 1), mask)
            for k in range(1, ln):
                if i + k >= n:
                    fail(i, n, "unexpected end of data")
                c = els[i + k]
                lo, hi = 0x80, 0xBF
                if k == 1:
                    if eqelem(e, 0xE0):
                        lo = 0xA0
                    elif eqelem(e, 0xED):
                        hi = 0x9F
                    elif eqelem(e, 0xF0):
                        lo = 0x90
                    elif eqelem(e, 0xF4):
                        hi = 0x8F
                if not in_range(c, lo, hi):
                    fail(i, i + k, "invalid continuation byte")
                t = z3.Concat(t, z3.Extract(5, 0, c) if not isinstance(c, int) else z3.BitVecVal(c & 0x3F, 6))
            out.append(elem(_ext(t, False, 21)))
            i += ln
        return mkstr(out)
    if enc in ("utf-16", "utf-16-le", "utf-16-be"):
        big = enc == "utf-16-be"
        i = 0
        if enc == "utf-16" and n >= 2:
            if band(eqelem(els[0], 0xFF), eqelem(els[1], 0xFE)):
                i = 2
            elif band(eqelem(els[0], 0xFE), eqelem(els[1], 0xFF)):
                i, big = 2, True
        out = []

        def unit(k):
            a, b = (els[k + 1], els[k]) if big else (els[k], els[k + 1])
            a = z3.BitVecVal(a, 8) if isinstance(a, int) else a
            b = z3.BitVecVal(b, 8) if isinstance(b, int) else b
            return elem(z3.Concat(b, a))

        while i < n:
            if i + 1 >= n:
                fail(i, n, "truncated data")
            u = unit(i)
            if not in_range(u, 0xD800, 0xDFFF):
                out.append(u)
                i += 2
                continue
            if not in_range(u, 0xD800, 0xDBFF):
                fail(i, i + 2, "illegal encoding")
            if i + 3 >= n:
                fail(i, n, "unexpected end of data")
            v = unit(i + 2)
            if not in_range(v, 0xDC00, 0xDFFF):
                fail(i, i + 2, "illegal UTF-16 surrogate")
            ut = z3.BitVecVal(u, 16) if isinstance(u, int) else u
            vt = z3.BitVecVal(v, 16) if isinstance(v, int) else v
            cp = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(9, 0, ut), z3.Extract(9, 0, vt)) + 0x10000
            out.append(elem(cp))
            i += 4
        return mkstr(out)
    raise Unsupported("decode " + enc)


def encode_elems(els, encoding, errors="strict"):
    enc = norm_enc(encoding)
    if all(isinstance(x, int) for x in els):
        return "".join(map(chr, els)).encode(encoding, errors)
    if errors != "strict":
        raise Unsupported("encode errors=%s" % errors)

    def fail(why="surrogates not allowed"):
        raise UnicodeEncodeError(enc, "?" * len(els), 0, 1, why)

    out = []
    if enc in ("ascii", "latin-1"):
        lim = 127 if enc == "ascii" else 255
        for e in els:
            if not in_range(e, 0, lim):
                fail("ordinal not in range")
            out.append(e if isinstance(e, int) else elem(_ext(e, False, 8)))
        return mkbytes(out)
    if enc == "utf-8":
        for e in els:
            if isinstance(e, int):
                out += list(chr(e).encode("utf-8"))
                continue
            if in_range(e, 0, 127):
                out.append(elem(_ext(e, False, 8)))
                continue
            w = _ext(e, False, 21)
            cont = lambda h, l: elem(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(h, l, w)))
            if in_range(e, 0, 0x7FF):
                out += [elem(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, w))), cont(5, 0)]
            elif in_range(e, 0, 0xFFFF):
                if in_range(e, 0xD800, 0xDFFF):
                    fail()
                out += [elem(z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, w))), cont(11, 6), cont(5, 0)]
            else:
                out += [elem(z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, w))), cont(17, 12), cont(11, 6), cont(5, 0)]
        return mkbytes(out)
    if enc in ("utf-16", "utf-16-le", "utf-16-be"):
        big = enc == "utf-16-be"
        if enc == "utf-16":
            out += [0xFF, 0xFE]

        def put(u):
            lo, hi = (u & 0xFF, u >> 8) if isinstance(u, int) else (elem(z3.Extract(7, 0, u)), elem(z3.Extract(15, 8, u)))
            out.extend([hi, lo] if big else [lo, hi])

        for e in els:
            if isinstance(e, int):
                out += list(chr(e).encode("utf-16-be" if big else "utf-16-le"))
                continue
            if e.size() <= 8 or in_range(e, 0, 0xFFFF):
                if e.size() > 8 and in_range(e, 0xD800, 0xDFFF):
                    fail()
                put(elem(_ext(e, False, 16)))
            else:
                s = _ext(e, False, 21) - 0x10000
                put(elem(z3.Concat(z3.BitVecVal(0x36, 6), z3.Extract(19, 10, s))))
                put(elem(z3.Concat(z3.BitVecVal(0x37, 6), z3.Extract(9, 0, s))))
        return mkbytes(out)
    raise Unsupported("encode " + enc)


# ----------------------------------------------------------------------------------------------- str
def mkstr(els):
    els = list(els)
    for e in els:
        if not isinstance(e, int):
            return SymStr(els)
    return "".join(map(chr, els))


def chars(s):
    if isinstance(s, SymStr):
        return s.e
    if isinstance(s, str):
        return [ord(c) for c in s]
    raise TypeError("expected str instance, %s found" % type(s).__name__)


def isstr(s):
    return isinstance(s, (str, SymStr))


class SymStr(_Seq):
    __slots__ = ("_e", "_lazy", "_h")

    def __init__(self, els=None, lazy=None):
        self._h = None
        self._e = None if els is None else list(els)
        self._lazy = lazy

    @property
    def e(self):
        if self._e is None:
            self._e = chars(self._lazy())
            self._lazy = None
        return self._e

    def force(self):
        return mkstr(self.e)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = slice_bounds(i, len(self.e))
            return mkstr(self.e[a:b:st])
        return mkstr([self.e[seq_index(i, len(self.e), "string")]])

    def __iter__(self):
        return iter([mkstr([x]) for x in self.e])

    def __eq__(self, o):
        if not isstr(o):
            return False
        return eqseq(self.e, chars(o))

    def __ne__(self, o):
        return bnot(self == o)

    def __lt__(self, o):
        return self._lex(chars(o), True, True)

    def __gt__(self, o):
        return self._lex(chars(o), True, False)

    def __le__(self, o):
        return self._lex(chars(o), False, True)

    def __ge__(self, o):
        return self._lex(chars(o), False, False)

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash("".join(map(chr, concretise_elems(self.e))))

    def concretise(self):
        return "".join(map(chr, concretise_elems(self.e)))

    def __fspath__(self):
        return self.concretise()

    def __add__(self, o):
        if not isstr(o):
            raise TypeError("can only concatenate str")
        if self._e is None or (isinstance(o, SymStr) and o._e is None):
            return SymStr(lazy=lambda: mkstr(self.e + chars(o)))
        return mkstr(self.e + chars(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        if self._e is None:
            return SymStr(lazy=lambda: mkstr(chars(o) + self.e))
        return mkstr(chars(o) + self.e)

    def __mul__(self, n):
        return mkstr(self.e * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models

        return models.fmt_percent(self, args)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        return self._contains(chars(x))

    def __repr__(self):
        return "<SymStr>"

    def __str__(self):
        raise Unsupported("native str() of symbolic str")

    def __format__(self, spec):
        raise Unsupported("native format() of symbolic str")

    def encode(self, encoding="utf-8", errors="strict"):
        return encode_elems(self.e, encoding, errors)

    def upper(self):
        return mkstr([self._case(x, True) for x in self.e])

    def lower(self):
        return mkstr([self._case(x, False) for x in self.e])

    def casefold(self):
        return self.lower()

    @staticmethod
    def _case(x, up):
        if not isinstance(x, int) and x.size() > 7:
            r = in_range(x, 0, 127)
            if r is not True and not r:
                raise Unsupported("case mapping of a non-ASCII character")
        return case_elem(x, up)

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def swapcase(self):
        out = []
        for x in self.e:
            self._case(x, True)
            out.append(case_elem(x, not bor(in_range(x, 65, 90))))
        return mkstr(out)

    def isprintable(self):
        self._need_ascii()
        return band(*[in_range(x, 32, 126) for x in self.e])

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported("str." + name)
        raise AttributeError("'str' object has no attribute '%s'" % name)

    def find(self, sub, start=None, end=None):
        return self._find(chars(sub), start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(chars(sub), start, end, True)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        return self._count(chars(sub), start, end)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return bor(*[self.startswith(q, start, end) for q in p])
        n = len(self.e)
        a, b = clamp_index(start, n, 0), clamp_index(end, n, n)
        p = chars(p)
        return eqseq(self.e[a:b][: len(p)], p)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return bor(*[self.endswith(q) for q in p])
        p = chars(p)
        return eqseq(self.e[len(self.e) - len(p) :] if len(p) <= len(self.e) else self.e, p) if p else True

    def removeprefix(self, p):
        return self[len(chars(p)) :] if self.startswith(p) else self.force()

    def removesuffix(self, p):
        return self[: len(self.e) - len(chars(p))] if chars(p) and self.endswith(p) else self.force()

    def _cs(self, cs):
        return list(WS_STR) if cs is None else chars(cs)

    def strip(self, cs=None):
        cs = self._cs(cs)
        return mkstr(self._strip(lambda e: any_eq(e, cs), True, True))

    def lstrip(self, cs=None):
        cs = self._cs(cs)
        return mkstr(self._strip(lambda e: any_eq(e, cs), True, False))

    def rstrip(self, cs=None):
        cs = self._cs(cs)
        return mkstr(self._strip(lambda e: any_eq(e, cs), False, True))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [mkstr(x) for x in self._split_ws(maxsplit, WS_STR)]
        return [mkstr(x) for x in self._split(chars(sep), maxsplit)]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Unsupported("rsplit(None, n)")
        return [mkstr(x) for x in self._rsplit(chars(sep), maxsplit)]

    def partition(self, sep):
        p = self._split(chars(sep), 1)
        if len(p) == 1:
            return (self.force(), "", "")
        return (mkstr(p[0]), sep, mkstr(p[1]))

    def rpartition(self, sep):
        p = self._rsplit(chars(sep), 1)
        if len(p) == 1:
            return ("", "", self.force())
        return (mkstr(p[0]), sep, mkstr(p[1]))

    def splitlines(self, keepends=False):
        out, curl, i, n = [], [], 0, len(self.e)
        while i < n:
            x = self.e[i]
            if in_set(x, (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)):
                nl = [x]
                if i + 1 < n and band(eqelem(x, 13), eqelem(self.e[i + 1], 10)):
                    nl.append(self.e[i + 1])
                    i += 1
                out.append(mkstr(curl + (nl if keepends else [])))
                curl = []
            else:
                curl.append(x)
            i += 1
        if curl:
            out.append(mkstr(curl))
        return out

    def replace(self, old, new, count=-1):
        return mkstr(self._replace(chars(old), chars(new), count))

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.e
            out += chars(p)
        return mkstr(out)

    def isdigit(self):
        if not self.e:
            return False
        self._need_ascii()
        return band(*[in_range(x, 48, 57) for x in self.e])

    isdecimal = isdigit
    isnumeric = isdigit

    def _need_ascii(self):
        if not _ascii_only(self.e):
            raise Unsupported("character class of a non-ASCII character")

    def isalpha(self):
        self._need_ascii()
        return bool(self.e) and band(*[bor(in_range(x, 65, 90), in_range(x, 97, 122)) for x in self.e])

    def isalnum(self):
        self._need_ascii()
        return bool(self.e) and band(*[bor(in_range(x, 48, 57), in_range(x, 65, 90), in_range(x, 97, 122)) for x in self.e])

    def isspace(self):
        return bool(self.e) and band(*[in_set(x, WS_STR) for x in self.e])

    def isupper(self):
        self._need_ascii()
        return band(bor(*[in_range(x, 65, 90) for x in self.e]), bnot(bor(*[in_range(x, 97, 122) for x in self.e])))

    def islower(self):
        self._need_ascii()
        return band(bor(*[in_range(x, 97, 122) for x in self.e]), bnot(bor(*[in_range(x, 65, 90) for x in self.e])))

    def isascii(self):
        return band(*[in_range(x, 0, 127) for x in self.e])

    def isidentifier(self):
        raise Unsupported("isidentifier")

    def ljust(self, w, fill=" "):
        w = w.__index__()
        return mkstr(self.e + chars(fill) * max(0, w - len(self.e)))

    def rjust(self, w, fill=" "):
        w = w.__index__()
        return mkstr(chars(fill) * max(0, w - len(self.e)) + self.e)

    def center(self, w, fill=" "):
        raise Unsupported("center")

    def zfill(self, w):
        w = w.__index__()
        pad = max(0, w - len(self.e))
        if not pad:
            return self.force()
        if self.e and in_set(self.e[0], (43, 45)):
            return mkstr([self.e[0]] + [48] * pad + self.e[1:])
        return mkstr([48] * pad + self.e)

    def format(self, *a, **k):
        from . import models

        return models.fmt_format(self.concretise(), a, k)

    def expandtabs(self, n=8):
        raise Unsupported("expandtabs")

    def translate(self, t):
        raise Unsupported("translate")


# ----------------------------------------------------------------------------------------------- int(str)
def digit_val(e, base):
    """value of a digit char in base as (ok SymBool, SymInt value)"""
    if isinstance(e, int):
        c = chr(e)
        try:
            v = int(c, 36) if c.isalnum() else 99
        except ValueError:
            v = 99
        return (v < base), (v if v < base else 0)
    x = z3.ZeroExt(max(0, 8 - e.size()), e) if e.size() < 8 else e
    w = x.size()
    isd = z3.And(z3.UGE(x, 48), z3.ULE(x, 48 + min(base, 10) - 1))
    ok = isd
    v = x - 48
    if base > 10:
        lo = z3.And(z3.UGE(x, 97), z3.ULE(x, 97 + base - 11))
        up = z3.And(z3.UGE(x, 65), z3.ULE(x, 65 + base - 11))
        ok = z3.Or(isd, lo, up)
        v = z3.If(isd, x - 48, z3.If(lo, x - 87, x - 55))
    return mkbool(ok), SymInt.of(z3.If(ok, v, z3.BitVecVal(0, w)), 0, base - 1)


def str_to_int(s, base=10):
    """int(s, base) for a symbolic str"""
    if isinstance(s, str):
        return int(s, base)
    base = base.__index__()
    x = s.strip()
    if isinstance(x, str):
        return int(x, base)
    e = list(x.e)
    bad = ValueError("invalid literal for int() with base %d" % base)
    neg = False
    if e and in_set(e[0], (43, 45)):
        neg = bool(eqelem(e[0], 45))
        e = e[1:]
    explicit = base == 0
    if len(e) >= 2 and eqelem(e[0], 48):
        for b, cs in ((16, (88, 120)), (8, (79, 111)), (2, (66, 98))):
            if base in (0, b) and in_set(e[1], cs):
                base = b
                e = e[2:]
                if e and eqelem(e[0], 95):
                    e = e[1:]
                break
    if base == 0:
        base = 10
    if not e:
        raise bad
    # underscores: only between digits
    out = []
    prev_us = True
    for c in e:
        if eqelem(c, 95):
            if prev_us:
                raise bad
            prev_us = True
            continue
        prev_us = False
        ok, v = digit_val(c, base)
        if not ok:
            if not isinstance(c, int) and c.size() > 7 and not in_range(c, 0, 127):
                raise Unsupported("int() of a non-ASCII digit")
            raise bad
        out.append(v)
    if prev_us:
        raise bad
    tot = 0
    for v in out:
        tot = tot * base + v
    if explicit and base == 10 and len(out) > 1 and out[0] == 0 and tot != 0:
        raise bad
    return -tot if neg else tot


# ----------------------------------------------------------------------------------------------- uuid
class SymUUID:
    """uuid.UUID over 16 symbolic bytes (big-endian order in .b)."""

    is_safe = uuid.SafeUUID.unknown
    _h = None

    def __init__(self, b):
        self.b = list(b)

    @staticmethod
    def swap(b):
        return b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]

    @staticmethod
    def make(hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, is_safe=None):
        if [hex, bytes, bytes_le, fields, int].count(None) != 4:
            raise TypeError("one of the hex, bytes, bytes_le, fields, or int arguments must be given")
        if version is not None:
            raise Unsupported("UUID version")
        if hex is not None:
            if not isstr(hex):
                raise AttributeError("'%s' object has no attribute 'replace'" % type(hex).__name__)
            h = lift(hex).replace("urn:", "")
            h = lift(h).replace("uuid:", "")
            h = lift(lift(h).strip("{}")).replace("-", "")
            if len(h) != 32:
                raise ValueError("badly formed hexadecimal UUID string")
            h = lift(h)
            # int(h, 16) with 32 characters
            v = str_to_int(h, 16) if isinstance(h, SymStr) else builtin_int(h, 16)
            if not (0 <= v):
                raise ValueError("int is out of range (need a 128-bit value)")
            return SymUUID.from_int(v)
        if bytes_le is not None:
            b = elems(bytes_le)
            if len(b) != 16:
                raise ValueError("bytes_le is not a 16-char string")
            return mkuuid(SymUUID.swap(b))
        if bytes is not None:
            b = elems(bytes)
            if len(b) != 16:
                raise ValueError("bytes is not a 16-char string")
            return mkuuid(b)
        if fields is not None:
            if len(fields) != 6:
                raise ValueError("fields is not a 6-tuple")
            out = []
            for f, n in zip(fields, (4, 2, 2, 1, 1, 6)):
                if not band(f >= 0, f < (1 << (8 * n))):
                    raise ValueError("field out of range")
                out += [byte_of(f, k) for k in range(n - 1, -1, -1)]
            return mkuuid(out)
        return SymUUID.from_int(int)

    @staticmethod
    def from_int(v):
        if not band(v >= 0, v < (1 << 128)):
            raise ValueError("int is out of range (need a 128-bit value)")
        return mkuuid([byte_of(v, k) for k in range(15, -1, -1)])

    @property
    def bytes(self):
        return mkbytes(self.b)

    @property
    def bytes_le(self):
        return mkbytes(SymUUID.swap(self.b))

    @property
    def int(self):
        return int_from_elems(list(reversed(self.b)))

    @property
    def hex(self):
        r = mkbytes(self.b)
        return r.hex()

    @property
    def fields(self):
        f = lambda a, b: int_from_elems(list(reversed(self.b[a:b])))
        return (f(0, 4), f(4, 6), f(6, 8), f(8, 9), f(9, 10), f(10, 16))

    time_low = property(lambda self: self.fields[0])
    time_mid = property(lambda self: self.fields[1])
    time_hi_version = property(lambda self: self.fields[2])

    def sym_str(self):
        h = chars(self.hex)
        d = [45]
        return mkstr(h[:8] + d + h[8:12] + d + h[12:16] + d + h[16:20] + d + h[20:])

    def __eq__(self, o):
        if isinstance(o, SymUUID):
            return eqseq(self.b, o.b)
        if isinstance(o, uuid.UUID):
            return eqseq(self.b, list(o.bytes))
        return False

    def __ne__(self, o):
        return bnot(self == o)

    def _o(self, o):
        return list(o.bytes) if isinstance(o, uuid.UUID) else o.b

    def __lt__(self, o):
        return SymBytes(self.b)._lex(self._o(o), True, True)

    def __gt__(self, o):
        return SymBytes(self.b)._lex(self._o(o), True, False)

    def __le__(self, o):
        return SymBytes(self.b)._lex(self._o(o), False, True)

    def __ge__(self, o):
        return SymBytes(self.b)._lex(self._o(o), False, False)

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(uuid.UUID(bytes=builtin_bytes(concretise_elems(self.b))))

    def __repr__(self):
        return "<SymUUID>"

    def __str__(self):
        raise Unsupported("native str() of symbolic UUID")

    def __format__(self, spec):
        raise Unsupported("native format() of symbolic UUID")


builtin_int, builtin_bytes = int, bytes


def mkuuid(b):
    if all(isinstance(x, int) for x in b):
        return uuid.UUID(bytes=bytes(b))
    return SymUUID(b)


def lift(x):
    if isinstance(x, str):
        return SymStr([ord(c) for c in x])
    if isinstance(x, (bytes,)):
        return SymBytes(list(x))
    if isinstance(x, bytearray):
        return SymBytes(list(x), True)
    return x


# ----------------------------------------------------------------------------------------------- struct
_SIZES = {"b": 1, "B": 1, "c": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1, "s": 1}


def parse_fmt(fmt):
    if isinstance(fmt, (bytes, bytearray)):
        fmt = fmt.decode()
    if isinstance(fmt, SymStr):
        fmt = fmt.concretise()
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    items, num = [], ""
    sizes = dict(_SIZES)
    if order == "@":
        sizes.update(l=8, L=8)
    off = 0
    for c in fmt:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        if c not in sizes:
            raise (struct.error("bad char in struct format") if c not in "efdnNPp" else Unsupported("struct code " + c))
        n = int(num) if num else 1
        num = ""
        if order == "@":
            al = sizes[c]
            pad = (-off) % al if (n or True) else 0
            if pad and c not in "sx":
                items.append(("x", pad, 1))
                off += pad
        if c == "s":
            items.append(("s", n, n))
            off += n
        else:
            items.append((c, n, sizes[c]))
            off += n * sizes[c]
    return order, items, off


def s_calcsize(fmt):
    if isinstance(fmt, (str, bytes)):
        return struct.calcsize(fmt)
    return parse_fmt(fmt)[2]


def s_unpack(fmt, data):
    if isinstance(fmt, (str, bytes)) and not isinstance(data, SymBytes):
        return struct.unpack(fmt, data)
    order, items, size = parse_fmt(fmt)
    els = elems(data)
    if len(els) != size:
        raise struct.error("unpack requires a buffer of %d bytes" % size)
    out, off = [], 0
    big = order in ">!"
    for c, n, sz in items:
        if c == "x":
            off += n
        elif c == "s":
            out.append(mkbytes(els[off : off + n]))
            off += n
        else:
            for _ in range(n):
                ch = els[off : off + sz]
                off += sz
                if big:
                    ch = ch[::-1]
                if c == "c":
                    out.append(mkbytes(ch))
                elif c == "?":
                    out.append(int_from_elems(ch) != 0)
                else:
                    out.append(int_from_elems(ch, c.islower()))
    return tuple(out)


def s_unpack_from(fmt, buffer, offset=0):
    if not isinstance(buffer, SymBytes) and isinstance(offset, int) and isinstance(fmt, (str, bytes)):
        return struct.unpack_from(fmt, buffer, offset)
    size = parse_fmt(fmt)[2]
    n = len(buffer)
    if isinstance(offset, SymInt):
        if not band(offset >= -n, offset <= n):
            raise struct.error("offset out of range")
        offset = offset.__index__()
    if offset < 0:
        offset += n
    if offset < 0 or n - offset < size:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + size))
    return s_unpack(fmt, buffer[offset : offset + size])


def s_iter_unpack(fmt, data):
    size = parse_fmt(fmt)[2]
    if size == 0 or len(data) % size:
        raise struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % size)
    return iter([s_unpack(fmt, data[i : i + size]) for i in range(0, len(data), size)])


def s_pack(fmt, *args):
    if isinstance(fmt, (str, bytes)) and not any(isinstance(a, (SymInt, SymBytes, SymBool)) for a in args):
        return struct.pack(fmt, *args)
    order, items, size = parse_fmt(fmt)
    big = order in ">!"
    want = sum((1 if c == "s" else 0 if c == "x" else n) for c, n, _ in items)
    if want != len(args):
        raise struct.error("pack expected %d items for packing (got %d)" % (want, len(args)))
    out, k = [], 0
    for c, n, sz in items:
        if c == "x":
            out += [0] * n
        elif c == "s":
            v = args[k]
            k += 1
            if not isinstance(v, (bytes, bytearray, SymBytes)):
                raise struct.error("argument for 's' must be a bytes object")
            v = elems(v)[:n]
            out += v + [0] * (n - len(v))
        else:
            for _ in range(n):
                v = args[k]
                k += 1
                if c == "c":
                    if not isbytes(v) or len(v) != 1:
                        raise struct.error("char format requires a bytes object of length 1")
                    out += elems(v)
                    continue
                if c == "?":
                    out.append(int2el(ite(v != 0, 1, 0)))
                    continue
                if isinstance(v, SymBool):
                    v = v._i()
                if not isinstance(v, (int, SymInt)):
                    if hasattr(v, "__index__") and not isinstance(v, (bytes, str, SymBytes, SymStr)):
                        v = v.__index__()
                    else:
                        raise struct.error("required argument is not an integer")
                v = v if isinstance(v, SymInt) else int(v)
                lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if c.islower() else (0, (1 << (8 * sz)) - 1)
                ok = band(v >= lo, v <= hi)
                if ok is not True and not ok:
                    raise struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
                ch = [byte_of(v, j) for j in range(sz)]
                out += ch[::-1] if big else ch
    return mkbytes(out)


def s_pack_into(fmt, buffer, offset, *args):
    b = s_pack(fmt, *args)
    n = len(b)
    if isinstance(offset, SymInt):
        offset = offset.__index__()
    if offset < 0:
        offset += len(buffer)
    if offset < 0 or offset + n > len(buffer):
        raise struct.error("pack_into requires a buffer of at least %d bytes" % (offset + n))
    if isinstance(buffer, SymBytes):
        buffer.e[offset : offset + n] = elems(b)
    elif isinstance(b, bytes):
        buffer[offset : offset + n] = b
    else:
        raise Unsupported("pack_into of symbolic data into a native buffer")


class SymStruct:
    """struct.Struct"""

    def __init__(self, fmt):
        self.format = fmt
        self.size = s_calcsize(fmt)

    def pack(self, *a):
        return s_pack(self.format, *a)

    def unpack(self, d):
        return s_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return s_unpack_from(self.format, d, offset)

    def pack_into(self, b, o, *a):
        return s_pack_into(self.format, b, o, *a)

    def iter_unpack(self, d):
        return s_iter_unpack(self.format, d)


# ----------------------------------------------------------------------------------------------- streams
class SymIO:
    """io.BytesIO / binary file / mmap over byte elements, concrete length, possibly symbolic position."""

    def __init__(self, initial=b"", fixed=False, on_close=None):
        self.buf = list(elems(initial))
        self.pos = 0
        self.fixed = fixed
        self.closed = False
        self.on_close = on_close
        self.name = "<sym>"
        self.mode = "r+b"

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _p(self):
        """concrete position, clamped to len"""
        n = len(self.buf)
        if isinstance(self.pos, int):
            return min(self.pos, n)
        if self.pos >= n:
            return n
        self.pos = self.pos.__index__()
        return self.pos

    def tell(self):
        self._chk()
        return self.pos

    def seek(self, off, whence=0):
        self._chk()
        if whence == 0:
            if off < 0:
                raise ValueError("negative seek value")
            self.pos = off if not isinstance(off, SymBool) else off._i()
        elif whence == 1:
            p = self.pos + off
            self.pos = p if p >= 0 else 0
        elif whence == 2:
            p = len(self.buf) + off
            self.pos = p if p >= 0 else 0
        else:
            raise ValueError("invalid whence")
        return self.pos

    def read(self, n=-1):
        self._chk()
        p = self._p()
        left = len(self.buf) - p
        if n is None:
            n = -1
        if isinstance(n, SymBool):
            n = n._i()
        if isinstance(n, (int, SymInt)):
            if n < 0:
                k = left
            elif n >= left:
                k = left
            else:
                k = n.__index__()
        else:
            raise TypeError("argument should be integer or None, not '%s'" % type(n).__name__)
        out = self.buf[p : p + k]
        if isinstance(self.pos, int) and self.pos <= len(self.buf):
            self.pos = p + k
        return mkbytes(out)

    read1 = read

    def readinto(self, b):
        d = elems(self.read(len(b)))
        b[0 : len(d)] = mkbytes(d)
        return len(d)

    def readline(self, *a):
        out = []
        while True:
            c = self.read(1)
            if not len(c):
                break
            out += elems(c)
            if c == b"\n":
                break
        return mkbytes(out)

    def write(self, b):
        self._chk()
        d = elems(b)
        p = self.pos if isinstance(self.pos, int) else self.pos.__index__()
        if self.fixed and p + len(d) > len(self.buf):
            raise ValueError("data out of range")
        if p > len(self.buf):
            self.buf += [0] * (p - len(self.buf))
        self.buf[p : p + len(d)] = d
        self.pos = p + len(d)
        return len(d)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def truncate(self, size=None):
        size = self._p() if size is None else size.__index__()
        if size < len(self.buf):
            del self.buf[size:]
        return size

    def getvalue(self):
        self._chk()
        return mkbytes(self.buf)

    def getbuffer(self):
        return SymBytes(self.buf, True)

    def flush(self, *a):
        self._chk()

    def close(self):
        if not self.closed and self.on_close:
            self.on_close(self)
        self.closed = True

    def __del__(self):
        try:
            if not self.closed and self.on_close:
                self.on_close(self)
        except BaseException:  # noqa: BLE001
            pass

    def readable(self):
        return True

    writable = seekable = readable

    def fileno(self):
        return _FileNo(self)

    def size(self):
        return len(self.buf)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __len__(self):
        return len(self.buf)

    # mmap protocol
    def __getitem__(self, i):
        r = SymBytes(self.buf)[i]
        return r

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            a, b, st = slice_bounds(i, len(self.buf))
            d = elems(v)
            if self.fixed and b - a != len(d):
                raise IndexError("mmap slice assignment is wrong size")
            self.buf[a:b] = d
            return
        self.buf[seq_index(i, len(self.buf), "mmap")] = int2el(v)

    def __iter__(self):
        while True:
            ln = self.readline()
            if not len(ln):
                return
            yield ln


class _FileNo:
    def __init__(self, f):
        self.f = f


# ----------------------------------------------------------------------------------------------- datetime
class SymDateTime:
    """datetime.datetime with symbolic fields (naive)."""

    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        if tzinfo is not None and not isinstance(tzinfo, datetime.tzinfo):
            raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
        for v, lo, hi, nm in ((year, 1, 9999, "year"), (month, 1, 12, "month")):
            if not isint(v):
                raise TypeError("an integer is required")
            if not band(v >= lo, v <= hi):
                raise ValueError("%s is out of range" % nm)
        # day in month
        leap = band(year % 4 == 0, bor(year % 100 != 0, year % 400 == 0))
        short = bor(month == 4, month == 6, month == 9, month == 11)
        dim = ite(month == 2, ite(leap, 29, 28), ite(short, 30, 31))
        if not band(day >= 1, day <= dim):
            raise ValueError("day is out of range for month")
        for v, hi, nm in ((hour, 23, "hour"), (minute, 59, "minute"), (second, 59, "second"), (microsecond, 999999, "microsecond")):
            if not band(v >= 0, v <= hi):
                raise ValueError("%s must be in 0..%d" % (nm, hi))
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo = tzinfo
        self.fold = 0

    def _k(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def __eq__(self, o):
        if isinstance(o, SymDateTime):
            return band(*[a == b for a, b in zip(self._k(), o._k())])
        if isinstance(o, datetime.datetime):
            ok = (o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)
            return band(*[a == b for a, b in zip(self._k(), ok)])
        return False

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        raise Unsupported("hash of datetime")

    def replace(self, **k):
        d = dict(year=self.year, month=self.month, day=self.day, hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
        d.update(k)
        return SymDateTime(**d)

    def utcoffset(self):
        return None

    def __str__(self):
        raise Unsupported("native str() of symbolic datetime")

    def __format__(self, spec):
        raise Unsupported("native format() of symbolic datetime")

    def __repr__(self):
        return "<SymDateTime>"

    def strftime(self, f):
        from . import models

        out = SymStr(
            lazy=lambda: models.fmt_format(
                f.replace("%Y", "{y:04d}").replace("%m", "{mo:02d}").replace("%d", "{d:02d}").replace("%H", "{h:02d}").replace("%M", "{mi:02d}").replace("%S", "{s:02d}"),
                (),
                dict(y=self.year, mo=self.month, d=self.day, h=self.hour, mi=self.minute, s=self.second),
            )
        )
        return out


SYM = (SymInt, SymBool, SymBytes, SymStr, SymUUID, SymRat, SymIO, SymDateTime)
PYTYPE = {
    SymInt: int,
    SymBool: bool,
    SymStr: str,
    SymUUID: uuid.UUID,
    SymRat: float,
    SymIO: io.BytesIO,
    SymDateTime: datetime.datetime,
    SymStruct: struct.Struct,
}


def pytype(x):
    if type(x) is SymBytes:
        return bytearray if x.mutable else bytes
    return PYTYPE.get(type(x), type(x))


def is_sym(x):
    return isinstance(x, SYM)
