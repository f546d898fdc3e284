"""Models of the builtins and library functions the instrumented code calls, for symbolic operands.

Anything that receives a symbolic operand and has no model here raises Unsupported: nothing is guessed.
"""

import builtins
import collections
import copy
import datetime
import enum
import functools
import io
import itertools
import logging
import math
import operator
import os
import posix
import re
import struct
import sys
import textwrap
import types
import uuid
import warnings

import z3

from . import engine as _eng
from . import values as V
from .engine import Control, Unsupported
from .values import (
    SYM,
    SymBool,
    SymBytes,
    SymDateTime,
    SymInt,
    SymIO,
    SymRat,
    SymStr,
    SymStruct,
    SymUUID,
    band,
    bnot,
    bor,
    chars,
    elems,
    is_sym,
    isbytes,
    isint,
    isstr,
    ite,
    lift,
    mkbool,
    mkbytes,
    mkstr,
    pytype,
)

FunctionType, MethodType = types.FunctionType, types.MethodType
Builtin = types.BuiltinFunctionType
BMethod = type(re.compile("").match)
MISSING = object()


def E():
    return _eng.E


def active():
    e = _eng.E
    return e is not None and e.active


def deep_sym(x, d=2):
    if isinstance(x, SYM) or type(x) is SymHash:
        return True
    if d:
        t = type(x)
        if t in (list, tuple, set, frozenset) or isinstance(x, tuple):
            return any(deep_sym(y, d - 1) for y in x)
        if t is dict:
            return any(deep_sym(y, d - 1) or deep_sym(k, d - 1) for k, y in x.items())
    return False


def any_sym(a, k):
    for x in a:
        if deep_sym(x):
            return True
    for x in k.values():
        if deep_sym(x):
            return True
    return False


# ------------------------------------------------------------------------------------------ text formatting
def dec_str(v, mind=1):
    """decimal text of a SymInt, at least mind digits"""
    if isinstance(v, int):
        return "%0*d" % (mind, v)
    neg = False
    if v.lo < 0 and v < 0:
        neg = True
        v = -v
        if isinstance(v, int):
            return "-" + "%0*d" % (mind, v)
        v = SymInt.of(v.t, max(v.lo, 0), v.hi) if v.lo < 0 else v
    n = max(mind, 1)
    while not (v < 10**n):
        n += 1
    out = []
    for _ in range(n):
        v, r = divmod(v, 10) if not isinstance(v, int) else divmod(v, 10)
        out.append(r + 48 if isinstance(r, int) else V.elem((r + 48).unsigned_term(8)))
    if neg:
        out.append(45)
    return mkstr(reversed(out))


def radix_str(v, bits, upper=False, mind=1):
    """unsigned text in base 2**bits, minimal length but at least mind digits"""
    if isinstance(v, int):
        return format(v, "0%d%s" % (mind, {4: "X" if upper else "x", 3: "o", 1: "b"}[bits]))
    n = max(mind, 1)
    while not (v < (1 << (bits * n))):
        n += 1
    out = []
    w = bits * n
    t = v.unsigned_term(w) if v.t.size() < w else z3.Extract(w - 1, 0, v.t)
    for i in range(n):
        d = z3.Extract(bits * i + bits - 1, bits * i, t)
        if bits == 4:
            out.append(V.hexdigit(d, upper))
        else:
            out.append(V.elem(z3.ZeroExt(8 - bits, d) + 48))
    return mkstr(reversed(out))


_SPEC = re.compile(r"(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)$", re.S)


def format_value(v, spec):
    if isinstance(spec, SymStr):
        spec = spec.concretise()
    if isinstance(v, SymStr):
        m = _SPEC.match(spec)
        if not m:
            raise ValueError("Invalid format specifier")
        fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
        if ty not in ("", "s"):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % ty)
        if prec:
            v = v[: int(prec)]
        if not width:
            return v
        n = len(v)
        pad = max(0, int(width) - n)
        fill = fill or ("0" if zero else " ")
        if align == ">":
            return mkstr(chars(fill) * pad + chars(v))
        if align == "^":
            return mkstr(chars(fill) * (pad // 2) + chars(v) + chars(fill) * (pad - pad // 2))
        return mkstr(chars(v) + chars(fill) * pad)
    if isinstance(v, SymBool):
        v = bool(v)
        return format(v, spec)
    if isinstance(v, SymInt):
        m = _SPEC.match(spec)
        if not m:
            raise ValueError("Invalid format specifier")
        fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
        if prec or comma:
            raise Unsupported("format spec " + spec)
        neg = False
        if v.lo < 0 and v < 0:
            neg = True
            v = -v
            v = SymInt.of(v.t, 0, v.hi) if isinstance(v, SymInt) else v
        elif v.lo < 0:
            v = SymInt.of(v.t, 0, max(v.hi, 0))
        s = "-" if neg else (sign if sign in "+ " else "")
        pre = "0" + ty if alt and ty in ("x", "X", "b", "o") else ""
        w = int(width) if width else 0
        fill = fill or ("0" if zero else " ")
        align = align or ("=" if zero else ">")
        mind = max(1, w - len(s) - len(pre)) if fill == "0" and (align == "=" or (align == ">" and not s and not pre)) else 1
        if ty in ("", "d", "n"):
            body = dec_str(v, mind)
        elif ty in ("x", "X"):
            body = radix_str(v, 4, ty == "X", mind)
        elif ty == "b":
            body = radix_str(v, 1, False, mind)
        elif ty == "o":
            body = radix_str(v, 3, False, mind)
        elif ty == "c":
            body = s_chr(v)
        else:
            if ty in "eEfFgG%":
                raise Unsupported("float format of symbolic int")
            raise ValueError("Unknown format code '%s' for object of type 'int'" % ty)
        head = chars(s + pre)
        pad = max(0, w - len(head) - len(body))
        b = chars(body)
        if align == "=":
            return mkstr(head + chars(fill) * pad + b)
        if align == ">":
            return mkstr(chars(fill) * pad + head + b)
        if align == "<":
            return mkstr(head + b + chars(fill) * pad)
        return mkstr(chars(fill) * (pad // 2) + head + b + chars(fill) * (pad - pad // 2))
    if isinstance(v, SymUUID):
        return format_value(v.sym_str(), spec) if spec else v.sym_str()
    if isinstance(v, SymDateTime):
        return v.strftime(spec) if spec else s_str(v)
    if is_sym(v):
        raise Unsupported("format of %s" % type(v).__name__)
    r = py_str_dunder(v, "__format__", spec)
    if r is not MISSING:
        return r
    if type(v).__format__ is object.__format__:
        if spec:
            return format(v, spec)
        return s_str(v)
    if deep_sym(v, 3):
        return s_str(v)
    return format(v, spec)


def py_str_dunder(v, name, *args):
    """call a dunder method implemented in instrumented Python, allowing a symbolic result"""
    f = getattr(type(v), name, None)
    if isinstance(f, FunctionType) and "__sx_inst__" in f.__globals__:
        return f(v, *args)
    return MISSING


def lazy(fn):
    return SymStr(lazy=fn)


def s_str(*a, **k):
    if not a:
        return str(**k) if k else ""
    v = a[0]
    if len(a) > 1 or k:
        if isinstance(v, SymBytes):
            enc = a[1] if len(a) > 1 else k.get("encoding", "utf-8")
            err = a[2] if len(a) > 2 else k.get("errors", "strict")
            return v.decode(enc, err)
        return str(*a, **k)
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SymInt):
        return lazy(lambda: dec_str(v))
    if isinstance(v, SymBool):
        return str(bool(v))
    if isinstance(v, SymUUID):
        return v.sym_str()
    if isinstance(v, SymDateTime):
        return lazy(
            lambda: fmt_format(
                "{0:04d}-{1:02d}-{2:02d} {3:02d}:{4:02d}:{5:02d}" + (".{6:06d}" if v.microsecond != 0 else ""), v._k(), {}
            )
        )
    if isinstance(v, (SymBytes, SymRat)):
        return lazy(lambda: s_repr(v))
    if type(v) in (list, tuple, dict, set) and deep_sym(v, 3):
        return lazy(lambda: s_repr(v))
    r = py_str_dunder(v, "__str__")
    if r is not MISSING:
        return r
    if type(v).__str__ is object.__str__:
        r = py_str_dunder(v, "__repr__")
        if r is not MISSING:
            return r
    if isinstance(v, BaseException) and any(deep_sym(x) for x in v.args):
        if len(v.args) == 1:
            return s_str(v.args[0])
        return lazy(lambda: s_repr(v.args))
    return str(v)


def s_repr(v):
    if isinstance(v, SymInt):
        return lazy(lambda: dec_str(v))
    if isinstance(v, SymBool):
        return repr(bool(v))
    if isinstance(v, SymStr):

        def q():
            safe = band(*[band(V.in_range(c, 32, 126), bnot(V.in_set(c, (39, 92)))) for c in v.e])
            if not safe:
                raise Unsupported("repr of a string with special characters")
            return mkstr([39] + v.e + [39])

        return lazy(q)
    if isinstance(v, SymUUID):
        return lazy(lambda: mkstr(chars("UUID('") + chars(v.sym_str()) + chars("')")))
    if isinstance(v, SymBytes):

        def qb():
            out = []
            for x in v.e:
                if isinstance(x, int):
                    out += chars(repr(bytes([x]))[2:-1])
                elif band(V.in_range(x, 32, 126), bnot(V.in_set(x, (39, 92)))):
                    out.append(x)
                else:
                    raise Unsupported("repr of symbolic bytes")
            pre, post = ("bytearray(b'", "')") if v.mutable else ("b'", "'")
            return mkstr(chars(pre) + out + chars(post))

        return lazy(qb)
    if type(v) in (list, tuple) and deep_sym(v, 3):

        def ql():
            out = []
            for i, x in enumerate(v):
                if i:
                    out += chars(", ")
                out += chars(s_repr(x))
            if type(v) is list:
                return mkstr([91] + out + [93])
            return mkstr([40] + out + (chars(",") if len(v) == 1 else []) + [41])

        return lazy(ql)
    if is_sym(v) or deep_sym(v, 3):
        return lazy(lambda: _unsup("repr of " + type(v).__name__))
    r = py_str_dunder(v, "__repr__")
    if r is not MISSING:
        return r
    return repr(v)


def _unsup(m):
    raise Unsupported(m)


def convert(v, conv):
    if conv in ("r", "a"):
        return s_repr(v)
    if conv == "s":
        return s_str(v)
    return v


def pieces(ps):
    """join text pieces that may be symbolic / lazy"""
    if all(isinstance(p, str) for p in ps):
        return "".join(ps)

    def go():
        out = []
        for p in ps:
            out += chars(p)
        return mkstr(out)

    return lazy(go)


def fval(v, conv, spec):
    """one f-string field"""
    if conv:
        v = convert(v, conv)
    if is_sym(v):
        if isinstance(v, SymStr) and not spec:
            return v
        return lazy(lambda: format_value(v, spec))
    return format_value(v, spec)


def fstr(*ps):
    if not active():
        return "".join(p if isinstance(p, str) else format(_conv_native(p[0], p[1]), p[2]) for p in ps)
    return pieces([p if isinstance(p, (str, SymStr)) else fval(*p) for p in ps])


def _conv_native(v, c):
    return repr(v) if c == "r" else str(v) if c == "s" else ascii(v) if c == "a" else v


def fmt_format(s, args, kwargs):
    import string

    if isinstance(s, SymStr):
        s = s.concretise()
    if not any_sym(args, kwargs) and not any(_inst_obj(x) for x in args) and not any(_inst_obj(x) for x in kwargs.values()):
        return str.format(s, *args, **kwargs)
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = _string_split(field)
        if first == "":
            first, auto = auto, auto + 1
        if isinstance(first, int) or (isinstance(first, str) and first.isdigit()):
            obj = args[int(first)]
        else:
            obj = kwargs[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else getitem(obj, i)
        if spec and "{" in spec:
            spec = fmt_format(spec, args, kwargs)
        out.append(fval(obj, conv, spec))
    return pieces(out)


def _string_split(field):
    import _string

    f, r = _string.formatter_field_name_split(field)
    return f, list(r)


def _inst_obj(v):
    for n in ("__str__", "__format__", "__repr__"):
        f = getattr(type(v), n, None)
        if isinstance(f, FunctionType) and "__sx_inst__" in f.__globals__:
            return True
    return False


_PCT = re.compile(r"%(?:\((.*?)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", re.S)


def fmt_percent(s, args):
    if isinstance(s, SymStr):
        s = s.concretise()
    seq = args if isinstance(args, tuple) else (args,)
    if not any_sym(seq, {}) and not (isinstance(args, dict) and deep_sym(args)) and not any(_inst_obj(x) for x in seq):
        return s % args
    out, pos, i = [], 0, 0
    for m in _PCT.finditer(s):
        out.append(s[pos : m.start()])
        pos = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == "%":
            out.append("%")
            continue
        if width == "*":
            width = str(seq[i].__index__())
            i += 1
        if prec == "*":
            raise Unsupported("%-format .*")
        if key is not None:
            v = getitem(args, key)
        else:
            if i >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[i]
            i += 1
        spec = ""
        if "-" in flags:
            spec += "<"
        if "+" in flags:
            spec += "+"
        elif " " in flags:
            spec += " "
        if "#" in flags:
            spec += "#"
        if ty in "sra":
            v = s_str(v) if ty == "s" else s_repr(v)
            if width and "-" not in flags:
                spec = ">" + spec
            spec = spec.replace("#", "") + (width or "") + (("." + prec) if prec else "")
            out.append(fval(v, None, spec))
            continue
        if ty in "diuxXoc":
            if "0" in flags and "-" not in flags:
                spec += "0"
            if isinstance(v, SymRat) and ty in "diu":
                v = v.trunc()
            if isinstance(v, SymBool):
                v = v._i()
            if ty in "xXo" and not isint(v):
                raise TypeError("%%%s format: an integer is required, not %s" % (ty, pytype(v).__name__))
            if ty in "diu" and not isinstance(v, (int, float, SymInt)):
                raise TypeError("%%%s format: a real number is required, not %s" % (ty, pytype(v).__name__))
            if ty == "c" and isstr(v):
                out.append(fval(v, None, width or ""))
                continue
            if not isinstance(v, SymInt):
                if isinstance(v, float):
                    v = int(v)
            if prec:
                if width or not isinstance(v, SymInt):
                    if width:
                        raise Unsupported("%-format width and precision")
                spec = spec.replace("0", "") + "0" + prec
            out.append(fval(v, None, spec + (width or "") + ({"i": "d", "u": "d"}.get(ty, ty))))
            continue
        if is_sym(v):
            raise Unsupported("%%%s of a symbolic value" % ty)
        out.append(m.group(0) % v)
    out.append(s[pos:])
    if i < len(seq) and not isinstance(args, dict):
        raise TypeError("not all arguments converted during string formatting")
    return pieces(out)


def mod(a, b):
    if active() and isinstance(a, (str, SymStr)):
        return fmt_percent(a, b)
    return a % b


# ------------------------------------------------------------------------------------------ containers
def keyish(k):
    return is_sym(k) or (isinstance(k, tuple) and deep_sym(k))


def has_symkeys(d):
    return "symkeys" in E().path_state and any(keyish(k) for k in d)


def find_key(d, k):
    """the key of container d equal to k on this path, or MISSING"""
    if not keyish(k) and not has_symkeys(d):
        try:
            hash(k)
        except TypeError:
            raise
        for kk in (k,):
            if kk in d:
                return k
        return MISSING
    for kk in d:
        if kk is k:
            return kk
    for kk in list(d):
        if keq(kk, k):
            return kk
    return MISSING


def keq(a, b):
    if isstr(a) != isstr(b) or isbytes(a) != isbytes(b):
        return False
    r = a == b
    return r if isinstance(r, SymBool) else bool(r)


def mark_key(k):
    """give a symbolic key (distinct on this path from every key it lives with) a private hash"""
    e = E()
    e.path_state["symkeys"] = True
    n = e.path_state.get("keyn", 0) + 1
    e.path_state["keyn"] = n
    if isinstance(k, tuple):
        for x in k:
            if is_sym(x):
                mark_key(x)
        return k
    try:
        if getattr(k, "_h", None) is None:
            k._h = (n * 2654435761) & 0x7FFFFFFFFFFF
    except AttributeError:
        raise Unsupported("symbolic key of type %s" % type(k).__name__)
    return k


def small(k):
    """few possible values: concretising is cheaper than private hashes"""
    return isinstance(k, SymBool)


def canon_key(d, k):
    """key to use for storing into d"""
    if not keyish(k):
        if has_symkeys(d):
            f = find_key(d, k)
            return k if f is MISSING else f
        return k
    f = find_key(d, k)
    if f is not MISSING:
        return f
    if small(k):
        return bool(k)
    return mark_key(k)


def simple_dict(d):
    return isinstance(d, dict) and type(d).__getitem__ is dict.__getitem__


def getitem(o, i):
    if not active():
        return o[i]
    t = type(o)
    if t is bytes or t is str or t is memoryview:
        if is_sym(i) or (t is not memoryview and isinstance(i, slice) and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step))):
            return lift(o)[i]
        return o[i]
    if t is list or t is tuple:
        if isinstance(i, slice):
            if is_sym(i.start) or is_sym(i.stop) or is_sym(i.step):
                a, b, st = V.slice_bounds(i, len(o))
                return o[a:b:st]
            return o[i]
        if isinstance(i, (SymInt, SymBool)):
            if isinstance(i, SymInt) and 1 < len(o) <= 1024 and all(isint(x) and not isinstance(x, bool) for x in o):
                n = len(o)
                if not band(i >= -n, i < n):
                    raise IndexError("%s index out of range" % t.__name__)
                if i.lo < 0:
                    i = ite(i < 0, i + n, i)
                    if not isinstance(i, SymInt):
                        return o[i]
                r = o[-1]
                for j in range(n - 2, -1, -1):
                    r = ite(i == j, o[j], r)
                return r
            return o[V.seq_index(i, len(o), t.__name__)]
        return o[i]
    if isinstance(o, dict) and (keyish(i) or "symkeys" in E().path_state):
        f = find_key(o, i)
        if f is MISSING:
            if hasattr(type(o), "__missing__"):
                k = canon_key(o, i)
                return o[k]
            raise KeyError(i)
        return o[f]
    if isinstance(o, type) and issubclass(o, enum.Enum) and is_sym(i):
        for nm, mem in o.__members__.items():
            if i == nm:
                return mem
        raise KeyError(i)
    return o[i]


def setitem(o, i, v):
    if active():
        if isinstance(o, dict) and (keyish(i) or "symkeys" in E().path_state):
            o[canon_key(o, i)] = v
            return
        if type(o) is list:
            if isinstance(i, (SymInt, SymBool)):
                o[V.seq_index(i, len(o), "list assignment")] = v
                return
            if isinstance(i, slice) and (is_sym(i.start) or is_sym(i.stop)):
                a, b, st = V.slice_bounds(i, len(o))
                o[a:b:st] = v
                return
    o[i] = v


def setitem_v(v, o, i):
    setitem(o, i, v)


def delitem(o, i):
    if active():
        if isinstance(o, dict) and (keyish(i) or "symkeys" in E().path_state):
            f = find_key(o, i)
            if f is MISSING:
                raise KeyError(i)
            del o[f]
            return
        if type(o) is list:
            if isinstance(i, (SymInt, SymBool)):
                del o[V.seq_index(i, len(o), "list assignment")]
                return
            if isinstance(i, slice) and (is_sym(i.start) or is_sym(i.stop)):
                a, b, st = V.slice_bounds(i, len(o))
                del o[a:b:st]
                return
    del o[i]


_OPS = {
    "Add": operator.iadd,
    "Sub": operator.isub,
    "Mult": operator.imul,
    "BitOr": operator.ior,
    "BitAnd": operator.iand,
    "BitXor": operator.ixor,
    "LShift": operator.ilshift,
    "RShift": operator.irshift,
    "FloorDiv": operator.ifloordiv,
    "Div": operator.itruediv,
    "Mod": operator.imod,
    "Pow": operator.ipow,
}


def augitem(o, i, op, v):
    if op == "Mod":
        setitem(o, i, mod(getitem(o, i), v))
    else:
        setitem(o, i, _OPS[op](getitem(o, i), v))


def contains(x, o):
    """x in o"""
    if not active():
        return x in o
    t = type(o)
    if t is SymBytes or t is SymStr:
        if t is SymStr and not isstr(x):
            raise TypeError("'in <string>' requires string as left operand, not %s" % pytype(x).__name__)
        return o.contains(x)
    if t is str:
        if isinstance(x, SymStr):
            return lift(o).contains(x)
        return x in o
    if t is bytes:
        if is_sym(x):
            return lift(o).contains(x)
        return x in o
    if isinstance(o, (dict, set, frozenset)) or t in (type({}.keys()),):
        if type(o).__contains__ not in (dict.__contains__, set.__contains__, frozenset.__contains__, type({}.keys()).__contains__):
            f = type(o).__contains__
            return f(o, x)
        if keyish(x) or has_symkeys(o):
            return bor(*[_beq(k, x) for k in o])
        return x in o
    if t in (list, tuple) and (is_sym(x) or any(is_sym(y) for y in o)):
        return bor(*[True if y is x else _beq(y, x) for y in o])
    if t is range and isinstance(x, SymInt):
        if o.step == 1:
            return band(x >= o.start, x < o.stop)
        return bor(*[x == y for y in o])
    if isinstance(o, type) and issubclass(o, enum.Enum) and is_sym(x):
        return bor(*[x == m.value for m in o])
    r = py_str_dunder(o, "__contains__", x)
    if r is not MISSING:
        return r
    return x in o


def not_contains(x, o):
    return bnot(contains(x, o))


def _beq(a, b):
    if isinstance(a, (SymStr, str)) != isinstance(b, (SymStr, str)):
        return False
    r = a == b
    return r if isinstance(r, (SymBool, bool)) else bool(r)


def is_(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return a == b
    return a is b


def is_not(a, b):
    return bnot(is_(a, b))


def mkset(items=(), cls=set):
    if not active():
        return cls(items)
    if isinstance(items, (set, frozenset)):
        return cls(items)
    items = list(items)
    if not any(keyish(x) for x in items) and "symkeys" not in E().path_state:
        return cls(items)
    s = set()
    for x in items:
        set_add(s, x)
    return cls(s) if cls is not set else s


def set_add(s, x):
    if keyish(x) or has_symkeys(s):
        if find_key(s, x) is MISSING:
            set.add(s, canon_key(s, x))
    else:
        set.add(s, x)


def mkdict(pairs):
    if not active():
        return dict(pairs)
    d = {}
    for p in pairs:
        if p[0] is _STARSTAR:
            for k in p[1].keys():
                setitem(d, k, getitem(p[1], k))
        else:
            setitem(d, p[0], p[1])
    return d


_STARSTAR = object()


def setop(op, a, b):
    """binary operators that exist for sets: - | & ^"""
    if (
        isinstance(a, (set, frozenset))
        and isinstance(b, (set, frozenset))
        and active()
        and (has_symkeys(a) or has_symkeys(b))
    ):
        if op == "Sub":
            return type(a)(x for x in a if find_key(b, x) is MISSING)
        if op == "BitAnd":
            return type(a)(x for x in a if find_key(b, x) is not MISSING)
        if op == "BitOr":
            return mkset(list(a) + list(b), type(a))
        return mkset([x for x in a if find_key(b, x) is MISSING] + [x for x in b if find_key(a, x) is MISSING], type(a))
    if op == "Sub":
        return a - b
    if op == "BitAnd":
        return a & b
    if op == "BitOr":
        return a | b
    return a ^ b


# ------------------------------------------------------------------------------------------ builtins
def s_isinstance(x, cls):
    if not is_sym(x):
        return isinstance(x, cls)
    t = pytype(x)
    if isinstance(cls, tuple):
        return any(s_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(s_isinstance(x, c) for c in cls.__args__)
    if isinstance(x, SymIO):
        return cls in (io.BytesIO, io.IOBase, io.BufferedIOBase, object) or cls is SymIO
    return issubclass(t, cls)


def s_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)


def s_len(x):
    f = getattr(type(x), "__len__", None)
    if isinstance(f, FunctionType):
        return f(x)
    return len(x)


def s_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get("base", None)
    if isinstance(x, SymStr):
        return V.str_to_int(x, 10 if base is None else base)
    if isinstance(x, SymBytes):
        return V.str_to_int(lift(x.decode("latin-1")), 10 if base is None else base)
    if base is None:
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymRat):
            return x.trunc()
        for n in ("__int__", "__index__"):
            r = py_str_dunder(x, n)
            if r is not MISSING:
                return r
    elif is_sym(base):
        base = base.__index__()
        return int(x, base)
    return int(*a, **k)


def s_bool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def _bytes_els(a, k):
    if not a:
        return []
    x = a[0]
    if isstr(x):
        enc = a[1] if len(a) > 1 else k.get("encoding")
        if enc is None:
            raise TypeError("string argument without an encoding")
        return elems(lift(x).encode(enc))
    if isbytes(x):
        return list(elems(x))
    if isint(x):
        n = x if isinstance(x, int) else x.__index__()
        if n < 0:
            raise ValueError("negative count")
        if n > 1 << 24:
            raise Unsupported("huge bytes object")
        return [0] * n
    f = getattr(type(x), "__bytes__", None)
    if f is not None:
        return list(elems(f(x)))
    return [V.int2el(y) for y in x]


def s_bytes(*a, **k):
    return mkbytes(_bytes_els(a, k))


def s_bytearray(*a, **k):
    return SymBytes(_bytes_els(a, k), True)


def s_memoryview(x):
    return x if isinstance(x, SymBytes) else memoryview(x)


def s_ord(c):
    if isinstance(c, (SymStr, SymBytes)):
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        return V.el_any(c.e[0])
    return ord(c)


def s_chr(v):
    if isinstance(v, SymInt):
        if not band(v >= 0, v <= 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([V.elem(v.unsigned_term(max(8, min(21, v.t.size()))) if v.t.size() < 21 else z3.Extract(20, 0, v.t))])
    return chr(v)


def s_hex(v):
    if isinstance(v, SymInt):
        return lazy(lambda: format_value(v, "#x"))
    return hex(v)


def s_bin(v):
    return lazy(lambda: format_value(v, "#b")) if isinstance(v, SymInt) else bin(v)


def s_oct(v):
    return lazy(lambda: format_value(v, "#o")) if isinstance(v, SymInt) else oct(v)


def s_format(v, spec=""):
    return fval(v, None, spec)


def s_range(*a):
    if not any(isinstance(x, (SymInt, SymBool)) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else 1)
    if not isinstance(st, int):
        st = st.__index__()
    if st == 0:
        raise ValueError("range() arg 3 must not be zero")

    def gen():
        i = lo
        while (i < hi) if st > 0 else (i > hi):
            E().tick()
            yield i
            i = i + st

    return gen()


def s_map(f, *its):
    def gen():
        for xs in zip(*its):
            E().tick()
            yield call(f, *xs)

    return gen()


def s_filter(f, it):
    def gen():
        for x in it:
            E().tick()
            if x if f is None else call(f, x):
                yield x

    return gen()


def _key(k):
    return None if k is None else (lambda x: call(k, x))


def s_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_key(key), reverse=reverse)


def s_min(*a, **k):
    return _minmax(False, a, k)


def s_max(*a, **k):
    return _minmax(True, a, k)


def _minmax(mx, a, k):
    key = k.pop("key", None)
    if key is None and not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and all(isint(x) for x in xs) and any(isinstance(x, SymInt) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = ite(x > r if mx else x < r, x, r)
            return r
        return (max if mx else min)(xs)
    return (max if mx else min)(*a, key=_key(key), **k)


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_hash(x):
    r = py_str_dunder(x, "__hash__")
    if r is not MISSING:
        return r
    if E().path_state.get("flat_hash") or is_sym(x) or deep_sym(x, 3):
        return sym_hash(x)
    return hash(x)


def sym_hash(x):
    """hash as an uninterpreted function: equal inputs have equal hashes, unequal inputs unequal ones"""
    return SymHash(x)


class SymHash(int):
    """stand-in hash value: compares equal iff the hashed values are equal"""

    def __new__(cls, x):
        o = int.__new__(cls, 0)
        o.x = x
        return o

    def __eq__(self, o):
        if isinstance(o, SymHash):
            r = self.x == o.x
            return r
        if isinstance(o, int):
            return hash(self.x) == o
        return False

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash(self.x)


def s_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is None or file in (sys.stdout, sys.stderr):
        return None
    ps = []
    for i, x in enumerate(a):
        if i:
            ps.append(" " if sep is None else sep)
        ps.append(s_str(x))
    ps.append("\n" if end is None else end)
    call(file.write, pieces(ps))


def s_divmod(a, b):
    return divmod(a, b)


def s_round(x, n=None):
    if isinstance(x, SymInt) and n is None:
        return x
    if is_sym(x):
        raise Unsupported("round")
    return round(x, n) if n is not None else round(x)


def s_pow(a, b, m=None):
    if is_sym(a) or is_sym(b):
        a, b = (a.__index__() if is_sym(a) else a), (b.__index__() if is_sym(b) else b)
    return pow(a, b) if m is None else pow(a, b, m)


def s_ceil(x):
    if isinstance(x, SymRat):
        return -((-x.num) // x.den)
    if isinstance(x, SymInt):
        return x
    return math.ceil(x)


def s_floor(x):
    if isinstance(x, SymRat):
        return x.num // x.den
    if isinstance(x, SymInt):
        return x
    return math.floor(x)


def s_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(byteorder, SymStr):
        byteorder = byteorder.concretise()
    if not isbytes(b):
        b = mkbytes([V.int2el(x) for x in b])
    if not isinstance(b, SymBytes):
        return int.from_bytes(b, byteorder, signed=signed)
    e = list(b.e)
    if byteorder == "big":
        e.reverse()
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not e:
        return 0
    return V.int_from_elems(e, signed)


def s_fromhex(s):
    s = lift(s)
    out, i, e = [], 0, s.e
    while i < len(e):
        if V.in_set(e[i], V.WS_BYTES):
            i += 1
            continue
        if i + 1 >= len(e):
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        ok1, a = V.digit_val(e[i], 16)
        ok2, b = V.digit_val(e[i + 1], 16)
        if not band(ok1, ok2):
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        out.append(V.int2el(a * 16 + b))
        i += 2
    return mkbytes(out)


def s_uuid(*a, **k):
    if any_sym(a, k):
        return SymUUID.make(*a, **k)
    return uuid.UUID(*a, **k)


def s_struct(fmt):
    return SymStruct(fmt)


def s_next(it, *d):
    return next(it, *d)


def s_getattr(o, n, *d):
    if isinstance(n, SymStr):
        n = n.concretise()
    return getattr(o, n, *d)


def s_hasattr(o, n):
    if isinstance(n, SymStr):
        n = n.concretise()
    if isinstance(o, SymInt):
        return hasattr(int, n)
    return hasattr(pytype(o) if is_sym(o) else o, n)


def s_reduce(f, it, *init):
    return functools.reduce(lambda x, y: call(f, x, y), it, *init)


def s_datetime(*a, **k):
    if any_sym(a, k):
        return SymDateTime(*a, **k)
    return datetime.datetime(*a, **k)


def s_strptime(text, fmt):
    if not any_sym((text, fmt), {}):
        return datetime.datetime.strptime(text, fmt)
    import _strptime

    from . import regex

    if is_sym(fmt):
        raise Unsupported("strptime with a symbolic format")
    datetime.datetime.strptime("1", "%d")
    pat = re.compile(_strptime.TimeRE().pattern(fmt), re.IGNORECASE)
    if set(pat.groupindex) - set("YmdHMS"):
        raise Unsupported("strptime format " + fmt)
    m = regex.match(pat, text)
    if m is None:
        raise ValueError("time data does not match format %r" % fmt)
    if m.end() != len(text):
        raise ValueError("unconverted data remains")
    v = dict(Y=1900, m=1, d=1, H=0, M=0, S=0)
    for n in pat.groupindex:
        v[n] = s_int(m.group(n))
    return SymDateTime(v["Y"], v["m"], v["d"], v["H"], v["M"], v["S"])


def s_bytesio(initial=b""):
    return SymIO(initial)


class SymTextIO:
    """io.StringIO / text file over code points"""

    def __init__(self, initial="", on_close=None, newline=None):
        self.parts = [initial] if len(initial) else []
        self.pos = 0
        self.closed = False
        self.on_close = on_close
        self.name = "<text>"
        self.encoding = "utf-8"

    def _all(self):
        if len(self.parts) > 1:
            self.parts = [pieces(self.parts)]
        return self.parts[0] if self.parts else ""

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, s):
        self._chk()
        if not isstr(s):
            raise TypeError("string argument expected, got '%s'" % pytype(s).__name__)
        if self.pos is not None and self.parts and self.pos != len(self._all()):
            cur = chars(self._all())
            d = chars(s)
            p = self.pos
            if p > len(cur):
                cur += [0] * (p - len(cur))
            cur[p : p + len(d)] = d
            self.parts = [mkstr(cur)]
            self.pos = p + len(d)
            return len(d)
        self.parts.append(s)
        self.pos = None
        return None

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        return self._all()

    def _p(self):
        return len(chars(self._all())) if self.pos is None else self.pos

    def read(self, n=-1):
        self._chk()
        a = chars(self._all())
        p = self._p()
        if n is None or n < 0:
            n = len(a)
        n = n if isinstance(n, int) else n.__index__()
        r = mkstr(a[p : p + n])
        self.pos = min(len(a), p + n)
        return r

    def readline(self, *x):
        self._chk()
        a = chars(self._all())
        p = self._p()
        out = []
        while p < len(a):
            out.append(a[p])
            p += 1
            if V.eqelem(out[-1], 10):
                break
        self.pos = p
        return mkstr(out)

    def readlines(self, hint=-1):
        out, n = [], 0
        for ln in self:
            out.append(ln)
            n += len(ln)
            if hint is not None and 0 < hint < n:
                break
        return out

    def __iter__(self):
        while True:
            ln = self.readline()
            if not len(ln):
                return
            yield ln

    def __next__(self):
        ln = self.readline()
        if not len(ln):
            raise StopIteration
        return ln

    def seek(self, off, whence=0):
        self._chk()
        if whence == 2:
            self.pos = None
        else:
            self.pos = off
        return off

    def tell(self):
        return self._p()

    def truncate(self, n=None):
        n = self._p() if n is None else n
        self.parts = [mkstr(chars(self._all())[:n])]
        return n

    def flush(self):
        pass

    def close(self):
        if not self.closed and self.on_close:
            self.on_close(self)
        self.closed = True

    def __del__(self):
        try:
            if not self.closed and self.on_close:
                self.on_close(self)
        except BaseException:  # noqa: BLE001
            pass

    def isatty(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def universal_newlines(s):
    """text-mode newline translation"""
    if isinstance(s, str):
        return s.replace("\r\n", "\n").replace("\r", "\n")
    e, out, i = chars(s), [], 0
    while i < len(e):
        if V.eqelem(e[i], 13):
            out.append(10)
            if i + 1 < len(e) and V.eqelem(e[i + 1], 10):
                i += 1
        else:
            out.append(e[i])
        i += 1
    return mkstr(out)


# ------------------------------------------------------------------------------------------ virtual files
def vfs():
    return E().path_state.setdefault("vfs", {})


def s_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    if isinstance(file, SymStr):
        file = file.concretise()
    p = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else file
    fs = vfs()
    if isinstance(mode, SymStr):
        mode = mode.concretise()
    root = E().path_state.get("tmproot")
    inside = root is not None and isinstance(p, str) and (p + "/").startswith(root + "/")
    if p not in fs:
        if any(c in mode for c in "wax+"):
            if not inside:
                raise Unsupported("opening %r for writing outside the scratch folder" % (p,))
            if "+" in mode and "r" in mode and not os.path.exists(p):
                raise FileNotFoundError(2, "No such file or directory", p)
            if os.path.exists(p) and "x" in mode:
                raise FileExistsError(17, "File exists", p)
            real = open(p, "ab")
            real.close()
            fs[p] = b""
        elif inside and os.path.isfile(p):
            with open(p, "rb") as f:
                fs[p] = f.read()
        else:
            return open(file, mode, buffering, encoding, errors, newline, **k)
    elif not os.path.exists(p):
        if not any(c in mode for c in "wax"):
            raise FileNotFoundError(2, "No such file or directory", p)
        open(p, "ab").close()
        fs[p] = b""
    elif "x" in mode:
        raise FileExistsError(17, "File exists", p)
    if "w" in mode:
        fs[p] = b""
    content = fs[p]
    if isinstance(content, Live):
        content = mkbytes(content.buf)
    writing = any(c in mode for c in "wa+x")

    if "b" in mode:

        def on_close(f):
            if writing and vfs() is fs:
                if not isinstance(fs.get(p), Live):
                    fs[p] = mkbytes(f.buf)
                    _resize(p, len(f.buf))

        r = SymIO(content, on_close=on_close)
        r.path = p
        if "a" in mode:
            r.pos = len(r.buf)
        r.name = file
        return r

    def on_close_t(f):
        if writing and vfs() is fs:
            t = f.getvalue()
            fs[p] = lazy_bytes(t, encoding or "utf-8")
            _resize(p, 1)

    text = content
    if isbytes(content):
        text = (content if isinstance(content, SymBytes) else bytes(content)).decode(encoding or "utf-8", *([errors] if errors else []))
    else:
        text = content.text
    if newline is None:
        text = universal_newlines(text)
    r = SymTextIO(text, on_close=on_close_t)
    r.path = p
    if "a" in mode:
        r.pos = None
    r.name = file
    return r


class LazyText:
    def __init__(self, text, enc):
        self.text, self.enc = text, enc


def lazy_bytes(t, enc):
    if isinstance(t, str):
        return t.encode(enc)
    return LazyText(t, enc)


def _resize(p, n):
    with open(p, "wb") as f:
        f.truncate(n)


def file_content(p):
    """bytes (or SymBytes) content of a scratch file"""
    p = os.path.realpath(p)
    c = vfs().get(p)
    if c is None:
        with open(p, "rb") as f:
            return f.read()
    if isinstance(c, LazyText):
        c = lift(c.text).encode(c.enc)
    if isinstance(c, Live):
        c = mkbytes(c.buf)
    return c


def file_text(p):
    p = os.path.realpath(p)
    c = vfs().get(p)
    if isinstance(c, LazyText):
        return c.text
    return (c if c is not None else file_content(p)).decode("utf-8")


def s_path_open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    return s_open(str(self), mode, buffering, encoding, errors, newline)


def s_read_text(self, encoding=None, errors=None):
    with s_open(str(self), "r", encoding=encoding) as f:
        return f.read()


def s_read_bytes(self):
    with s_open(str(self), "rb") as f:
        return f.read()


def s_write_text(self, data, encoding=None, errors=None, newline=None):
    with s_open(str(self), "w", encoding=encoding) as f:
        f.write(data)


def s_write_bytes(self, data):
    with s_open(str(self), "wb") as f:
        f.write(data)


def s_getsize(p):
    q = os.path.realpath(p)
    if q in vfs():
        return len(file_content(q))
    return os.path.getsize(p)


def _dest(src, dst):
    d = os.path.realpath(os.fspath(dst))
    return os.path.join(d, os.path.basename(os.path.normpath(os.fspath(src)))) if os.path.isdir(d) else d


def _path_of(p):
    return p.concretise() if isinstance(p, SymStr) else p


def file_move(f, into):
    """a function that moves or copies a file: its content goes along (into: a folder as the target takes the file in)"""

    def g(src, dst, *a, **k):
        src, dst = _path_of(src), _path_of(dst)
        root = E().path_state.get("tmproot")
        s = os.path.realpath(os.fspath(src))
        d = _dest(src, dst) if into else os.path.realpath(os.fspath(dst))
        if root is None or not (d + "/").startswith(root + "/"):
            raise Unsupported("writing %r outside the scratch folder" % (d,))
        fs = vfs()
        copying = f.__name__.startswith("copy")
        deep = [x for x in list(fs) if x == s or x.startswith(s + "/")] if os.path.exists(s) else []
        r = f(src, dst, *a, **k)
        if s != d:
            for x in [x for x in list(fs) if x == d or x.startswith(d + "/")]:
                del fs[x]
            for x in deep:
                fs[d + x[len(s) :]] = fs[x] if copying else fs.pop(x)
        return r

    return g


class SymMmap:
    """mmap.mmap over a scratch file: fixed size, shared content"""

    def __new__(cls, fileno, length, *a, **k):
        if not isinstance(fileno, V._FileNo):
            import mmap

            return mmap.mmap(fileno, length, *a, **k)
        f = fileno.f
        if length not in (0, len(f.buf)):
            raise Unsupported("partial mmap")
        if not f.buf:
            raise ValueError("cannot mmap an empty file")
        m = SymIO(b"", fixed=True)
        m.buf = f.buf  # shared
        m.fixed = True
        vfs()[f.path] = Live(f.buf)
        return m


class Live:
    """content of a file that is currently memory-mapped"""

    def __init__(self, buf):
        self.buf = buf


# ------------------------------------------------------------------------------------------ hashing (UF)
HASH_LEN = {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "md5": 16, "crc32": 4}


def uf_bytes(name, data, n):
    """uninterpreted injective-free function bytes -> n bytes, consistent on equal inputs"""
    e = E()
    tab = e.uf.setdefault(name, [])
    els = list(elems(data))
    for inp, out in tab:
        if len(inp) == len(els) and all(_same(x, y) for x, y in zip(inp, els)):
            return mkbytes(out)
    k = e.fresh_n
    e.fresh_n += 1
    out = [z3.BitVec("uf_%s_%d_%d" % (name, k, i), 8) for i in range(n)]
    for inp, o2 in tab:
        if len(inp) == len(els):
            eq = V.bterm(V.eqseq(inp, els))
            e.assume(z3.Implies(eq, z3.And(*[V.bterm(V.eqelem(a, b)) for a, b in zip(out, o2)])))
            e.assume(z3.Implies(z3.Not(eq), z3.Not(z3.And(*[V.bterm(V.eqelem(a, b)) for a, b in zip(out, o2)]))))
        else:
            e.assume(z3.Not(z3.And(*[V.bterm(V.eqelem(a, b)) for a, b in zip(out, o2)])))
    tab.append((els, out))
    return mkbytes(out)


def _same(x, y):
    if isinstance(x, int) or isinstance(y, int):
        return isinstance(x, int) and isinstance(y, int) and x == y
    return x.eq(y)


class SymHasher:
    def __init__(self, name, data=b"", **k):
        self.name = name
        self.data = list(elems(data))
        self.digest_size = HASH_LEN[name]
        self.block_size = 128 if name in ("sha384", "sha512") else 64

    def update(self, d):
        self.data += elems(d)

    def digest(self):
        if all(isinstance(x, int) for x in self.data) and not E().path_state.get("uf_all"):
            import hashlib

            return hashlib.new(self.name, bytes(self.data)).digest()
        return uf_bytes(self.name, mkbytes(self.data), self.digest_size)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return SymHasher(self.name, mkbytes(self.data))


# ------------------------------------------------------------------------------------------ dispatch
def _bound_native(f, a, k):
    """builtin method bound to a native object, symbolic arguments"""
    s = f.__self__
    n = f.__name__
    t = type(s)
    if t is str:
        if n == "format":
            return fmt_format(s, a, k)
        if n == "join":
            parts = list(a[0])
            if all(isinstance(p, str) for p in parts):
                return s.join(parts)
            for p in parts:
                if not isstr(p):
                    raise TypeError("sequence item: expected str instance, %s found" % pytype(p).__name__)
            ps = []
            for i, p in enumerate(parts):
                if i and s:
                    ps.append(s)
                ps.append(p)
            return pieces(ps)
        if not any_sym(a, k):
            return f(*a, **k)
        return getattr(lift(s), n)(*a, **k)
    if t is bytes:
        if n == "join":
            parts = list(a[0])
            return lift(s).join(parts)
        if not any_sym(a, k):
            return f(*a, **k)
        return getattr(lift(s), n)(*a, **k)
    if isinstance(s, dict):
        symk = bool(a) and (keyish(a[0]) or "symkeys" in E().path_state)
        if n in ("get", "pop", "setdefault") and symk:
            kk = find_key(s, a[0])
            if kk is not MISSING:
                return f(kk, *a[1:], **k)
            if n == "get":
                return a[1] if len(a) > 1 else k.get("default")
            if n == "pop":
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            v = a[1] if len(a) > 1 else None
            s[canon_key(s, a[0])] = v
            return v
        if n == "update" and a and isinstance(a[0], dict):
            for kk in list(a[0].keys()):
                setitem(s, kk, a[0][kk])
            for kk, v in k.items():
                setitem(s, kk, v)
            return None
        if n in ("get", "pop", "setdefault", "keys", "values", "items", "copy", "clear", "popitem", "update", "fromkeys", "move_to_end", "__contains__"):
            return f(*a, **k)
    if isinstance(s, (set, frozenset)):
        if n == "add":
            return set_add(s, a[0])
        if n in ("discard", "remove"):
            kk = find_key(s, a[0])
            if kk is MISSING:
                if n == "remove":
                    raise KeyError(a[0])
                return None
            return f(kk)
        if n == "update":
            for it in a:
                for x in it:
                    set_add(s, x)
            return None
        if n in ("union", "difference", "intersection", "issubset", "issuperset", "isdisjoint", "symmetric_difference") and len(a) == 1:
            o = mkset(a[0])
            if n == "union":
                return setop("BitOr", s, o)
            if n == "difference":
                return setop("Sub", s, o)
            if n == "intersection":
                return setop("BitAnd", s, o)
            if n == "issubset":
                return all(find_key(o, x) is not MISSING for x in s)
            if n == "issuperset":
                return all(find_key(s, x) is not MISSING for x in o)
            if n == "isdisjoint":
                return all(find_key(s, x) is MISSING for x in o)
            return setop("BitXor", s, o)
        if n in ("copy", "clear", "pop", "__contains__"):
            return f(*a, **k)
    if t in (list, tuple, collections.deque) or isinstance(s, (list, tuple)):
        if n == "sort":
            key = k.pop("key", None)
            return f(key=_key(key), **k)
        if n in ("insert", "pop") and a and is_sym(a[0]):
            a = (a[0].__index__(),) + tuple(a[1:])
        return f(*a, **k)
    if isinstance(s, re.Pattern):
        from . import regex

        return regex.pattern_method(s, n, a, k)
    if t in (int, bool):
        if n == "to_bytes":
            a = tuple(x.__index__() if isinstance(x, SymInt) else x for x in a)
            return f(*a, **k)
    if t.__module__.startswith("xml.etree"):
        return f(*a, **k)
    if isinstance(s, type):
        r = CLSMETH.get((s, n))
        if r is not None:
            return r(*a, **k)
        if s is dict and n == "fromkeys":
            return mkdict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
        if n == "__new__":
            return f(*a, **k)
    if isinstance(s, (types.GeneratorType,)) or n in ("__init__", "__new__", "__setattr__", "__init_subclass__"):
        return f(*a, **k)
    if isinstance(s, (io.StringIO, io.TextIOWrapper)) and n == "write":
        return None
    raise Unsupported("%s.%s with symbolic arguments" % (t.__name__, n))


def call(f, *a, **k):
    e = _eng.E
    if e is None or not e.active:
        return f(*a, **k)
    tf = type(f)
    if tf is MethodType:
        fn = f.__func__
        if type(fn) is FunctionType:
            g = fn.__globals__
            if "__sx_inst__" in g or "__sx_pass__" in g:
                return f(*a, **k)
            m = FUNCS.get(fn)
            if m is not None:
                return m(f.__self__, *a, **k)
            return _native_py(fn, f, (f.__self__,) + a, k, a)
        if type(fn) is type or tf is type:
            return f(*a, **k)
        return _other(f, a, k)
    if tf is FunctionType:
        g = f.__globals__
        if "__sx_inst__" in g or "__sx_pass__" in g:
            return f(*a, **k)
        m = FUNCS.get(f)
        if m is not None:
            return m(*a, **k)
        return _native_py(f, f, a, k, a)
    if tf is Builtin or tf is BMethod:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            m = FUNCS.get(f)
            if m is not None:
                return m(*a, **k)
            if f in PASS or not any_sym(a, k):
                return f(*a, **k)
            return _other(f, a, k)
        if isinstance(s, type):
            r = CLSMETH.get((s, f.__name__))
            if r is not None:
                return r(*a, **k)
        ts = type(s)
        if ts is list and f.__name__ == "append":
            return f(*a)
        if any_sym(a, k) or (
            f.__name__ in ("join", "format", "sort")
            or (isinstance(s, (dict, set, frozenset)) and "symkeys" in e.path_state)
        ):
            return _bound_native(f, a, k)
        return f(*a, **k)
    if isinstance(f, type):
        m = CLASSES.get(f)
        if m is not None:
            return m(*a, **k)
        if "__sx_inst__" in getattr(sys.modules.get(f.__module__), "__dict__", {}):
            if issubclass(f, enum.Enum) and a and is_sym(a[0]):
                return enum_lookup(f, a[0])
            return f(*a, **k)
        if issubclass(f, enum.Enum) and a and is_sym(a[0]):
            return enum_lookup(f, a[0])
        if issubclass(f, BaseException) or f in CLASS_PASS or not any_sym(a, k):
            return f(*a, **k)
        if f.__module__ in PASS_MODULES or isinstance(f, enum.EnumMeta):
            return f(*a, **k)
        if f.__init__ is not object.__init__ and isinstance(f.__init__, FunctionType) and "__sx_inst__" in f.__init__.__globals__:
            return f(*a, **k)
        if f.__module__ == "builtins" or issubclass(f, tuple):
            return f(*a, **k)
        raise Unsupported("class %s with symbolic arguments" % f.__qualname__)
    return _other(f, a, k)


def enum_lookup(cls, v):
    if issubclass(cls, enum.Flag):
        return cls(v.__index__())
    for m in cls.__members__.values():
        if v == m.value:
            return m
    raise ValueError("%s is not a valid %s" % ("value", cls.__name__))


def _native_py(fn, f, full, k, a):
    mod = fn.__module__ or ""
    if mod == "logging" or mod.startswith("logging."):
        if fn.__name__ in ("getLogger", "getEffectiveLevel", "isEnabledFor", "makeLogRecord"):
            return f(*a, **k)
        cls, _, name = fn.__qualname__.partition(".")
        if name and cls in LOG_CLASSES | {"Filterer", "Filter"}:
            m = None if name in ("__init__", "__new__", "acquire", "release", "createLock", "close") or cls not in LOG_CLASSES else std_copy(fn)
            if m is None:
                return f(*a, **k)
            return m(*a, **k) if tf_self(f) is None else m(f.__self__, *a, **k)
        return None
    if mod == "warnings":
        return None
    if not any_sym(full, k):
        return f(*a, **k)
    if mod in PASS_MODULES or fn in PASS:
        return f(*a, **k)
    m = std_copy(fn)
    if m is not None:
        return m(*a, **k) if tf_self(f) is None else m(f.__self__, *a, **k)
    raise Unsupported("%s.%s with symbolic arguments" % (mod, fn.__qualname__))


def tf_self(f):
    return getattr(f, "__self__", None)


def std_copy(fn):
    """instrumented copy of a pure-Python standard library function"""
    mod = fn.__module__
    if mod not in STD_COPY:
        return None
    from . import instr

    m = instr.load_std_copy(mod)
    o = m
    for part in fn.__qualname__.split("."):
        o = getattr(o, part, None)
        if o is None:
            return None
    return o


def _other(f, a, k):
    """method descriptors (bytes.hex), partials, callables"""
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    try:
        m = FUNCS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)):
        oc = f.__objclass__
        if not any_sym(a, k) and f.__name__ != "join":
            return f(*a, **k)
        if oc in (str, bytes, bytearray, int):
            return call(getattr(lift(a[0]) if not is_sym(a[0]) else a[0], f.__name__), *a[1:], **k)
        if oc in (list, dict, set, tuple) or issubclass(oc, (list, dict, set)):
            if f.__name__ in ("__setitem__", "__getitem__", "__delitem__", "__contains__", "__init__"):
                if issubclass(oc, dict) and f.__name__ == "__setitem__":
                    return f(a[0], canon_key(a[0], a[1]), a[2])
                return f(*a, **k)
            return _bound_native(getattr(a[0], f.__name__), a[1:], k)
        if f.__name__ in ("__init__", "__setattr__", "__new__"):
            return f(*a, **k)
        raise Unsupported("%s.%s" % (oc.__name__, f.__name__))
    if isinstance(f, types.MethodWrapperType):
        s = f.__self__
        if isinstance(s, dict) and a and keyish(a[0]):
            if f.__name__ == "__setitem__":
                return f(canon_key(s, a[0]), *a[1:])
            if f.__name__ in ("__getitem__",):
                return getitem(s, a[0])
            if f.__name__ == "__contains__":
                return contains(a[0], s)
        if f.__name__ in ("__init__", "__setattr__", "__eq__", "__ne__", "__setitem__", "__getitem__", "__contains__", "__hash__"):
            return f(*a, **k)
        if not any_sym(a, k):
            return f(*a, **k)
        if f.__name__ in ("__str__", "__repr__"):
            return f(*a, **k)
        raise Unsupported("method-wrapper %s" % f.__name__)
    if type(f) is functools._lru_cache_wrapper:
        if any_sym(a, k):
            return call(f.__wrapped__, *a, **k)
        return f(*a, **k)
    c = getattr(type(f), "__call__", None)
    if isinstance(c, FunctionType) and ("__sx_inst__" in c.__globals__ or "__sx_pass__" in c.__globals__):
        return f(*a, **k)
    if not any_sym(a, k):
        return f(*a, **k)
    if isinstance(f, (operator.itemgetter, operator.attrgetter, operator.methodcaller)):
        return f(*a, **k)
    raise Unsupported("call of %r with symbolic arguments" % (f,))


def _math_log2(x):
    if is_sym(x):
        raise Unsupported("log2")
    return math.log2(x)


def s_crc32(data, value=0):
    import zlib

    if not isinstance(data, SymBytes) and not is_sym(value):
        return zlib.crc32(data, value)
    return V.int_from_elems(list(elems(uf_bytes("crc32", data, 4))))


def s_fspath(p):
    return p if isinstance(p, SymStr) else os.fspath(p)


def s_normpath(path):
    """posix._path_normpath"""
    path = s_fspath(path)
    n = len(path)
    if not n:
        return "."
    lead = 0
    while lead < n and path[lead] == "/":
        lead += 1
    comps, cur = [], lead
    for i in range(lead, n + 1):
        if i == n or path[i] == "/":
            if i > cur:
                c = path[cur:i]
                if c == ".":
                    pass
                elif c == ".." and (comps or lead):
                    if comps and not comps[-1] == "..":
                        comps.pop()
                    elif not lead:
                        comps.append(c)
                else:
                    comps.append(c)
            cur = i + 1
    out = {0: "", 2: "//"}.get(lead, "/")
    for i, c in enumerate(comps):
        out = out + ("/" if i else "") + c
    return out if len(out) else "."


def s_hexlify(d):
    return lift(elems_to(d)).hex().encode("ascii")


def s_b64encode(d, altchars=None):
    import base64

    if not isinstance(d, SymBytes) or altchars is not None:
        return base64.b64encode(d, altchars) if not is_sym(d) else _unsup_alt()
    els = list(elems(d))
    out = []
    bv = lambda x: z3.BitVecVal(x, 8) if isinstance(x, int) else x

    def ch(v):
        v = z3.ZeroExt(2, v)
        f = lambda k: v + z3.BitVecVal(k & 0xFF, 8)
        t = z3.If(z3.ULT(v, 26), f(65), z3.If(z3.ULT(v, 52), f(71), z3.If(z3.ULT(v, 62), f(-4), z3.If(v == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))))
        t = z3.simplify(t)
        return t.as_long() if z3.is_bv_value(t) else t

    for i in range(0, len(els), 3):
        part = els[i : i + 3]
        n = len(part)
        w = z3.Concat(*[bv(x) for x in part + [0] * (3 - n)])
        cs = [ch(z3.Extract(23 - 6 * k, 18 - 6 * k, w)) for k in range(n + 1)]
        out += cs + [61] * (3 - n)
    return mkbytes(out)


def _unsup_alt():
    raise Unsupported("base64 with alternative characters")


def elems_to(d):
    return mkbytes(elems(d))


def s_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


FUNCS = {
    isinstance: s_isinstance,
    len: s_len,
    ord: s_ord,
    chr: s_chr,
    hex: s_hex,
    bin: s_bin,
    oct: s_oct,
    format: s_format,
    repr: s_repr,
    sorted: s_sorted,
    min: s_min,
    max: s_max,
    sum: s_sum,
    hash: s_hash,
    print: s_print,
    round: s_round,
    pow: s_pow,
    open: s_open,
    io.open: s_open,
    getattr: s_getattr,
    hasattr: s_hasattr,
    math.ceil: s_ceil,
    math.floor: s_floor,
    functools.reduce: s_reduce,
    struct.pack: V.s_pack,
    struct.unpack: V.s_unpack,
    struct.unpack_from: V.s_unpack_from,
    struct.iter_unpack: V.s_iter_unpack,
    struct.pack_into: V.s_pack_into,
    struct.calcsize: V.s_calcsize,
    os.path.getsize: s_getsize,
    os.fspath: s_fspath,
    getattr(posix, "_path_normpath", os.fspath): s_normpath if hasattr(posix, "_path_normpath") else s_fspath,
}
CLASSES = {
    int: s_int,
    str: s_str,
    bool: s_bool,
    bytes: s_bytes,
    bytearray: s_bytearray,
    memoryview: s_memoryview,
    type: s_type,
    range: s_range,
    map: s_map,
    filter: s_filter,
    set: mkset,
    frozenset: lambda items=(): mkset(items, frozenset),
    uuid.UUID: s_uuid,
    struct.Struct: s_struct,
    io.BytesIO: s_bytesio,
    io.StringIO: lambda initial="", newline=None: SymTextIO(initial),
    datetime.datetime: s_datetime,
}
CLSMETH = {
    (int, "from_bytes"): s_from_bytes,
    (bytes, "fromhex"): s_fromhex,
    (datetime.datetime, "strptime"): s_strptime,
    (bytearray, "fromhex"): lambda s: SymBytes(elems(s_fromhex(s)), True),
}
PASS = {iter, next, id, callable, setattr, delattr, any, all, abs, divmod, vars, issubclass, copy.copy, copy.deepcopy, sys.getsizeof}
CLASS_PASS = {list, tuple, dict, zip, enumerate, reversed, property, slice, object, collections.OrderedDict, collections.defaultdict, collections.deque, collections.Counter, itertools.chain, itertools.islice, itertools.zip_longest, itertools.groupby, super, staticmethod, classmethod}
PASS_MODULES = {"xml.etree.ElementTree", "xml.sax.saxutils", "functools", "operator", "itertools", "contextlib", "sx.values", "sx.api", "typing", "collections", "copy", "types"}
LOG_CLASSES = {"Formatter", "LogRecord", "PercentStyle", "Handler", "StreamHandler", "FileHandler"}
STD_COPY = {"logging", "textwrap", "posixpath", "ntpath", "genericpath", "shlex", "string", "html", "xml.sax.saxutils"}


def _dict_cls(*a, **k):
    if not a:
        return dict(**k)
    d = {}
    src = a[0]
    if isinstance(src, dict):
        for kk in src:
            setitem(d, kk, src[kk])
    else:
        for kk, v in src:
            setitem(d, kk, v)
    d.update(k)
    return d


CLASSES[dict] = _dict_cls


def _install_optional():
    import hashlib
    import mmap
    import pathlib
    import zlib
    import binascii

    for n in HASH_LEN:
        h = getattr(hashlib, n, None)
        if h is not None:
            FUNCS[h] = lambda data=b"", _n=n, **k: SymHasher(_n, data)
    FUNCS[hashlib.new] = lambda name, data=b"", **k: SymHasher(name.lower().replace("-", ""), data)
    CLASSES[mmap.mmap] = SymMmap
    FUNCS[zlib.crc32] = s_crc32
    FUNCS[binascii.crc32] = s_crc32
    import base64

    FUNCS[base64.b64encode] = s_b64encode
    FUNCS[binascii.hexlify] = s_hexlify
    FUNCS[binascii.unhexlify] = s_fromhex
    import shutil

    for fn, into in ((os.rename, False), (os.replace, False), (shutil.move, True), (shutil.copy, True), (shutil.copy2, True), (shutil.copyfile, False)):
        FUNCS[fn] = file_move(fn, into)
    FUNCS[pathlib.Path.rename] = FUNCS[pathlib.Path.replace] = lambda self, t: (call(os.replace, str(self), t), type(self)(t))[1]
    FUNCS[pathlib.Path.open] = s_path_open
    FUNCS[pathlib.Path.read_text] = s_read_text
    FUNCS[pathlib.Path.read_bytes] = s_read_bytes
    FUNCS[pathlib.Path.write_text] = s_write_text
    FUNCS[pathlib.Path.write_bytes] = s_write_bytes
    from . import regex

    for n in ("match", "search", "fullmatch", "split", "sub", "subn", "findall", "finditer", "escape"):
        FUNCS[getattr(re, n)] = functools.partial(regex.module_func, n)


def enter(name):
    e = _eng.E
    if e is not None and e.active:
        e.functions.add(name)
        e.tick()


def tick():
    e = _eng.E
    if e is not None and e.active:
        e.tick()
