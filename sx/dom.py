"""Cheap pruning before the solver is asked: finite value sets of narrow terms.

Conditions over text and bytes mostly compare single characters. For every condition that depends on one term of at
most 8 bits ("leaf": an input character, a slice of an integer, or anything not interpreted here) the truth table over
the leaf's values is computed once; per path, the set of values each leaf can still have is the intersection of the
tables of the conditions taken so far. A condition that is true (false) for every remaining value is decided without a
query. The sets over-approximate the path condition, so this only ever confirms what the solver would say; claims are
always given to the solver.
"""

import z3

K = z3
LIMIT = 300000


class Dom:
    def __init__(self):
        self.cache = {}  # ast id -> (ast, result)
        self.dom = {}  # leaf id -> remaining values (bit mask)
        self.pruned = 0

    def reset(self):
        self.dom = {}
        if len(self.cache) > LIMIT:
            self.cache = {}

    # result of table(): ("c", value) | ("l", leafid, [values...] or bool mask, nvalues) | ("m",) several leaves
    def table(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r[1]
        v = self._table(t)
        self.cache[i] = (t, v)
        return v

    def leaf(self, t):
        if t.sort_kind() != z3.Z3_BV_SORT:
            return ("m",)
        w = t.size()
        if w > 8:
            return ("m",)
        return ("l", t.get_id(), list(range(1 << w)), 1 << w)

    def _table(self, t):
        sk = t.sort_kind()
        if sk == z3.Z3_BV_SORT:
            isb = False
            if z3.is_bv_value(t):
                return ("c", t.as_long())
        elif sk == z3.Z3_BOOL_SORT:
            isb = True
            if z3.is_true(t):
                return ("c", True)
            if z3.is_false(t):
                return ("c", False)
        else:
            return ("m",)
        k = t.decl().kind()
        n = t.num_args()
        f = OPS.get(k)
        if f is None or n == 0:
            return ("m",) if isb else self.leaf(t)
        ch = [self.table(t.arg(j)) for j in range(n)]
        key, N = None, 1
        for c in ch:
            if c[0] == "m":
                return ("m",) if isb else self.leaf(t)
            if c[0] == "l":
                if key is None:
                    key, N = c[1], c[3]
                elif key != c[1]:
                    return ("m",) if isb else self.leaf(t)
        cols = []
        for c in ch:
            cols.append([c[1]] * N if c[0] == "c" else c[2])
        out = f(t, cols, N)
        if out is None:
            return ("m",) if isb else self.leaf(t)
        if key is None:
            return ("c", out[0])
        if isb:
            m = 0
            for x in range(N):
                if out[x]:
                    m |= 1 << x
            if m == 0:
                return ("c", False)
            if m == (1 << N) - 1:
                return ("c", True)
            return ("l", key, _Bits(out), N, m)
        return ("l", key, out, N)

    # -- three-valued evaluation under the remaining values --------------------------------------
    def tri(self, t):
        r = self.table(t)
        if r[0] == "c":
            return r[1]
        if r[0] == "l":
            d = self.dom.get(r[1])
            if d is None:
                return None
            m = r[4]
            x = d & m
            if x == 0:
                return False
            if x == d:
                return True
            return None
        k = t.decl().kind()
        if k == z3.Z3_OP_AND:
            allt = True
            for j in range(t.num_args()):
                v = self.tri(t.arg(j))
                if v is False:
                    return False
                if v is None:
                    allt = False
            return True if allt else None
        if k == z3.Z3_OP_OR:
            allf = True
            for j in range(t.num_args()):
                v = self.tri(t.arg(j))
                if v is True:
                    return True
                if v is None:
                    allf = False
            return False if allf else None
        if k == z3.Z3_OP_NOT:
            v = self.tri(t.arg(0))
            return None if v is None else not v
        return None

    def narrow(self, t, val):
        r = self.table(t)
        if r[0] == "c":
            return
        if r[0] == "l":
            N = r[3]
            full = (1 << N) - 1
            m = r[4] if val else full & ~r[4]
            self.dom[r[1]] = self.dom.get(r[1], full) & m
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_NOT:
            self.narrow(t.arg(0), not val)
        elif (k == z3.Z3_OP_AND and val) or (k == z3.Z3_OP_OR and not val):
            for j in range(t.num_args()):
                self.narrow(t.arg(j), val)


class _Bits(list):
    pass


def _mod(t):
    return (1 << t.size()) - 1


def _fold(f):
    def g(t, c, N):
        m = _mod(t)
        out = c[0]
        for k in range(1, len(c)):
            b = c[k]
            out = [f(out[x], b[x]) & m for x in range(N)]
        return out

    return g


def _cmp(f):
    return lambda t, c, N: [f(c[0][x], c[1][x]) for x in range(N)]


def _signed(f):
    def g(t, c, N):
        w = t.arg(0).size()
        h, o = 1 << (w - 1), 1 << w
        s = lambda v: v - o if v >= h else v
        return [f(s(c[0][x]), s(c[1][x])) for x in range(N)]

    return g


def _sext(t, c, N):
    w = t.arg(0).size()
    m = _mod(t)
    return [((v - (1 << w)) & m) if v >> (w - 1) else v for v in c[0]]


def _concat(t, c, N):
    out = c[0]
    for k in range(1, len(c)):
        w = t.arg(k).size()
        out = [(out[x] << w) | c[k][x] for x in range(N)]
    return out


def _extract(t, c, N):
    hi, lo = t.params()
    m = (1 << (hi - lo + 1)) - 1
    return [(v >> lo) & m for v in c[0]]


def _div(f):
    def g(t, c, N):
        if 0 in c[1]:
            return None
        return [f(c[0][x], c[1][x]) for x in range(N)]

    return g


OPS = {
    z3.Z3_OP_EQ: lambda t, c, N: [c[0][x] == c[1][x] for x in range(N)],
    z3.Z3_OP_DISTINCT: lambda t, c, N: [c[0][x] != c[1][x] for x in range(N)] if len(c) == 2 else None,
    z3.Z3_OP_AND: lambda t, c, N: [all(k[x] for k in c) for x in range(N)],
    z3.Z3_OP_OR: lambda t, c, N: [any(k[x] for k in c) for x in range(N)],
    z3.Z3_OP_NOT: lambda t, c, N: [not v for v in c[0]],
    z3.Z3_OP_XOR: lambda t, c, N: [bool(c[0][x]) != bool(c[1][x]) for x in range(N)] if len(c) == 2 else None,
    z3.Z3_OP_IMPLIES: lambda t, c, N: [(not c[0][x]) or c[1][x] for x in range(N)],
    z3.Z3_OP_ITE: lambda t, c, N: [c[1][x] if c[0][x] else c[2][x] for x in range(N)],
    z3.Z3_OP_BADD: _fold(lambda a, b: a + b),
    z3.Z3_OP_BSUB: _fold(lambda a, b: a - b),
    z3.Z3_OP_BMUL: _fold(lambda a, b: a * b),
    z3.Z3_OP_BAND: _fold(lambda a, b: a & b),
    z3.Z3_OP_BOR: _fold(lambda a, b: a | b),
    z3.Z3_OP_BXOR: _fold(lambda a, b: a ^ b),
    z3.Z3_OP_BNOT: lambda t, c, N: [v ^ _mod(t) for v in c[0]],
    z3.Z3_OP_BNEG: lambda t, c, N: [-v & _mod(t) for v in c[0]],
    z3.Z3_OP_ULT: _cmp(lambda a, b: a < b),
    z3.Z3_OP_ULEQ: _cmp(lambda a, b: a <= b),
    z3.Z3_OP_UGT: _cmp(lambda a, b: a > b),
    z3.Z3_OP_UGEQ: _cmp(lambda a, b: a >= b),
    z3.Z3_OP_SLT: _signed(lambda a, b: a < b),
    z3.Z3_OP_SLEQ: _signed(lambda a, b: a <= b),
    z3.Z3_OP_SGT: _signed(lambda a, b: a > b),
    z3.Z3_OP_SGEQ: _signed(lambda a, b: a >= b),
    z3.Z3_OP_ZERO_EXT: lambda t, c, N: c[0],
    z3.Z3_OP_SIGN_EXT: _sext,
    z3.Z3_OP_CONCAT: _concat,
    z3.Z3_OP_EXTRACT: _extract,
    z3.Z3_OP_BUDIV: _div(lambda a, b: a // b),
    z3.Z3_OP_BUREM: _div(lambda a, b: a % b),
    z3.Z3_OP_BUDIV_I: _div(lambda a, b: a // b),
    z3.Z3_OP_BUREM_I: _div(lambda a, b: a % b),
}
