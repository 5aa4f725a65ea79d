"""Bit-level domain: integers and floating-point values are z3 bit-vector terms (or Python ints when known).

Comparisons, sign operations, integer operations and memory are exact.  In 'uf' mode the results of + - * / sqrt and
of conversions have an exact sign and an uninterpreted magnitude; the zero, infinity, NaN, exponent and sign rules of
round-to-nearest arithmetic are side conditions (axioms) on the magnitude, which a query may or may not need.
In 'fp' mode they are z3 floating-point terms."""
import math, struct, time
import numpy as np
import z3
import ir, exe
from exe import ExecError, UNDEF, sgn, M

W = {'double': 64, 'float': 32}
MB = {'double': 52, 'float': 23}
INFB = {'double': 0x7ff << 52, 'float': 0xff << 23}
QNAN = {'double': 0x7ff8 << 48, 'float': 0x7fc << 20}
SIGN = {'double': 1 << 63, 'float': 1 << 31}
SORT = {'double': z3.Float64(), 'float': z3.Float32()}
RNE = z3.RNE()


def to_f(k, b):
    return struct.unpack('<d', struct.pack('<Q', b))[0] if k == 'double' else struct.unpack('<f', struct.pack('<I', b))[0]


def to_b(k, x):
    if k == 'double':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    with np.errstate(all='ignore'):
        return int(np.float32(x).view(np.uint32))


def cbin(op, k, a, b):
    """concrete operation on bit patterns"""
    with np.errstate(all='ignore'):
        if k == 'double':
            x, y = np.uint64(a).view(np.float64), np.uint64(b).view(np.float64)
        else:
            x, y = np.uint32(a).view(np.float32), np.uint32(b).view(np.float32)
        r = {'fadd': x.__add__, 'fsub': x.__sub__, 'fmul': x.__mul__, 'fdiv': x.__truediv__}[op](y)
        r = int(r.view(np.uint64 if k == 'double' else np.uint32))
    return QNAN[k] if r & ~SIGN[k] > INFB[k] else r


def csqrt(k, a):
    with np.errstate(all='ignore'):
        if k == 'double':
            r = int(np.sqrt(np.uint64(a).view(np.float64)).view(np.uint64))
        else:
            r = int(np.sqrt(np.uint32(a).view(np.float32)).view(np.uint32))
    return QNAN[k] if r & ~SIGN[k] > INFB[k] else r


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if v is UNDEF:
        raise ExecError('use of an undefined value')
    return v


def bo(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if z3.is_bool(v):
        return v
    return v == z3.BitVecVal(1, 1)


def low(t):
    """python value of a term if it is a constant after simplification"""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


# predicates and operations on bit patterns ------------------------------------
def mag(k, a):
    if isinstance(a, int):
        return a & ~SIGN[k]
    return join(k, z3.BitVecVal(0, 1), parts(k, a)[1])


def parts(k, a):
    """sign bit and magnitude of a pattern, as terms"""
    w = W[k]
    if isinstance(a, int):
        return z3.BitVecVal(a >> (w - 1), 1), z3.BitVecVal(a & M[w - 1], w - 1)
    return z3.simplify(z3.Extract(w - 1, w - 1, a)), z3.simplify(z3.Extract(w - 2, 0, a))


def join(k, s, m):
    return z3.simplify(z3.Concat(s, m))


def symbol(name, k):
    """arbitrary pattern"""
    return z3.Concat(z3.BitVec(name + '.s', 1), z3.BitVec(name + '.m', W[k] - 1))


def isnan(k, a):
    return z3.UGT(bv(mag(k, a), W[k]), bv(INFB[k], W[k]))


def isinf(k, a):
    return bv(mag(k, a), W[k]) == bv(INFB[k], W[k])


def iszero(k, a):
    return bv(mag(k, a), W[k]) == 0


def isneg(k, a):
    return z3.Extract(W[k] - 1, W[k] - 1, bv(a, W[k])) == 1


def neg(k, a):
    if isinstance(a, int):
        return a ^ SIGN[k]
    s, m = parts(k, a)
    return join(k, ~s, m)


def key(k, a):
    """monotone signed integer of a non-NaN pattern (both zeros map to 0)"""
    s, m = parts(k, a)
    m = z3.ZeroExt(1, m)
    return z3.simplify(z3.If(s == 1, -m, m))


def olt(k, a, b):
    return z3.And(z3.Not(isnan(k, a)), z3.Not(isnan(k, b)), key(k, a) < key(k, b))


def ole(k, a, b):
    return z3.And(z3.Not(isnan(k, a)), z3.Not(isnan(k, b)), key(k, a) <= key(k, b))


def oeq(k, a, b):
    return z3.And(z3.Not(isnan(k, a)), z3.Not(isnan(k, b)), key(k, a) == key(k, b))


def same(k, a, b):
    """same bits, or both NaN"""
    return z3.Or(bv(a, W[k]) == bv(b, W[k]), z3.And(isnan(k, a), isnan(k, b)))


_uf = {}


def leaves(t, n=4):
    """[(conditions, int)] when the term is a small decision tree over constants, else None"""
    if isinstance(t, int):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_app_of(t, z3.Z3_OP_ITE) and n > 1:
        a, b = leaves(t.arg(1), n // 2), leaves(t.arg(2), n // 2)
        if a is not None and b is not None:
            return (t.arg(0), a, b)
    return None


def lift(f, t, w):
    """apply an integer function to the constants of a decision tree"""
    if isinstance(t, int):
        return bv(f(t), w)
    return z3.If(t[0], lift(f, t[1], w), lift(f, t[2], w))


def bits_tree(t, w):
    """a term with at most two unknown low bits as a decision tree over its values"""
    r = leaves(t)
    if r is not None:
        return r
    hi = z3.simplify(z3.Extract(w - 1, 2, t)) if w > 2 else None
    if hi is not None and not z3.is_bv_value(hi):
        return None
    base = hi.as_long() << 2 if hi is not None else 0
    b = [z3.simplify(z3.Extract(i, i, t)) for i in range(min(w, 2))]

    def go(i, v):
        if i < 0:
            return v
        if z3.is_bv_value(b[i]):
            return go(i - 1, v | b[i].as_long() << i)
        return (b[i] == 1, go(i - 1, v | 1 << i), go(i - 1, v))
    return go(len(b) - 1, base)


def uf(name, *ws):
    if (name, ws) not in _uf:
        _uf[name, ws] = z3.Function(name, *[z3.BitVecSort(w) for w in ws])
    return _uf[name, ws]


_kept = {}


def srt(a, b):
    """operand order that does not depend on how the code wrote a commutative operation"""
    _kept[a.get_id()] = a                # identities are handed out again when a term is dropped
    _kept[b.get_id()] = b
    if z3.is_bv_value(a) or z3.is_bv_value(b):
        return (b, a) if z3.is_bv_value(a) else (a, b)
    return (a, b) if a.get_id() <= b.get_id() else (b, a)


class Infeasible(Exception):
    pass


class BitDomain:
    commute = False                      # state a+b = b+a for operands that are equal without being the same term

    def __init__(self, mode='uf', fork=None):
        self.mode = mode
        self.fork = fork
        self.axioms = []
        self.fresh = 0
        self.notes = []
        self.convs = []

    # ---- helpers
    def var(self, name, w):
        return z3.BitVec(name, w)

    def new(self, name, w):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), w)

    def ax(self, c):
        self.axioms.append(c)
        if self.fork is not None:
            self.fork.axioms.append(c)

    def undef(self, t):
        if t.k in W:
            return self.new('undef', W[t.k])
        if t.k == 'int':
            return self.new('undef', t.a)
        raise ExecError('undef')

    def fconst(self, k, bits):
        if k not in W:
            return ('x87', bits)
        return bits

    def fp(self, k, a):
        return z3.fpBVToFP(bv(a, W[k]), SORT[k])

    def unfp(self, k, t):
        return z3.If(z3.fpIsNaN(t), bv(QNAN[k], W[k]), z3.fpToIEEEBV(t))

    # ---- floating point
    def fbin(self, op, k, a, b):
        if k not in W:
            raise ExecError('long double arithmetic')
        if a is UNDEF or b is UNDEF:
            raise ExecError('arithmetic on undef')
        if isinstance(a, int) and isinstance(b, int):
            return cbin(op, k, a, b)
        if op == 'frem':
            return self.op2('frem', k, a, b)
        if self.mode == 'fp':
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return self.unfp(k, f(RNE, self.fp(k, a), self.fp(k, b)))
        la, lb = leaves(a), leaves(b)
        if la is not None and isinstance(lb, int):
            return low(lift(lambda v: cbin(op, k, v, lb), la, W[k]))
        if lb is not None and isinstance(la, int):
            return low(lift(lambda v: cbin(op, k, la, v), lb, W[k]))
        if op in ('fmul', 'fadd', 'fsub', 'fdiv') and (la is not None or lb is not None) and not isinstance(la, int) and not isinstance(lb, int):
            # a coefficient chosen among constants: one term per choice
            c, x, y = la if la is not None else lb
            tx, ty = low(lift(lambda v: v, x, W[k])), low(lift(lambda v: v, y, W[k]))
            if la is not None:
                r, q = self.fbin(op, k, tx, b), self.fbin(op, k, ty, b)
            else:
                r, q = self.fbin(op, k, a, tx), self.fbin(op, k, a, ty)
            return low(z3.If(c, bv(r, W[k]), bv(q, W[k])))
        if op == 'fsub':
            op, b = 'fadd', neg(k, b)
        one = to_b(k, 1.0)
        if op == 'fmul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == one:
                return a
            if isinstance(b, int) and b == one ^ SIGN[k]:
                return neg(k, a)
        if op == 'fdiv' and isinstance(b, int) and b == one:
            return a
        w, n = W[k], W[k] - 1
        sa, ma = parts(k, a)
        sb, mb = parts(k, b)
        if op != 'fdiv' and not srt(ma, mb)[0].eq(ma):
            sa, ma, sb, mb = sb, mb, sa, ma
        inf, nan = bv(INFB[k], n), bv(QNAN[k], n)
        za, zb, ia, ib = ma == 0, mb == 0, ma == inf, mb == inf
        un = z3.Or(z3.UGT(ma, inf), z3.UGT(mb, inf))
        diff = z3.simplify(sa ^ sb)
        if op == 'fadd':
            m = uf('add' + k, n, n, 1, n)(ma, mb, diff)
            if self.commute and not z3.is_bv_value(mb):
                self.ax(m == uf('add' + k, n, n, 1, n)(mb, ma, diff))
            gt, lt = z3.UGT(ma, mb), z3.ULT(ma, mb)
            s = z3.simplify(sa if z3.is_true(z3.simplify(diff == 0)) else z3.If(gt, sa, z3.If(lt, sb, sa & sb)))
            big = z3.If(gt, ma, mb)
            small = z3.If(gt, mb, ma)
            p = MB[k]
            one_e = bv(1 << p, n)
            self.ax(z3.If(un, m == nan,
                    z3.If(z3.And(ia, ib), m == z3.If(diff == 0, inf, nan),
                    z3.If(z3.Or(ia, ib), m == inf,
                    z3.If(za, m == mb, z3.If(zb, m == ma,
                    z3.If(diff == 0, z3.And(z3.UGE(m, big), z3.ULE(m, big + one_e), z3.ULE(m, inf)),
                          z3.And(z3.ULE(m, big), (m == 0) == (ma == mb)))))))))
            # a difference is a multiple of the last place of the smaller operand
            es = z3.ZeroExt(2, z3.Extract(n - 1, p, small))
            em = z3.ZeroExt(2, z3.Extract(n - 1, p, m))
            self.ax(z3.Implies(z3.And(m != 0, z3.ULE(big, inf), es > p), em >= es - p))
            return join(k, s, m)
        s = diff
        p = MB[k]
        top = n - p
        ea, eb = z3.ZeroExt(2, z3.Extract(n - 1, p, ma)), z3.ZeroExt(2, z3.Extract(n - 1, p, mb))
        bias = (1 << (top - 1)) - 1
        emax = (1 << top) - 1
        fin = z3.And(ea != emax, eb != emax)
        na, nb = ea != 0, eb != 0
        ea, eb = z3.If(na, ea, bv(1, top + 2)), z3.If(nb, eb, bv(1, top + 2))     # upper limits of denormals
        one = one & M[n]
        if op == 'fmul':
            lo_ok, hi_ok = z3.And(na, nb), z3.BoolVal(True)
            m = uf('mul' + k, n, n, n)(ma, mb)
            if self.commute and not z3.is_bv_value(mb):
                self.ax(m == uf('mul' + k, n, n, n)(mb, ma))
            for u, v in ((ma, mb), (mb, ma)):
                self.ax(z3.Implies(z3.And(z3.ULE(u, one), z3.ULE(v, inf)), z3.Or(z3.ULE(m, v), m == nan)))
                self.ax(z3.Implies(z3.And(z3.UGE(u, one), z3.ULE(u, inf), z3.ULE(v, inf)), z3.Or(z3.UGE(m, v), m == nan)))
            lo, hi = ea + eb - bias, ea + eb - bias + 1
            z, i, bad = z3.Or(za, zb), z3.Or(ia, ib), z3.Or(z3.And(za, ib), z3.And(zb, ia))
        else:
            m = uf('div' + k, n, n, n)(ma, mb)
            self.ax(z3.Implies(z3.And(z3.ULE(ma, mb), mb != 0, z3.ULT(mb, inf)), z3.ULE(m, one)))
            self.ax(z3.Implies(z3.And(z3.UGE(ma, mb), mb != 0, z3.ULE(ma, inf), z3.ULT(mb, inf)), z3.UGE(m, one)))
            lo_ok, hi_ok = na, nb
            lo, hi = ea - eb + bias - 1, ea - eb + bias
            z, i, bad = z3.Or(za, ib), z3.Or(zb, ia), z3.Or(z3.And(za, zb), z3.And(ia, ib))
        full = z3.ZeroExt(2, z3.Extract(n - 1, p, m))
        self.ax(z3.If(z3.Or(un, bad), m == nan, z3.If(z, m == 0, z3.If(i, m == inf, z3.ULE(m, inf)))))
        self.ax(z3.Implies(z3.And(fin, z3.Not(bad)), z3.And(
            z3.Implies(z3.And(lo_ok, lo >= 1), full >= z3.If(lo > emax, bv(emax, top + 2), lo)),
            z3.Implies(z3.And(hi_ok, hi <= emax - 1), full <= z3.If(hi < 1, bv(1, top + 2), hi)))))
        return join(k, s, m)

    def op2(self, name, k, a, b):
        w = W[k]
        A, B = bv(a, w), bv(b, w)
        r = uf(name + k, w, w, w)(A, B)
        self.ax(z3.Implies(z3.Or(isnan(k, A), isnan(k, B)), isnan(k, r)))
        return r

    def fneg(self, k, a):
        return neg(k, a)

    def fabs(self, k, a):
        return mag(k, a)

    def fsqrt(self, k, a):
        if isinstance(a, int):
            return csqrt(k, a)
        w = W[k]
        if self.mode == 'fp':
            return self.unfp(k, z3.fpSqrt(RNE, self.fp(k, a)))
        n = w - 1
        sa, ma = parts(k, a)
        m = uf('sqrt' + k, 1, n, n)(sa, ma)
        inf, nan = bv(INFB[k], n), bv(QNAN[k], n)
        self.ax(z3.If(z3.UGT(ma, inf), m == nan, z3.If(ma == 0, m == 0, z3.If(sa == 1, m == nan,
                z3.If(ma == inf, m == inf, z3.And(z3.ULT(m, inf), m != 0))))))
        return join(k, sa, m)

    def copysign(self, k, a, b):
        w = W[k]
        if isinstance(a, int) and isinstance(b, int):
            return (a & ~SIGN[k]) | (b & SIGN[k])
        return join(k, parts(k, b)[0], parts(k, a)[1])

    def ffma(self, k, a, b, c):
        w = W[k]
        if self.mode == 'fp':
            return self.unfp(k, z3.fpFMA(RNE, self.fp(k, a), self.fp(k, b), self.fp(k, c)))
        A, B, C = bv(a, w), bv(b, w), bv(c, w)
        r = uf('fma' + k, w, w, w, w)(A, B, C)
        self.ax(z3.Implies(z3.Or(isnan(k, A), isnan(k, B), isnan(k, C)), isnan(k, r)))
        return r

    def fround(self, how, k, a):
        if isinstance(a, int):
            f = to_f(k, a)
            if f != f or f in (math.inf, -math.inf):
                return a
            r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}[how](f)
            r = math.copysign(float(r), f)
            return to_b(k, r)
        rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RNE}[how]
        if self.mode == 'fp':
            return self.unfp(k, z3.fpRoundToIntegral(rm, self.fp(k, a)))
        w = W[k]
        r = uf(how + k, w, w)(a)
        self.ax(z3.If(isnan(k, a), isnan(k, r), z3.If(z3.Or(isinf(k, a), iszero(k, a)), r == a, z3.Not(isnan(k, r)))))
        return r

    def fminmax(self, how, k, a, b):
        w = W[k]
        A, B = bv(a, w), bv(b, w)
        c = olt(k, A, B) if how == 'min' else olt(k, B, A)
        return low(z3.If(isnan(k, A), B, z3.If(isnan(k, B), A, z3.If(c, A, B))))

    def fcmp(self, p, k, a, b):
        if a is UNDEF or b is UNDEF:
            raise ExecError('compare undef')
        u = z3.Or(isnan(k, a), isnan(k, b))
        if p == 'uno':
            r = u
        elif p == 'ord':
            r = z3.Not(u)
        else:
            x, y = key(k, a), key(k, b)
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
            r = z3.And(z3.Not(u), r) if p[0] == 'o' else z3.Or(u, r)
        return low(r)

    def fpclass(self, k, a, m):
        p = MB[k]
        w = W[k]
        a = bv(a, w)
        q = z3.Extract(p - 1, p - 1, a) == 1
        n, s = isnan(k, a), isneg(k, a)
        inf, z = isinf(k, a), iszero(k, a)
        ex = z3.Extract(w - 2, p, a)
        sub = z3.And(ex == 0, z3.Not(z))
        nor = z3.And(ex != 0, z3.Not(n), z3.Not(inf))
        cl = [z3.And(n, z3.Not(q)), z3.And(n, q), z3.And(inf, s), z3.And(nor, s), z3.And(sub, s), z3.And(z, s),
              z3.And(z, z3.Not(s)), z3.And(sub, z3.Not(s)), z3.And(nor, z3.Not(s)), z3.And(inf, z3.Not(s))]
        return low(z3.Or(*[c for i, c in enumerate(cl) if m >> i & 1]))

    # ---- integers
    def ibin(self, o, w, a, b, fl):
        if w == 1:
            x, y = bo(a), bo(b)
            if o in ('and', 'mul'):
                return low(z3.And(x, y))
            if o == 'or':
                return low(z3.Or(x, y))
            if o in ('xor', 'add', 'sub'):
                return low(z3.Xor(x, y))
            raise ExecError('i1 ' + o)
        x, y = bv(a, w), bv(b, w)
        if o == 'add':
            r = x + y
        elif o == 'sub':
            r = x - y
        elif o == 'mul':
            r = x * y
        elif o in ('and', 'or', 'xor'):
            f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[o]
            if w in (32, 64):
                # sign bit and magnitude separately, so that sign manipulations stay visible
                r = z3.Concat(f(z3.Extract(w - 1, w - 1, x), z3.Extract(w - 1, w - 1, y)), f(z3.Extract(w - 2, 0, x), z3.Extract(w - 2, 0, y)))
            else:
                r = f(x, y)
        elif o in ('shl', 'lshr', 'ashr'):
            r = {'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[o]()
            if not isinstance(b, int) or b >= w:
                r = z3.If(z3.ULT(y, w), r, self.new('shift', w))
        elif o == 'udiv':
            r = z3.UDiv(x, y)
        elif o == 'urem':
            r = z3.URem(x, y)
        elif o == 'sdiv':
            r = x / y
        elif o == 'srem':
            r = z3.SRem(x, y)
        else:
            raise ExecError('ibin ' + o)
        return low(r)

    def icmp(self, p, w, a, b):
        if w == 1:
            x, y = bv(a, 1), bv(b, 1)
        else:
            x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y,
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[p]()
        return low(r)

    def cast(self, o, t0, t1, v):
        if o in ('trunc', 'zext', 'sext'):
            if t0.a == 1:
                b = bo(v)
                return low(z3.If(b, bv(M[t1.a] if o == 'sext' else 1, t1.a), bv(0, t1.a)))
            x = bv(v, t0.a)
            if o == 'trunc':
                r = z3.Extract(t1.a - 1, 0, x)
                if t1.a == 1:
                    return low(r == 1)
                return low(r)
            return low(z3.ZeroExt(t1.a - t0.a, x) if o == 'zext' else z3.SignExt(t1.a - t0.a, x))
        if o in ('fptosi', 'fptoui'):
            if isinstance(v, int):
                f = to_f(t0.k, v)
                if f == f and abs(f) < 2.0 ** 70:
                    r = math.trunc(f)
                    lo, hi = (-(1 << t1.a - 1), (1 << t1.a - 1) - 1) if o == 'fptosi' else (0, M[t1.a])
                    if lo <= r <= hi:
                        return r & M[t1.a]
                return self.undef(t1)
            if self.mode == 'fp':
                f = self.fp(t0.k, v)
                return (z3.fpToSBV if o == 'fptosi' else z3.fpToUBV)(z3.RTZ(), f, z3.BitVecSort(t1.a))
            return uf('%s_%s_%d' % (o, t0.k, t1.a), W[t0.k], t1.a)(v)
        if o in ('sitofp', 'uitofp'):
            if t1.k not in W:
                raise ExecError('long double conversion')
            if isinstance(v, int):
                return self.int_to_fp(t1.k, sgn(v, t0.a) if o == 'sitofp' else v)
            x = bv(v, t0.a)
            tr = bits_tree(z3.simplify(x), t0.a)
            if tr is not None:
                return low(lift(lambda q: self.int_to_fp(t1.k, sgn(q, t0.a) if o == 'sitofp' else q), tr, W[t1.k]))
            if self.mode == 'fp':
                f = (z3.fpSignedToFP if o == 'sitofp' else z3.fpUnsignedToFP)(RNE, x, SORT[t1.k])
                return self.unfp(t1.k, f)
            w = W[t1.k]
            sx = z3.simplify(z3.Extract(t0.a - 1, t0.a - 1, x)) if o == 'sitofp' else z3.BitVecVal(0, 1)
            ax = z3.simplify(z3.If(sx == 1, -x, x))
            m = uf('itofp_%d_%s' % (t0.a, t1.k), t0.a, w - 1)(ax)
            one, big = bv(to_b(t1.k, 1.0), w - 1), bv(to_b(t1.k, 2.0 ** t0.a), w - 1)
            self.ax(z3.If(x == 0, m == 0, z3.And(z3.UGE(m, one), z3.ULE(m, big))))
            return join(t1.k, sx, m)
        if o in ('fpext', 'fptrunc'):
            if t0.k not in W or t1.k not in W:
                raise ExecError('long double conversion')
            if isinstance(v, int):
                return to_b(t1.k, to_f(t0.k, v)) if v & ~SIGN[t0.k] <= INFB[t0.k] else QNAN[t1.k]
            if self.mode == 'fp':
                return self.unfp(t1.k, z3.fpFPToFP(RNE, self.fp(t0.k, v), SORT[t1.k]))
            w0, w1 = W[t0.k], W[t1.k]
            sv, mv = parts(t0.k, v)
            m = uf(o, w0 - 1, w1 - 1)(mv)
            i0, i1 = bv(INFB[t0.k], w0 - 1), bv(INFB[t1.k], w1 - 1)
            fin = z3.And(z3.ULT(m, i1), m != 0) if o == 'fpext' else z3.ULE(m, i1)
            self.ax(z3.If(z3.UGT(mv, i0), m == bv(QNAN[t1.k], w1 - 1), z3.If(mv == i0, m == i1, z3.If(mv == 0, m == 0, fin))))
            return join(t1.k, sv, m)
        raise ExecError('cast ' + o)

    def int_to_fp(self, k, v):
        if k == 'double':
            return to_b(k, float(v))
        from fractions import Fraction
        import real
        return to_b(k, real.FMT['float']['rnd'](v))

    def bitcast(self, t0, t1, v):
        w0 = W[t0.k] if t0.k in W else t0.a
        w1 = W[t1.k] if t1.k in W else t1.a
        if t0.k == 'int' and t1.k == 'int':
            if w0 == w1:
                return v
            return self.cast('trunc' if w1 < w0 else 'zext', t0, t1, v)
        if w0 != w1:
            raise ExecError('bitcast width')
        return v

    def select(self, c, t, a, b):
        if a is UNDEF or b is UNDEF:
            a = self.undef(t) if a is UNDEF else a
            b = self.undef(t) if b is UNDEF else b
        w = W[t.k] if t.k in W else t.a
        if w == 1:
            return low(z3.If(bo(c), bo(a), bo(b)))
        return low(z3.If(bo(c), bv(a, w), bv(b, w)))

    def byte(self, v, i, t):
        w = W[t.k] if t.k in W else max(8, (t.a + 7) // 8 * 8)
        x = bv(v, w) if not z3.is_bool(v) else bv(v, w)
        return low(z3.Extract(8 * i + 7, 8 * i, x))

    def concat(self, bs):
        return low(z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if len(bs) > 1 else bv(bs[0], 8))

    def ctpop(self, w, a):
        r = bv(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
        return low(r)

    def clz(self, w, a):
        r = bv(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a) == 1, bv(w - 1 - i, w), r)
        return low(r)

    def ctz(self, w, a):
        r = bv(w, w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, a) == 1, bv(i, w), r)
        return low(r)

    def ovf(self, o, w, a, b):
        x, y = bv(a, w), bv(b, w)
        e = z3.SignExt if o[0] == 's' else z3.ZeroExt
        X, Y = e(w, x), e(w, y)
        f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q}[o[1:4]]
        r = f(X, Y)
        t = z3.Extract(w - 1, 0, r)
        return [low(t), low(e(w, t) != r)]

    def fsh(self, name, w, a):
        x, y, s = (bv(v, w) for v in a)
        s = z3.ZeroExt(w, z3.URem(s, bv(w, w)))
        v = z3.Concat(x, y)
        if 'fshl' in name:
            return low(z3.Extract(2 * w - 1, w, v << s))
        return low(z3.Extract(w - 1, 0, z3.LShR(v, s)))

    # ---- control
    def decide(self, c):
        c = low(bo(c))
        if isinstance(c, int):
            return bool(c)
        if self.fork is None:
            raise ExecError('symbolic branch')
        return self.fork.decide(c)

    def concretize(self, v, t):
        w = t.a
        if isinstance(v, int):
            return v
        return self.fork.concretize(bv(v, w), w)


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = self.paths = 0
        self.time = 0.0

    def merge(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown, paths=self.paths, solver_s=round(self.time, 2))


class Fork:
    """depth-first enumeration of the feasible paths by re-execution"""

    def __init__(self, st=None, timeout=60000, max_paths=4000):
        self.st = st or Stats()
        self.timeout = timeout
        self.max_paths = max_paths
        self.base = []

    def start(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.conds = []
        self.pc = []
        self.axioms = []
        self.known = {}          # outcomes of conditions on this path
        self.s = z3.Solver()
        self.s.set('timeout', self.timeout)
        for c in self.base:
            self.s.add(c)

    def assume(self, c):
        self.s.add(c)
        self.pc.append(c)

    def check(self, *cs):
        return self.timed(self.s, *cs)

    def timed(self, s, *cs):
        t = time.time()
        r = s.check(*cs)
        self.st.time += time.time() - t
        self.st.queries += 1
        if r == z3.sat:
            self.st.sat += 1
        elif r == z3.unsat:
            self.st.unsat += 1
        else:
            self.st.unknown += 1
        return r

    def decide(self, c):
        i = len(self.taken)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            assert kind == 'b'
            self.taken.append(('b', v, False))
            self.conds.append((c, v))
            self.assume(c if v else z3.Not(c))
            self.known[c.get_id()] = v, c
            return v
        if c.get_id() in self.known:
            v = self.known[c.get_id()][0]
            self.taken.append(('b', v, False))
            self.conds.append((c, v))
            return v
        t, f = self.check(c), self.check(z3.Not(c))
        if z3.unknown in (t, f):
            raise ExecError('undecided branch')
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        v = t == z3.sat
        both = t == z3.sat and f == z3.sat
        self.taken.append(('b', v, both))
        self.conds.append((c, v))
        self.assume(c if v else z3.Not(c))
        self.known[c.get_id()] = v, c
        return v

    def concretize(self, v, w):
        i = len(self.taken)
        if i < len(self.prefix):
            kind, x = self.prefix[i]
            if kind == 'v':
                self.taken.append(('v', x, False))
                self.assume(v == x)
                return x
            # ('x', excluded values)
            for e in x:
                self.assume(v != e)
            ex = x
        else:
            ex = ()
        r = self.check()
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat:
            raise ExecError('undecided value')
        x = self.s.model().eval(v, model_completion=True).as_long()
        self.taken.append(('v', x, ('x', ex + (x,))))
        self.assume(v == x)
        return x

    def paths(self, run):
        """run(fork) -> result; yields (result, fork) for each feasible path, with fork.s holding its condition"""
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            self.start(prefix)
            try:
                r = run(self)
                ok = True
            except Infeasible:
                ok = False
            for i in range(len(prefix) if not (prefix and prefix[-1][0] == 'x') else len(prefix) - 1, len(self.taken)):
                kind, v, alt = self.taken[i]
                pre = [(a, b) for a, b, _ in self.taken[:i]]
                if kind == 'b' and alt:
                    work.append(pre + [('b', not v)])
                elif kind == 'v' and alt:
                    work.append(pre + [alt])
            if ok:
                n += 1
                self.st.paths += 1
                if n > self.max_paths:
                    raise ExecError('more than %d paths' % self.max_paths)
                yield r
