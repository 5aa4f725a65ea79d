"""Real-arithmetic encoding of floating-point code paths.

The executor runs a function with the input ranging over an interval of machine numbers.
Every floating-point operation becomes a Node; a Node records
  lo, hi : enclosure of the machine result (rounding to nearest is monotone, so endpoints
           are computed with the machine operation itself)
  g      : every machine value of the node is a multiple of 2^g
  d      : bound on the rounding error of this operation (0 if exact)
After a path has been executed completely, the total rounding contribution is bounded with
mean-value derivatives and the exact-arithmetic part becomes a Taylor model."""
import math, struct
from fractions import Fraction
import numpy as np
import ir, exe, tm
from exe import M, sgn

LD = np.longdouble
INF = float('inf')
np.seterr(all='ignore')


class Split(Exception):
    """path not determined on this interval"""

    def __init__(self, why, val=None):
        self.why, self.val = why, val


class Trap(Exception):
    """an operation may be invalid / overflow / divide by zero / convert out of range"""


def f32(x):
    if x != x or x in (INF, -INF):
        return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


def ident(x):
    return x


FMT = {'double': dict(p=53, emin=-1022, emax=1023, rnd=ident, w=64, mb=52, bias=1023),
       'float': dict(p=24, emin=-126, emax=127, rnd=f32, w=32, mb=23, bias=127)}


def bits_of(kind, x):
    if kind == 'double':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', x))[0]


def from_bits(kind, b):
    if kind == 'double':
        return struct.unpack('<d', struct.pack('<Q', b & M[64]))[0]
    return struct.unpack('<f', struct.pack('<I', b & M[32]))[0]


def order(kind, x):
    """machine number -> integer, monotone"""
    b = bits_of(kind, x)
    w = FMT[kind]['w']
    return b if not b >> (w - 1) else -(b & M[w - 1])


def unorder(kind, i):
    w = FMT[kind]['w']
    return from_bits(kind, i if i >= 0 else (1 << (w - 1)) | -i)


def up(kind, x):
    return unorder(kind, order(kind, x) + 1)


def down(kind, x):
    return unorder(kind, order(kind, x) - 1)


def rnd_frac(k, f):
    """round a Fraction to nearest even machine number"""
    if f == 0:
        return 0.0
    if k == 'double':
        try:
            return f.numerator / f.denominator
        except OverflowError:
            return INF if f > 0 else -INF
    F = FMT[k]
    n, q = abs(f.numerator), f.denominator
    e = n.bit_length() - q.bit_length()
    if Fraction(n, q) < Fraction(2) ** e:
        e -= 1
    u = Fraction(2) ** (max(e, F['emin']) - F['p'] + 1)
    v = float(round(abs(f) / u) * u)
    v = INF if v >= 2.0 ** (F['emax'] + 1) else v
    return v if f > 0 else -v


def ex2(x):
    """floor(log2|x|) for nonzero finite x"""
    return math.frexp(x)[1] - 1


def trailing(x):
    """largest g with x multiple of 2^g (x nonzero)"""
    m, e = math.frexp(x)
    n = int(m * (1 << 53))
    return e - 53 + (n & -n).bit_length() - 1


class Node:
    __slots__ = ('i', 'k', 'op', 'a', 'b', 'lo', 'hi', 'g', 'd', 'B', 'A', 't', 'lin')

    def __repr__(self):
        return 'n%d:%s[%r,%r]' % (self.i, self.op, self.lo, self.hi)


class SBool:
    """undetermined comparison"""
    __slots__ = ('why', 'val')

    def __init__(self, why, val):
        self.why, self.val = why, val


class Bits:
    """integer view of a machine number"""
    __slots__ = ('n', 'w')

    def __init__(self, n, w):
        self.n, self.w = n, w


class ILin:
    """symbolic integer  al*n + be + e,  n a Node (real value), e in [e0,e1]; lo<=.<=hi"""
    __slots__ = ('n', 'al', 'be', 'e0', 'e1', 'lo', 'hi', 'w')

    def __init__(self, n, al, be, e0, e1, lo, hi, w):
        self.n, self.al, self.be, self.e0, self.e1, self.lo, self.hi, self.w = n, al, be, e0, e1, lo, hi, w


class RealDomain:
    def __init__(self):
        self.trace = []
        self.dec = []         # decisions taken (for locating path boundaries)
        self.consts = {}
        self.traps = True
        self.ub = None

    # ---------------------------------------------------------- node making
    def node(self, k, op, a, b, lo, hi, g, d):
        n = Node()
        n.i = len(self.trace)
        n.k, n.op, n.a, n.b, n.lo, n.hi, n.g, n.d = k, op, a, b, lo, hi, g, d
        n.lin = None
        self.trace.append(n)
        if lo != lo or hi != hi or lo > hi:
            raise Trap('invalid operation in %s' % op)
        if lo in (INF, -INF) or hi in (INF, -INF):
            raise Trap('overflow in %s' % op)
        return n

    def input(self, k, lo, hi, const=False):
        if const:
            self.traps = False
            return self.mk(k, lo)
        g = FMT[k]['emin'] - FMT[k]['p'] + 1
        m = min(abs(lo), abs(hi))
        if m > 0 and (lo > 0) == (hi > 0):
            g = max(g, ex2(m) - FMT[k]['p'] + 1)
        if lo == hi and lo != 0:
            g = trailing(lo)
        return self.node(k, 'in', None, None, lo, hi, g, 0)

    def fconst(self, k, bits):
        key = (k, bits)
        n = self.consts.get(key)
        if n is None:
            n = Node()
            n.i, n.k, n.op, n.a, n.b, n.d = -1, k, 'const', None, None, 0
            v = from_bits(k, bits) if k in FMT else None
            if v is None:
                raise exe.ExecError('x87 constant')
            n.lo = n.hi = v
            n.lin = None
            n.g = trailing(v) if v == v and v not in (0, INF, -INF) else 4000
            self.consts[key] = n
        return n

    def mk(self, k, v):
        return self.fconst(k, bits_of(k, v))

    def rbound(self, k, lo, hi, g, always=False):
        """rounding error bound of a correctly rounded result in [lo,hi] whose exact value is a multiple of 2^g"""
        F = FMT[k]
        m = max(abs(lo), abs(hi))
        if m == 0:
            # exact result rounds to zero: either exact zero or underflow
            e = F['emin']
        else:
            e = max(ex2(m), F['emin'])
        if g is not None and (m == 0 or m <= math.ldexp(1.0, min(g + F['p'], 1023))) and g >= F['emin'] - F['p'] + 1:
            return 0
        return LD(2) ** (e - F['p'])

    def outgrid(self, k, lo, hi, g, d):
        F = FMT[k]
        gm = F['emin'] - F['p'] + 1
        if d == 0 and g is not None:
            return max(g, gm)
        m = min(abs(lo), abs(hi))
        if m > 0 and (lo > 0) == (hi > 0):
            return max(ex2(m) - F['p'] + 1, gm)
        return gm

    # ------------------------------------------------------------ fp ops
    def fbin(self, op, k, a, b):
        if k not in FMT:
            raise exe.ExecError('x87 arithmetic')
        F = FMT[k]
        rnd = F['rnd']
        if a.lo == a.hi and b.lo == b.hi:
            # constants: evaluate exactly
            x, y = a.lo, b.lo
            if a.op == 'const' and b.op == 'const':
                if op == 'fadd':
                    r = rnd(x + y)
                elif op == 'fsub':
                    r = rnd(x - y)
                elif op == 'fmul':
                    r = rnd(x * y)
                elif y == 0:
                    r = float('nan') if x == 0 or x != x else math.copysign(INF, x) * math.copysign(1.0, y)
                else:
                    r = rnd(x / y)
                if self.traps and (r != r or r in (INF, -INF)):
                    raise Trap('constant %s not finite' % op)
                # keep rounding inside the constant: exact value of machine constant is what the code uses
                return self.mk(k, r)
        if op == 'fadd' or op == 'fsub':
            if op == 'fsub':
                lo, hi = a.lo - b.hi, a.hi - b.lo
            else:
                lo, hi = a.lo + b.lo, a.hi + b.hi
            lo, hi = rnd(lo), rnd(hi)
            if b.op == 'const' and b.lo == 0:
                return a
            if op == 'fadd' and a.op == 'const' and a.lo == 0:
                return b
            if a is b and op == 'fsub':
                return self.mk(k, 0.0)
            g = min(a.g, b.g)
            if op == 'fadd' and a is b:
                d = 0
                g = a.g + 1
            else:
                d = self.rbound(k, lo, hi, g)
            return self.node(k, op, a, b, lo, hi, self.outgrid(k, lo, hi, g, d), d)
        if op == 'fmul':
            for u, v in ((a, b), (b, a)):
                if u.op == 'const':
                    if u.lo == 0:
                        return self.mk(k, 0.0)
                    if u.lo == 1:
                        return v
            if a is b:
                q = [a.lo * a.lo, a.hi * a.hi]
                if a.lo <= 0 <= a.hi:
                    q.append(0.0)
            else:
                q = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            lo, hi = rnd(min(q)), rnd(max(q))
            g = a.g + b.g
            d = self.rbound(k, lo, hi, g)
            if d != 0:
                for u in (a, b):
                    if u.op == 'const' and abs(math.frexp(u.lo)[0]) == 0.5:
                        m = min(abs(lo), abs(hi))
                        if m >= math.ldexp(1.0, F['emin']) and (lo > 0) == (hi > 0):
                            d = 0
                        elif not (m >= math.ldexp(1.0, F['emin']) and (lo > 0) == (hi > 0)):
                            d = LD(2) ** (F['emin'] - F['p'])
            return self.node(k, op, a, b, lo, hi, self.outgrid(k, lo, hi, g, d), d)
        if op == 'fdiv':
            if b.lo <= 0 <= b.hi:
                if b.lo == b.hi:
                    raise Trap('division by zero')
                raise Split('divisor may be zero', b)
            if a.op == 'const' and a.lo == 0:
                return self.mk(k, 0.0)
            if b.op == 'const' and b.lo == 1:
                return a
            q = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
            lo, hi = rnd(min(q)), rnd(max(q))
            d = self.rbound(k, lo, hi, None)
            if b.op == 'const' and abs(math.frexp(b.lo)[0]) == 0.5:
                m = min(abs(lo), abs(hi))
                if m >= math.ldexp(1.0, F['emin']) and (lo > 0) == (hi > 0):
                    d = 0
                else:
                    d = LD(2) ** (F['emin'] - F['p'])
            return self.node(k, op, a, b, lo, hi, self.outgrid(k, lo, hi, None, d), d)
        raise exe.ExecError(op)

    def fneg(self, k, a):
        if a.op == 'const':
            return self.mk(k, -a.lo)
        if a.op == 'neg':
            return a.a
        return self.node(k, 'neg', a, None, -a.hi, -a.lo, a.g, 0)

    def fabs(self, k, a):
        if a.op == 'const':
            return self.mk(k, abs(a.lo))
        if a.lo >= 0:
            return a
        if a.hi <= 0:
            return self.fneg(k, a)
        self.need('sign', a)

    def need(self, why, a):
        raise Split(why, a)

    def fsqrt(self, k, a):
        if a.op == 'const':
            if a.lo != a.lo or a.lo < 0:
                if self.traps:
                    raise Trap('sqrt of negative')
                return self.mk(k, float('nan'))
            return self.mk(k, FMT[k]['rnd'](math.sqrt(a.lo)))
        if a.lo < 0:
            if a.hi < 0:
                raise Trap('sqrt of negative')
            raise Split('sqrt domain', a)
        F = FMT[k]
        if k == 'double':
            lo, hi = math.sqrt(a.lo), math.sqrt(a.hi)
        else:
            lo, hi = f32(math.sqrt(a.lo)), f32(math.sqrt(a.hi))
        d = self.rbound(k, lo, hi, None)
        if lo == hi and Fraction(lo) ** 2 == Fraction(a.lo) and a.lo == a.hi:
            d = 0
        return self.node(k, 'sqrt', a, None, lo, hi, self.outgrid(k, lo, hi, None, d), d)

    def copysign(self, k, a, b):
        s = self.signbit(b)
        a = self.fabs(k, a)
        return self.fneg(k, a) if s else a

    def ffma(self, k, a, b, c):
        if a.op == 'const' and b.op == 'const':
            p = Fraction(a.lo) * Fraction(b.lo)
            if p == Fraction(FMT[k]['rnd'](float(p))):
                return self.fbin('fadd', k, self.mk(k, float(p)), c)
            raise exe.ExecError('fma of constants')
        q = [Fraction(x) * Fraction(y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        if a is b and a.lo <= 0 <= a.hi:
            q.append(Fraction(0))
        mn, mx = min(q), max(q)
        if a is b:
            mn = max(mn, Fraction(0))
        # the product is exact: a node without rounding whose enclosure is widened to machine numbers
        p = self.node(k, 'fmul', a, b, math.nextafter(float(mn), -INF), math.nextafter(float(mx), INF), a.g + b.g, 0)
        lo, hi = mn + Fraction(c.lo), mx + Fraction(c.hi)
        lo, hi = rnd_frac(k, lo), rnd_frac(k, hi)
        g = min(p.g, c.g)
        d = self.rbound(k, lo, hi, g)
        return self.node(k, 'fadd', p, c, lo, hi, self.outgrid(k, lo, hi, g, d), d)

    def fround(self, how, k, a):
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}[how]
        x, y = f(a.lo), f(a.hi)
        if x != y:
            raise Split(how, a)
        self.dec.append(x)
        return self.mk(k, float(x))

    def fminmax(self, how, k, a, b):
        if a.hi <= b.lo:
            r = (a, b)
        elif b.hi <= a.lo:
            r = (b, a)
        else:
            raise Split(how, a)
        self.dec.append(r[0] is a)
        return r[0] if how == 'min' else r[1]

    def zero_plus(self, a):
        """a zero value of this node is +0"""
        if a.op == 'ext':
            return self.zero_plus(a.a)
        # a zero sum of operands that are not both zero comes from cancellation
        return a.op in ('fadd', 'fsub') and any(o.lo > 0 or o.hi < 0 for o in (a.a, a.b))

    def signbit(self, a):
        if a.lo > 0 or (a.lo == 0 and self.zero_plus(a)) or (a.lo == 0 and math.copysign(1, a.lo) > 0 and a.lo == a.hi):
            s = 0
        elif a.hi < 0 or (a.hi == 0 and a.lo == a.hi):
            s = 1
        elif a.lo == 0 and math.copysign(1, a.lo) > 0 and a.op == 'in':
            s = 0
        else:
            raise Split('sign', a)
        self.dec.append(s)
        return s

    def fcmp(self, pred, k, a, b):
        p = pred[1:]
        if pred in ('ord', 'uno'):
            if a.lo != a.lo or b.lo != b.lo:
                return int(pred == 'uno')
            return int(pred == 'ord')
        if (a.lo != a.lo) or (b.lo != b.lo):
            return int(pred[0] == 'u')
        if p == 'eq' or p == 'ne':
            if a is b or (a.lo == a.hi == b.lo == b.hi):
                r = True
            elif a.hi < b.lo or b.hi < a.lo:
                r = False
            else:
                return SBool(pred, a)
            r = r if p == 'eq' else not r
        else:
            if p in ('lt', 'le'):
                a, b = b, a
                p = 'gt' if p == 'lt' else 'ge'
            if p == 'gt':
                if a.lo > b.hi:
                    r = True
                elif a.hi <= b.lo:
                    r = False
                else:
                    return SBool(pred, a)
            else:
                if a.lo >= b.hi:
                    r = True
                elif a.hi < b.lo:
                    r = False
                else:
                    return SBool(pred, a)
        self.dec.append(r)
        return int(r)

    def decide(self, c):
        raise Split('branch', c.val if isinstance(c, SBool) else None)

    def select(self, c, t, a, b):
        if a == b:
            return a
        raise Split('select', c.val if isinstance(c, SBool) else None)

    def undef(self, t):
        raise Trap('undefined value')

    # -------------------------------------------------------- conversions
    def cast(self, o, t0, t1, v):
        if o in ('fptosi', 'fptoui'):
            w = t1.a
            if v.lo != v.lo or v.lo in (INF, -INF) or v.hi in (INF, -INF):
                raise Trap('float to int conversion of a non-finite value')
            x, y = math.trunc(v.lo), math.trunc(v.hi)
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if o == 'fptosi' else (0, M[w])
            if x < lo or y > hi:
                raise Trap('float to int conversion out of range')
            if x != y:
                raise Split('fptosi', v)
            self.dec.append(x)
            return x & M[w]
        if o in ('sitofp', 'uitofp'):
            if isinstance(v, SBool):
                raise Split('bool to fp', v.val)
            if not isinstance(v, int):
                raise exe.ExecError('symbolic int to fp')
            x = sgn(v, t0.a) if o == 'sitofp' else v
            return self.mk(t1.k, FMT[t1.k]['rnd'](float(x)))
        if o == 'fpext':
            if v.op == 'const':
                return self.mk(t1.k, v.lo)
            return self.node(t1.k, 'ext', v, None, v.lo, v.hi, v.g, 0)
        if o == 'fptrunc':
            if v.op == 'const':
                return self.mk(t1.k, f32(v.lo))
            lo, hi = f32(v.lo), f32(v.hi)
            d = self.rbound('float', lo, hi, v.g)
            n = Node()
            n.i, n.k, n.op, n.a, n.b, n.lo, n.hi, n.d, n.lin = len(self.trace), 'float', 'ext', v, None, lo, hi, d, None
            n.g = self.outgrid('float', lo, hi, v.g, d)
            self.trace.append(n)
            # overflow here is only relevant if the value is used arithmetically
            return n
        if isinstance(v, SBool):
            raise Split('bool', v.val)
        if o in ('zext', 'sext', 'trunc'):
            if isinstance(v, Bits):
                if o == 'trunc':
                    v = self.lin(v)
                else:
                    l = self.lin(v)
                    if o == 'sext' and l.hi >= 1 << (l.w - 1):
                        raise Split('sext', v.n)
                    return ILin(l.n, l.al, l.be, l.e0, l.e1, l.lo, l.hi, t1.a)
            if isinstance(v, ILin):
                if o == 'trunc':
                    if v.lo >> t1.a == v.hi >> t1.a:
                        k = (v.lo >> t1.a) << t1.a
                        return self.ret_ilin(v.n, v.al, v.be - k, v.e0, v.e1, v.lo - k, v.hi - k, t1.a)
                    raise Split('trunc', v.n)
                return ILin(v.n, v.al, v.be, v.e0, v.e1, v.lo, v.hi, t1.a)
        raise exe.ExecError('cast ' + o)

    def bitcast(self, t0, t1, v):
        if t1.k == 'int' and t0.k in FMT:
            if v.op == 'const':
                return bits_of(t0.k, v.lo)
            if v.lo == v.hi and v.op == 'in':
                b = bits_of(t0.k, v.lo)
                return Bits(v, t1.a)
            return Bits(v, t1.a)
        if t0.k == 'int' and t1.k in FMT:
            if isinstance(v, int):
                self.dec.append(v >> FMT[t1.k]['mb'])
                return self.fconst(t1.k, v)
            if isinstance(v, Bits):
                return v.n
            return self.frombits(t1.k, v)
        raise exe.ExecError('bitcast')

    def lin(self, v):
        """linear form of the bit pattern of v.n (needs one binade and one sign)"""
        n = v.n
        F = FMT[n.k]
        if n.lo == n.hi and n.lo == 0:
            raise exe.ExecError('bits of zero')
        s = self.signbit(n)
        m0, m1 = (n.lo, n.hi) if not s else (-n.hi, -n.lo)
        mn = math.ldexp(1.0, F['emin'])
        if m0 < mn:
            if m1 < mn:      # subnormal: bits = value / 2^(emin-p+1)
                e = F['emin'] - 1
                sc = Fraction(2) ** -(F['emin'] - F['p'] + 1)
                al, be = sc, Fraction(0)
            else:
                raise Split('binade', n)
        else:
            e = ex2(m0)
            if ex2(m1) != e:
                raise Split('binade', n)
            sc = Fraction(2) ** -(e - F['p'] + 1)
            al = sc
            be = Fraction((e + F['bias']) << F['mb']) - Fraction(2) ** e * sc
        self.dec.append(e)
        lo, hi = bits_of(n.k, m0), bits_of(n.k, m1)
        if s:
            al = -al
            be += 1 << (F['w'] - 1)
            lo, hi = lo | 1 << (F['w'] - 1), hi | 1 << (F['w'] - 1)
        return ILin(n, al, be, 0, 0, lo, hi, v.w)

    def ret_ilin(self, n, al, be, e0, e1, lo, hi, w):
        if lo == hi:
            return lo
        return ILin(n, al, be, e0, e1, lo, hi, w)

    def frombits(self, k, v):
        F = FMT[k]
        mb = F['mb']
        if v.lo < 0 or v.hi > M[F['w']]:
            raise Split('bit range', v.n)
        if v.lo >> mb != v.hi >> mb:
            raise Split('exponent field', v.n)
        f = v.lo >> mb
        self.dec.append(f)
        s = f >> (F['w'] - 1 - mb)
        E = f & M[F['w'] - 1 - mb]
        if E == M[F['w'] - 1 - mb]:
            raise Trap('infinite or NaN from bits')
        # value = (-1)^s 2^(E-bias) (1 + (V - f 2^mb)/2^mb)  (E>0),   2^(emin) * (V - f2^mb)/2^mb (E==0)
        base = f << mb
        if E == 0:
            sc = Fraction(2) ** (F['emin'] - mb)
            off = Fraction(0)
        else:
            sc = Fraction(2) ** (E - F['bias'] - mb)
            off = Fraction(2) ** (E - F['bias'])
        sg = -1 if s else 1
        al = sg * sc * v.al
        be = sg * (sc * (v.be - base) + off)
        e0, e1 = sg * sc * v.e0, sg * sc * v.e1
        if e0 > e1:
            e0, e1 = e1, e0
        be += (e0 + e1) / 2
        d = (e1 - e0) / 2
        x, y = from_bits(k, v.lo), from_bits(k, v.hi)
        lo, hi = min(x, y), max(x, y)
        n = self.node(k, 'lin', v.n, None, lo, hi, self.outgrid(k, lo, hi, None, 1), ld_frac(d) * LD(1 + 2.0 ** -50) if d else 0)
        n.lin = (al, be)
        return n

    # ------------------------------------------------------- symbolic ints
    def byte(self, v, i, t):
        raise exe.ExecError('byte access in real encoding')

    concat = byte

    def concretize(self, v, t):
        raise exe.ExecError('symbolic index in real encoding')

    def icmp(self, pred, w, a, b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            raise Split('bool', (a if isinstance(a, SBool) else b).val)
        ra, rb = self.range(a, pred), self.range(b, pred)
        if pred[0] == 's':
            ra = tuple(sgn(x, w) for x in ra)
            rb = tuple(sgn(x, w) for x in rb)
            if ra[0] > ra[1] or rb[0] > rb[1]:
                raise Split('icmp', None)
        if pred in ('eq', 'ne'):
            if ra[1] < rb[0] or rb[1] < ra[0]:
                return int(pred == 'ne')
            if ra[0] == ra[1] == rb[0] == rb[1]:
                return int(pred == 'eq')
            raise Split('icmp', None)
        p = pred[1:]
        if p in ('lt', 'le'):
            ra, rb = rb, ra
            p = 'gt' if p == 'lt' else 'ge'
        if p == 'gt':
            if ra[0] > rb[1]:
                return 1
            if ra[1] <= rb[0]:
                return 0
        else:
            if ra[0] >= rb[1]:
                return 1
            if ra[1] < rb[0]:
                return 0
        raise Split('icmp', None)

    def range(self, v, pred=None):
        if isinstance(v, int):
            return v, v
        if isinstance(v, Bits):
            n = v.n
            s = self.signbit(n)
            x, y = bits_of(n.k, n.lo), bits_of(n.k, n.hi)
            return (min(x, y), max(x, y))
        return v.lo, v.hi

    def ibin(self, o, w, a, b, fl):
        for x in (a, b):
            if isinstance(x, SBool):
                raise Split('bool', x.val)
        if o in ('and', 'or', 'xor', 'add', 'mul') and isinstance(a, int):
            a, b = b, a
        top = 1 << (w - 1)
        if isinstance(a, Bits) and isinstance(b, int):
            k = a.n.k
            if FMT[k]['w'] == w:
                if o == 'and':
                    if b == M[w]:
                        return a
                    if b == top - 1:
                        return Bits(self.fabs(k, a.n), w)
                    if b == top:
                        return top if self.signbit(a.n) else 0
                    if b == 0:
                        return 0
                if o == 'xor':
                    if b == 0:
                        return a
                    if b == top:
                        return Bits(self.fneg(k, a.n), w)
                if o == 'or':
                    if b == 0:
                        return a
                    if b == top:
                        return Bits(self.fneg(k, self.fabs(k, a.n)), w)
                if o == 'add' and b == top:
                    return Bits(self.fneg(k, a.n), w)
                if o in ('lshr', 'ashr') and b == w - 1:
                    s = self.signbit(a.n)
                    return s if o == 'lshr' else (M[w] if s else 0)
                if o == 'ashr' and b < w - 1:
                    if self.signbit(a.n):
                        raise Split('ashr', a.n)
                    o = 'lshr'
        if isinstance(a, Bits):
            a = self.lin(a)
        if isinstance(b, Bits):
            b = self.lin(b)
        if isinstance(a, ILin) and isinstance(b, int):
            if o in ('add', 'sub'):
                c = b if o == 'add' else -b
                # wrap so that range stays within [0, 2^w)
                lo, hi = a.lo + c, a.hi + c
                k = lo >> w
                if hi >> w != k:
                    raise Split('wrap', a.n)
                c -= k << w
                return self.ret_ilin(a.n, a.al, a.be + c, a.e0, a.e1, a.lo + c, a.hi + c, w)
            if o in ('lshr', 'ashr'):
                if o == 'ashr' and a.hi >= top:
                    if a.lo < top:
                        raise Split('ashr', a.n)
                    if a.lo >> b == a.hi >> b:
                        return (sgn(a.lo, w) >> b) & M[w]
                    raise Split('ashr', a.n)
                q = 1 << b
                return self.ret_ilin(a.n, a.al / q, a.be / q, a.e0 / Fraction(q) - Fraction(q - 1, q), a.e1 / Fraction(q),
                                     a.lo >> b, a.hi >> b, w)
            if o == 'shl':
                lo, hi = a.lo << b, a.hi << b
                q = 1 << b
                k = lo >> w
                if hi >> w != k:
                    raise Split('shl', a.n)
                c = k << w
                return self.ret_ilin(a.n, a.al * q, a.be * q - c, a.e0 * q, a.e1 * q, lo - c, hi - c, w)
            if o in ('and', 'or', 'xor'):
                # split into constant high part and varying low part
                m = 0
                while a.lo >> m != a.hi >> m:
                    m += 1
                hi_part = a.lo >> m << m
                lowmask = b & M[m] if m else 0
                # low part must be untouched; find the field boundary in b
                if m:
                    if o == 'and' and lowmask == M[m]:
                        pass
                    elif o in ('or', 'xor') and lowmask == 0:
                        pass
                    elif o == 'and' and lowmask == 0:
                        return hi_part & b
                    else:
                        # and with a mask clearing low bits: value rounded down
                        z = (b & -b).bit_length() - 1 if b else 0
                        if o == 'and' and (b | M[z]) & M[m] == M[m]:
                            nh = hi_part & b
                            return self.ret_ilin(a.n, a.al, a.be - hi_part + nh, a.e0 - M[z], a.e1, ((a.lo - hi_part) >> z << z) + nh,
                                                 ((a.hi - hi_part) >> z << z) + nh, w)
                        raise Split('mask', a.n)
                nh = {'and': hi_part & b, 'or': hi_part | (b >> m << m), 'xor': hi_part ^ (b >> m << m)}[o]
                c = nh - hi_part
                return self.ret_ilin(a.n, a.al, a.be + c, a.e0, a.e1, a.lo + c, a.hi + c, w)
        if isinstance(b, ILin) and isinstance(a, int) and o == 'sub':
            lo, hi = a - b.hi, a - b.lo
            k = lo >> w
            if hi >> w != k:
                raise Split('wrap', b.n)
            c = k << w
            return self.ret_ilin(b.n, -b.al, a - b.be - c, -b.e1, -b.e0, lo - c, hi - c, w)
        raise exe.ExecError('symbolic integer operation %s' % o)

    def fpclass(self, k, a, mask):
        raise exe.ExecError('fpclass')


# ------------------------------------------------------------------ analysis
U = LD(2) ** -60


def ld_frac(f):
    """longdouble near a Fraction (relative error below 2^-60)"""
    f = Fraction(f)
    if f == 0:
        return LD(0)
    n, q = abs(f.numerator), f.denominator
    k = 62 - (n.bit_length() - q.bit_length())
    v = (n << k) // q if k >= 0 else n // (q << -k)
    r = np.ldexp(LD(v >> 32) * LD(4294967296.0) + LD(v & 0xffffffff), -k)
    return r if f > 0 else -r


def imul(x, y):
    a, b = x
    c, d = y
    p, q, r, s = a * c, a * d, b * c, b * d
    lo, hi = min(p, q, r, s), max(p, q, r, s)
    return lo - abs(lo) * U, hi + abs(hi) * U


def iadd(x, y):
    lo, hi = x[0] + y[0], x[1] + y[1]
    return lo - abs(lo) * U, hi + abs(hi) * U


def isub(x, y):
    lo, hi = x[0] - y[1], x[1] - y[0]
    return lo - abs(lo) * U, hi + abs(hi) * U


def iinv(x):
    a, b = x
    if a <= 0 <= b:
        raise Split('derivative box contains zero')
    p, q = 1 / a, 1 / b
    lo, hi = min(p, q), max(p, q)
    return lo - abs(lo) * U, hi + abs(hi) * U


ZERO = (LD(0), LD(0))


def slice_of(out):
    """nodes feeding out, in trace order"""
    seen, st, l = set(), [out], []
    while st:
        n = st.pop()
        if n is None or id(n) in seen or n.op == 'const':
            continue
        seen.add(id(n))
        l.append(n)
        st.append(n.a)
        st.append(n.b)
    l.sort(key=lambda n: n.i)
    return l


def boxes(nodes):
    """B: enclosure of node values under any partial perturbation"""
    for n in nodes:
        if n.op == 'in' or n.op == 'cut':
            n.B = (LD(n.lo), LD(n.hi))
            continue
        a = box(n.a)
        b = box(n.b) if n.b is not None else None
        o = n.op
        if o == 'fadd':
            r = iadd(a, b)
        elif o == 'fsub':
            r = isub(a, b)
        elif o == 'fmul':
            if n.a is n.b:
                p, q = a[0] * a[0], a[1] * a[1]
                lo, hi = min(p, q), max(p, q)
                if a[0] <= 0 <= a[1]:
                    lo = LD(0)
                r = (lo - lo * U, hi + hi * U)
            else:
                r = imul(a, b)
        elif o == 'fdiv':
            r = imul(a, iinv(b))
        elif o == 'neg':
            r = (-a[1], -a[0])
        elif o == 'ext':
            r = a
        elif o == 'sqrt':
            if a[0] < 0:
                raise Split('sqrt box')
            lo, hi = np.sqrt(a[0]), np.sqrt(a[1])
            r = (lo - lo * U, hi + hi * U)
        elif o == 'lin':
            al, be = n.lin
            p = [Fraction(float(x)) * al + be for x in (n.a.lo, n.a.hi)]
            lo, hi = ld_frac(min(p)), ld_frac(max(p))
            r = (lo - abs(lo) * LD(2) ** -50, hi + abs(hi) * LD(2) ** -50)
        else:
            raise exe.ExecError('box ' + o)
        if n.d:
            r = (r[0] - n.d, r[1] + n.d)
        n.B = r


def box(n):
    if n.op == 'const':
        v = LD(n.lo)
        return (v, v)
    return n.B


def rounding(out, nodes):
    """bound on |machine result - exact-arithmetic result| over the piece"""
    boxes(nodes)
    for n in nodes:
        n.A = ZERO
    out.A = (LD(1), LD(1))
    R = LD(0)
    for n in reversed(nodes):
        A = n.A
        m = max(abs(A[0]), abs(A[1]))
        if n.d:
            R += m * n.d
        if m == 0 or n.op in ('in', 'cut'):
            continue
        a, b = n.a, n.b
        o = n.op
        if o == 'lin':
            al = ld_frac(n.lin[0])
            al = (al - abs(al) * LD(2) ** -50, al + abs(al) * LD(2) ** -50)
            acc(a, imul(A, al))
            continue
        if o == 'fadd':
            acc(a, A)
            acc(b, A)
        elif o == 'fsub':
            acc(a, A)
            acc(b, (-A[1], -A[0]))
        elif o == 'fmul':
            acc(a, imul(A, box(b)))
            acc(b, imul(A, box(a)))
        elif o == 'fdiv':
            ib = iinv(box(b))
            acc(a, imul(A, ib))
            q = imul(imul(box(a), ib), ib)
            acc(b, imul(A, (-q[1], -q[0])))
        elif o == 'neg':
            acc(a, (-A[1], -A[0]))
        elif o == 'ext':
            acc(a, A)
        elif o == 'sqrt':
            if n.B[0] <= 0:
                raise Split('sqrt derivative')
            q = iinv((n.B[0] * 2, n.B[1] * 2))
            acc(a, imul(A, q))
    return R * (1 + LD(2) ** -40)


def acc(n, A):
    if n.op == 'const':
        return
    n.A = iadd(n.A, A)


def frac_ld(x):
    """exact Fraction of a longdouble"""
    if x == 0:
        return Fraction(0)
    m, e = np.frexp(LD(x))
    hi = float(m)
    lo = float(m - LD(hi))
    return (Fraction(hi) + Fraction(lo)) * Fraction(2) ** int(e)


def add_rem(t, f):
    """enlarge the remainder by the Fraction f"""
    q = f / Fraction(2) ** t.E
    t = tm.TM(t.c, t.r + -(-q.numerator // q.denominator), t.E)
    return t.norm()


def rounding_tm(out, nodes, c, h, deg=3):
    """bound (Fraction) on |machine result - exact-arithmetic result| over the piece: mean-value form whose
    derivatives are polynomial enclosures in the input, valid for every partial perturbation"""
    cache = {}

    def Q(n):
        if n.op == 'const':
            t = cache.get(n.lo)
            if t is None:
                t = cache[n.lo] = tm.const_frac(Fraction(n.lo), deg)
            return t
        return n.t

    x = tm.var(c, h, deg)
    ds = {}
    for n in nodes:
        o = n.op
        if o == 'in' or o == 'cut':
            t = x
        elif o == 'fadd':
            t = tm.add(Q(n.a), Q(n.b))
        elif o == 'fsub':
            t = tm.sub(Q(n.a), Q(n.b))
        elif o == 'fmul':
            t = tm.mul(Q(n.a), Q(n.b))
        elif o == 'fdiv':
            r = tm.recip(Q(n.b))
            t = tm.mul(Q(n.a), r)
            n.B = (r, t)
        elif o == 'neg':
            t = tm.neg(Q(n.a))
        elif o == 'ext':
            t = Q(n.a)
        elif o == 'sqrt':
            t = tm.sqrt(Q(n.a))
            n.B = tm.recip(tm.scale2(t, 1))
        elif o == 'lin':
            al, be = n.lin
            t = tm.add(tm.mul(Q(n.a), tm.const_frac(al, deg)), tm.const_frac(be, deg))
        else:
            raise exe.ExecError('enclosure ' + o)
        if n.d:
            f = ds[n.i] = frac_ld(n.d)
            t = add_rem(t, f)
        n.t = t
        n.A = None
    R = Fraction(0)
    out.A = tm.const_frac(1, deg)

    def put(m, A):
        if m.op != 'const':
            m.A = A if m.A is None else tm.add(m.A, A)

    for n in reversed(nodes):
        A = n.A
        if A is None:
            continue
        if n.d:
            R += ds[n.i] * A.l1() * Fraction(2) ** A.E
        o = n.op
        if o == 'fadd':
            put(n.a, A)
            put(n.b, A)
        elif o == 'fsub':
            put(n.a, A)
            put(n.b, tm.neg(A))
        elif o == 'fmul':
            put(n.a, tm.mul(A, Q(n.b)))
            put(n.b, tm.mul(A, Q(n.a)))
        elif o == 'fdiv':
            r, q = n.B
            Ar = tm.mul(A, r)
            put(n.a, Ar)
            put(n.b, tm.neg(tm.mul(Ar, q)))
        elif o == 'neg':
            put(n.a, tm.neg(A))
        elif o == 'ext':
            put(n.a, A)
        elif o == 'sqrt':
            put(n.a, tm.mul(A, n.B))
        elif o == 'lin':
            put(n.a, tm.mul(A, tm.const_frac(n.lin[0], deg)))
    return R


def models(out, nodes, deg, xtm):
    """Taylor models of the exact-arithmetic values, in the input variable"""
    cache = {}

    def T(n):
        if n.op == 'const':
            t = cache.get(id(n))
            if t is None:
                t = cache[id(n)] = tm.const_frac(Fraction(n.lo), deg)
            return t
        return n.t

    for n in nodes:
        o = n.op
        if o == 'in' or o == 'cut':
            n.t = xtm
        elif o == 'fadd':
            n.t = tm.add(T(n.a), T(n.b))
        elif o == 'fsub':
            n.t = tm.sub(T(n.a), T(n.b))
        elif o == 'fmul':
            n.t = tm.mul(T(n.a), T(n.b))
        elif o == 'fdiv':
            n.t = tm.div(T(n.a), T(n.b))
        elif o == 'neg':
            n.t = tm.neg(T(n.a))
        elif o == 'ext':
            n.t = T(n.a)
        elif o == 'sqrt':
            n.t = tm.sqrt(T(n.a))
        elif o == 'lin':
            al, be = n.lin
            n.t = tm.add(tm.mul(T(n.a), tm.const_frac(al, deg)), tm.const_frac(be, deg))
        else:
            raise exe.ExecError('model ' + o)
    return T(out)


def models_q(out, nodes, deg, xtm):
    """like models, but every value is a quotient of two Taylor models (denominator None: 1); returns (num, den)"""
    cache = {}

    def T(n):
        if n.op == 'const':
            t = cache.get(id(n))
            if t is None:
                t = cache[id(n)] = (tm.const_frac(Fraction(n.lo), deg), None)
            return t
        return n.t

    def mul(x, y):
        return y if x is None else x if y is None else tm.mul(x, y)

    for n in nodes:
        o = n.op
        if o == 'in' or o == 'cut':
            n.t = (xtm, None)
            continue
        an, ad = T(n.a)
        bn, bd = T(n.b) if n.b is not None else (None, None)
        if o in ('fadd', 'fsub'):
            f = tm.add if o == 'fadd' else tm.sub
            n.t = (f(an, bn), ad) if ad is bd else (f(mul(an, bd), mul(bn, ad)), mul(ad, bd))
        elif o == 'fmul':
            n.t = (tm.mul(an, bn), mul(ad, bd))
        elif o == 'fdiv':
            if ad is bd:
                n.t = (an, bn)
            else:
                n.t = (mul(an, bd), mul(bn, ad))
        elif o == 'neg':
            n.t = (tm.neg(an), ad)
        elif o == 'ext':
            n.t = (an, ad)
        elif o == 'sqrt':
            n.t = (tm.sqrt(an if ad is None else tm.div(an, ad)), None)
        elif o == 'lin':
            al, be = n.lin
            v = tm.mul(an, tm.const_frac(al, deg))
            b = tm.const_frac(be, deg)
            n.t = (tm.add(v, mul(b, ad)), ad)
        else:
            raise exe.ExecError('model ' + o)
    return T(out)
