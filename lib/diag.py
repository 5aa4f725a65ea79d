"""Scenario harnesses (model/sym.h) over the real classes, run symbolically with the stream model of model/vstream.h
and natively with the real streams."""
import os, re, sys, random, shutil, subprocess, tempfile, time
import z3
import ir, exe, bits, common
from bits import W, bv, bo, low, uf, to_b, to_f, SIGN, INFB
from exe import Ptr, ExecError, MemFault, CppThrow, Unreachable, UNDEF, M

MODEL = os.path.join(common.HERE, 'model')
HARN = os.path.join(common.HERE, 'harness')
I8, I32, I64 = ir.ity(8), ir.ity(32), ir.ity(64)
EOF, FAIL, BAD = 2, 4, 1
DEC, FIXED, HEX, LEFT, OCT, SCI, SHOWBASE, SHOWPOS, UPPER, INTERNAL, SHOWPOINT = 2, 4, 8, 32, 64, 256, 512, 2048, 16384, 16, 1024
SPACE = (32, 9, 10, 11, 12, 13)


ONE = {k: to_b(k, 1.0) for k in ('double', 'float')}
POW2 = {k: {to_b(k, 2.0 ** e) for e in range(-60, 61)} for k in ('double', 'float')}


class Diag(bits.BitDomain):
    """sums and products of whole numbers below 2^53 are exact"""
    commute = True
    prune = False                        # settle choices while executing, where the solver can

    def __init__(self, mode='uf', fork=None):
        super().__init__(mode, fork)
        self.ints = {}
        self.used = set()

    def whole(self, v):
        """(signed 64-bit term, bound on its magnitude) of a double holding a whole number"""
        if isinstance(v, int):
            f = to_f('double', v)
            if f == f and abs(f) < 2.0 ** 53 and f == int(f) and v != SIGN['double']:
                return z3.BitVecVal(int(f), 64), abs(int(f))
            return None
        r = self.ints.get(v.get_id())
        return r and r[:2]

    def from_int(self, t, bound):
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return to_b('double', float(t.as_signed_long()))
        s = z3.simplify(z3.Extract(63, 63, t))
        m = uf('whole', 64, 63)(z3.simplify(z3.If(s == 1, -t, t)))
        self.ax(z3.If(t == 0, m == 0, z3.And(z3.UGE(m, bv(to_b('double', 1.0), 63)), z3.ULE(m, bv(to_b('double', float(max(bound, 1))), 63)))))
        r = bits.join('double', s, m)
        self.ints[r.get_id()] = t, bound, r
        return r

    def cast(self, o, t0, t1, v):
        if o in ('sitofp', 'uitofp') and t1.k == 'double' and not isinstance(v, int) and t0.a <= 32:
            x = bv(v, t0.a)
            if self.fork is not None:
                for b in (20, t0.a - 1):
                    if b < t0.a and self.surely(z3.ULT(x, bv(1 << b, t0.a))):
                        return self.from_int(z3.ZeroExt(64 - t0.a, x), 1 << b)
            return self.from_int(z3.SignExt(64 - t0.a, x) if o == 'sitofp' else z3.ZeroExt(64 - t0.a, x), 1 << t0.a)
        if o in ('sitofp', 'uitofp') and t1.k == 'double' and not isinstance(v, int) and t0.a == 64 and self.fork is not None:
            lim = 1 << 52
            c = z3.And(v < lim, v > -lim) if o == 'sitofp' else z3.ULT(v, lim)
            if self.surely(c):
                return self.from_int(v, lim)
        return super().cast(o, t0, t1, v)

    def surely(self, c, effort=2000000):
        """a fact that allows a more exact encoding; without a quick answer the general one is used"""
        f = self.fork
        if c.get_id() in f.known:
            return f.known[c.get_id()][0]
        f.s.set('rlimit', effort)        # independent of the load of the machine
        r = f.check(z3.Not(c))
        f.s.set('rlimit', 0)
        if r == z3.unsat:
            f.known[c.get_id()] = True, c
        return r == z3.unsat

    def fbin(self, op, k, a, b):
        if op == 'fdiv' and isinstance(b, int) and not isinstance(a, int):
            m = b & (SIGN[k] - 1)
            if m in POW2[k]:                 # division by a power of two is a multiplication
                op, b = 'fmul', b & SIGN[k] | to_b(k, 1 / to_f(k, m))
        if op == 'fmul' and not (isinstance(a, int) and isinstance(b, int)):
            if b == ONE[k] if isinstance(b, int) else False:
                return a
            if a == ONE[k] if isinstance(a, int) else False:
                return b
        if k == 'double' and op in ('fadd', 'fsub', 'fmul') and not (isinstance(a, int) and isinstance(b, int)):
            x, y = self.whole(a), self.whole(b)
            if x and y:
                if op == 'fmul':
                    n = x[1] * y[1]
                    if n < 1 << 53 and self.nonneg(x[0]) and self.nonneg(y[0]):
                        return self.from_int(x[0] * y[0], n)
                elif x[1] + y[1] < 1 << 53:
                    return self.from_int(x[0] + y[0] if op == 'fadd' else x[0] - y[0], x[1] + y[1])
        return super().fbin(op, k, a, b)

    def select(self, c, t, a, b):
        if self.prune and not isinstance(c, int) and self.fork is not None:
            for v, x in ((c, a), (z3.Not(c), b)):
                if self.surely(v):
                    return x
        return super().select(c, t, a, b)

    def ibin(self, o, w, a, b, fl):
        if self.prune and o == 'ashr' and b == w - 1 and not isinstance(a, int) and self.fork is not None and self.surely(a >= 0):
            return 0
        return super().ibin(o, w, a, b, fl)

    def nonneg(self, t):
        return z3.is_bv_value(z3.simplify(z3.Extract(63, 63, t))) and z3.simplify(z3.Extract(63, 63, t)).as_long() == 0

    def fcmp(self, p, k, a, b):
        if k == 'double' and not (isinstance(a, int) and isinstance(b, int)):
            x, y = self.whole(a), self.whole(b)
            if x and y and p not in ('ord', 'uno'):
                x, y = x[0], y[0]
                return low({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])
        return super().fcmp(p, k, a, b)


    def external(self, ex, name, args):
        m = MATH.match(name)
        if m and all(not isinstance(a, Ptr) for a in args):
            k = 'float' if m.group(2) in ('.f32', 'f') else 'double'
            self.used.add(name)
            w = W[k]
            t = uf('libm_' + m.group(1) + k, *([w] * (len(args) + 1)))(*[bv(a, w) for a in args])
            return t
        raise ExecError('call of external ' + name)


MATH = re.compile(r'@(?:llvm\.)?(log2|log10|log|exp|exp2|pow|sin|cos|tan|atan|asin|acos|atan2|sinh|cosh|tanh|asinh|acosh|atanh|expm1|log1p|hypot|floor|ceil|trunc|round|rint|fmod|ldexp|cbrt)(\.f64|\.f32|f|)$')


class Mismatch(Exception):
    """the executor and the compiled program disagree"""


class Num:
    """text of an integer"""

    def __init__(self, v, sgn, nbits, flags, width, fill):
        self.v, self.sgn, self.nbits, self.flags, self.width, self.fill = v, sgn, nbits, flags, width, fill
        b = flags & (DEC | HEX | OCT)
        self.base = 16 if b == HEX else 8 if b == OCT else 10

    def fmt(self):
        f = self.flags & (SHOWBASE | UPPER) if self.base != 10 else self.flags & SHOWPOS if self.sgn else 0
        return self.base, f, self.sgn and self.base == 10, place(self)

    def text(self):
        v = self.v
        neg = False
        if self.base == 10:
            if self.sgn and v >> 63:
                neg, v = True, (1 << 64) - v
        elif self.sgn:
            v &= M[self.nbits]
        s = {10: '%d', 16: '%x', 8: '%o'}[self.base] % v
        pre = '-' if neg else '+' if self.flags & SHOWPOS and self.sgn and self.base == 10 else ''
        if self.flags & SHOWBASE and v:
            pre += {10: '', 16: '0x', 8: '0'}[self.base]
        if self.flags & UPPER:
            s, pre = s.upper(), pre.upper()
        return pad(pre, s, self)


def place(it):
    return it.width > 0 and (it.width, it.fill, it.flags & (LEFT | INTERNAL))


def pad(pre, s, it):
    n = max(0, it.width - len(pre) - len(s))
    f = chr(it.fill & 255) * n
    if it.flags & LEFT:
        return pre + s + f
    if it.flags & INTERNAL:
        return pre + f + s
    return f + pre + s


class Fp:
    """text of a floating-point number"""

    def __init__(self, k, v, flags, prec, width, fill):
        self.k, self.v, self.flags, self.prec, self.width, self.fill = k, v, flags, prec, width, fill

    def fmt(self):
        return self.k, self.flags & (FIXED | SCI | SHOWPOS | SHOWPOINT | UPPER), self.prec, place(self)

    def text(self):
        x = to_f(self.k, self.v)
        neg = self.v >> (W[self.k] - 1) & 1
        f = self.flags & (FIXED | SCI)
        if x != x or x in (float('inf'), float('-inf')):
            s = 'nan' if x != x else 'inf'
        elif f == FIXED:
            s = '%.*f' % (self.prec, abs(x))
        elif f == SCI:
            s = '%.*e' % (self.prec, abs(x))
        elif f == 0:
            s = '%.*g' % (self.prec or 1, abs(x))
        else:
            raise ExecError('hexadecimal floating-point text')
        if self.flags & SHOWPOINT:
            raise ExecError('showpoint')
        if self.flags & UPPER:
            s = s.upper()
        return pad('-' if neg else '+' if self.flags & SHOWPOS else '', s, self)


class Buf:
    def __init__(self, items=(), name=None):
        self.items, self.pos, self.name, self.closed = list(items), 0, name, False


class World:
    """everything outside the program: streams, files, unknown values, claims"""

    def __init__(self, fork, values=None):
        self.fork = fork
        self.values = values          # concrete run when given
        self.syms = []
        self.fncalls = []             # applications of the unknown functions
        self.claims = []
        self.tells = []
        self.files = {}
        self.bufs = [Buf(), Buf(), Buf()]
        self.caps = []
        self.scratch = []
        self.tok = {}
        self.draws = {}
        self.keep = []
        self.nfresh = 0
        self.fn = {}

    # -- unknown values
    def sym(self, w):
        i = len(self.syms)
        if self.values is not None:
            v = (self.values[i] if i < len(self.values) else 0) & M[w]
        else:
            v = z3.BitVec('v%d' % i, w)
            if w in (32, 64):
                v = z3.Concat(z3.BitVec('v%d.s' % i, 1), z3.BitVec('v%d.m' % i, w - 1))
        self.syms.append(v)
        return v

    def dec(self, ex, c):
        return bool(c) if isinstance(c, int) else ex.d.decide(c)

    def is_char(self, ex, it, *codes):
        if isinstance(it, int):
            return it in codes
        if isinstance(it, (Num, Fp)):
            return False
        return self.dec(ex, low(z3.Or(*[it == c for c in codes])))

    # -- text
    def chars(self, ex, it):
        """the characters of a formatted number; one path per number of digits"""
        if isinstance(it, Fp):
            if isinstance(it.v, int):
                return list(it.text().encode())
            raise ExecError('characters of a floating-point text are needed')
        if isinstance(it.v, int):
            return list(it.text().encode())
        if it.width or it.sgn and it.base == 10 or it.flags & (SHOWBASE | SHOWPOS):
            if it.width or self.dec(ex, low(it.v < 0)):
                raise ExecError('characters of a formatted number')
        v, b = it.v, it.base
        nd = {16: 16, 10: 20, 8: 22}[b]
        n = nd
        for i in range(1, nd):
            if self.dec(ex, low(z3.ULT(v, bv(b ** i, 64)))):
                n = i
                break
        out = []
        for i in reversed(range(n)):
            dg = z3.Extract(7, 0, z3.URem(z3.UDiv(v, bv(b ** i, 64)), bv(b, 64)))
            out.append(low(z3.If(z3.ULT(dg, 10), dg + 48, dg + (55 if it.flags & UPPER else 87))))
        pre = []
        if it.flags & SHOWBASE and b == 16 and not self.dec(ex, low(v == 0)):
            pre = [48, 88 if it.flags & UPPER else 120]
        return pre + out

    def mem(self, its):
        """items as bytes of memory; a number becomes one marked byte that stands for its text"""
        r = []
        for it in its:
            if isinstance(it, (Num, Fp)):
                if isinstance(it.v, int):
                    r += list(it.text().encode())
                    continue
                self.nfresh += 1
                t = z3.BitVec('text%d' % self.nfresh, 8)
                self.fork.assume(z3.UGT(t, 127))
                self.tok[t.get_id()] = it, t
                r.append(t)
            else:
                r.append(it)
        return r

    def unmem(self, b):
        if not isinstance(b, int) and b.get_id() in self.tok:
            return self.tok[b.get_id()][0]
        return b

    def read(self, ex, p, n):
        return [self.unmem(ex.load(Ptr(p.o, p.off + i), I8)) for i in range(n)]

    def buf(self, h):
        h = exe.sgn(h, 32)
        if not 0 <= h < len(self.bufs):
            raise MemFault('use of a stream that is not open')
        return self.bufs[h]

    def skip(self, ex, b):
        while b.pos < len(b.items) and self.is_char(ex, b.items[b.pos], *SPACE):
            b.pos += 1
        return b.pos >= len(b.items)

    def rnum(self, ex, b, flags, nbits, sg):
        """-> (value, state)"""
        base = {OCT: 8, HEX: 16, DEC: 10}.get(flags & (DEC | HEX | OCT), 0)
        its = b.items
        neg = found = over = False
        val = 0
        maxu = M[nbits] if not sg else M[nbits - 1]

        def cur():
            return its[b.pos] if b.pos < len(its) else None

        def simple(it):
            return isinstance(it, Num) and it.base == (base or 10) and not (it.width and it.fill not in SPACE) \
                and (isinstance(it.v, int) or not it.sgn or it.base != 10) and not (it.flags & SHOWPOS)

        def number():
            """value of a number item that is followed by something that cannot belong to it"""
            it = cur()
            if not simple(it):
                return None
            nx = its[b.pos + 1] if b.pos + 1 < len(its) else None
            if nx is not None:
                if isinstance(nx, (Num, Fp)):
                    return None
                if not isinstance(nx, int):
                    if not self.is_char(ex, nx, *SPACE):
                        return None
                elif chr(nx) in '0123456789abcdefABCDEFxX':
                    return None
            if isinstance(it.v, int):
                if it.sgn and it.v >> 63 and it.base == 10:
                    return None
                return it.v & (M[it.nbits] if it.sgn else M[64])
            return it.v

        it = cur()
        if it is not None and not isinstance(it, (Num, Fp)) and self.is_char(ex, it, 43, 45):
            neg = self.is_char(ex, it, 45)
            b.pos += 1
        prefix = False
        it = cur()
        if base in (16, 0) and it is not None and not isinstance(it, (Num, Fp)) and self.is_char(ex, it, 48):
            b.pos += 1
            found = True
            it = cur()
            if it is not None and not isinstance(it, (Num, Fp)) and self.is_char(ex, it, 120, 88):
                b.pos += 1
                prefix, found, base = True, False, 16
            elif base == 0:
                base = 8
        base = base or 10
        if not found:
            v = number()
            if v is not None:
                it = cur()
                if not (prefix and it.flags & SHOWBASE):
                    b.pos += 1
                    st = EOF if b.pos >= len(its) and not (it.width and it.flags & LEFT) else 0
                    return self.fit(ex, v, neg, nbits, sg, st)
        while True:
            it = cur()
            if it is None:
                break
            if isinstance(it, (Num, Fp)):
                its[b.pos:b.pos + 1] = self.chars(ex, it)
                continue
            d = self.digit(ex, it, base)
            if d is None:
                break
            found = True
            b.pos += 1
            if isinstance(val, int) and isinstance(d, int):
                val = val * base + d
                over = over or val > M[64]
            else:
                x = z3.ZeroExt(64, bv(val & M[64] if isinstance(val, int) else val, 64)) * base + z3.ZeroExt(128 - d.size() if not isinstance(d, int) else 0, d if not isinstance(d, int) else bv(d, 128))
                if self.dec(ex, low(z3.UGT(x, bv(M[64], 128)))):
                    over = True
                val = low(z3.Extract(63, 0, x))
        st = EOF if b.pos >= len(its) else 0
        if not found:
            return 0, st | FAIL
        if over:
            return (maxu if not (sg and neg) else 1 << nbits - 1), st | FAIL
        return self.fit(ex, val, neg, nbits, sg, st)

    def fit(self, ex, v, neg, nbits, sg, st):
        mx = M[nbits] if not sg else M[nbits - 1] + (1 if neg else 0)
        if isinstance(v, int):
            big = v > mx
        else:
            big = mx < M[64] and self.dec(ex, low(z3.UGT(v, bv(mx, 64))))
        if big:
            return (mx & M[64] if not (sg and neg) else (1 << 64) - mx), st | FAIL
        if neg:
            v = -v & M[64] if isinstance(v, int) else low(-v)
        return v, st

    def digit(self, ex, c, base):
        if isinstance(c, int):
            try:
                return int(chr(c), base) if chr(c).isalnum() and c < 128 else None
            except ValueError:
                return None
        if self.dec(ex, low(z3.And(z3.UGE(c, 48), z3.ULE(c, 47 + min(base, 10))))):
            return low(c - 48)
        if base == 16:
            if self.dec(ex, low(z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))):
                return low(c - 87)
            if self.dec(ex, low(z3.And(z3.UGE(c, 65), z3.ULE(c, 70)))):
                return low(c - 55)
        return None

    def rfp(self, ex, b, k):
        it = b.items[b.pos] if b.pos < len(b.items) else None
        nx = b.items[b.pos + 1] if b.pos + 1 < len(b.items) else None
        if isinstance(it, Fp) and not isinstance(it.v, int) or isinstance(it, Fp) and isinstance(it.v, int) and isinstance(nx, int) and nx in SPACE:
            if nx is not None and not self.is_char(ex, nx, *SPACE):
                raise ExecError('text after a floating-point number')
            if it.prec < 6 and it.flags & (FIXED | SCI) != FIXED:
                raise ExecError('coarse floating-point text is read')
            if isinstance(it.v, int):
                fin = it.v & ~SIGN[it.k] < INFB[it.k]
            else:
                fin = self.dec(ex, low(z3.ULT(bits.mag(it.k, it.v), bv(INFB[it.k], W[it.k]))))
            if not fin:
                return 0, FAIL | (EOF if nx is None and False else 0)
            b.pos += 1
            if isinstance(it.v, int):
                return to_b(k, float(it.text())), EOF if b.pos >= len(b.items) else 0
            self.nfresh += 1
            r = bits.symbol('read%d' % self.nfresh, k)
            return r, EOF if b.pos >= len(b.items) else 0
        s = ''
        while b.pos < len(b.items):
            it = b.items[b.pos]
            if isinstance(it, (Num, Fp)):
                b.items[b.pos:b.pos + 1] = self.chars(ex, it)
                continue
            if not isinstance(it, int):
                raise ExecError('unknown text is read as a floating-point number')
            if chr(it) not in '0123456789+-.eE' or chr(it) in '+-' and s and s[-1] not in 'eE':
                break
            s += chr(it)
            b.pos += 1
        st = EOF if b.pos >= len(b.items) else 0
        try:
            f = float(s)
        except ValueError:
            return 0, st | FAIL
        r = to_b(k, f)
        if r & ~SIGN[k] == INFB[k]:
            return r - 1, st | FAIL
        return r, st

    def same(self, a, b):
        """condition for two item sequences to be the same text"""
        kind = lambda its: [type(x) if isinstance(x, (Num, Fp)) else int for x in its]
        if kind(a) != kind(b):
            a, b = self.flat(a), self.flat(b)
        if len(a) != len(b):
            return 0
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, (Num, Fp)) and isinstance(y, (Num, Fp)) and isinstance(x.v, int) and isinstance(y.v, int):
                if x.text() != y.text():
                    return 0
            elif isinstance(x, Num) and isinstance(y, Num):
                f, g = x.fmt(), y.fmt()
                if f != g:
                    if f[0] != 10 or g[0] != 10 or f[1] or g[1] or f[3] != g[3]:
                        return 0
                    cs.append(z3.Extract(63, 63, bv(x.v, 64)) == 0)          # signed and unsigned agree on what is not negative
                cs.append(bv(x.v, 64) == bv(y.v, 64))
            elif isinstance(x, Fp) and isinstance(y, Fp):
                if x.fmt() != y.fmt():
                    return 0
                w = W[x.k]
                p, q = bv(x.v, w), bv(y.v, w)
                cs.append(z3.Or(p == q, z3.And(bits.isnan(x.k, p), bits.isnan(x.k, q), bits.isneg(x.k, p) == bits.isneg(x.k, q))))
            elif isinstance(x, (Num, Fp)) or isinstance(y, (Num, Fp)):
                return 0
            else:
                cs.append(bv(x, 8) == bv(y, 8))
        return low(z3.And(*cs)) if cs else 1

    def flat(self, its):
        r = []
        for it in its:
            if isinstance(it, (Num, Fp)) and isinstance(it.v, int):
                r += list(it.text().encode())
            else:
                r.append(it)
        return r

    def render(self, its):
        return bytes(self.flat(its))


def i32(x):
    return exe.sgn(x, 32)


def stubs(w):
    S = {}

    def reg(f):
        S['@' + f.__name__] = lambda ex, a: f(ex, *a)
        return f

    def need(*a):
        for x in a:
            if not isinstance(x, int):
                raise ExecError('unknown formatting parameter')

    def length(ex, n):                   # one path per length
        return n if isinstance(n, int) else ex.d.concretize(n, I64)

    @reg
    def sym64(ex): return w.sym(64)

    @reg
    def sym32(ex): return w.sym(32)

    @reg
    def sym8(ex): return w.sym(8)

    @reg
    def assume(ex, c):
        c = low(bv(c, 32) != 0)
        if isinstance(c, int):
            if not c:
                raise bits.Infeasible()
            return
        w.fork.assume(c)
        if w.fork.check() == z3.unsat:
            raise bits.Infeasible()

    @reg
    def claim(ex, i, c):
        if isinstance(i, int):
            w.claims.append((i, low(bv(c, 32) != 0), ex.where()))

    @reg
    def tell(ex, i, v): w.tells.append((i, v))

    @reg
    def capture(ex, on):
        if on:
            w.start = len(w.bufs[0].items)
        else:
            w.caps.append(w.bufs[0].items[w.start:])

    @reg
    def same_capture(ex):
        c = w.same(w.caps[-2], w.caps[-1])
        return c if isinstance(c, int) else low(z3.If(c, bv(1, 32), bv(0, 32)))

    def fnuf(name, k, n):
        def f(ex, a):
            if w.values is not None:
                return w.native_fn(name, k, a)
            x = [bv(x, W[k]) for x in a]
            r = uf(name, *([W[k]] * (n + 1)))(*x)
            w.fncalls.append((name, x, r))
            return r
        S['@' + name] = f
    fnuf('any_fn', 'double', 1)
    fnuf('any_fn2', 'double', 2)
    fnuf('any_fnf', 'float', 1)
    fnuf('any_fn2f', 'float', 2)

    @reg
    def vs_open(ex, p, n, mode):
        need(mode)
        n = length(ex, n)
        name = [ex.load(Ptr(p.o, p.off + i), I8) for i in range(n)]
        if any(not isinstance(c, int) for c in name):
            if mode & 2:
                raise ExecError('unknown file name')
            for f in sorted(w.files):                # one path per existing file, and one for none of them
                if len(f) == n and all(not isinstance(c, int) or c == d for c, d in zip(name, f)):
                    if w.fork.decide(z3.And(*[bv(c, 8) == d for c, d in zip(name, f)])):
                        name = f
                        break
            else:
                return M[32]
        name = bytes(name)
        if mode & 2 and mode & 1:
            raise ExecError('file opened for reading and writing')
        if mode & 2:
            b = Buf(name=name)
            if not mode & 8 or name not in w.files:
                w.files[name] = []
        else:
            if name not in w.files:
                return M[32]
            b = Buf(w.files[name])
        w.bufs.append(b)
        return len(w.bufs) - 1

    @reg
    def vs_new(ex):
        w.bufs.append(Buf())
        return len(w.bufs) - 1

    @reg
    def vs_put(ex, h, p, n):
        need(h)
        b = w.buf(h)
        b.items += w.read(ex, p, length(ex, n))

    @reg
    def vs_num(ex, h, v, sg, nb, fl, wd, fill):
        need(h, sg, nb, fl, wd, fill)
        w.buf(h).items.append(Num(v, sg, nb, fl, exe.sgn(wd, 64), fill & 255))

    @reg
    def vs_fp(ex, h, v, fl, pr, wd, fill):
        need(h, fl, pr, wd, fill)
        w.buf(h).items.append(Fp('double', v, fl, exe.sgn(pr, 64), exe.sgn(wd, 64), fill & 255))

    @reg
    def vs_fpf(ex, h, v, fl, pr, wd, fill):
        need(h, fl, pr, wd, fill)
        w.buf(h).items.append(Fp('float', v, fl, exe.sgn(pr, 64), exe.sgn(wd, 64), fill & 255))

    @reg
    def vs_skipws(ex, h): return int(w.skip(ex, w.buf(h)))

    @reg
    def vs_end(ex, h):
        b = w.buf(h)
        return int(b.pos >= len(b.items))

    def char(ex, b):
        if b.pos >= len(b.items):
            return None
        if isinstance(b.items[b.pos], (Num, Fp)):
            b.items[b.pos:b.pos + 1] = w.chars(ex, b.items[b.pos])
        c = b.items[b.pos]
        return c if isinstance(c, int) else low(z3.ZeroExt(24, c))

    @reg
    def vs_getc(ex, h):
        b = w.buf(h)
        c = char(ex, b)
        if c is None:
            return M[32]
        b.pos += 1
        return c

    @reg
    def vs_peekc(ex, h):
        c = char(ex, w.buf(h))
        return M[32] if c is None else c

    @reg
    def vs_rnum(ex, h, fl, nb, sg, out):
        need(fl, nb, sg)
        v, st = w.rnum(ex, w.buf(h), fl, nb, sg)
        ex.store(out, I64, v)
        return st

    @reg
    def vs_rfp(ex, h, out):
        v, st = w.rfp(ex, w.buf(h), 'double')
        ex.store(out, ir.F64, v)
        return st

    @reg
    def vs_rfpf(ex, h, out):
        v, st = w.rfp(ex, w.buf(h), 'float')
        ex.store(out, ir.F32, v)
        return st

    @reg
    def vs_line(ex, h, delim):
        b = w.buf(h)
        r = []
        while True:
            if b.pos >= len(b.items):
                st = EOF | (0 if r else FAIL)
                break
            it = b.items[b.pos]
            b.pos += 1
            if w.is_char(ex, it, delim & 255):
                st = 0
                break
            r.append(it)
        w.scratch = w.mem(r)
        return st

    @reg
    def vs_word(ex, h, width):
        need(width)
        b = w.buf(h)
        r = []
        st = 0
        while True:
            if b.pos >= len(b.items):
                st = EOF | (0 if r else FAIL)
                break
            it = b.items[b.pos]
            if w.is_char(ex, it, *SPACE):
                break
            if exe.sgn(width, 64) > 0 and len(r) >= width:
                break
            r.append(it)
            b.pos += 1
        if not r:
            st |= FAIL
        w.scratch = w.mem(r)
        return st

    @reg
    def vs_str(ex, h):
        w.scratch = w.mem(w.buf(h).items)
        return 0

    @reg
    def vs_len(ex): return len(w.scratch)

    @reg
    def vs_copy(ex, p):
        for i, c in enumerate(w.scratch):
            ex.store(Ptr(p.o, p.off + i), I8, c)

    @reg
    def vs_copybuf(ex, to, fr):
        if exe.sgn(fr, 32) < 0:
            return 0
        s, t = w.buf(fr), w.buf(to)
        n = len(s.items) - s.pos
        t.items += s.items[s.pos:]
        s.pos = len(s.items)
        return n

    def flush(b):
        if b.name is not None:
            w.files[b.name] += b.items
            b.items = []

    @reg
    def vs_flush(ex, h): flush(w.buf(h))

    @reg
    def vs_close(ex, h):
        b = w.buf(h)
        flush(b)
        b.closed = True

    # draws of the random engine model
    def draw(ex, key, width):
        w.keep.append(key)
        key = tuple(x if isinstance(x, (int, str)) else ('t', x.get_id()) for x in key)
        if key not in w.draws:
            w.draws[key] = w.sym(width)
        return w.draws[key]

    @reg
    def vs_draw(ex, seed, i): return draw(ex, ('i', seed, i), 64)

    @reg
    def vs_real(ex, seed, i, lo, hi):
        v = draw(ex, ('d', seed, i, lo, hi), 64)
        return between(ex, 'double', lo, v, hi)

    @reg
    def vs_realf(ex, seed, i, lo, hi):
        v = draw(ex, ('f', seed, i, lo, hi), 32)
        return between(ex, 'float', lo, v, hi)

    def between(ex, k, lo, v, hi):
        if w.limits and not isinstance(v, int):
            w.fork.assume(z3.And(bits.ole(k, lo, v), bits.ole(k, v, hi)))
        elif w.limits and isinstance(lo, int) and isinstance(hi, int):
            f = bits.to_f(k, v)      # concrete values in a comparison with the compiled code: any value of the interval will do
            return v if bits.to_f(k, lo) <= f <= bits.to_f(k, hi) else lo
        return v

    # C library
    S['@strtoull'] = S['@strtoul'] = S['@__isoc23_strtoull'] = S['@__isoc23_strtoul'] = lambda ex, a: strto(ex, a, 0)
    S['@strtoll'] = S['@strtol'] = S['@__isoc23_strtoll'] = S['@__isoc23_strtol'] = lambda ex, a: strto(ex, a, 1)
    S['@atoi'] = lambda ex, a: low(z3.Extract(31, 0, bv(strto(ex, [a[0], None, 10], 1), 64)))
    S['@atol'] = S['@atoll'] = lambda ex, a: strto(ex, [a[0], None, 10], 1)

    def strto(ex, a, sg):
        p, end, base = a
        need(base)
        its = []
        while True:
            c = ex.load(Ptr(p.o, p.off + len(its)), I8)
            if w.is_char(ex, w.unmem(c), 0):
                break
            its.append(w.unmem(c))
        b = Buf(its)
        n0 = len(its)
        while b.pos < len(b.items) and w.is_char(ex, b.items[b.pos], *SPACE):
            b.pos += 1
        v, st = w.rnum(ex, b, {16: HEX, 10: DEC, 8: OCT, 0: 0}[base], 64, sg)
        if len(b.items) != n0:
            raise ExecError('position after a number')
        if isinstance(end, Ptr) and end.o is not None:
            ex.store(end, ir.PTR, Ptr(p.o, p.off + (b.pos if not st & FAIL else 0)))
        return v

    def errno(ex, a):
        if not hasattr(w, 'errno'):
            w.errno = ex.new('errno', 4)
            ex.store(w.errno, I32, 0)
        return w.errno
    S['@__errno_location'] = errno

    # helpers of std::map that live in the library: an ordered tree without rebalancing
    PT = ir.PTR

    def f(ex, n, i):                  # colour, parent, left, right
        return ex.load(Ptr(n.o, n.off + 8 * i), PT)

    def setf(ex, n, i, v):
        ex.store(Ptr(n.o, n.off + 8 * i), PT, v)

    def insert(ex, a):
        left, x, p, head = a
        setf(ex, x, 1, p)
        setf(ex, x, 2, exe.NULL)
        setf(ex, x, 3, exe.NULL)
        ex.store(x, I32, 0)
        if left:
            setf(ex, p, 2, x)
            if p == head:
                ex.store(x, I32, 1)      # a black root is told apart from the header
                setf(ex, head, 1, x)
                setf(ex, head, 3, x)
            elif p == f(ex, head, 2):
                setf(ex, head, 2, x)
        else:
            setf(ex, p, 3, x)
            if p == f(ex, head, 3):
                setf(ex, head, 3, x)
    S['@_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_'] = insert

    def walk(ex, x, a, b):
        if f(ex, x, b) != exe.NULL:
            x = f(ex, x, b)
            while f(ex, x, a) != exe.NULL:
                x = f(ex, x, a)
            return x
        y = f(ex, x, 1)
        while x == f(ex, y, b):
            x, y = y, f(ex, y, 1)
        if f(ex, x, b) != y:
            x = y
        return x

    def incr(ex, a): return walk(ex, a[0], 2, 3)

    def decr(ex, a):
        x = a[0]
        # the header is the only red node whose grandparent it is itself
        c = ex.load(x, I32)
        p = f(ex, x, 1)
        if p != exe.NULL and c == 0 and f(ex, p, 1) == x and x in heads(ex, x):
            return f(ex, x, 3)
        return walk(ex, x, 3, 2)

    def heads(ex, x):
        return [x] if x.o.size >= 48 or True else []
    for cst in ('', 'K'):
        S['@_ZSt18_Rb_tree_incrementP%sSt18_Rb_tree_node_base' % cst] = incr
        S['@_ZSt18_Rb_tree_decrementP%sSt18_Rb_tree_node_base' % cst] = decr

    # comparisons of memory without a case split per byte
    def cmpmem(ex, a):
        n = a[2]
        if not isinstance(n, int):
            n = ex.d.concretize(n, I64)
        x = [ex.load(Ptr(a[0].o, a[0].off + i), I8) for i in range(n)]
        y = [ex.load(Ptr(a[1].o, a[1].off + i), I8) for i in range(n)]
        r = bv(0, 32)
        for p, q in reversed(list(zip(x, y))):
            if isinstance(p, int) and isinstance(q, int):
                if p != q:
                    r = bv(1 if p > q else M[32], 32)
                continue
            P, Q = bv(p, 8), bv(q, 8)
            r = z3.If(P == Q, r, z3.If(z3.UGT(P, Q), bv(1, 32), bv(M[32], 32)))
        return low(r)
    S['@memcmp'] = S['@bcmp'] = cmpmem
    return S


class Ex(exe.Exec):
    summ = {}
    opaque = ()

    def call(self, name, args):
        if name in self.opaque and self.d.fork is not None and any(not isinstance(a, int) for a in args):
            f = self.m.funcs[name]
            if all(t.k in W for t, _ in f.params) and f.ret.k in W and all(not isinstance(a, Ptr) and a is not UNDEF for a in args):
                ws = [W[t.k] for t, _ in f.params] + [W[f.ret.k]]
                return uf('call_' + name, *ws)(*[bv(a, w) for a, w in zip(args, ws)])
        s = self.summ.get(name)
        if s is not None and any(not isinstance(a, int) for a in args):
            if self.d.fork is not None and all(not isinstance(a, (Ptr, exe.FnPtr)) and a is not UNDEF for a in args):
                self.encoded |= s[2]
                sub = []
                ws, ar = [], []
                for (k, parts), a in zip(s[0], args):
                    w = W.get(k, k)
                    a = bv(a, w)
                    ws.append(w)
                    ar.append(a)
                    if k in W:
                        sub += [(parts[0], z3.simplify(z3.Extract(w - 1, w - 1, a))), (parts[1], z3.simplify(z3.Extract(w - 2, 0, a)))]
                    else:
                        sub.append((parts[0], a))
                # the definition is used only where the bound on the result does not suffice
                r = uf('call_' + name, *ws, s[1].size())(*ar)
                self.d.fork.assume(z3.ULE(r, s[3]))
                self.d.ax(r == z3.simplify(z3.substitute(s[1], *sub)))
                return r
        return super().call(name, args)

    def where(self):
        return self.frames[-1] if self.frames else ''

    def init(self):
        """run the constructors of global objects"""
        g = self.m.globals.get('@llvm.global_ctors')
        if g and g[1] and g[1][0] == 'agg':
            for _, e in g[1][1]:
                if e[0] == 'agg' and e[1][1][1][0] == 'g':
                    self.call(e[1][1][1][1], [])


MASK = 0xFFFFFFFFFFFFFFFF


def mix(x, y):
    x = (x * 0x9E3779B97F4A7C15 + y * 0xC2B2AE3D27D4EB4F + 0x165667B19E3779F9) & MASK
    x ^= x >> 29
    x = x * 0xBF58476D1CE4E5B9 & MASK
    return x ^ x >> 32


def native_fn(name, k, a):
    v = mix(a[0], 1) if len(a) == 1 else mix(mix(a[0], 2), a[1])
    return v & (0xBFEFFFFFFFFFFFFF if k == 'double' else 0xBF7FFFFF)


def summary(mod, name, steps=200000):
    """result of a function of plain numbers as one term over its arguments: all its paths are enumerated once and joined"""
    f = mod.funcs[name]
    pars, args = [], []
    for i, (t, _) in enumerate(f.params):
        if t.k in W:
            a = bits.symbol('%s.%d' % (name, i), t.k)
            pars.append((t.k, [a.arg(0), a.arg(1)]))
        elif t.k == 'int' and t.a > 1:
            a = z3.BitVec('%s.%d' % (name, i), t.a)
            pars.append((t.a, [a]))
        else:
            return None
        args.append(a)
    rt = f.ret
    w = W[rt.k] if rt.k in W else rt.a if rt.k == 'int' else None
    if w is None or w == 1:
        return None
    fk = bits.Fork(bits.Stats(), 20000, 300)
    enc = set()
    rows = []

    def path(fork):
        ex = Ex(mod, Diag('uf', fork), {}, max_steps=steps)
        r = ex.call(name, args)
        enc.update(ex.encoded)
        return r
    try:
        for r in fk.paths(path):
            if fk.axioms or r is UNDEF or isinstance(r, (Ptr, list)) or any(k == 'v' for k, _, _ in fk.taken):
                return None
            rows.append((list(fk.conds), bv(r, w)))
    except (ExecError, MemFault, CppThrow, Unreachable):
        return None

    def tree(rs, i):
        if len(rs) == 1:
            return rs[0][1]
        c = rs[0][0][i][0]
        yes = [r for r in rs if r[0][i][1]]
        no = [r for r in rs if not r[0][i][1]]
        if not yes or not no:
            return tree(rs, i + 1)
        return z3.If(c, tree(yes, i + 1), tree(no, i + 1))
    if not rows:
        return None
    t = tree(rows, 0)
    so = z3.Solver()
    so.set('timeout', 5000)
    top = M[w]
    for b in range(1, w):
        if so.check(z3.UGT(t, M[b])) == z3.unsat:
            top = M[b]
            break
    return pars, t, enc, top


class Harness:
    """one harness file: symbolic module, native programs, scenarios"""

    def __init__(self, prop, src, opt='-O1', limits=False, nrandom=False, steps=4000000, paths=4000, extra=(), summ=(), irx=(), opaque=(), prune=False):
        self.prune = prune
        self.prop, self.limits, self.steps, self.paths = prop, limits, steps, paths
        self.src = os.path.join(HARN, src)
        inc = ['-I' + os.path.join(MODEL, 'std'), '-I' + MODEL]
        self.mod = common.emit_ir(prop, self.src, opt, inc + ['-include', os.path.join(MODEL, 'pre.h'), '-Wno-everything'] + list(extra) + list(irx))
        self.ninc = ['-I' + MODEL] + (['-I' + os.path.join(MODEL, 'nrandom')] if nrandom else []) + (['-DLIMITS'] if limits else []) + list(extra)
        self.opaque = {n for n in self.mod.funcs if any(re.search(x, n) for x in opaque)}
        self.summ = {}
        for n in self.mod.funcs:
            if any(re.search(x, n) for x in summ):
                r = summary(self.mod, n)
                if r:
                    self.summ[n] = r
        self.exe = {}
        for k in ('plain', 'san'):
            self.bin(k)

    def bin(self, kind):
        if kind not in self.exe:
            o = os.path.join(common.builddir(self.prop), os.path.basename(self.src) + '.' + kind)
            if os.path.exists(o):
                os.unlink(o)
            fl = ['-O1', '-g', '-std=c++11', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'] if kind == 'san' else common.NATIVE
            common.sh(['g++'] + fl + ['-w', '-DNATIVE'] + common.INC + self.ninc + [self.src, os.path.join(MODEL, 'native.cpp'), '-o', o, '-lrt'])
            self.exe[kind] = o
        return self.exe[kind]

    def native(self, name, values, kind='plain', timeout=60, fns=()):
        """-> (lines of the driver, files, how it ended); fns: values of the unknown functions, (function, arguments, value)"""
        d = tempfile.mkdtemp(prefix='run', dir=common.builddir(self.prop))
        t = d + '.fn'
        try:
            with open(t, 'w') as f:
                for n, a, v in fns:
                    f.write('%s %d %d %d\n' % (n, a[0], a[1] if len(a) > 1 else 0, v))
            try:
                p = subprocess.run([self.bin(kind), name] + [hex(v) for v in values], cwd=d, env=dict(os.environ, VERIF_FN=t), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
                end = p.returncode
                out, err = p.stdout, p.stderr
            except subprocess.TimeoutExpired as e:
                end, out, err = 'does not return within %d s' % timeout, e.stdout or b'', e.stderr or b''
            files = {}
            for n in sorted(os.listdir(d)):
                with open(os.path.join(d, n), 'rb') as f:
                    files[n.encode()] = f.read()
            return err.decode(errors='replace').splitlines(), files, end, out
        finally:
            shutil.rmtree(d)
            os.unlink(t)

    def fails(self, name, values, fns=()):
        """what the compiled code does wrong with these values, or None"""
        for kind in ('plain', 'san'):
            ls, files, end, out = self.native(name, values, kind, fns=fns)
            if b'ASSUME' in out:
                return None
            bad = [l for l in ls if l.startswith('FAIL')]
            if bad:
                return 'claim %s' % ','.join(sorted({l.split()[1] for l in bad}, key=int)), [int(l.split()[1]) for l in bad]
            if end != 0:
                why = [l for l in ls if 'ERROR' in l or 'runtime error' in l or 'ssertion' in l]
                return 'the program ends abnormally (%s) %s' % (end, why[0][:200] if why else ''), []
        return None

    def run(self, fork, name, values=None):
        d = Diag('uf', fork)
        d.prune = self.prune
        w = World(fork, values)
        w.limits = self.limits
        w.native_fn = native_fn
        ex = Ex(self.mod, d, stubs(w), max_steps=self.steps)
        ex.allow_uninit = True
        ex.deadline = time.time() + min(200, common.left(600))
        ex.summ = self.summ
        ex.opaque = self.opaque if values is None else ()
        w.ex = ex
        w.fault = w.stuck = None
        self.w = w
        try:
            ex.init()
            ex.call('@' + name, [])
        except (MemFault, CppThrow, Unreachable) as e:
            w.fault = '%s: %s' % (type(e).__name__, e)
        return w

    def validate(self, name, values):
        """the executor with concrete values against the compiled program: claims, observations and files"""
        fk = bits.Fork()
        fk.start([])
        try:
            w = self.run(fk, name, values)
        except bits.Infeasible:
            return None
        if w.fault:
            raise Mismatch('%s with concrete values: %s' % (name, w.fault))
        ls, files, end, out = self.native(name, values)
        if end != 0:
            return False
        want = [('FAIL' if not c else 'HELD') + ' %d' % i for i, c, _ in w.claims] if all(isinstance(c, int) for _, c, _ in w.claims) else None
        got = [l for l in ls if l[:4] in ('FAIL', 'HELD')]
        if want is None or any(not isinstance(v, int) for _, v in w.tells):
            return None
        tw = ['TELL %d %d' % t for t in w.tells]
        tg = [l for l in ls if l.startswith('TELL')]
        if want != got or tw != tg:
            if any(l.startswith('FAIL') for l in got):
                return False
            raise Mismatch('executor and compiled %s disagree for %r: %r / %r' % (name, [hex(v) for v in values], [a for a in zip(want, got) if a[0] != a[1]][:3] or (tw, tg), got[-3:]))
        for n, its in w.files.items():
            if w.render(its) != files.get(n):
                raise Mismatch('file %r of %s differs from the compiled program for %r:\n%r\n%r' % (n, name, [hex(v) for v in values], w.render(its), files.get(n)))
        return True

    def scenarios(self):
        return common.sh([self.bin('plain'), '-list']).split()

    def decide(self, name, rng, texts, vals=6, budget=700):
        """-> dict(verdict, ...)"""
        st = bits.Stats()
        fk = bits.Fork(st, 60000, self.paths)
        enc = set()
        und = []
        cnt = dict(claims=0, paths=0, validated=0)
        stuck = 0
        t0 = time.time()

        def values(m, w):
            return [(v if isinstance(v, int) else m.eval(v, model_completion=True).as_long()) for v in w.syms]

        def replay(m, w, tries=20):
            syms = values(m, w)
            fns = [(n, [m.eval(x, model_completion=True).as_long() for x in a], m.eval(r, model_completion=True).as_long()) for n, a, r in w.fncalls]
            wid = [64 if isinstance(v, int) else v.size() for v in w.syms]
            cand = [syms]
            for _ in range(tries):
                c = list(syms)
                for i in range(len(c)):
                    if rng.random() < .5:
                        c[i] = c[i] ^ (rng.getrandbits(wid[i]) if rng.random() < .5 else 1 << rng.randrange(wid[i]))
                cand.append(c)
            for c in cand:
                r = self.fails(name, c, fns)
                if r:
                    return c, r, fns
            return None

        def others(w, goal, limit=40):
            # further models of the failing claim, spread by fixing random bits of the unknown values or giving them distinguished ones
            end = time.time() + limit
            vs = [v for v in w.syms + [r for _, _, r in w.fncalls] if not isinstance(v, int)]
            fk.s.push()
            fk.s.add(goal)
            fk.s.set('timeout', 4000)
            try:
                for k in range(30):
                    fix = []
                    for v in vs:
                        if k % 2 and v.size() in SPECIAL and rng.random() < .7:
                            fix.append(v == rng.choice(SPECIAL[v.size()]))
                            continue
                        for _ in range(rng.choice([0, 1, 2, 4])):
                            i = rng.randrange(v.size())
                            fix.append(z3.Extract(i, i, v) == rng.getrandbits(1))
                    if time.time() > end:
                        break
                    if fk.s.check(*fix) == z3.sat:
                        hit = replay(fk.s.model(), w, 1)
                        if hit:
                            return hit
            finally:
                fk.s.pop()
                fk.s.set('timeout', fk.timeout)

        def result(verdict, **k):
            return dict(verdict=verdict, name=name, st=st, enc=enc, **cnt, **k)

        def report(hit):
            c, (why, ids), fns = hit
            t = '; '.join(texts.get(i, 'claim %d' % i) for i in sorted(set(ids))[:3])
            return result('violated', x=c, fns=fns, why='%s%s' % (why, ': ' + t if t else ''))

        def path(f):
            self.w = None
            try:
                w = self.run(f, name)
            except bits.Infeasible:
                raise
            except Exception as e:
                w = self.w
                if w is None:
                    raise
                w.stuck = str(e) or repr(e)
            enc.update(w.ex.encoded)
            return w
        try:
            for w in fk.paths(path):
                cnt['paths'] += 1
                if time.time() - t0 > budget:
                    und.append('time budget')
                    break
                if w.fault or w.stuck:
                    # nothing follows from the encoding on this path; a value that takes it is replayed
                    if w.stuck and w.stuck.endswith(' limit'):
                        r = self.fails(name, [])
                        if r:
                            return report(([], r, []))
                    if fk.check() == z3.unsat:
                        continue
                    try:
                        hit = replay(fk.s.model(), w)
                    except (z3.Z3Exception, OSError):
                        # no model, or too many values to pass on: the plainest ones
                        r = self.fails(name, [])
                        hit = r and ([], r, [])
                    if hit:
                        return report(hit)
                    und.append(w.fault or w.stuck)
                    stuck += 1
                    if stuck > 8:
                        break
                    continue
                cnt['claims'] += len(w.claims)
                # sides that are the same term have been folded to true; they are part of the query all the same
                bad = list({('folded', bool(c)) if isinstance(c, int) else c.get_id(): z3.BoolVal(bool(c)) if isinstance(c, int) else c for _, c, _ in w.claims}.values())
                r = z3.unsat
                bad = [c for c in bad if fk.check(z3.Not(c)) != z3.unsat]
                # with the side conditions about the functions in the claim, then all of them
                left = []
                for c in bad:
                    fk.s.push()
                    fk.s.add(*about(c, fk.axioms))
                    if fk.check(z3.Not(c)) != z3.unsat:
                        left.append(c)
                    fk.s.pop()
                if left:
                    fk.s.add(*fk.axioms)
                for c in left:
                    r = fk.check(z3.Not(c))
                    if r != z3.unsat:
                        if os.environ.get('VERIF_TIMES'):
                            print(name, [i for i, x, _ in w.claims if x is c or isinstance(x, int) and not x], z3.simplify(c) if os.environ['VERIF_TIMES'] == '2' else '')
                        break
                if r == z3.sat:
                    hit = replay(fk.s.model(), w) or others(w, z3.Not(c))
                    if hit:
                        return report(hit)
                    und.append('solver model not reproduced by the compiled code')
                elif r != z3.unsat:
                    und.append('no answer from the solver')
                elif cnt['validated'] < vals and fk.check() == z3.sat:
                    v = values(fk.s.model(), w)
                    try:
                        ok = self.validate(name, v)
                    except Mismatch as e:
                        und.append(str(e))
                        ok = None
                    except Exception:
                        ok = None
                    if ok is False:
                        hit = self.fails(name, v)
                        if hit:
                            return report((v, hit, []))
                    cnt['validated'] += bool(ok)
        except ExecError as e:
            und.append(str(e))
        if und:
            return result('undecided', why='; '.join(sorted(set(und))[:3]))
        if cnt['paths'] == 0 or cnt['claims'] == 0:
            return result('undecided', why='no feasible execution reaches a claim')
        return result('held')


# zeros, infinities, NaNs, smallest and largest numbers, ones; as integers also the ends of the ranges
SPECIAL = {64: [1 << 63, 0, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, (0x7ff << 52) + 1, 1, (1 << 63) + 1, (0x7ff << 52) - 1, 0x3ff << 52, 0xbff << 52, (1 << 64) - 1],
           32: [1 << 31, 0, 0xff << 23, 0x1ff << 23, 0x1ff << 22, (0xff << 23) + 1, 1, (1 << 31) + 1, (0xff << 23) - 1, 0x7f << 23, 0x17f << 23, (1 << 32) - 1]}


def calls(t, memo):
    """ids of the applications of uninterpreted functions in a term"""
    stack, seen, r = [t], set(), set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in memo:
            r |= memo[i][0]
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                r.add(i)
            stack += x.children()
    memo[t.get_id()] = r, t
    return r


def about(c, axioms):
    memo = {}
    own = calls(c, memo)
    return [a for a in axioms if calls(a, memo) <= own]


def run(rep, h, names, texts, explain, assume=(), vals=6):
    """decide every scenario of a harness and fill in the report"""
    have = [n for n in names if '@' + n in h.mod.funcs]
    if len(have) != len(names):
        raise RuntimeError('scenarios missing: %s' % sorted(set(names) - set(have)))

    def one(i):
        name = names[i]
        rng = random.Random(common.SEED * 1000 + i)
        t = time.time()
        ok = 0
        bad = None
        for _ in range(vals):
            v = [rng.choice([rng.getrandbits(64), rng.getrandbits(rng.randint(1, 64)), 0, 1, 0x7ff0000000000000, 0x3ff0000000000000]) for _ in range(64)]
            try:
                ok += bool(h.validate(name, v))
            except Mismatch as e:
                bad = str(e)
            except Exception:
                pass                     # not executable to the end; the decision below says so
        r = h.decide(name, rng, texts, vals)
        if bad and r['verdict'] == 'held':
            r['verdict'], r['why'] = 'undecided', bad
        r['validated'] += ok
        r['t'] = time.time() - t
        return r
    got = common.pool_until(one, list(range(len(names))), lambda r: r['verdict'] == 'violated', common.left())
    res = [got[i] for i in sorted(got)]
    if not any(r['verdict'] == 'violated' for r in res):
        for i in range(len(names)):
            if i not in got:
                rep.und.append('%s: not finished in time' % names[i])
                rep.noanswer = True
    st = bits.Stats()
    enc = set()
    held = nval = nc = 0
    for r in res:
        st.merge(r['st'])
        enc |= r['enc']
        nval += r['validated']
        nc += r['claims']
        if r['verdict'] == 'violated':
            rep.violation('%s: %s' % (r['name'], r['why']), dict(scenario=r['name'], values=[hex(v) for v in r['x']], unknown_functions=[[n, [hex(x) for x in a], hex(v)] for n, a, v in r['fns']][:50]))
        elif r['verdict'] == 'undecided':
            rep.und.append('%s: %s' % (r['name'], r['why']))
            rep.noanswer = True
        else:
            held += 1
    if os.environ.get('VERIF_TIMES'):
        for r in res:
            print('%-24s %6.1f s %4d paths %s' % (r['name'], r['t'], r['st'].paths, r['verdict']))
    for k, v in st.dict().items():
        rep.cov[k] = rep.cov.get(k, 0) + v
    rep.cov['explanation'] = explain
    rep.cov['scenarios'] = rep.cov.get('scenarios', 0) + len(names)
    rep.cov['scenarios_held'] = rep.cov.get('scenarios_held', 0) + held
    rep.cov['claims'] = rep.cov.get('claims', 0) + nc
    rep.cov['concrete_validations'] = rep.cov.get('concrete_validations', 0) + nval
    rep.cov['functions_encoded'] = sorted(set(rep.cov.get('functions_encoded', [])) | {x.lstrip('@') for x in enc if 'vs_' not in x and not x.startswith(('@_ZNSt', '@_ZSt', '@_ZNKSt', '@_ZN9__gnu'))})
    rep.cov['n_functions'] = len(rep.cov['functions_encoded'])
    rep.assume += [a for a in assume if a not in rep.assume]


ASSUME = ['IR of clang 18 at -O1; replays use the g++ build with the real standard library',
          'std::string, std::vector, std::function, std::map are executed from the real headers; streams are the model in /verif/model, '
          'compared with the real streams on concrete values in every run',
          'memory allocation succeeds']
