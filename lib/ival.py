"""Machine-interval domain: encloses every intermediate result of a run over an interval of inputs.

Used to give the bit-level encoding sound ranges for the results of floating-point operations.  Rounding to nearest is
monotone, so end points are computed with the machine operation itself.  None stands for 'nothing known'."""
import math, operator
import bits, exe, ir
from bits import to_b, to_f, cbin, csqrt, W, SIGN, INFB
from exe import M, sgn


class Stop(Exception):
    """the path is not determined from here on"""


class F:
    __slots__ = ('k', 'lo', 'hi')

    def __init__(self, k, lo, hi):
        self.k, self.lo, self.hi = k, lo, hi


class I:
    """unsigned interval of a w-bit integer"""
    __slots__ = ('w', 'lo', 'hi')

    def __init__(self, w, lo, hi):
        self.w, self.lo, self.hi = w, lo, hi


class Sg(I):
    """signed interval (may contain values of both signs)"""
    __slots__ = ()


class Bool:
    __slots__ = ()


BOOL = Bool()


class TopT:
    def __repr__(self):
        return 'top'


TOP = TopT()


def zkey(v):
    return v, math.copysign(1.0, v)


def least(vs):
    """smallest, -0 below +0: a lower end +0 says that -0 is not there"""
    return min(vs, key=zkey)


def most(vs):
    return max(vs, key=zkey)


def fix(x):
    return x.lo if isinstance(x, I) and x.lo == x.hi else x


class IvDomain:
    def __init__(self):
        self.log = []
        self.trace = []

    def said(self, r):
        self.trace.append(r if isinstance(r, int) else None)
        return r

    def note(self, op, r):
        self.log.append((op, r.lo, r.hi) if isinstance(r, F) else (op, None, None))
        return r

    def undef(self, t):
        return TOP

    def fconst(self, k, b):
        if k not in W:
            return TOP
        f = to_f(k, b)
        return TOP if f != f else F(k, f, f)

    def mk(self, k, vs):
        if any(v != v for v in vs):
            return TOP
        return F(k, least(vs), most(vs))

    def op(self, op, k, x, y):
        return to_f(k, cbin(op, k, to_b(k, x), to_b(k, y)))

    def fbin(self, op, k, a, b):
        if not isinstance(a, F) or not isinstance(b, F) or op == 'frem':
            return self.note(op, TOP)
        if op == 'fdiv' and b.lo <= 0 <= b.hi:
            return self.note(op, TOP)
        inf = math.inf
        if op in ('fmul', 'fdiv') and (inf in (abs(a.lo), abs(a.hi)) or inf in (abs(b.lo), abs(b.hi))):
            return self.note(op, TOP)
        if op == 'fmul' and a is b:
            r = [self.op(op, k, x, x) for x in (a.lo, a.hi)]
            if a.lo <= 0 <= a.hi:
                r.append(0.0)
            return self.note(op, self.mk(k, r))
        return self.note(op, self.mk(k, [self.op(op, k, x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]))

    def fneg(self, k, a):
        return F(k, -a.hi, -a.lo) if isinstance(a, F) else TOP

    def fabs(self, k, a):
        if not isinstance(a, F):
            return TOP
        if a.lo > 0:
            return a
        if a.hi < 0:
            return F(k, -a.hi, -a.lo)
        return F(k, 0.0, max(-a.lo, a.hi))

    def fsqrt(self, k, a):
        if not isinstance(a, F) or a.lo < 0:
            return self.note('fsqrt', TOP)
        return self.note('fsqrt', F(k, to_f(k, csqrt(k, to_b(k, a.lo))), to_f(k, csqrt(k, to_b(k, a.hi)))))

    def copysign(self, k, a, b):
        m = self.fabs(k, a)
        if not isinstance(b, F) or m is TOP:
            return TOP
        if b.lo > 0:
            return m
        if b.hi < 0:
            return self.fneg(k, m)
        return F(k, -m.hi, m.hi)

    def ffma(self, k, a, b, c):
        return TOP

    def fround(self, how, k, a):
        return TOP

    def fminmax(self, how, k, a, b):
        if not isinstance(a, F) or not isinstance(b, F):
            return TOP
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        if how == 'min':
            hi = min(a.hi, b.hi)
        else:
            lo = max(a.lo, b.lo)
        return F(k, lo or -0.0, hi or 0.0)

    def fcmp(self, p, k, a, b):
        if not isinstance(a, F) or not isinstance(b, F):
            return BOOL
        if p == 'ord':
            return 1
        if p == 'uno':
            return 0
        return self.said(self.cmp(p[1:], a, b))

    def cmp(self, p, a, b):
        if p in ('gt', 'ge'):
            return self.cmp({'gt': 'lt', 'ge': 'le'}[p], b, a)
        if p == 'lt':
            return 1 if a.hi < b.lo else 0 if a.lo >= b.hi else BOOL
        if p == 'le':
            return 1 if a.hi <= b.lo else 0 if a.lo > b.hi else BOOL
        eq = 0 if a.hi < b.lo or b.hi < a.lo else 1 if a.lo == a.hi == b.lo == b.hi else BOOL
        return eq if p == 'eq' or eq is BOOL else 1 - eq

    def fpclass(self, k, a, m):
        return BOOL

    def decide(self, c):
        raise Stop()

    def concretize(self, v, t):
        raise Stop()

    def select(self, c, t, a, b):
        if isinstance(a, F) and isinstance(b, F):
            return F(a.k, least([a.lo, b.lo]), most([a.hi, b.hi]))
        if t.k == 'int' and t.a > 1:
            a, b = self.rng(a, t.a), self.rng(b, t.a)
            if a and b:
                return I(t.a, min(a[0], b[0]), max(a[1], b[1]))
        return BOOL if t.k == 'int' and t.a == 1 else TOP

    def srng(self, v, w):
        """signed range or None"""
        if isinstance(v, int):
            return sgn(v, w), sgn(v, w)
        if isinstance(v, Sg):
            return v.lo, v.hi
        if isinstance(v, I) and v.lo >> (w - 1) == v.hi >> (w - 1):
            return sgn(v.lo, w), sgn(v.hi, w)
        return None

    def rng(self, v, w):
        if isinstance(v, Sg):
            return None
        if isinstance(v, int):
            return v, v
        if isinstance(v, I):
            return v.lo, v.hi
        return None

    def ibin(self, o, w, a, b, fl):
        if w == 1:
            return BOOL
        if isinstance(a, Sg) or isinstance(b, Sg):
            x, y = self.srng(a, w), self.srng(b, w)
            if x and y and o in ('add', 'sub', 'mul'):
                c = [{'add': p + q, 'sub': p - q, 'mul': p * q}[o] for p in x for q in y]
                return self.sint(w, min(c), max(c))
            if x and y and o == 'ashr' and y[0] == y[1]:
                return self.sint(w, x[0] >> y[0], x[1] >> y[0])
            return TOP
        x, y = self.rng(a, w), self.rng(b, w)
        if not x or not y:
            return TOP
        if o in ('add', 'sub'):
            lo, hi = (x[0] + y[0], x[1] + y[1]) if o == 'add' else (x[0] - y[1], x[1] - y[0])
            n = 1 << w
            if lo // n == hi // n:
                return fix(I(w, lo % n, hi % n))
            return TOP
        if o == 'lshr' and y[0] == y[1] < w:
            return fix(I(w, x[0] >> y[0], x[1] >> y[0]))
        if o == 'ashr' and y[0] == y[1] < w and x[0] >> (w - 1) == x[1] >> (w - 1):
            return fix(I(w, (sgn(x[0], w) >> y[0]) & M[w], (sgn(x[1], w) >> y[0]) & M[w]))
        if o == 'shl' and y[0] == y[1] < w and x[1] << y[0] <= M[w]:
            return fix(I(w, x[0] << y[0], x[1] << y[0]))
        if o in ('and', 'or', 'xor') and (x[0] == x[1] or y[0] == y[1]):
            c = x[0] if x[0] == x[1] else y[0]
            lo, hi = y if x[0] == x[1] else x
            top = 1 << (w - 1)
            if c in (top, top - 1, 0, M[w]) and lo & top == hi & top:
                f = {'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}[o]
                p, q = f(lo, c), f(hi, c)
                return fix(I(w, min(p, q), max(p, q)))
            # common leading bits keep their result
            d = (lo ^ hi).bit_length()
            f = {'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}[o]
            h = f(lo >> d, c >> d) << d
            cl = c & ((1 << d) - 1)
            if d == 0 or (o == 'and' and cl == 0):
                return h
            ones = (1 << d) - 1
            low = lambda m: m & (m + 1) == 0     # 0..01..1
            if o == 'and':
                return fix(I(w, lo & c, hi & c)) if low(ones & ~cl) else I(w, h, h | cl)
            if o == 'or':
                return fix(I(w, lo | c, hi | c)) if low(cl) else I(w, h | cl, h | ones)
            if cl == 0:
                return I(w, lo ^ c, hi ^ c)
            return I(w, h, h | ones)
        return TOP

    def sint(self, w, a, b):
        if a < -(1 << w - 1) or b >= 1 << w - 1:
            return TOP
        if (a < 0) == (b < 0):
            return fix(I(w, a & M[w], b & M[w]))
        return Sg(w, a, b)

    def icmp(self, p, w, a, b):
        if p[0] == 's':
            x, y = self.srng(a, w), self.srng(b, w)
            return self.said(self.cmp(p[1:], I(w, *x), I(w, *y)) if x and y else BOOL)
        x, y = self.rng(a, w), self.rng(b, w)
        if not x or not y:
            return BOOL
        A, B = I(w, *x), I(w, *y)
        if p[0] == 's':
            if x[0] >> (w - 1) != x[1] >> (w - 1) or y[0] >> (w - 1) != y[1] >> (w - 1):
                return BOOL
            A, B = I(w, sgn(x[0], w), sgn(x[1], w)), I(w, sgn(y[0], w), sgn(y[1], w))
        return self.cmp(p[1:] if p[0] in 'su' else p, A, B)

    def cast(self, o, t0, t1, v):
        if o in ('trunc', 'zext', 'sext'):
            if t0.a == 1 or t1.a == 1:
                return BOOL if t1.a == 1 else I(t1.a, 0, 1) if o == 'zext' else TOP
            if o == 'sext' and self.srng(v, t0.a):
                return self.sint(t1.a, *self.srng(v, t0.a))
            r = self.rng(v, t0.a)
            if not r:
                return TOP
            if o == 'zext' or (o == 'sext' and r[1] >> (t0.a - 1) == 0) or (o == 'trunc' and r[1] <= M[t1.a]):
                return I(t1.a, *r)
            if o == 'trunc':
                d = 1 << t1.a
                return fix(I(t1.a, r[0] % d, r[1] % d)) if r[0] // d == r[1] // d else TOP
            return TOP
        if o in ('fptosi', 'fptoui'):
            return self.note_i(o, self.toint(o, t1, v))
        if o in ('sitofp', 'uitofp'):
            if v is BOOL:
                return F(t1.k, 0.0, 1.0) if o == 'uitofp' else F(t1.k, -1.0, 0.0)
            r = self.srng(v, t0.a) if o == 'sitofp' else self.rng(v, t0.a)
            if not r:
                return TOP
            B = bits.BitDomain()
            return F(t1.k, to_f(t1.k, B.int_to_fp(t1.k, r[0])), to_f(t1.k, B.int_to_fp(t1.k, r[1])))
        if o in ('fpext', 'fptrunc') and isinstance(v, F) and t1.k in W:
            return F(t1.k, to_f(t1.k, to_b(t1.k, v.lo)), to_f(t1.k, to_b(t1.k, v.hi)))
        return TOP

    def toint(self, o, t1, v):
        if isinstance(v, F) and abs(v.lo) < 2.0 ** (t1.a - 1) and abs(v.hi) < 2.0 ** (t1.a - 1) and (o == 'fptosi' or v.lo >= 0):
            return math.trunc(v.lo), math.trunc(v.hi), t1.a
        return None

    def note_i(self, o, r):
        if r is None:
            self.log.append((o, None, None))
            return TOP
        a, b, w = r
        self.trace.append(a)
        self.log.append((o, a, b))
        if (a < 0) == (b < 0):
            return fix(I(w, a & M[w], b & M[w]))
        return Sg(w, a, b)

    def bitcast(self, t0, t1, v):
        if t0.k in W and t1.k == 'int':
            if not isinstance(v, F) or v.lo <= 0 <= v.hi and v.lo != v.hi:
                if isinstance(v, F) and v.lo == 0 and math.copysign(1, v.lo) > 0 and v.hi > 0:
                    return I(t1.a, 0, to_b(t0.k, v.hi))
                if isinstance(v, F) and v.hi == 0 and math.copysign(1, v.hi) < 0 and v.lo < 0:
                    return I(t1.a, SIGN[t0.k], to_b(t0.k, v.lo))
                return TOP
            a, b = to_b(t0.k, v.lo), to_b(t0.k, v.hi)
            return fix(I(t1.a, min(a, b), max(a, b)))
        if t0.k == 'int' and t1.k in W:
            r = self.rng(v, t0.a)
            if not r or r[0] >> (t0.a - 1) != r[1] >> (t0.a - 1) or r[1] & ~SIGN[t1.k] > INFB[t1.k]:
                return TOP
            return self.mk(t1.k, [to_f(t1.k, r[0]), to_f(t1.k, r[1])])
        if t0.k == t1.k:
            return v
        return TOP

    def byte(self, v, i, t):
        return TOP

    def concat(self, bs):
        return TOP

    def ctpop(self, w, a):
        return TOP

    clz = ctz = ctpop

    def ovf(self, o, w, a, b):
        return [TOP, BOOL]

    def fsh(self, n, w, a):
        return TOP


def outcomes(mod, name, k, x):
    """outcomes of the comparisons of the run at a single input"""
    d = IvDomain()
    try:
        exe.Exec(mod, d).call(name, [F(k, x, x)])
    except (Stop, exe.ExecError):
        pass
    return d.trace


def enclosures(mod, name, k, lo, hi):
    """[(operation, lo, hi)] in execution order, as far as the path is determined"""
    d = IvDomain()
    ex = exe.Exec(mod, d)
    try:
        ex.call(name, [F(k, lo, hi)])
    except (Stop, exe.ExecError):
        pass
    return d.log
