"""Accuracy analysis of one function over intervals of machine numbers."""
import math, time
from fractions import Fraction
import z3
import ir, exe, real, tm
from real import Split, Trap, order, unorder, LD

F = Fraction


class Fn:
    """a scalar harness function in a module"""

    def __init__(self, mod, name, kind, inkind=None):
        self.mod, self.name, self.kind = mod, name, kind
        self.inkind = inkind or kind
        self.encoded = set()
        self.pcache = {}

    def run(self, lo, hi, const=False):
        d = real.RealDomain()
        ex = exe.Exec(self.mod, d)
        x = d.input(self.inkind, lo, hi, const)
        try:
            out = ex.call(self.name, [x])
        finally:
            self.encoded |= ex.encoded
            self.last = d
        return d, x, out

    def dec(self, x):
        if x in self.pcache:
            return self.pcache[x]
        try:
            d, _, out = self.run(x, x)
            r = tuple(d.dec)
        except Trap as e:
            r = tuple(self.last.dec) + ('trap',)
        except Split as e:
            r = tuple(self.last.dec) + ('split',)
        if len(self.pcache) > 4000:
            self.pcache.clear()
        self.pcache[x] = r
        return r

    def split(self, lo, hi):
        """largest machine number of the left part"""
        k = self.inkind
        a, b = order(k, lo), order(k, hi)
        d0, d1 = self.dec(lo), self.dec(hi)
        j = None
        for i in range(max(len(d0), len(d1))):
            if i >= len(d0) or i >= len(d1) or d0[i] != d1[i]:
                j = i
                break
        if j is None:
            return unorder(k, (a + b) // 2), False
        pre = d0[:j + 1]
        while b - a > 1:
            m = (a + b) // 2
            if self.dec(unorder(k, m))[:j + 1] == pre:
                a = m
            else:
                b = m
        return unorder(k, a), True


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.pieces = 0
        self.paths = set()
        self.worst = 0.0
        self.nodes = 0
        self.probes = 0

    def merge(self, o):
        for k in ('queries', 'unsat', 'sat', 'unknown', 'time', 'pieces', 'nodes', 'probes'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.paths |= o.paths
        self.worst = max(self.worst, o.worst)


S = z3.Real('s')


def q2z(f):
    return z3.Q(f.numerator, f.denominator)


def poly(c):
    v = q2z(c[-1])
    for x in reversed(c[:-1]):
        v = v * S + q2z(x)
    return v


def rnd_dy(f, bits=40):
    """round to a dyadic with few bits; returns (value, |error| bound)"""
    if f == 0:
        return f, F(0)
    n, q = f.numerator, f.denominator
    e = abs(n).bit_length() - q.bit_length()
    k = bits - e
    v = F(round(f * F(2) ** k)) / F(2) ** k
    return v, abs(v - f)


def pow2(f):
    """power of two near a positive fraction"""
    return F(2) ** (f.numerator.bit_length() - f.denominator.bit_length())


def decide(D, Rb, tolpoly, st, timeout=20000):
    """exists s in [-1,1] with |D(s)|+Rb > tol(s)?  D: TM, Rb: Fraction, tolpoly: (coeffs, slack).
    Returns ('unsat',None) or ('sat', s) or ('unknown',None)."""
    sc = F(2) ** D.E
    # scale so that numbers are of order one
    tc, tslack = tolpoly
    unit = pow2(max(abs(tc[0]), Rb) or F(1))
    R = (Rb + D.r * sc + tslack) / unit
    dc = []
    for c in D.c:
        v, e = rnd_dy(F(c) * sc / unit, 60)
        dc.append(v)
        R += e
    t2 = []
    for c in tc:
        v, e = rnd_dy(c / unit, 60)
        t2.append(v)
        R += e
    # fold negligible high coefficients into the remainder
    def fold(c):
        nonlocal R
        while len(c) > 1 and abs(c[-1]) < F(1, 2000):
            R += abs(c.pop())
        return c
    dc = fold(dc)
    t2 = fold(t2)
    if R:
        R, _ = rnd_dy(R * (1 + F(1, 2 ** 30)), 60)
    n = max(len(dc), len(t2))
    dc = dc + [F(0)] * (n - len(dc))
    t2 = t2 + [F(0)] * (n - len(t2))
    p1 = [a - b for a, b in zip(dc, t2)]
    p2 = [-a - b for a, b in zip(dc, t2)]
    p1[0] += R
    p2[0] += R
    t0 = time.time()
    q = (S >= -1, S <= 1, z3.Or(poly(p1) > 0, poly(p2) > 0))
    for s in (z3.Tactic('qfnra-nlsat').solver(), z3.Solver()):
        s.set('timeout', timeout)
        s.add(*q)
        r = s.check()
        if r != z3.unknown:
            break
    st.time += time.time() - t0
    st.queries += 1
    if r == z3.unsat:
        st.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        st.sat += 1
        v = s.model()[S]
        if v is None:
            x = F(0)
        elif z3.is_algebraic_value(v):
            a = v.approx(20)
            x = F(a.numerator_as_long(), a.denominator_as_long())
        else:
            x = F(v.numerator_as_long(), v.denominator_as_long())
        return 'sat', x
    st.unknown += 1
    return 'unknown', None


def analyse(fn, lo, hi, ref, tol, deg, st):
    """one piece with a determined path; returns (verdict, s or None, info). May raise Split."""
    d, x, out = fn.run(lo, hi, lo == hi)
    st.paths.add(hash(tuple(d.dec)))
    c = (F(lo) + F(hi)) / 2
    h = (F(hi) - F(lo)) / 2
    if out.op == 'const':
        if out.lo != out.lo or out.lo in (real.INF, -real.INF):
            return 'sat', F(0), None
        nodes = []
        R = F(0)
        o = tm.const_frac(F(out.lo), deg)
    else:
        nodes = real.slice_of(out)
        st.nodes += len(nodes)
        R = real.rounding_tm(out, nodes, c, h)
        xt = tm.var(c, h, deg)
        if hasattr(ref, 'quotient'):
            return analyse_q(real.models_q(out, nodes, deg, xt), R, ref.quotient(c, h, deg), tol, st)
        o = real.models(out, nodes, deg, xt)
    f = ref(c, h, deg)
    D = tm.sub(o, f)
    t = tol(f, c, h, R, D)
    v = decide(D, R, t, st)
    return v[0], v[1], (R, D, f, o)


def analyse_q(o, R, f, tol, st):
    """relative error with output on/od and reference fn/fd:  |on fd - fn od| + R |od fd| > k |fn od| ?"""
    on, od = o
    fn, fd = f
    p = tm.mul(on, fd)
    q = fn if od is None else tm.mul(fn, od)
    w = fd if od is None else tm.mul(fd, od)
    if tm.lower_abs(w) <= 0:
        raise Split('denominator')
    D = tm.sub(p, q)
    tc, slack = tol(q, None, F(1), R, D)
    sc = R * F(2) ** w.E * (1 if w.c[0] > 0 else -1)
    tc = [a - b * sc for a, b in zip(tc, w.c)]
    v = decide(D, F(0), (tc, slack + abs(sc) * w.r), st)
    return v[0], v[1], (R, D, f, o)


def rel_tol(k):
    def g(f, c, h, R, D):
        sc = F(2) ** f.E
        if h == 0 and f.r == 0 and not any(f.c):
            return [F(0)], F(0)
        sg = 1 if f.c[0] > 0 else -1
        if tm.lower_abs(f) <= 0:
            raise Split('reference sign')
        return [sg * k * x * sc for x in f.c], k * f.r * sc
    return g


def abs_tol(k):
    def g(f, c, h, R, D):
        return [F(k)], F(0)
    return g


class Result:
    def __init__(self):
        self.st = Stats()
        self.undecided = []
        self.cex = []      # (x, why)


def between(k, a, b, x, rng, n):
    """machine numbers of [a,b] to replay: the model point, its neighbourhood, the ends, some others"""
    i, j = order(k, a), order(k, b)
    m = order(k, x)
    l = [m, i, j, m - 1, m + 1, m - 2, m + 2, (i + j) // 2]
    w = j - i
    for _ in range(n):
        l.append(i + rng.randrange(w + 1))
    seen = set()
    for q in l:
        if i <= q <= j and q not in seen:
            seen.add(q)
            yield unorder(k, q)


def probe(fn, a, b, info, nat, rng, st):
    """the compiled function must lie inside the enclosure the query was built from"""
    R, o = info[0], info[3]
    k = fn.inkind
    x = unorder(k, rng.randint(order(k, a), order(k, b)))
    c, h = (F(a) + F(b)) / 2, (F(b) - F(a)) / 2
    s = (F(x) - c) / h if h else F(0)
    v = nat(x)
    if v != v or v in (real.INF, -real.INF):
        return
    n, d = o if isinstance(o, tuple) else (o, None)
    m, r = n.at(s)
    if d is None:
        ok = abs(F(v) - m) <= R + r
    else:
        dm, dr = d.at(s)
        ok = abs(F(v) * dm - m) <= R * (abs(dm) + dr) + r + abs(F(v)) * dr
    st.probes += 1
    if not ok:
        raise RuntimeError('enclosure of %s on [%r, %r] does not contain the compiled result %r at %r' % (fn.name, a, b, v, x))


def cover(fn, lo, hi, ref, tol, deg, replay, rng, mindepth=9, maxund=6, nat=None):
    """decide the property on every machine number of [lo,hi]"""
    res = Result()
    st = res.st
    k = fn.inkind
    work = [(lo, hi, 0)]
    while work:
        a, b, dep = work.pop()
        if len(res.undecided) >= maxund:
            res.undecided.append((a, b, 'not examined'))
            continue
        try:
            v, s, info = analyse(fn, a, b, ref, tol, deg, st)
        except (Split, Trap, tm.TMError) as e:
            why = '%s: %s' % (type(e).__name__, e)
            if a == b or dep > mindepth + 4:
                for q in between(k, a, b, a, rng, 200 if a != b else 0):
                    r = replay(q)
                    if r:
                        res.cex.append((q, r))
                        return res
                res.undecided.append((a, b, why))
                continue
            m, exact = fn.split(a, b)
            nd = dep if exact else dep + 1
            work.append((unorder(k, order(k, m) + 1), b, nd))
            work.append((a, m, nd))
            continue
        st.pieces += 1
        if nat is not None and info is not None and st.pieces % 5 == 1:
            probe(fn, a, b, info, nat, rng, st)
        if v == 'unsat':
            continue
        # candidate counterexample: replay on the real code
        if s is not None:
            c, h = (F(a) + F(b)) / 2, (F(b) - F(a)) / 2
            x = float(c + h * s)
            x = min(max(real.FMT[k]['rnd'](x), a), b)
        else:
            x = a
        last = a == b or dep >= mindepth
        for q in between(k, a, b, x, rng, 2000 if last else 3):
            r = replay(q)
            if r:
                res.cex.append((q, r))
                return res
        if last:
            res.undecided.append((a, b, 'solver %s, not reproduced' % v))
            continue
        i, j = order(k, a), order(k, b)
        m = (i + j) // 2
        work.append((unorder(k, m + 1), b, dep + 1))
        work.append((a, unorder(k, m), dep + 1))
    return res
