"""Polynomial enclosures with rigorous remainder (Taylor models) in one variable s in [-1,1].

value(s) in 2^E * ( sum c[k] s^k  +  [-r, r] ),  c[k], r integers, for every s in [-1,1]."""
from fractions import Fraction
import mpmath

P = 150            # working precision in bits
MP = mpmath.mp.clone()
MP.prec = 220


class TMError(Exception):
    pass


class TM:
    __slots__ = ('c', 'r', 'E')

    def __init__(self, c, r, E):
        self.c, self.r, self.E = c, r, E

    def l1(self):
        return sum(abs(x) for x in self.c) + self.r

    def norm(self):
        m = 0
        for x in self.c:
            b = x.bit_length()
            if b > m:
                m = b
        b = self.r.bit_length()
        if b > m:
            m = b
        k = m - P
        if k > 0:
            h = 1 << (k - 1)
            n = 0
            c = []
            for x in self.c:
                c.append((x + h) >> k)
            self.r = (self.r >> k) + 2 + len(c)
            self.c = c
            self.E += k
        return self

    def bounds(self):
        """rational lower and upper bound of the range"""
        t = sum(abs(x) for x in self.c[1:]) + self.r
        return (self.c[0] - t, self.c[0] + t, self.E)

    def coeff(self, k):
        return Fraction(self.c[k]) * Fraction(2) ** self.E

    def at(self, s):
        """midpoint polynomial at rational s, and remainder, as Fractions"""
        v = Fraction(0)
        for x in reversed(self.c):
            v = v * s + x
        sc = Fraction(2) ** self.E
        return v * sc, self.r * sc


def const_frac(f, d):
    f = Fraction(f)
    if f == 0:
        return TM([0] * (d + 1), 0, 0)
    n, q = f.numerator, f.denominator
    k = P - (abs(n).bit_length() - q.bit_length())
    if q & (q - 1) == 0:       # dyadic: exact if it fits
        e = -(q.bit_length() - 1)
        t = TM([n] + [0] * d, 0, e)
        return t.norm() if abs(n).bit_length() > P else t
    v = (n << k) // q if k >= 0 else n // (q << -k)
    return TM([v] + [0] * d, 1, -k)


def const_mp(x, d):
    """mpf (accurate to MP.prec-10 bits) -> TM"""
    if x == 0:
        raise TMError('zero mp constant')
    s, m, e, b = x._mpf_
    m = int(m)
    v = -m if s else m
    k = b - P
    if k > 0:
        v >>= k
        e += k
    else:
        v <<= -k
        e += k
    return TM([v] + [0] * d, 2, e)


def var(c, h, d):
    """x = c + h*s, c,h dyadic Fractions"""
    den = max(c.denominator, h.denominator)
    n0, n1 = c * den, h * den
    assert den & (den - 1) == 0
    cc = [int(n0), int(n1)] + [0] * (d - 1)
    t = TM(cc[:d + 1], 0, -(den.bit_length() - 1))
    return t


def align(a, b):
    if a.E == b.E:
        return a.c, a.r, b.c, b.r, a.E
    if a.E > b.E:
        k = a.E - b.E
        if k > 4 * P:       # b negligible unless a is tiny: treat b as remainder-only relative to a's grid
            # keep exact semantics: bring b up
            j = k - 4 * P
            bc = [x >> j for x in b.c]
            br = (b.r >> j) + 2 + len(bc)
            k = 4 * P
            return [x << k for x in a.c], a.r << k, bc, br, b.E + j
        return [x << k for x in a.c], a.r << k, b.c, b.r, b.E
    q = align(b, a)
    return q[2], q[3], q[0], q[1], q[4]


def add(a, b):
    ac, ar, bc, br, E = align(a, b)
    return TM([x + y for x, y in zip(ac, bc)], ar + br, E).norm()


def sub(a, b):
    ac, ar, bc, br, E = align(a, b)
    return TM([x - y for x, y in zip(ac, bc)], ar + br, E).norm()


def neg(a):
    return TM([-x for x in a.c], a.r, a.E)


def is_const(a):
    return not any(a.c[1:])


def mul(a, b):
    ac, bc = a.c, b.c
    n = len(ac)
    if not any(bc[1:]):
        k = bc[0]
        t = TM([x * k for x in ac], a.r * abs(k) + b.r * (sum(map(abs, ac)) + a.r), a.E + b.E)
        return t.norm()
    if not any(ac[1:]):
        return mul(b, a)
    out = [0] * n
    ov = 0
    # suffix sums of |b|
    suf = [0] * (n + 1)
    t = 0
    absb = [abs(x) for x in bc]
    for j in range(n - 1, -1, -1):
        t += absb[j]
        suf[j] = t
    sa = 0
    for i in range(n):
        x = ac[i]
        if x:
            ax = abs(x)
            sa += ax
            for j in range(n - i):
                out[i + j] += x * bc[j]
            ov += ax * suf[n - i]
    r = ov + a.r * (suf[0] + b.r) + b.r * sa
    return TM(out, r, a.E + b.E).norm()


def scale2(a, k):
    return TM(a.c, a.r, a.E + k)


def lower_abs(a):
    """integer lower bound (in units 2^E) of |a| or 0"""
    t = sum(abs(x) for x in a.c[1:]) + a.r
    return abs(a.c[0]) - t


def recip(a):
    n = len(a.c)
    mn = lower_abs(a)
    if mn <= 0:
        raise TMError('divisor may vanish')
    b = a.c
    b0 = b[0]
    K = P + abs(b0).bit_length()
    r = [0] * n
    one = 1 << K
    r[0] = one // b0                      # r * 2^-K approximates 1/b (in integer units)
    for k in range(1, n):
        t = 0
        for j in range(1, k + 1):
            if b[j]:
                t += b[j] * r[k - j]
        r[k] = -t // b0 if t else 0
    # residual 1 - b*R
    R = TM(r, 0, -K - a.E)
    pr = mul(R, a)
    res = sub(const_frac(1, n - 1), pr)
    rho = res.l1()                        # |1-bR| <= rho*2^res.E
    # |1/b - R| <= rho 2^resE / (mn 2^aE)
    num = rho
    e = res.E - a.E
    # convert to R units 2^(R.E)
    sh = e - R.E
    q = ((num << max(sh, 0)) >> max(-sh, 0)) // mn + 2
    R.r = q
    return R.norm()


def div(a, b):
    return mul(a, recip(b))


def isqrt_int(n):
    from math import isqrt
    return isqrt(n)


def sqrt(a):
    n = len(a.c)
    mn = lower_abs(a)
    if mn <= 0 or a.c[0] <= 0:
        raise TMError('sqrt argument may be nonpositive')
    c, E, r0 = a.c, a.E, a.r
    if E & 1:
        c = [x << 1 for x in c]
        E -= 1
        mn <<= 1
        r0 <<= 1
    K = 2 * P
    q = [0] * n                            # sqrt ~ q * 2^-P * 2^(E/2)
    q[0] = isqrt_int(c[0] << K)
    for k in range(1, n):
        t = c[k] << K
        for j in range(1, k):
            t -= q[j] * q[k - j]
        q[k] = t // (2 * q[0])
    R = TM(q, 0, E // 2 - P)
    res = sub(a, mul(R, R))
    rho = res.l1()
    low = isqrt_int(mn << K)               # lower bound of sqrt in units 2^(E/2-P)
    # |sqrt(a)-R| = |a-R^2|/(sqrt(a)+R) <= rho 2^resE / (low 2^(E/2-P))   (R>=0 on the piece)
    if lower_abs(R) <= 0:
        raise TMError('sqrt enclosure')
    sh = res.E - (E // 2 - P) - (E // 2 - P)
    R.r = ((rho << max(sh, 0)) >> max(-sh, 0)) // low + 2
    return R.norm()


def integrate(g, c0, h):
    """c0 (TM const) + h * int_0^s g"""
    n = len(g.c)
    L = 1
    for k in range(1, n + 1):
        L = L * k // __import__('math').gcd(L, k)
    out = [0] * n
    for k in range(n - 1):
        out[k + 1] = g.c[k] * (L // (k + 1))
    r = abs(g.c[n - 1]) * (L // n) + g.r * L
    t = TM(out, r, g.E)
    # divide by L
    K = L.bit_length() + 8
    t = TM([((x << K) // L) for x in t.c], (t.r << K) // L + 1 + n, t.E - K).norm()
    return add(c0, mul(t, const_frac(h, n - 1)))


# ------------------------------------------------------------ references
def mpq(f):
    return MP.mpf(f.numerator) / f.denominator


def taylor(coefs, rem, d):
    """coefs: list of mpf (already multiplied by h^k), rem: mpf bound"""
    e = None
    for x in coefs:
        if x != 0:
            q = int(MP.floor(MP.log(abs(x), 2)))
            e = q if e is None or q > e else e
    if e is None:
        if rem:
            raise TMError('zero polynomial with remainder')
        return const_frac(0, d)
    E = e - P
    sc = MP.ldexp(MP.mpf(1), -E)
    c = [int(MP.nint(x * sc)) for x in coefs]
    r = int(MP.ceil(abs(rem) * sc)) + 2 * len(c) + 2
    return TM(c, r, E)


def t_exp(c, h, d):
    C, H = mpq(c), mpq(h)
    e = MP.exp(C)
    co, t = [], e
    for k in range(d + 1):
        co.append(t)
        t = t * H / (k + 1)
    return taylor(co, abs(t) * MP.exp(abs(H)) * 1.0001, d)


def t_sin(c, h, d, ph=0):
    C, H = mpq(c), mpq(h)
    sn, cs = MP.sin(C), MP.cos(C)
    cyc = [sn, cs, -sn, -cs]
    co, t = [], MP.mpf(1)
    for k in range(d + 1):
        co.append(cyc[(k + ph) % 4] * t)
        t = t * H / (k + 1)
    return taylor(co, abs(t) * 1.0001, d)


def t_cos(c, h, d):
    return t_sin(c, h, d, 1)


def t_tan(c, h, d):
    return div(t_sin(c, h, d), t_cos(c, h, d))


t_tan.quotient = lambda c, h, d: (t_sin(c, h, d), t_cos(c, h, d))


def t_log(c, h, d):
    C, H = mpq(c), mpq(h)
    q = H / C
    if abs(q) >= 0.9:
        raise TMError('log piece too wide')
    co = [MP.log(C)]
    t = q
    for k in range(1, d + 1):
        co.append(t / k if k & 1 else -t / k)
        t = t * q
    return taylor(co, abs(q) ** (d + 1) / (d + 1) / (1 - abs(q)) * 1.0001, d)


def t_atan(c, h, d):
    x = var(c, h, d)
    g = recip(add(const_frac(1, d), mul(x, x)))
    C = mpq(c)
    return integrate(g, const_mp(MP.atan(C), d) if c else const_frac(0, d), h)


def t_asin(c, h, d):
    x = var(c, h, d)
    if h == 0:
        return const_mp(MP.asin(mpq(c)), d) if c else const_frac(0, d)
    g = recip(sqrt(sub(const_frac(1, d), mul(x, x))))
    return integrate(g, const_mp(MP.asin(mpq(c)), d) if c else const_frac(0, d), h)


def t_acos(c, h, d):
    if h == 0:
        v = MP.acos(mpq(c))
        return const_mp(v, d) if v else const_frac(0, d)
    x = var(c, h, d)
    g = recip(sqrt(sub(const_frac(1, d), mul(x, x))))
    return integrate(neg(g), const_mp(MP.acos(mpq(c)), d), h)


def t_tanh(c, h, d):
    C, H = mpq(c), mpq(h)
    if abs(H) > 0.9:
        raise TMError('tanh piece too wide')
    t = [MP.tanh(C)]
    for k in range(d):
        s = MP.mpf(1) if k == 0 else MP.mpf(0)
        for i in range(k + 1):
            s -= t[i] * t[k - i]
        t.append(s / (k + 1))
    # |tanh| <= 1.6 on complex discs of radius 1 around real points
    rem = 1.6 * abs(H) ** (d + 1) * 1.0001 / (1 - abs(H))
    if abs(C) > 3:
        # tanh = +-1 -+ 2e^{-2x}/(1+e^{-2x}); tighter disc bound for the decaying part
        rem = rem * MP.exp(-2 * (abs(C) - abs(H) - 1)) * 4
        rem = min(rem, 1.6 * abs(H) ** (d + 1) * 1.0001 / (1 - abs(H)))
    hp = MP.mpf(1)
    co = []
    for k in range(d + 1):
        co.append(t[k] * hp)
        hp *= H
    return taylor(co, rem, d)


def t_rsqrt(c, h, d):
    return recip(sqrt(var(c, h, d)))


def t_recip(c, h, d):
    return recip(var(c, h, d))
