"""C16: no trap and no undefined conversion inside the operating ranges."""
import os, sys, math, ctypes
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import z3
import bits, common, bitmain, real
from bits import isnan, iszero, isinf, neg, ole, olt, to_b, to_f, bv, W, mag
from bitmain import Claim, Traps

D, S = 'double', 'float'
MINN = {D: 2.0 ** -1022, S: 2.0 ** -126}
MAXF = {D: 1.7976931348623157e308, S: real.f32(3.4028234663852886e38)}
up, down = real.up, real.down
THOROUGH = common.TIER == 'thorough'
FLAGS = [(1, 'invalid operation'), (4, 'division by zero'), (8, 'overflow')]
UB = {}


def builds():
    """instrumented build (undefined behaviour) and unoptimised build (no operation dropped or moved under a condition)"""
    for key, src, fl in (('so', 'scalar.cpp', ['-O1', '-fsanitize=undefined,float-cast-overflow', '-fsanitize-undefined-trap-on-error']),
                         ('plain', 'traps.cpp', ['-O0'])):
        so = os.path.join(common.builddir('C16'), key + '.so')
        common.sh(['g++', '-std=c++11', '-shared', '-fPIC', '-w'] + fl + common.INC + [os.path.join(common.HERE, 'harness', src), '-o', so])
        UB[key] = so
    UB['plain'] = ctypes.CDLL(UB['plain'])


def ubsan(sym, k, v):
    """undefined behaviour observed by an instrumented build, in a child process"""
    pid = os.fork()
    if pid == 0:
        try:
            lib = ctypes.CDLL(UB['so'])
            common.cfun(lib, sym, k, len(v))(*[to_f(k, x) for x in v])
        finally:
            os._exit(0)
    _, s = os.waitpid(pid, 0)
    return os.WIFSIGNALED(s)


def trap(f, k, nargs, pre, pieces, sign=1, what='', whole=True):
    sg = 0 if sign > 0 else bits.SIGN[k]

    def build(call, xs):
        a = [neg(k, xs[0])] + list(xs[1:]) if sign < 0 else xs
        call(f, a, sign)
        return [z3.Not(c) for _, c in call.last.sites]

    def check(nat, v):
        v = [v[0] ^ sg] + list(v[1:])
        t = ctypes.c_double if k == D else ctypes.c_float
        for lib in (nat.lib, UB['plain']):
            g = getattr(lib, 't_' + f)
            g.argtypes = [t] * nargs
            g.restype = ctypes.c_int
            r = g(*[to_f(k, x) for x in v])
            if r:
                break
        if r:
            return '%s(%s) raises %s' % (f, ', '.join(repr(to_f(k, x)) for x in v), ', '.join(n for b, n in FLAGS if r & b))
        if check.n < 40:
            check.n += 1
            if ubsan(f, k, v):
                return '%s(%s) has undefined behaviour' % (f, ', '.join(repr(to_f(k, x)) for x in v))
    check.n = 0
    c = Claim('%s%s' % (f, what), k, nargs, pre, build, check, pieces)
    c.dom = Traps
    c.whole = whole
    c.early = (f, sign) if nargs == 1 and f[2:] in ('log', 'tan', 'asin', 'acos', 'atan') else None
    return c


def span(k, lo, hi, pts):
    r = []
    a = lo
    for p in sorted(pts):
        if a <= p < hi:
            r.append((a, p))
            a = up(k, p)
    r.append((a, hi))
    return r


def binades(k, lo, hi, quick):
    """whole binades; the quick tier takes one in `quick` and those at the ends"""
    e0, e1 = math.frexp(lo)[1] - 1, math.frexp(hi)[1] - 1
    r = []
    for e in range(e0, e1 + 1):
        if THOROUGH or (e - e0) % quick == 0 or e < e0 + 3 or e > e1 - 3 or -2 <= e <= 2:
            a = max(lo, math.ldexp(1.0, e))
            b = min(hi, down(k, math.ldexp(1.0, e + 1))) if e < (1023 if k == D else 127) else hi
            r.append((a, b))
    return r


def claims():
    out = []
    for p, k in (('d', D), ('f', S)):
        def one(n, pieces, signs=(1, -1), whole=False):
            lo, hi = pieces[0][0], pieces[-1][1]
            for s in signs:
                pre = lambda x, k=k, lo=lo, hi=hi: z3.And(ole(k, to_b(k, lo), mag(k, x)), ole(k, mag(k, x), to_b(k, hi)), z3.Not(bits.isneg(k, x)))
                out.append(trap('%s_%s' % (p, n), k, 1, pre, pieces, s, ' for negative arguments' if s < 0 else '', whole))
        f = (lambda x: x) if k == D else real.f32
        top = 708.0 if k == D else 87.0
        ps = span(k, 0.0, top, [f(i * math.log(2) / 2) for i in range(1, 2100)])
        one('exp', [q for i, q in enumerate(ps) if THOROUGH or i < 8 or i % 14 == 0 or i > len(ps) - 8])
        one('log', binades(k, MINN[k], 1e307 if k == D else MAXF[k], 32 if k == D else 6), (1,))
        for n in ('sin', 'cos'):
            one(n, span(k, 0.0, 5000.0, [16.0, 256.0, 1024.0]))
        ps = []
        j = 0
        pio2 = Fr(3141592653589793238462643383279502884197, 2 * 10 ** 39)
        while (j + 1) * pio2 < 5000:
            if THOROUGH or j < 16 or j % 64 == 0 or j > 3174:
                a, m, b = j * pio2 + Fr(1, 64), j * pio2 + pio2 / 2, min((j + 1) * pio2 - Fr(1, 64), Fr(5000))
                a, m, b = (f(float(t)) for t in (a, m, b))
                ps += [(a, m), (up(k, m), b)]
            j += 1
        one('tan', ps)
        one('tan', [(0.0, 0.75)])
        one('asin', span(k, 0.0, 1.0, [0.25, 0.5, 0.625, 0.75]))
        one('acos', span(k, 0.0, 1.0, [0.25, 0.5, 0.625, 0.75]))
        one('atan', span(k, 0.0, MAXF[k], [0.125, 0.5, 1.0, 2.0, 8.0]))
        one('tanh', span(k, 0.0, MAXF[k], [0.125, 0.5, 1.0, 2.0, 8.0, 20.0]))
        q = 32 if k == D else 6
        for n in ('isqrt', 'approx_isqrt'):
            one(n, binades(k, MINN[k], MAXF[k], q), (1,))
        for n in ('inv', 'approx_inv'):
            one(n, binades(k, MINN[k], f(1 / MINN[k] / 1.01), q))
        # two-argument arctangent: zeros and the general case, over the whole plane
        fin = lambda a, k=k: z3.And(z3.Not(isnan(k, a)), z3.Not(isinf(k, a)))
        half = to_b(k, MAXF[k] / 2)
        a2 = p + '_atan2'
        for nm, pre in (('both arguments zero', lambda y, x, k=k: z3.And(iszero(k, y), iszero(k, x))),
                        ('first argument zero', lambda y, x, k=k, fin=fin: z3.And(iszero(k, y), fin(x))),
                        ('second argument zero', lambda y, x, k=k, fin=fin: z3.And(iszero(k, x), fin(y))),
                        ('finite arguments', lambda y, x, k=k, fin=fin, half=half: z3.And(ole(k, mag(k, y), half), ole(k, mag(k, x), half)))):
            out.append(trap(a2, k, 2, pre, None, 1, ', ' + nm))
    return out


EXPLAIN = ('unoptimised IR of each function is executed symbolically; every division, square root, multiplication, addition, conversion and signed integer operation adds the condition under '
           'which it would be invalid, divide by zero, overflow or be undefined; one query per path and piece of the operating range asks whether any of them can hold. The results of '
           'floating-point operations are uninterpreted magnitudes with exact IEEE sign/zero/infinity/NaN/exponent rules and, on a piece, machine-interval enclosures')

if __name__ == '__main__':
    def body(rep):
        builds()
        bitmain.run_claims('C16', claims(), rep, EXPLAIN, bitmain.BIT_ASSUME[1:] + [
        'unoptimised IR of clang 18; replays on the g++ builds, optimised and not (exception flags) and an instrumented build (undefined behaviour)',
        'tangent: arguments closer than 1/64 to a non-zero multiple of pi/2 are not covered',
        'quick tier: subset of binades for log, inverse square root and reciprocal, of periods for tangent'], opt='-O0', nat_src='traps.cpp')
    common.main('C16', 'other', body)
