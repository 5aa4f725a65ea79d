"""C11: exact symmetry of the odd and even functions."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import z3
import bits, common, bitmain, real
from bits import isnan, iszero, neg, same
from bitmain import Claim, sameb


def binades(k):
    """quarter binades; the quick tier takes every eighth binade and those at the ends of the range"""
    emin, emax = (-1022, 1023) if k == 'double' else (-126, 127)
    step = 1 if common.TIER == 'thorough' else 8 if k == 'double' else 2
    r = [(0.0, real.down(k, math.ldexp(1.0, emin)))]
    for e in range(emin, emax + 1):
        if (e - emin) % step == 0 or e < emin + 4 or e > emax - 4 or -3 <= e <= 3:
            lo = math.ldexp(1.0, e)
            r.append((lo, real.down(k, math.ldexp(2.0, e)) if e < emax else (1.7976931348623157e308 if k == 'double' else 3.4028234663852886e38)))
    return r


def claims():
    r = []
    for p, k in (('d', 'double'), ('f', 'float')):
        for n in ('sin', 'tan', 'asin', 'atan', 'tanh', 'inv', 'approx_inv', 'cos'):
            f = p + '_' + n
            odd = n != 'cos'
            pre = (lambda x, k=k: z3.And(z3.Not(isnan(k, x)), z3.Not(iszero(k, x)))) if n == 'sin' else (lambda x, k=k: z3.Not(isnan(k, x)))

            def build(call, xs, f=f, k=k, odd=odd):
                a = call(f, [xs[0]])
                b = call(f, [neg(k, xs[0])], -1)
                return same(k, b, neg(k, a) if odd else a)

            def check(nat, v, f=f, k=k, odd=odd):
                a = nat(f, k, v)
                b = nat(f, k, [v[0] ^ bits.SIGN[k]])
                if not sameb(k, b, a ^ bits.SIGN[k] if odd else a):
                    return '%s(%r) = 0x%x but at the negated argument 0x%x' % (f, bits.to_f(k, v[0]), a, b)
            big = 1.7976931348623157e308 if k == 'double' else real.f32(3.4028234663852886e38)
            pieces = [(0.0, 0.25), (real.up(k, 0.25), 0.5625), (real.up(k, 0.5625), 0.65 if k == 'double' else real.f32(0.65)), (real.up(k, 0.65 if k == 'double' else real.f32(0.65)), 1.0)] if n == 'asin' else [(0.0, 0.5), (real.up(k, 0.5), 2.0), (real.up(k, 2.0), 16.0), (real.up(k, 16.0), big)]
            if n in ('inv', 'approx_inv'):
                pieces = binades(k)
            if n in ('asin',):
                # outside [-1, 1] separately
                r.append(Claim('%s is %s beyond 1' % (f, 'odd' if odd else 'even'), k, 1,
                               lambda x, k=k: z3.And(z3.Not(isnan(k, x)), bits.olt(k, bits.to_b(k, 1.0), bits.mag(k, x))), build, check))
                pre = lambda x, k=k: bits.ole(k, bits.mag(k, x), bits.to_b(k, 1.0))
            if n in ('inv', 'approx_inv'):
                pre = lambda x, k=k: z3.And(z3.Not(isnan(k, x)), z3.Not(bits.isinf(k, x)))
            r.append(Claim('%s is %s' % (f, 'odd' if odd else 'even'), k, 1, pre, build, check, pieces))
        f = p + '_atan2'

        def build(call, xs, f=f, k=k):
            a = call(f, xs)
            b = call(f, [neg(k, xs[0]), xs[1]])
            return same(k, b, neg(k, a))

        def check(nat, v, f=f, k=k):
            a = nat(f, k, v)
            b = nat(f, k, [v[0] ^ bits.SIGN[k], v[1]])
            if not sameb(k, b, a ^ bits.SIGN[k]):
                return '%s(%r, %r) = 0x%x but with the first argument negated 0x%x' % (f, bits.to_f(k, v[0]), bits.to_f(k, v[1]), a, b)
        r.append(Claim(f + ' is odd in its first argument', k, 2,
                       lambda y, x, k=k: z3.And(z3.Not(isnan(k, y)), z3.Not(isnan(k, x)), z3.Not(iszero(k, y))), build, check))
    return r


EXPLAIN = ('each function is executed symbolically twice, on arbitrary bits x and on x with the sign bit flipped; every pair of feasible paths is one query: '
           'can the two results differ in more than the sign bit (cosine: at all)?')

if __name__ == '__main__':
    common.main('C11', 'other', lambda rep: bitmain.run_claims('C11', claims(), rep, EXPLAIN, bitmain.BIT_ASSUME + ['all non-NaN bit patterns; sine excludes zeros']))
