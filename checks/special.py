"""C12: results for out-of-range, infinite and NaN arguments."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import z3
import bits, common, bitmain, real
from bits import isnan, iszero, isneg, isinf, neg, same, olt, ole, to_b, to_f, bv, W
from bitmain import Claim, sameb, nanb

KINDS = (('d', 'double'), ('f', 'float'))


def value(f, k, pre, want, what, nargs=1):
    """for all arguments with pre the result is exactly want (bits; 'nan' for any NaN)"""
    def build(call, xs):
        r = call(f, xs)
        return isnan(k, r) if want == 'nan' else r == bv(want, W[k])

    def check(nat, v):
        r = nat(f, k, v)
        if not (nanb(k, r) if want == 'nan' else r == want):
            return '%s(%s) = %r, expected %s' % (f, ', '.join(repr(to_f(k, x)) for x in v), to_f(k, r), 'NaN' if want == 'nan' else repr(to_f(k, want)))
    return Claim('%s: %s' % (f, what), k, nargs, pre, build, check)


def claims():
    r = []
    for p, k in KINDS:
        c = lambda x, k=k: to_b(k, x)
        inf = bits.INFB[k]
        hi, lo = (708.0, -708.0) if k == 'double' else (real.f32(88.73), -88.0)
        r.append(value(p + '_exp', k, lambda x, k=k, hi=hi: olt(k, to_b(k, hi), x), inf, 'infinite above %g' % hi))
        r.append(value(p + '_exp', k, lambda x, k=k, lo=lo: olt(k, x, to_b(k, lo)), 0, 'zero below %g' % lo))
        r.append(value(p + '_log', k, lambda x, k=k: olt(k, x, 0), 'nan', 'NaN for negative arguments'))
        r.append(value(p + '_log', k, lambda x, k=k, inf=inf: x == bv(inf, W[k]), inf, 'infinite at infinity'))
        for n in ('asin', 'acos'):
            r.append(value(p + '_' + n, k, lambda x, k=k: olt(k, to_b(k, 1.0), bits.mag(k, x)), 'nan', 'NaN beyond 1'))
        for n in bitmain.SPECIAL:
            r.append(value(p + '_' + n, k, lambda x, k=k: isnan(k, x), 'nan', 'NaN for NaN'))
        r.append(value(p + '_atan2', k, lambda y, x, k=k: z3.Or(isnan(k, y), isnan(k, x)), 'nan', 'NaN when an argument is NaN', 2))
    return r


def atan_claims():
    """C06 beyond the finite range"""
    r = []
    for p, k in KINDS:
        h = to_b(k, 1.5707963267948966)
        for s, t in ((0, h), (bits.SIGN[k], h | bits.SIGN[k])):
            r.append(value(p + '_atan', k, lambda x, k=k, s=s: x == bv(bits.INFB[k] | s, W[k]), t, 'rounded half pi at %sinfinity' % ('-' if s else '')))
    return r


def tanh_claims():
    """C08: exactly one in magnitude beyond the saturation point, infinities included"""
    r = []
    for p, k in KINDS:
        lim = to_b(k, 20.0 if k == 'double' else 9.1)
        for s in (0, bits.SIGN[k]):
            pre = lambda x, k=k, s=s, lim=lim: z3.And(isneg(k, x) == bool(s), olt(k, lim, bits.mag(k, x)))
            r.append(value(p + '_tanh', k, pre, to_b(k, 1.0) | s, 'exactly %s1 beyond the saturation point' % ('-' if s else '')))
    return r


EXPLAIN = ('each function is executed symbolically on arbitrary bits restricted to the named class of arguments; per feasible path one query asks for an argument '
           'whose result is not the specified one; NaN, infinity, zero and sign rules of every operation are part of the encoding')

if __name__ == '__main__':
    common.main('C12', 'other', lambda rep: bitmain.run_claims('C12', claims(), rep, EXPLAIN, bitmain.BIT_ASSUME))
