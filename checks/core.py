"""C30: bit helpers shared by all functions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import z3
import bits, common, bitmain, diag
from bits import to_f
from bitmain import Claim

EXPS = [None] + list(range(22))          # binary exponents of the magnitudes
BIAS = {'double': (1023, 62, 52), 'float': (127, 30, 23)}


def floor_claim(p, k, e):
    """arguments of magnitude in [2^e, 2^(e+1)); e None: below 1"""
    b, hi, lo = BIAS[k]

    def pre(x):
        f = z3.Extract(hi, lo, x)
        return z3.ULT(f, b) if e is None else f == b + e
    f = p + '_floor'

    def build(call, xs):
        v = xs[0]
        neg, frac = z3.Extract(hi + 1, hi + 1, v) == 1, z3.Extract(lo - 1, 0, v)
        pat = lambda s, ex, fr: z3.Concat(z3.BitVecVal(s, 1), z3.BitVecVal(ex, hi - lo + 1), fr)
        none = z3.BitVecVal(0, lo)
        if e is None:
            r = call(f, xs)
            zero = z3.Extract(hi, 0, r) == 0
            m1 = r == pat(1, b, none)
            return z3.If(z3.Extract(hi, 0, v) == 0, z3.Or(zero, m1), z3.If(neg, m1, zero))
        # a known exponent is written as one; the leading bit of the integer is bit e, or e+1 after a carry
        r = call(f, [z3.Concat(z3.Extract(hi + 1, hi + 1, v), z3.BitVecVal(b + e, hi - lo + 1), frac)])
        rest = z3.BitVecVal((1 << (lo - e)) - 1, lo)
        down, up = frac & ~rest, (frac | rest) + 1
        below = z3.If(up == 0, pat(1, b + e + 1, none), pat(1, b + e, up))
        return z3.If(neg, z3.Or(r == below, z3.And(frac & rest == 0, r == pat(1, b + e, frac))), r == pat(0, b + e, down))

    def check(nat, v):
        import math
        x, r = to_f(k, v[0]), to_f(k, nat(f, k, v))
        if r != r or abs(r) > 2.0 ** 40:
            return '%s(%r) = %r' % (f, x, r)
        w = math.floor(x)
        if r != math.floor(r) or not r <= x <= r + 1 or (w != x or x > 0) and r != w:
            return '%s(%r) = %r' % (f, x, r)
    return Claim('%s: integer at or just below an argument of magnitude %s' % (f, 'below 1' if e is None else '2^%d' % e), k, 1, pre, build, check)


def body(rep):
    h = diag.Harness('C30', 'core.cpp')
    diag.run(rep, h, h.scenarios(),
             {1: 'bits of a value and back', 2: 'mask applied to the bits', 3: 'sign bit', 4: 'exponent', 5: 'mantissa'},
             'the helpers run symbolically on unknown words, masks and fractions; bit-vector queries ask for a word where a result differs from the '
             'same operation on its bits; the floor is decided with exact floating-point arithmetic', diag.ASSUME)
    bitmain.run_claims('C30', [floor_claim(p, k, e) for e in EXPS for p, k in (('d', 'double'), ('f', 'float'))], rep, 'one query per path asks for an argument whose result is not an '
                       'integer n with n <= x <= n + 1, or not the floor of an argument that is positive or not an integer', bitmain.BIT_ASSUME, src='floor.cpp', key='floor', mode='fp')
    rep.assume.append('floor: magnitudes below 2^%d; split: every positive normal number' % (len(EXPS) - 1))


if __name__ == '__main__':
    common.main('C30', 'other', body)
