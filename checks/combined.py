"""C15: combined sine-cosine against the separate functions; arccosine against arcsine."""
import os, sys, ctypes
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import z3
import bits, common, bitmain, ir, exe
from bits import same, ole, to_b, to_f, bv, W
from bitmain import Claim, sameb

TY = {'double': ir.F64, 'float': ir.F32}


def sincos(nat, f, k, x, init):
    t = ctypes.c_double if k == 'double' else ctypes.c_float
    g = getattr(nat.lib, f)
    g.restype = None
    g.argtypes = [t, ctypes.c_void_p, ctypes.c_void_p]
    s, c = t(to_f(k, init)), t(to_f(k, init))
    g(to_f(k, x), ctypes.byref(s), ctypes.byref(c))
    return to_b(k, s.value), to_b(k, c.value)


def claims():
    r = []
    for p, k in (('d', 'double'), ('f', 'float')):
        for j, n in enumerate(('sin', 'cos')):
            def build(call, xs, p=p, k=k, j=j, n=n):
                sz = W[k] // 8

                def ptrs(ex):
                    # outputs start with arbitrary bits of their own; they must not matter
                    o = [ex.new('out%d' % i, sz) for i in (0, 1)]
                    for i in (0, 1):
                        ex.store(o[i], TY[k], bits.symbol('old%d' % i, k))
                    ex.call('@%s_sincos' % p, [xs[0]] + o)
                    return bv(ex.load(o[j], TY[k]), W[k])
                a = call('', [], ptrs=ptrs)
                return same(k, a, call('%s_%s' % (p, n), [xs[0]]))

            def check(nat, v, p=p, k=k, j=j, n=n):
                want = nat('%s_%s' % (p, n), k, v)
                for init in (0, to_b(k, 1.0), to_b(k, -12345.678)):
                    a = sincos(nat, p + '_sincos', k, v[0], init)[j]
                    if not sameb(k, a, want):
                        return 'combined call at %r stores 0x%x, the separate %s returns 0x%x' % (to_f(k, v[0]), a, n, want)
            r.append(Claim('%s of the combined call, %s' % (n, k), k, 1, lambda x: z3.BoolVal(True), build, check))
        pio2 = to_b(k, 1.5707963267948966)

        def build(call, xs, p=p, k=k, pio2=pio2):
            d = bits.BitDomain()
            b = call(p + '_acos', [xs[0]])
            a = call(p + '_asin', [xs[0]])
            return same(k, b, bv(d.fbin('fsub', k, pio2, a), W[k]))

        def check(nat, v, p=p, k=k, pio2=pio2):
            a, b = nat(p + '_asin', k, v), nat(p + '_acos', k, v)
            if not sameb(k, b, bits.cbin('fsub', k, pio2, a)):
                return 'arccosine of %r is 0x%x, arcsine 0x%x' % (to_f(k, v[0]), b, a)
        r.append(Claim('arccosine is the rounded difference of pi/2 and arcsine, %s' % k, k, 1,
                       lambda x, k=k: ole(k, bits.mag(k, x), to_b(k, 1.0)), build, check))
    return r


EXPLAIN = ('the combined function and the separate ones are executed symbolically on the same arbitrary bits; output locations start with arbitrary contents; per feasible pair of '
           'paths one query asks for an argument where the stored and returned bits differ (arithmetic operations are uninterpreted magnitudes with exact signs)')

if __name__ == '__main__':
    common.main('C15', 'other', lambda rep: bitmain.run_claims('C15', claims(), rep, EXPLAIN, bitmain.BIT_ASSUME))
