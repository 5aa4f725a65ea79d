"""Accuracy of the scalar functions:  accuracy.py <property>"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, tm, bitmain, special
from fractions import Fraction as F
from accmain import *

D, S = 'double', 'float'
MINN = {D: 2.0 ** -1022, S: 2.0 ** -126}
MAXF = {D: 1.7976931348623157e308, S: 3.4028234663852886e38}


def c01():
    for k, lo, hi in ((D, -708.0, 708.0), (S, fl(S, F('-87.3'), 'u'), fl(S, F('88.72'), 'd'))):
        ps = cut(k, lo, hi, [float(i) / 2 for i in range(-1418, 1418)])
        yield Task('exp', k, ps, tm.t_exp, MP.exp, 2 * EPS[k], True)


def c02():
    for k in (D, S):
        near = [fl(k, 1 + F(2) ** -j) for j in range(1, FMT[k]['p'])] + [fl(k, 1 - F(2) ** -j) for j in range(2, FMT[k]['p'] + 1)]
        pts = near + [1.0, up(k, 1.0)]
        ps = binades(k, MINN[k], 0.25) + cut(k, 0.25, 4.0, pts + [0.25 * i for i in range(2, 16)])[:] + binades(k, 4.0, 1e307 if k == D else MAXF[k])
        yield Task('log', k, ps, tm.t_log, MP.log, 2 * EPS[k], True)


def both(ps):
    """both signs, and the two zeros"""
    return mirror(ps) + [(0.0, 0.0), (-0.0, -0.0)]


PIO4 = F('0.78539816339744830961566084581987572104929234984378')
PIO2 = 2 * PIO4


def c03():
    for k in (D, S):
        small = binades(k, MINN[k], fl(k, PIO4, 'd'))
        big = cut(k, MINN[k], 5000.0, [2.0 ** -30, 2.0 ** -10, .125] + [fl(k, PIO4 * i) for i in range(1, 6400) if PIO4 * i < 5000])
        for n, r, m in (('sin', tm.t_sin, MP.sin), ('cos', tm.t_cos, MP.cos)):
            yield Task(n, k, mirror(big) + [(0.0, 0.0), (-0.0, -0.0)], r, m, F('3e-16') if k == D else EPS[k], False, note='absolute, |x|<=5000')
        yield Task('sin', k, both(small), tm.t_sin, MP.sin, 2 * EPS[k], True, note='relative, |x|<=pi/4')


def c04():
    for k in (D, S):
        yield Task('tan', k, both(binades(k, MINN[k], fl(k, PIO4, 'd'))), tm.t_tan, MP.tan, F('4e-15') if k == D else 4 * EPS[k], True, note='|x|<=pi/4')
        ps = []
        j = 0
        while (j + 1) * PIO2 < 5000:
            lo, hi = j * PIO2 + F(1, 64), (j + 1) * PIO2 - F(1, 64)
            hi = min(hi, F(5000))
            pts = [lo + (F(1, 64) * 2 ** i - F(1, 64)) for i in range(1, 6)] + [hi - (F(1, 64) * 2 ** i - F(1, 64)) for i in range(1, 6)] + [j * PIO2 + PIO4]
            ps += cut(k, fl(k, lo, 'u'), fl(k, hi, 'd'), [fl(k, p) for p in pts])
            j += 1
        yield Task('tan', k, mirror(ps), tm.t_tan, MP.tan, (6 if k == D else 8) * EPS[k], True, note='away from multiples of pi/2')
        sub = binades(k, MINN[k] * float(EPS[k]), down(k, MINN[k]))
        yield Task('tan', k, mirror(sub), lambda c, h, d: tm.var(c / 2, h / 2, d), lambda x: x / 2, 1, True, note='subnormal')


def c05():
    for k in (D, S):
        p = FMT[k]['p']
        near1 = cut(k, .5, down(k, 1.0), [fl(k, 1 - F(2) ** -j) for j in range(2, p + 1)] + [.625, .875])
        ps = binades(k, MINN[k], down(k, .5)) + near1 + [(1.0, 1.0)]
        yield Task('asin', k, both(ps), tm.t_asin, MP.asin, (2 if k == D else 4) * EPS[k], True)
        pc = cut(k, MINN[k], down(k, .5), [2.0 ** -60, 2.0 ** -20, 2.0 ** -8, .125, .25, .375]) + near1 + [(1.0, 1.0)]
        yield Task('acos', k, both(pc), tm.t_acos, MP.acos, 4 * EPS[k], False)


def c06():
    for k in (D, S):
        yield Task('atan', k, both(binades(k, MINN[k], MAXF[k])), tm.t_atan, MP.atan, (2 if k == D else 4) * EPS[k], True)


def c08():
    for k, top in ((D, 20.0), (S, fl(S, F('9.1'), 'd'))):
        mid = MINN[k] * 16
        ps = binades(k, mid, down(k, 1.0)) + uniform(k, 1.0, top, 60)
        yield Task('tanh', k, both(ps), tm.t_tanh, MP.tanh, 8 * EPS[k], True)
        yield Task('tanh', k, mirror(binades(k, MINN[k], down(k, mid))), tm.t_tanh, MP.tanh, 16 * EPS[k], True, note='smallest normal arguments')
        ps = uniform(k, 0.5, top, 150)
        yield Task('tanh', k, mirror(ps), lambda c, h, d: tm.const_frac(F(0), d), lambda x: MP.mpf(0), 1 + 2 * EPS[k], False, note='magnitude at most 1 + 2 epsilon')


def c09():
    for k in (D, S):
        ps = binades(k, MINN[k], MAXF[k], 2)
        rs = lambda x: 1 / MP.sqrt(x)
        yield Task('isqrt', k, ps, tm.t_rsqrt, rs, 4 * EPS[k] if k == D else F('4.8e-6'), True)
        yield Task('approx_isqrt', k, ps, tm.t_rsqrt, rs, F('6e-11') if k == D else F('1.8e-3'), True)


def c10():
    for k in (D, S):
        ps = mirror(binades(k, MINN[k], fl(k, 1 / F(MINN[k]), 'd'), 2))
        rc = lambda x: 1 / x
        yield Task('inv', k, ps, tm.t_recip, rc, 8 * EPS[k] if k == D else F('1e-5'), True)
        yield Task('approx_inv', k, ps, tm.t_recip, rc, F('1.2e-10') if k == D else F('3.6e-3'), True)


def body(rep, prop):
    run(prop, list(globals()[prop.lower()]()), rep)
    extra = {'C06': special.atan_claims, 'C08': special.tanh_claims}.get(prop)
    if extra:
        bitmain.run_claims(prop, extra(), rep, special.EXPLAIN, bitmain.BIT_ASSUME, key='beyond_the_finite_range')


if __name__ == '__main__':
    prop = sys.argv[1]
    common.main(prop, 'other', lambda rep: body(rep, prop))
