"""Driver of the accuracy properties."""
import os, sys, time, random, struct
from fractions import Fraction as F
import mpmath
import common, ir, exe, real, tm, acc
from real import order, unorder, FMT, f32
from common import SEED, TIER

MP = mpmath.mp.clone()
MP.prec = 160
INF = float('inf')
EPS = {'double': F(1, 2 ** 52), 'float': F(1, 2 ** 23)}


def down(k, x):
    return unorder(k, order(k, x) - 1)


def up(k, x):
    return unorder(k, order(k, x) + 1)


def fl(k, x, how='n'):
    """machine number next to a real: n nearest, d down, u up"""
    v = real.rnd_frac(k, F(x))
    if how == 'd' and F(v) > F(x):
        v = down(k, v)
    if how == 'u' and F(v) < F(x):
        v = up(k, v)
    return v


def cut(k, lo, hi, pts):
    """machine intervals covering [lo,hi] cut at the given points (each point starts a piece)"""
    out = []
    a = lo
    for p in sorted(set(pts)):
        if lo < p <= hi:
            out.append((a, down(k, p)))
            a = p
    out.append((a, hi))
    return out


def binades(k, lo, hi, per=1):
    """0 < lo < hi: pieces at the powers of two, per pieces in each"""
    e0, e1 = real.ex2(lo), real.ex2(hi)
    pts = []
    for e in range(e0, e1 + 1):
        for j in range(per):
            pts.append(fl(k, F(2) ** e * (1 + F(j, per))))
    return cut(k, lo, hi, pts)


def mirror(ps):
    return ps + [(-b, -a) for a, b in ps]


def uniform(k, lo, hi, n):
    return cut(k, lo, hi, [fl(k, F(lo) + (F(hi) - F(lo)) * i / n) for i in range(1, n)])


EXPLAIN = ('The functions are executed symbolically from the LLVM IR clang emits for the current tree, the argument ranging over '
           'intervals of machine numbers that together cover the stated domain. Each path on each interval becomes one query to z3: '
           'is there an argument at which the polynomial enclosure of (result - true function) plus the rounding bound exceeds the '
           'tolerance? unsat closes the interval; a sat point is replayed on the compiled library (g++ with the flags of the '
           'project) against a 160 bit reference and only a reproduced excess is a violation; otherwise the interval is divided.')
ASSUME = ['round to nearest, binary64/binary32 arithmetic without contraction or fast-math, as the project is built here',
          'Taylor enclosures of the elementary functions computed with mpmath at 220 bits, and the rounding-error bounds of lib/real.py',
          'clang -O1 translates the source faithfully; encoding and enclosures are compared with the g++ build at sample points in every run']


class Task:
    """one function of one precision over a set of machine intervals"""

    def __init__(self, name, kind, pieces, ref, mpref, tol, rel, deg=None, note=''):
        self.name, self.kind, self.pieces, self.ref, self.mpref = name, kind, pieces, ref, mpref
        self.k, self.rel = F(tol), rel
        self.deg = deg or (14 if kind == 'double' else 8)
        self.sym = '%s_%s' % (kind[0], name)
        self.note = note

    def tol(self):
        return acc.rel_tol(self.k) if self.rel else acc.abs_tol(self.k)

    def bad(self, x, v):
        """is v too far from the true value at x?  description or None"""
        if v != v or v in (INF, -INF):
            return 'result %r' % v
        t = self.mpref(MP.mpf(x))
        e = abs(MP.mpf(v) - t)
        lim = MP.mpf(self.k.numerator) / self.k.denominator * (abs(t) if self.rel else 1)
        if e > lim:
            if self.rel:
                return 'result %r, true value %s, relative error %s above the bound %s' % (
                    v, MP.nstr(t, 25), MP.nstr(e / abs(t), 5) if t else 'infinite', MP.nstr(lim / abs(t), 5) if t else '0')
            return 'result %r, true value %s, error %s above the bound %s' % (v, MP.nstr(t, 25), MP.nstr(e, 5), MP.nstr(lim, 5))
        return None


def self_test(mod, lib, tasks, rep, n=60):
    """the encoding evaluated at points must agree bit for bit with the compiled function"""
    rng = random.Random(SEED)
    done = 0
    for t in tasks:
        fn = acc.Fn(mod, '@' + t.sym, t.kind)
        nat = common.cfun(lib, t.sym, t.kind)
        for _ in range(n):
            a, b = rng.choice(t.pieces)
            x = unorder(t.kind, rng.randint(order(t.kind, a), order(t.kind, b)))
            try:
                out = fn.run(x, x)[2]
            except (real.Split, real.Trap):
                continue
            v = nat(x)
            if out.lo == out.hi and out.lo != v or not out.lo <= v <= out.hi:
                raise common.CheckError('encoding of %s disagrees with the compiled code at %r: %r %r' % (t.sym, x, (out.lo, out.hi), v))
            done += 1
    return done


def run(prop, tasks, rep, level='other'):
    src = os.path.join(common.HERE, 'harness', 'scalar.cpp')
    mod = common.emit_ir(prop, src)
    lib = common.native(prop, src)
    nval = self_test(mod, lib, tasks, rep)
    jobs = []
    size = 24
    for i, t in enumerate(tasks):
        for j in range(0, len(t.pieces), size):
            jobs.append((i, j, t.pieces[j:j + size]))
    random.Random(SEED).shuffle(jobs)
    fns = {}
    stop = common.multiprocessing.get_context('fork').Array('i', [0] * len(tasks))

    def work(job):
        i, j, ps = job
        t = tasks[i]
        if stop[i] >= 2:
            return i, None, 0
        if i not in fns:
            fns[i] = (acc.Fn(mod, '@' + t.sym, t.kind), common.cfun(lib, t.sym, t.kind))
        fn, nat = fns[i]
        rng = random.Random(SEED * 1000003 + j)
        tot = acc.Result()
        t0 = time.time()
        for a, b in ps:
            r = acc.cover(fn, a, b, t.ref, t.tol(), t.deg, lambda x: t.bad(x, nat(x)), rng, nat=nat)
            tot.st.merge(r.st)
            tot.undecided += r.undecided
            if r.cex:
                tot.cex += r.cex
                stop[i] += 1
                break
        tot.encoded = sorted(fn.encoded)
        return i, tot, time.time() - t0

    global _work
    _work = work
    res = common.pool_map(_call, jobs, lambda job: (job[0], 'late', 0))
    tot = acc.Stats()
    enc = set()
    per = {}
    for i, r, dt in res:
        t = tasks[i]
        p = per.setdefault(t.sym + (' ' + t.note if t.note else ''), {'seed_intervals': len(t.pieces), 'queries': 0, 'unsat': 0, 'sat': 0, 'cpu_s': 0.0})
        if r is None:
            continue
        if r == 'late':
            rep.und.append('%s: not finished in time' % t.sym)
            rep.noanswer = True
            continue
        tot.merge(r.st)
        enc |= set(r.encoded)
        p['queries'] += r.st.queries
        p['unsat'] += r.st.unsat
        p['sat'] += r.st.sat
        p['cpu_s'] = round(p['cpu_s'] + dt, 2)
        for x, why in r.cex:
            rep.violation('%s(%r [%s]): %s' % (t.sym, x, common.hexd(t.kind, x), why),
                          {'function': t.sym, 'argument': x, 'bits': common.hexd(t.kind, x), 'observed': why})
        rep.und += ['%s on [%r, %r]: %s' % (t.sym, a, b, w) for a, b, w in r.undecided]
    rep.viol = rep.viol[:6]
    rep.cov['explanation'] = EXPLAIN
    rep.assume = list(ASSUME)
    rep.cov.update(functions_encoded=sorted(enc), queries=tot.queries, unsat=tot.unsat, sat=tot.sat, unknown=tot.unknown,
                   solver_s=round(tot.time, 2), paths=len(tot.paths), operations_encoded=tot.nodes,
                   encoding_vs_compiled_points=nval, enclosure_vs_compiled_points=tot.probes, per_function=per)
    rep.samples_from = per
    if len(rep.und) * 50 > tot.queries:
        rep.noanswer = True


def _call(job):
    return _work(job)
