"""C07: two-argument arctangent.

The magnitudes Y=|y|, X=|x| are symbolic with their order fixed by the case; the quotient of the two is
a fresh machine number t (t = Y/X (1+u), |u| <= 2^-p), after which the function depends on t alone."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, tm, acc, real, exe, random, time
from accmain import *
from real import Split, Trap, RealDomain

D, S = 'double', 'float'
MINN = {D: 2.0 ** -1022, S: 2.0 ** -126}
MINS = {D: 2.0 ** -1074, S: 2.0 ** -149}
MAXF = {D: 1.7976931348623157e308, S: 3.4028234663852886e38}
BOUND = 4


def root(n):
    """which of Y, X, t a node depends on (first found)"""
    if n is None:
        return 't'
    for m in real.slice_of(n):
        if m.op == 'cut':
            return 't'
    for m in real.slice_of(n):
        if m.lin in ('Y', 'X'):
            return m.lin
    return 't'


class Dom(RealDomain):
    """order: -1 Y<X, 0 Y=X, 1 Y>X"""

    def __init__(self, k, yr, xr, tr, order_):
        super().__init__()
        self.k, self.tr, self.order = k, tr, order_
        self.Y = self.X = self.cutn = None
        if yr:
            self.Y = self.node(k, 'in', None, None, yr[0], yr[1], FMT[k]['emin'] - FMT[k]['p'] + 1, 0)
            self.Y.lin = 'Y'
        if xr:
            self.X = self.node(k, 'in', None, None, xr[0], xr[1], FMT[k]['emin'] - FMT[k]['p'] + 1, 0)
            self.X.lin = 'X'
        self.rev = False
        self.traps = False

    def mag(self, n):
        s = 1
        while n.op == 'neg':
            s, n = -s, n.a
        return (s, n) if n is self.Y or n is self.X else (0, None)

    def rel(self, a, b):
        """sign of a-b for signed magnitudes, or None"""
        sa, na = self.mag(a)
        sb, nb = self.mag(b)
        if na is None or nb is None or self.Y is None or self.X is None:
            return None
        if sa != sb:
            return sa
        if na is nb:
            return 0
        o = self.order if na is self.Y else -self.order
        return o * sa

    def fcmp(self, pred, k, a, b):
        r = self.rel(a, b)
        if r is None or pred in ('ord', 'uno', 'true', 'false'):
            return super().fcmp(pred, k, a, b)
        v = {'eq': r == 0, 'ne': r != 0, 'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[pred[1:]]
        self.dec.append(v)
        return int(v)

    def fminmax(self, how, k, a, b):
        r = self.rel(a, b)
        if r is None:
            return super().fminmax(how, k, a, b)
        return (a if r <= 0 else b) if how == 'min' else (b if r <= 0 else a)

    def fbin(self, op, k, a, b):
        sa, na = self.mag(a)
        sb, nb = self.mag(b)
        if na is not None and nb is not None and op == 'fdiv':
            if na is nb or self.order == 0:
                return self.mk(k, float(sa * sb))
            small = self.Y if self.order < 0 else self.X
            rev = na is not small
            if self.cutn is not None and self.rev != rev:
                raise exe.ExecError('both quotients used')
            if self.cutn is None:
                lo, hi = self.tr
                if rev:
                    r = FMT[k]['rnd']
                    lo, hi = r(1.0 / hi), r(1.0 / lo)
                self.rev = rev
                self.cutn = self.node(k, 'cut', None, None, lo, hi, self.outgrid(k, lo, hi, None, 1), 0)
                self.cutn.d = 0
            return self.cutn if sa * sb > 0 else self.fneg(k, self.cutn)
        if (na is not None and b.op != 'const') or (nb is not None and a.op != 'const'):
            raise exe.ExecError('arithmetic on the magnitudes other than their quotient')
        return super().fbin(op, k, a, b)


class Case:
    def __init__(self, k, sy, sx, order_, zero=''):
        self.k, self.sy, self.sx, self.order, self.zero = k, sy, sx, order_, zero
        self.sym = k[0] + '_atan2'

    def name(self):
        if self.zero:
            return '%s y=%s x=%s' % (self.sym, '+-'[self.sy < 0] + ('0' if 'y' in self.zero else ''), '+-'[self.sx < 0] + ('0' if 'x' in self.zero else ''))
        return '%s y%s x%s |y|%s|x|' % (self.sym, '<>'[self.sy > 0] + '0', '<>'[self.sx > 0] + '0', '<=>'[self.order + 1])

    def run(self, mod, yr, xr, tr):
        d = Dom(self.k, None if 'y' in self.zero else yr, None if 'x' in self.zero else xr, tr, self.order)
        ex = exe.Exec(mod, d)
        y = d.mk(self.k, math.copysign(0.0, self.sy)) if 'y' in self.zero else (d.Y if self.sy > 0 else d.fneg(self.k, d.Y))
        x = d.mk(self.k, math.copysign(0.0, self.sx)) if 'x' in self.zero else (d.X if self.sx > 0 else d.fneg(self.k, d.X))
        try:
            out = ex.call('@' + self.sym, [y, x])
        finally:
            self.encoded = ex.encoded
        return d, out

    def ref(self, c, h, deg, rev):
        """angle as a Taylor model in t = min/max (or max/min if rev)"""
        pi = tm.const_mp(tm.MP.pi, deg)
        half = tm.scale2(pi, -1)
        if 'y' in self.zero:
            b = tm.const_frac(0, deg)
        elif 'x' in self.zero:
            b = half
        elif self.order == 0:
            b = tm.scale2(pi, -2)
        else:
            a = tm.t_atan(c, h, deg)
            if rev:
                a = tm.sub(half, a)
            b = tm.sub(half, a) if self.order > 0 else a
        if self.sx < 0 and 'x' not in self.zero:
            b = tm.sub(pi, b)
        if self.sy < 0 and 'y' not in self.zero:
            b = tm.neg(b)
        return b


import math
EXACT = {}


def true_angle(y, x):
    if y == 0:
        return MP.mpf(0) if x >= 0 else +MP.pi
    return MP.atan2(MP.mpf(y), MP.mpf(x))


def bad(k, y, x, v):
    if v != v or v in (INF, -INF):
        return 'result %r' % v
    t = true_angle(y, x)
    e = abs(MP.mpf(v) - t)
    lim = BOUND * MP.mpf(float(EPS[k]))
    if y == 0 and x == 0 and v != 0:
        return 'result %r instead of 0' % v
    if e > lim:
        return 'result %r, true value %s, error %s above the bound %s' % (v, MP.nstr(t, 25), MP.nstr(e, 5), MP.nstr(lim, 5))


def candidates(case, yr, xr, tr, t, rng, n):
    """argument pairs whose quotient is near t, inside the ranges"""
    k = case.k
    r = FMT[k]['rnd']

    def ok(a, rg):
        return rg is None or rg[0] <= a <= rg[1]
    if case.zero:
        for i in range(n + 4):
            def pick(rg):
                return unorder(k, rng.randint(order(k, rg[0]), order(k, rg[1]))) if i > 2 else rg[i % 2] if i < 2 else min(max(1.0, rg[0]), rg[1])
            yield (math.copysign(0.0 if 'y' in case.zero else pick(yr), case.sy), math.copysign(0.0 if 'x' in case.zero else pick(xr), case.sx))
        return
    big = yr if case.order > 0 else xr
    sml = xr if case.order > 0 else yr
    for i in range(n + 3):
        if i == 0:
            m, q = 1.0, t
        elif i == 1:
            m, q = big[1] if big[1] < MAXF[k] / 4 else MAXF[k] / 4, t
        elif i == 2:
            m, q = big[0], t
        else:
            m = unorder(k, rng.randint(order(k, big[0]), order(k, big[1])))
            q = t if i % 2 else unorder(k, rng.randint(order(k, tr[0]), order(k, tr[1])))
        m = min(max(m, big[0]), big[1])
        s = r(m * q)
        if case.order == 0:
            s = m
        # stay inside the quotient range of the property
        if not s or s in (INF,) or not ok(s, sml) or (case.order and s >= m) or F(s) / F(m) < F(MINN[k]) or r(s + m) == INF:
            continue
        yield (math.copysign(m if case.order > 0 else s, case.sy), math.copysign(s if case.order > 0 else m, case.sx))


def cover(case, mod, nat, tr, deg, rng, res):
    k = case.k
    u = F(1, 2 ** FMT[k]['p'])
    full = (MINS[k], MAXF[k])
    work = [(full, full, tr, 0)]
    st = res.st
    while work:
        yr, xr, tr, dep = work.pop()
        if len(res.undecided) > 6:
            res.undecided.append((tr, 'not examined'))
            continue
        lo, hi = tr
        sp = None
        v, s = None, None
        try:
            d, out = case.run(mod, yr, xr, tr)
            res.encoded |= case.encoded
            st.paths.add(hash((case.name(), tuple(d.dec))))
            if d.cutn is not None:
                lo, hi = d.cutn.lo, d.cutn.hi
            c, h = (F(lo) + F(hi)) / 2, (F(hi) - F(lo)) / 2
            R = F(0)
            if out.op == 'const':
                if out.lo != out.lo or out.lo in (INF, -INF):
                    v = 'sat'
                else:
                    o = tm.const_frac(F(out.lo), deg)
            else:
                nodes = real.slice_of(out)
                if any(n.op == 'in' for n in nodes):
                    raise exe.ExecError('result depends on a magnitude')
                st.nodes += len(nodes)
                R = real.rounding_tm(out, nodes, c, h)
                o = real.models(out, nodes, deg, tm.var(c, h, deg))
            if v is None:
                if d.cutn is not None:
                    # t = q(1+e): the angle at q differs from the angle at t
                    R += u * F(hi) / (1 + F(lo) ** 2) * (1 + 4 * u)
                f = case.ref(c, h, deg, d.rev)
                Dm = tm.sub(o, f)
                tolr = F(0) if case.zero == 'xy' else BOUND * EPS[k]
                v, s = acc.decide(Dm, R, ([tolr], F(0)), st)
                st.pieces += 1
        except (Split, Trap, tm.TMError) as e:
            sp = e
        if v == 'unsat':
            continue
        i, j = order(k, tr[0]), order(k, tr[1])
        if v is not None:
            t = float(c + h * s) if s is not None else lo
            if d.rev:
                t = 1.0 / t
        else:
            t = tr[0]
        t = min(max(FMT[k]['rnd'](t), tr[0]), tr[1])
        last = (dep > 14 and sp is None) or (sp is not None and i == j and root(getattr(sp, 'val', None)) == 't')
        for y, x in candidates(case, yr, xr, tr, t, rng, 400 if last else 8):
            r = bad(k, y, x, nat(y, x))
            if r:
                res.cex.append(((y, x), r))
                return
        w = root(getattr(sp, 'val', None)) if sp is not None else 't'
        if dep > 90 or (w == 't' and (i == j or (dep > 14 and sp is None))):
            res.undecided.append((tr, str(sp or v)))
            continue
        if w == 't':
            m = (i + j) // 2
            work.append((yr, xr, (unorder(k, m + 1), tr[1]), dep + 1))
            work.append((yr, xr, (tr[0], unorder(k, m)), dep + 1))
        else:
            rg = yr if w == 'Y' else xr
            a, b = order(k, rg[0]), order(k, rg[1])
            if a == b:
                res.undecided.append((tr, str(sp)))
                continue
            m = (a + b) // 2
            for g in ((unorder(k, m + 1), rg[1]), (rg[0], unorder(k, m))):
                work.append((g, xr, tr, dep + 1) if w == 'Y' else (yr, g, tr, dep + 1))


def body(rep):
    src = os.path.join(common.HERE, 'harness', 'scalar.cpp')
    mod = common.emit_ir('C07', src)
    lib = common.native('C07', src)
    jobs = []
    for k in (D, S):
        pts = binades(k, MINN[k], down(k, 1.0))
        fine = [p for p in pts if p[0] < 2.0 ** -6] + uniform(k, 2.0 ** -6, down(k, 1.0), 48)
        for sy in (1, -1):
            for sx in (1, -1):
                for o in (-1, 1):
                    c = Case(k, sy, sx, o)
                    for i in range(0, len(fine), 40):
                        jobs.append((c, fine[i:i + 40]))
                jobs.append((Case(k, sy, sx, 0), [(1.0, 1.0)]))
                for z in ('x', 'y', 'xy'):
                    jobs.append((Case(k, sy, sx, 1 if z == 'x' else -1, z), [(1.0, 1.0)]))
    random.Random(SEED).shuffle(jobs)
    nats = {k: common.cfun(lib, k[0] + '_atan2', k, 2) for k in (D, S)}

    def work(job):
        c, ps = job
        res = acc.Result()
        res.encoded = set()
        rng = random.Random(SEED)
        for p in ps:
            cover(c, mod, nats[c.k], p, 14 if c.k == D else 8, rng, res)
            if res.cex:
                break
        return c.name(), c.k, c.sym, res
    import accmain
    accmain._work = work
    tot = acc.Stats()
    enc = set()
    per = {}
    for name, k, sym, r in common.pool_map(accmain._call, jobs, lambda job: (job[0].name(), job[0].k, job[0].sym, None)):
        if r is None:
            rep.und.append('%s: not finished in time' % name)
            rep.noanswer = True
            continue
        tot.merge(r.st)
        enc |= r.encoded
        p = per.setdefault(name, {'queries': 0, 'unsat': 0})
        p['queries'] += r.st.queries
        p['unsat'] += r.st.unsat
        for (y, x), why in r.cex:
            rep.violation('%s(%r [%s], %r [%s]): %s' % (sym, y, common.hexd(k, y), x, common.hexd(k, x), why),
                          {'function': sym, 'y': y, 'x': x, 'y_bits': common.hexd(k, y), 'x_bits': common.hexd(k, x), 'observed': why})
        rep.und += ['%s quotient in %r: %s' % (name, t, w) for t, w in r.undecided]
    rep.viol = rep.viol[:6]
    rep.cov['explanation'] = EXPLAIN + (' Here both magnitudes are symbolic over all finite machine numbers and their machine '
                                        'quotient is the interval variable, separately for every sign, order and zero case.')
    rep.assume = ASSUME + ['the exact quotient of smaller by larger magnitude is a normal number']
    rep.cov.update(functions_encoded=sorted(enc), queries=tot.queries, unsat=tot.unsat, sat=tot.sat, unknown=tot.unknown,
                   solver_s=round(tot.time, 2), paths=len(tot.paths), operations_encoded=tot.nodes, per_case=per)
    if len(rep.und) * 50 > tot.queries:
        rep.noanswer = True


if __name__ == '__main__':
    common.main('C07', 'other', body)
