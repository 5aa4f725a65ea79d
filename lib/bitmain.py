"""Shared parts of the checks that use the bit-level encoding."""
import time, random, ctypes, multiprocessing, queue
import z3
import ir, exe, bits, common, real, ival
from bits import W, bv, to_b, to_f

BUDGET = 700        # s, well below what a check may take
LIBM = {n + s: k for n in 'sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log2 log10 log1p pow cbrt hypot fmod'.split() for k, s in (('double', ''), ('float', 'f'))}
OPS = ('fadd', 'fsub', 'fmul', 'fdiv')


def interesting(k, rng):
    w, p = W[k], bits.MB[k]
    c = rng.random()
    if c < 0.15:
        return rng.choice([0, bits.SIGN[k], bits.INFB[k], bits.INFB[k] | bits.SIGN[k], bits.QNAN[k], 1, bits.INFB[k] - 1, 1 << p, (1 << p) - 1])
    if c < 0.4:
        return rng.getrandbits(w)
    bias = (1 << (w - 2 - p)) - 1
    return (rng.getrandbits(1) << (w - 1)) | ((bias + rng.randint(-8, 8)) << p) | rng.choice([0, rng.getrandbits(p), (1 << p) - 1, 1 << (p - 1)])


def anybits(k, rng):
    w, p = W[k], bits.MB[k]
    bias = (1 << (w - 2 - p)) - 1
    r = rng.random()
    if r < .2:
        return interesting(k, rng)
    e = rng.randint(0, 2 * bias) if r < .4 else bias + rng.randint(-30, 12)
    return rng.getrandbits(1) << (w - 1) | e << p | rng.getrandbits(p)


def op_selftest(rng, n=60):
    """every abstract operation, instantiated with the machine result of its magnitude, is the machine operation"""
    cnt = 0
    for k in ('double', 'float'):
        w = W[k]
        a, b = bits.symbol('oa', k), bits.symbol('ob', k)
        va = [a.arg(0), a.arg(1), b.arg(0), b.arg(1)]
        for op in OPS + ('fsqrt',):
            d = bits.BitDomain()
            t = d.fsqrt(k, a) if op == 'fsqrt' else d.fbin(op, k, a, b)
            nm = {'fsub': 'add', 'fadd': 'add', 'fmul': 'mul', 'fdiv': 'div', 'fsqrt': 'sqrt'}[op] + k
            app = [None]

            def find(e, seen):
                if e.get_id() in seen:
                    return
                seen.add(e.get_id())
                if z3.is_app(e) and e.decl().name() == nm:
                    app[0] = e
                for c in e.children():
                    find(c, seen)
            find(t, set())
            for _ in range(n):
                x, y = interesting(k, rng), interesting(k, rng)
                if rng.random() < 0.1:
                    y = x ^ bits.SIGN[k]
                want = bits.csqrt(k, x) if op == 'fsqrt' else bits.cbin(op, k, x, y)
                m = z3.BitVecVal(want & bits.M[w - 1], w - 1)
                sub = list(zip(va, [z3.BitVecVal(x >> w - 1, 1), z3.BitVecVal(x & bits.M[w - 1], w - 1), z3.BitVecVal(y >> w - 1, 1), z3.BitVecVal(y & bits.M[w - 1], w - 1)]))
                got = z3.simplify(z3.substitute(z3.substitute(t, (app[0], m)), *sub)).as_long()
                if got != want and not (got & ~bits.SIGN[k] > bits.INFB[k] and want & ~bits.SIGN[k] > bits.INFB[k]):
                    raise RuntimeError('encoding of %s %s wrong: %x %x -> %x, machine %x' % (op, k, x, y, got, want))
                for ax in d.axioms:
                    v = z3.simplify(z3.substitute(z3.substitute(ax, (app[0], m)), *sub))
                    if not z3.is_true(v) and True:
                        raise RuntimeError('side condition of %s %s wrong at %x %x' % (op, k, x, y))
                cnt += 1
    return cnt


class Scalar:
    """double/float function(s) of one or two arguments in a module"""

    def __init__(self, mod, name, k, nargs=1):
        self.mod, self.name, self.k, self.nargs = mod, name, k, nargs
        self.encoded = set()

    def run(self, fork, args, mode='uf'):
        d = bits.BitDomain(mode, fork)
        ex = exe.Exec(self.mod, d)
        try:
            r = ex.call(self.name, list(args))
        finally:
            self.encoded |= ex.encoded
        return bv(r, W[self.k])

    def concrete(self, xs):
        """value for concrete bits; None if it depends on an undefined conversion"""
        d = bits.BitDomain()
        ex = exe.Exec(self.mod, d)
        r = ex.call(self.name, list(xs))
        return r


def validate(mod, lib, name, k, nargs, rng, n=100):
    """the executor with concrete inputs must reproduce the compiled function bit for bit"""
    s = Scalar(mod, name, k, nargs)
    f = common.cfun(lib, name.lstrip("@"), k, nargs)
    cnt = 0
    for _ in range(n):
        xs = [interesting(k, rng) for _ in range(nargs)]
        try:
            r = s.concrete(xs)
        except exe.ExecError:
            continue
        if not isinstance(r, int):
            continue
        got = to_b(k, f(*[to_f(k, x) for x in xs]))
        nan = lambda v: v & ~bits.SIGN[k] > bits.INFB[k]
        if got != r and not (nan(got) and nan(r)):
            raise RuntimeError('executor disagrees with compiled %s at %r: %x, compiled %x' % (name, [hex(x) for x in xs], r, got))
        cnt += 1
    return cnt


class Claim:
    """for all argument bits with pre: goal.   build(call, xs) -> goal term; check(nat, xs) -> None or what fails"""

    dom = None          # value domain (Hint unless set)
    whole = True        # try a query over the whole domain first
    early = None        # (function, sign): split where comparisons change before asking

    def __init__(self, name, k, nargs, pre, build, check, pieces=None):
        self.pieces = pieces
        self.name, self.k, self.nargs, self.pre, self.build, self.check = name, k, nargs, pre, build, check


class Nat:
    """compiled functions on bit patterns"""

    def __init__(self, lib):
        self.lib = lib
        self.f = {}

    def __call__(self, name, k, xs):
        key = name, k, len(xs)
        if key not in self.f:
            self.f[key] = common.cfun(self.lib, name, k, len(xs))
        return to_b(k, self.f[key](*[to_f(k, x) for x in xs]))


def nanb(k, v):
    return v & ~bits.SIGN[k] > bits.INFB[k]


def sameb(k, a, b):
    return a == b or (nanb(k, a) and nanb(k, b))


def goals(fk, run):
    """the assertions of every feasible path, one at a time"""
    for g in fk.paths(run):
        for x in g if isinstance(g, list) else [g]:
            yield x


def decide_claim(mod, nat, c, rng, mode='uf', timeout=120000):
    """-> dict(verdict, ...)"""
    st = bits.Stats()
    if not c.whole:
        return dict(verdict='undecided', claim=c.name, why='by pieces', st=st, enc=set())
    fk = bits.Fork(st, timeout)
    xs = [bits.symbol('x%d' % i, c.k) for i in range(c.nargs)]
    fk.base = [c.pre(*xs)]
    enc = set()
    bad = []

    def run(fork):
        def call(name, args, sign=1, ptrs=None):
            d = c.dom(mode, fork, [])
            call.last = d
            ex = exe.Exec(mod, d)
            try:
                return bv(ex.call('@' + name, list(args)), W[c.k]) if ptrs is None else ptrs(ex)
            finally:
                enc.update(ex.encoded)
        try:
            return c.build(call, xs)
        except bits.Infeasible:
            raise
        except Exception as e:
            # cannot be followed to the end: the claim counts as failing here until the compiled code says otherwise
            stuck.append(str(e))
            return z3.BoolVal(False)
    stuck = []
    und = []
    first = True
    for goal in goals(fk, run):
        first, fresh = False, first
        if fresh and fk.check() != z3.sat:
            und.append('precondition not satisfiable')
            break
        r = fk.check(z3.Not(goal))
        if r == z3.unsat:
            continue
        # with the side conditions of the arithmetic
        fk.s.add(*fk.axioms)
        fk.axioms = []
        r = fk.check(z3.Not(goal))
        if r == z3.unsat:
            continue
        if r == z3.unknown:
            und.append('solver gave no answer')
            continue
        # several models of the failing path, each replayed on the compiled code
        hit = None
        fk.s.push()
        fk.s.add(z3.Not(goal))
        for tries in range(6):
            m = fk.s.model() if tries else None
            if tries == 0:
                fk.check()
                m = fk.s.model()
            vals = [m.eval(x, model_completion=True).as_long() for x in xs]
            cand = [vals]
            for _ in range(40):
                v2 = []
                for v in vals:
                    j = rng.randrange(W[c.k])
                    v2.append(v if rng.random() < .3 else v ^ ((1 << j) if rng.random() < .5 else rng.getrandbits(W[c.k]) >> (W[c.k] - 1 - bits.MB[c.k] // 2 + rng.randrange(8))))
                cand.append(v2)
            cand += [[anybits(c.k, rng) for _ in xs] for _ in range(2000 if tries == 0 else 200)]
            for v in cand:
                ok = z3.is_true(z3.simplify(c.pre(*[z3.BitVecVal(a, W[c.k]) for a in v])))
                if ok:
                    why = c.check(nat, v)
                    if why:
                        hit = (v, why)
                        break
            if hit:
                break
            fk.s.add(z3.Or(*[x != v for x, v in zip(xs, vals)]))
            if fk.check() != z3.sat:
                break
        fk.s.pop()
        if hit:
            return dict(verdict='violated', claim=c.name, x=hit[0], why=hit[1], st=st, enc=enc)
        und.append('%s: %s' % (stuck[-1] if stuck else 'solver model not reproduced by the compiled code', [hex(v) for v in vals]))
    if und:
        return dict(verdict='undecided', claim=c.name, why=und[0], st=st, enc=enc)
    return dict(verdict='held', claim=c.name, st=st, enc=enc)


class Hint(bits.BitDomain):
    """bit-level run whose operations carry the enclosures of the real-arithmetic run"""

    def __init__(self, mode, fork, log):
        super().__init__(mode, fork)
        self.log, self.i, self.nest = list(log), 0, 0
        self.known = {}         # what the enclosure says about a term

    def external(self, ex, name, args):
        # functions of the C math library are uninterpreted
        n = name.lstrip('@')
        if n.startswith('llvm.'):
            p = n.split('.')
            n = p[1] + ('f' if p[-1] == 'f32' else '')
        k = LIBM.get(n)
        if k is None:
            raise exe.ExecError('call of external ' + name)
        return bits.uf('fn:' + n, *([W[k]] * (len(args) + 1)))(*[bv(a, W[k]) for a in args])

    def use(self, op, k, r):
        if self.nest == 0 and self.i < len(self.log):
            o, lo, hi = self.log[self.i]
            self.i += 1
            if o != op:
                self.log = self.log[:0]     # another path: nothing more is known
            elif lo is not None and not isinstance(r, int):
                q = bits.key(k, r)
                a, b = bits.key(k, to_b(k, float(lo))), bits.key(k, to_b(k, float(hi)))
                h = z3.And(q >= a, q <= b, z3.Not(bits.isnan(k, r)))
                if lo > 0:
                    h = z3.And(h, bits.parts(k, r)[0] == 0)
                self.known[r.get_id()] = h
                self.fork.assume(h)
        return r

    def fbin(self, op, k, a, b):
        self.nest += 1
        try:
            r = super().fbin(op, k, a, b)
        finally:
            self.nest -= 1
        return self.use(op, k, r)

    def fsqrt(self, k, a):
        return self.use('fsqrt', k, super().fsqrt(k, a))

    def cast(self, o, t0, t1, v):
        r = super().cast(o, t0, t1, v)
        if o in ('fptosi', 'fptoui') and self.i < len(self.log):
            op, lo, hi = self.log[self.i]
            self.i += 1
            if op != o:
                self.log = self.log[:0]
            elif lo is not None and not isinstance(r, int):
                self.known[r.get_id()] = h = z3.And(r >= lo, r <= hi) if o == 'fptosi' else z3.And(z3.UGE(r, lo), z3.ULE(r, hi))
                self.fork.assume(h)
        return r


Claim.dom = Hint


class Traps(Hint):
    """collects the conditions under which an operation is invalid, divides by zero, overflows or is undefined"""

    def __init__(self, mode, fork, log=()):
        super().__init__(mode, fork, log)
        self.sites = []

    def site(self, what, c, *terms):
        if z3.is_false(z3.simplify(c)):
            return
        # most conditions contradict the enclosures of the operands and the result alone
        h = [self.known[t.get_id()] for t in terms if not isinstance(t, int) and t.get_id() in self.known]
        if h:
            done = self.fork.__dict__.setdefault('done', {})
            key = tuple(sorted([c.get_id()] + [x.get_id() for x in h]))
            if key not in done:
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(*h)
                done[key] = self.fork.timed(s, c), c, h
            if done[key][0] == z3.unsat:
                return
        self.sites.append((what, c))

    def fbin(self, op, k, a, b):
        r = super().fbin(op, k, a, b)
        if self.nest == 0:
            fin = z3.And(z3.Not(bits.isnan(k, a)), z3.Not(bits.isinf(k, a)), z3.Not(bits.isnan(k, b)), z3.Not(bits.isinf(k, b)))
            z = bits.iszero(k, b) if op == 'fdiv' else z3.BoolVal(False)
            if op == 'fdiv':
                self.site('division by zero', z3.And(fin, z), a, b)
            self.site('overflow in ' + op, z3.And(fin, z3.Not(z), bits.isinf(k, r)), r)
            self.site('invalid ' + op, z3.And(z3.Not(bits.isnan(k, a)), z3.Not(bits.isnan(k, b)), bits.isnan(k, r)), r)
        return r

    def fsqrt(self, k, a):
        self.site('square root of a negative number', z3.And(z3.Not(bits.isnan(k, a)), z3.Not(bits.iszero(k, a)), bits.isneg(k, a)), a)
        return super().fsqrt(k, a)

    def cast(self, o, t0, t1, v):
        if o in ('fptosi', 'fptoui') and t0.k in W:
            k = t0.k
            n = t1.a
            if o == 'fptoui':
                ok = z3.And(bits.olt(k, to_b(k, -1.0), v), bits.olt(k, v, to_b(k, 2.0 ** n)))
            elif n < bits.MB[k]:
                ok = z3.And(bits.olt(k, to_b(k, -2.0 ** (n - 1) - 1), v), bits.olt(k, v, to_b(k, 2.0 ** (n - 1))))
            else:
                ok = z3.And(bits.ole(k, to_b(k, -2.0 ** (n - 1)), v), bits.olt(k, v, to_b(k, 2.0 ** (n - 1))))
            self.site('conversion out of range', z3.Not(ok), v)
        return super().cast(o, t0, t1, v)

    def ibin(self, o, w, a, b, fl):
        if fl and 'nsw' in fl and o in ('add', 'sub', 'mul') and w > 1:
            self.site('signed overflow', bits.bo(self.ovf('s' + o, w, a, b)[1]), a, b)
        if o in ('shl', 'lshr', 'ashr') and not isinstance(b, int):
            self.site('shift count', z3.UGE(b, w))
        return super().ibin(o, w, a, b, fl)


def hints(mod, name, k, lo, hi):
    return ival.enclosures(mod, '@' + name, k, lo, hi)


def change(mod, name, sign, k, a, b):
    """a place in [a,b] after which some comparison has another outcome, or None"""
    at = lambda i: ival.outcomes(mod, '@' + name, k, sign * real.unorder(k, i))
    ta = at(a)
    if ta == at(b):
        return None
    while b - a > 1:
        h = (a + b) // 2
        if at(h) == ta:
            a = h
        else:
            b = h
    return a


def decide_pieces(mod, nat, c, lo, hi, rng, maxpieces=20000, depth=70):
    """one-argument claim over positive machine numbers [lo,hi] by pieces, each with operation enclosures"""
    st = bits.Stats()
    enc = set()
    k = c.k
    work = [(real.order(k, lo), real.order(k, hi), 0)]
    n = 0
    while work:
        a, b, dep = work.pop()
        n += 1
        if time.time() > common.T0 + BUDGET:
            return dict(verdict='undecided', claim=c.name, why='no time left', st=st, enc=enc)
        if n > maxpieces:
            return dict(verdict='undecided', claim=c.name, why='more than %d pieces' % maxpieces, st=st, enc=enc)
        t = change(mod, c.early[0], c.early[1], k, a, b) if c.early else None
        if t is not None:
            work += [(a, t, dep + 1), (t + 1, b, dep + 1)]
            continue
        x0, x1 = real.unorder(k, a), real.unorder(k, b)
        x = bits.symbol('x', k)
        fk = bits.Fork(st, 20000 if dep > 2 or a == b else 3000)
        m = bits.parts(k, x)[1]
        fk.base = [bits.parts(k, x)[0] == 0, z3.UGE(m, bv(to_b(k, x0), W[k] - 1)), z3.ULE(m, bv(to_b(k, x1), W[k] - 1)), c.pre(x)]
        if z3.is_false(z3.simplify(fk.base[-1])):
            continue
        cache = {}

        def run(fork):
            def call(name, args, sign=1):
                key = name, sign
                if key not in cache:
                    cache[key] = hints(mod, name, k, x0, x1) if sign > 0 else hints(mod, name, k, -x1, -x0)
                d = c.dom('uf', fork, cache[key])
                call.last = d
                ex = exe.Exec(mod, d)
                try:
                    return bv(ex.call('@' + name, list(args)), W[k])
                finally:
                    enc.update(ex.encoded)
            return c.build(call, [x])
        ok = True
        model = None
        try:
            for goal in goals(fk, run):
                r = fk.check(z3.Not(goal))
                if r == z3.unsat:
                    continue
                fk.s.add(*fk.axioms)
                fk.axioms = []
                r = fk.check(z3.Not(goal))
                if r == z3.unsat:
                    continue
                ok = False
                if r == z3.sat:
                    model = fk.s.model().eval(x, model_completion=True).as_long()
                break
        except exe.ExecError as e:
            ok = False
            if fk.check() == z3.sat:
                model = fk.s.model().eval(x, model_completion=True).as_long()
        if ok:
            continue
        cand = [] if model is None else [model]
        cand += [to_b(k, real.unorder(k, q)) for q in ([a, b] + [rng.randint(a, b) for _ in range(3 if b - a > 4 and dep < depth else 200)])]
        for v in cand:
            if z3.is_true(z3.simplify(c.pre(z3.BitVecVal(v, W[k])))):
                why = c.check(nat, [v])
                if why:
                    return dict(verdict='violated', claim=c.name, x=[v], why=why, st=st, enc=enc)
        if a == b or dep >= depth:
            return dict(verdict='undecided', claim=c.name, why='not decided on [%r, %r]' % (x0, x1), st=st, enc=enc)
        q = (a + b) // 2
        for name, sign in list(cache)[:1]:
            t = change(mod, name, sign, k, a, b)
            q = q if t is None else t
        work.append((a, q, dep + 1))
        work.append((q + 1, b, dep + 1))
    return dict(verdict='held', claim=c.name, st=st, enc=enc, pieces=n)


def exact(mod, nat, c, rng, limit=120):
    """the claim with z3 floating-point arithmetic, in a process with a hard time limit"""
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()

    def work():
        try:
            q.put(decide_claim(mod, nat, c, rng, 'fp', limit * 1000))
        except Exception as e:
            q.put(None)
    p = ctx.Process(target=work)
    p.start()
    try:
        return q.get(timeout=limit)
    except queue.Empty:
        return None
    finally:
        p.terminate()
        p.join()


SPECIAL = ['exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'isqrt', 'approx_isqrt', 'inv', 'approx_inv']


def run_claims(prop, claims, rep, explain, assume=(), src='scalar.cpp', key=None, opt='-O1', nat_src=None, mode='uf'):
    import os, sys
    h = os.path.join(common.HERE, 'harness', src)
    mod = common.emit_ir(prop, h, opt)
    lib = common.native(prop, os.path.join(common.HERE, 'harness', nat_src) if nat_src else h)
    nat = Nat(lib)
    rng = random.Random(common.SEED)
    ops = op_selftest(rng)
    conc = 0
    for n in SPECIAL:
        for p, k in (('d', 'double'), ('f', 'float')):
            conc += validate(mod, lib, '@' + p + '_' + n, k, 1, rng, 30) if ('@' + p + '_' + n) in mod.funcs else 0
    for p, k in (('d', 'double'), ('f', 'float')):
        if '@' + p + '_atan2' in mod.funcs:
            conc += validate(mod, lib, '@' + p + '_atan2', k, 2, rng, 60)

    def one(i):
        return decide_claim(mod, nat, claims[i], random.Random(common.SEED * 1000 + i), mode)

    def late(i):
        return dict(verdict='undecided', claim=claims[i].name, why='not finished in time', st=bits.Stats(), enc=set())
    res = common.pool_map(one, list(range(len(claims))), late)
    # claims the whole-domain query does not settle: pieces of the domain with enclosures of every operation
    todo = [(i, p) for i, r in enumerate(res) if r['verdict'] == 'undecided' and claims[i].pieces for p in claims[i].pieces]

    def two(t):
        i, (lo, hi) = t
        return decide_pieces(mod, nat, claims[i], lo, hi, random.Random(common.SEED * 1000 + i))
    out = common.pool_map(two, todo, lambda t: late(t[0])) if todo else []
    for (i, p), r in zip(todo, out):
        o = res[i]
        r['st'].merge(o['st'])
        r['enc'] |= o['enc']
        r['pieces'] = r.get('pieces', 0) + o.get('pieces', 0)
        if 'done' not in o or o['verdict'] == 'held' or r['verdict'] == 'violated':
            res[i] = r
            r['done'] = 1
        else:
            o.update(st=r['st'], enc=r['enc'], pieces=r['pieces'])
    # or exact floating-point arithmetic instead of uninterpreted magnitudes
    fp = [i for i, r in enumerate(res) if r['verdict'] == 'undecided' and not claims[i].pieces]
    if mode == 'fp' or any(r['verdict'] == 'violated' for r in res):
        fp = []
    for i in fp:
        r = exact(mod, nat, claims[i], random.Random(common.SEED * 1000 + i), min(120, common.left(840)))
        if r is not None:
            r['st'].merge(res[i]['st'])
            r['enc'] |= res[i]['enc']
            r['refined'] = True
            res[i] = r
    st = bits.Stats()
    enc = set()
    held = 0
    for c, r in zip(claims, res):
        st.merge(r['st'])
        enc |= r['enc']
        if r['verdict'] == 'violated':
            rep.violation('%s: %s' % (r['claim'], r['why']), dict(claim=r['claim'], arguments=[hex(v) for v in r['x']], values=[to_f(c.k, v) for v in r['x']]))
        elif r['verdict'] == 'undecided':
            rep.und.append('%s: %s' % (r['claim'], r['why']))
            rep.noanswer = True
        else:
            held += 1
    cov = {} if key else rep.cov
    if key:
        rep.cov[key] = cov
    cov.update(st.dict())
    cov.update(explanation=explain, claims=len(claims), claims_held=held, functions_encoded=sorted(f.lstrip('@') for f in enc),
                   n_functions=len(enc), operation_selftests=ops, concrete_validations=conc,
                   pieces=sum(r.get('pieces', 0) for r in res), refined=[r['claim'] for r in res if r.get('refined')])
    rep.assume += [a for a in assume if a not in rep.assume]


BIT_ASSUME = ['IR of clang 18 at -O1 without fast-math; replays use the g++ build', 'round to nearest; NaN sign and payload are not distinguished',
              'out-of-range conversion to an integer yields a fixed but arbitrary value']
