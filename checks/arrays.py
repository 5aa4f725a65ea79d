"""C13: array functions; C14: preload symbols.   arrays.py C13|C14"""
import os, sys, re, ctypes, random, subprocess, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import z3
import bits, common, bitmain, exe, ir
from bits import W, bv, uf
from exe import Ptr, Obj, MemFault, ExecError

THOROUGH = common.TIER == 'thorough'
N = 24 if THOROUGH else 11
# single lengths beyond the bound: remainders of every power of two, both sides of the widths of narrow counters
LONG = [12, 13, 15, 16, 17, 31, 33, 47, 63, 64, 65, 100, 127, 129, 255, 256, 257, 511, 1000, 1025]
BIG = 66047
SUB = {'double': 8, 'float': 4}


def generate(prop, opts=()):
    d = common.builddir(prop)
    cc = os.path.join(d, 'vdtMath_signatures.cc')
    if os.path.exists(cc):
        os.unlink(cc)
    gen = os.path.join(common.REPO, 'src', 'signatures_generator.py')
    # run a copy so that no byte code or output appears in the repository
    import shutil
    shutil.copy(gen, os.path.join(d, 'signatures_generator.py'))
    common.sh(['python3', '-B', 'signatures_generator.py'] + list(opts) + ['-o', d], cwd=d)
    return cc


def demangle(names):
    p = subprocess.run(['c++filt'] + names, stdout=subprocess.PIPE, check=True)
    return p.stdout.decode().splitlines()


def declared():
    """array functions the headers declare: {name: (kind, number of inputs)}"""
    r = {}
    inc = os.path.join(common.REPO, 'include')
    for f in sorted(os.listdir(inc)):
        if f.endswith('.h'):
            t = open(os.path.join(inc, f)).read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
            for m in re.finditer(r'void\s+(\w+)\s*\(([^)]*)\)\s*;', t):
                a = m.group(2).split(',')
                if len(a) in (3, 4) and 'uint32_t' in a[0] and all('*' in x for x in a[1:]):
                    r[m.group(1)] = ('double' if 'double' in a[1] else 'float', len(a) - 2)
    return r


LIBM = {'asin', 'atan', 'atan2', 'acos', 'cos', 'exp', 'log', 'sin', 'tan', 'tanh'}


class Lib(bits.BitDomain):
    """external functions (C math library) are uninterpreted"""

    def external(self, ex, name, args):
        n = name.lstrip('@')
        if n.startswith('llvm.'):
            p = n.split('.')
            n = p[1] + ('f' if p[-1] == 'f32' else '')
        k = 'float' if n.endswith('f') and n[:-1] in LIBM else 'double' if n in LIBM else None
        if k is None:
            raise ExecError('call of external ' + name)
        return self.scalar(n, k, args)

    def scalar(self, n, k, args):
        w = W[k]
        return uf('fn:' + n, *([w] * (len(args) + 1)))(*[bv(a, w) for a in args])


def wrappers(prop, cc, fns):
    """extern "C" access to the array functions and their scalar counterparts"""
    src = os.path.join(common.builddir(prop), 'wrap.cpp')
    with open(src, 'w') as f:
        f.write('#include <cmath>\n#include "%s"\nusing namespace vdt;\n' % cc)
        for i, (n, (k, na, sc)) in enumerate(sorted(fns.items())):
            ins = ', '.join('const %s* a%d' % (k, j) for j in range(na))
            f.write('extern "C" void A_%s(unsigned n, %s, %s* o){ vdt::%s(n, %s, o); }\n' % (n, ins, k, n, ', '.join('a%d' % j for j in range(na))))
            ps = ', '.join('%s a%d' % (k, j) for j in range(na))
            f.write('extern "C" %s S_%s(%s){ using namespace vdt; return %s(%s); }\n' % (k, n, ps, sc, ', '.join('a%d' % j for j in range(na))))
    return src


REPLAY = r'''
import sys, ctypes, mmap, json
lib = ctypes.CDLL(sys.argv[1]); spec = json.loads(sys.stdin.read())
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
P = 4096
k, na, name = spec['k'], spec['na'], spec['name']
sz = 8 if k == 'double' else 4
T = ctypes.c_double if k == 'double' else ctypes.c_float
U = ctypes.c_uint64 if k == 'double' else ctypes.c_uint32
def area(n, tail):
    "n bytes ending (tail) or starting at an inaccessible page"
    m = (n + P - 1) // P * P or P
    b = libc.mmap(None, m + 2 * P, 3, 0x22, -1, 0)
    libc.mprotect(b, P, 0); libc.mprotect(b + P + m, P, 0)
    return b + P + (m - n if tail else 0)
S = getattr(lib, 'S_' + name); S.restype = T; S.argtypes = [T] * na
A = getattr(lib, 'A_' + name); A.restype = None
A.argtypes = [ctypes.c_uint32] + [ctypes.c_void_p] * (na + 1)
def val(b): return T.from_buffer_copy(U(b)).value
def bits(x): return U.from_buffer_copy(T(x)).value
def nan(b): return (b & ((1 << (8*sz-1)) - 1)) > (0x7ff << 52 if k == 'double' else 0xff << 23)
for case in spec['cases']:
    n, ins = case['n'], case['ins']
    for tail in (1, 0):
        sys.stdout.write('%s\n' % json.dumps(dict(at=dict(n=n, ins=[i[:4] for i in ins]))))
        sys.stdout.flush()
        extra = 8 if n < 1000 else 0
        pa = []
        for v in ins:
            p = area(n * sz, tail)
            for i in range(n):
                U.from_address(p + i * sz).value = v[i]
            pa.append(p)
        po = area(n * sz, tail)
        for i in range(n):
            U.from_address(po + i * sz).value = (0xA5A5A5A5A5A5A5A5 if sz == 8 else 0xA5A5A5A5)
        A(n, *(pa + [po]))
        bad = None
        for i in range(n):
            got = U.from_address(po + i * sz).value
            want = bits(S(*[val(v[i]) for v in ins]))
            if got != want and not (nan(got) and nan(want)):
                bad = 'length %d: element %d is 0x%x, the scalar function gives 0x%x' % (n, i, got, want); break
            for p, v in zip(pa, ins):
                if U.from_address(p + i * sz).value != v[i]:
                    bad = 'length %d: input element %d was changed' % (n, i)
        # room behind the arrays must stay untouched
        if not bad and extra:
            po2 = area((n + extra) * sz, 1)
            pb = []
            for v in ins:
                p = area((n + extra) * sz, 1)
                for i in range(n + extra):
                    U.from_address(p + i * sz).value = v[i] if i < n else 0
                pb.append(p)
            A(n, *(pb + [po2]))
            for i in range(n, n + extra):
                if U.from_address(po2 + i * sz).value:
                    bad = 'length %d: element %d behind the end was written' % (n, i)
        if bad:
            sys.stdout.write(json.dumps(dict(bad=bad)) + '\n'); sys.exit(0)
sys.stdout.write(json.dumps(dict(ok=1)) + '\n')
'''


def replay(prop, so, name, k, na, cases, timeout=60):
    spec = dict(name=name, k=k, na=na, cases=cases)
    try:
        p = subprocess.run([sys.executable, '-c', REPLAY, so], input=json.dumps(spec).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return 'does not return within %d s; last call %s' % (timeout, (e.stdout or b'').decode().splitlines()[-1:])
    ls = [json.loads(x) for x in p.stdout.decode().splitlines()]
    if ls and 'bad' in ls[-1]:
        return ls[-1]['bad']
    if ls and 'ok' in ls[-1]:
        return None
    if p.returncode < 0:
        return 'the call is killed by signal %d (access outside the arrays); %s' % (-p.returncode, json.dumps(ls[-1]) if ls else '')
    raise RuntimeError('replay failed: ' + p.stderr.decode()[-500:])


def execute(mod, stubs, sym, k, na, fork, size, n, sc, st, deep=None, mode='uf'):
    """runs the array function; returns (goal, problem)"""
    d = Lib(mode, fork)
    d.fork = fork
    ex = exe.Exec(mod, d, stubs(d), max_steps=400000 + 400 * n)
    sz = SUB[k]
    ty = TY[k]
    w = W[k]

    def arr(nm, ro):
        p = ex.new(nm, n * sz)
        vals = []
        for i in range(n):
            v = bits.symbol('%s%d' % (nm, i), k)
            ex.store(Ptr(p.o, i * sz), ty, v)
            vals.append(v)
        p.o.ro = ro

        def watch(off, cnt, wr):
            # an access to element i needs i < size on this path
            hi = (off + cnt - 1) // sz
            if isinstance(size, int):
                if hi >= size:
                    raise MemFault('access to element %d of %s, length %d' % (hi, nm, size))
            elif fork.check(z3.ULE(size, hi)) != z3.unsat:
                raise MemFault('access to element %d of %s, possibly at or beyond the length' % (hi, nm))
        p.o.watch = watch
        return p, vals
    ins = [arr('in%d_' % j, True) for j in range(na)]
    out, old = arr('out_', False)
    try:
        ex.call(sym, [size] + [p for p, _ in ins] + [out])
    except MemFault as e:
        return None, str(e), ex.encoded
    out.o.watch = None
    eqs = []
    got = []
    for i in range(n):
        v = bv(ex.load(Ptr(out.o, i * sz), ty), w)
        if deep:
            ex2 = exe.Exec(mod, d, max_steps=400000)
            want = bv(ex2.call(deep, [vals[i] for _, vals in ins]), w)
            same = bits.same(k, v, want)
        else:
            want = d.scalar(sc, k, [vals[i] for _, vals in ins])
            same = v == want
        if isinstance(size, int):
            eqs.append(same if i < size else v == old[i])
        else:
            eqs.append(z3.If(z3.UGT(size, i), same, v == old[i]))
    return z3.And(*eqs), None, ex.encoded


TY = {'double': ir.F64, 'float': ir.F32}


def arrays(rep):
    prop = 'C13'
    cc = generate(prop)
    mod = common.emit_ir(prop, cc, '-O1', ['-fno-inline'])
    dem = dict(zip(mod.funcs, demangle([n[1:] for n in mod.funcs])))
    decl = declared()
    fns = {}
    sym = {}
    for mname, dn in dem.items():
        m = re.match(r'vdt::(\w+)\(unsigned int, (double|float) const\*,( \2 const\*,)? \2\*\)$', dn)
        if m:
            n, k = m.group(1), m.group(2)
            base = n[:-1] if k == 'double' else n[:-2] + 'f'
            fns[n] = (k, 2 if m.group(3) else 1, base)
            sym[n] = mname
    missing = [n for n in decl if n not in fns]
    for n in missing:
        rep.violation('%s is declared but not defined by the generated source' % n, dict(function=n))
    for n in fns:
        if n in decl and decl[n] != fns[n][:2]:
            rep.violation('%s is defined with another signature than declared' % n, dict(function=n))
    if len(fns) < 40 and not missing:
        raise RuntimeError('only %d array functions found' % len(fns))
    wsrc = wrappers(prop, cc, fns)
    so = os.path.join(common.builddir(prop), 'wrap.so')
    common.sh(['g++'] + common.NATIVE + ['-shared', '-fPIC'] + common.INC + [wsrc, '-o', so])
    scal = {}
    for mname, dn in dem.items():
        m = re.match(r'vdt::(\w+)\((double|float)(, \2)?\)$', dn)
        if m:
            scal[mname] = (m.group(1), m.group(2))
    names = {f[2] for f in fns.values()}

    def stubs(d):
        return {mn: (lambda ex, a, n=n, k=k: d.scalar(n, k, a)) for mn, (n, k) in scal.items() if n in names}
    rng = random.Random(common.SEED)
    todo = sorted(fns)
    kinds = {}
    for n in todo:
        kinds.setdefault((fns[n][:2], n.startswith('fast_')), []).append(n)
    big = set(todo) if THOROUGH else {rng.choice(v) for v in kinds.values()}

    def one(n):
        k, na, sc = fns[n]
        st = bits.Stats()
        enc = set()
        bad = und = None
        sizes = []
        fk = bits.Fork(st, 60000)
        size = z3.BitVec('size', 32)
        fk.base = [z3.ULE(size, N)]

        def contents(model, cnt, full=0):
            ins = []
            for j in range(na):
                v = []
                for i in range(max(cnt, full)):
                    x = None
                    if model is not None and i < 40:
                        x = model.eval(bits.symbol('in%d_%d' % (j, i), k), model_completion=True).as_long()
                    v.append(x if x is not None else bitmain.anybits(k, rng2))
                ins.append(v)
            return ins
        rng2 = random.Random(common.SEED + 17)

        def confirm(model, cnt):
            cases = [dict(n=cnt, ins=contents(model, cnt))]
            cases += [dict(n=c, ins=contents(None, c)) for c in [cnt] * 20 + list(range(0, N + 1))]
            return replay(prop, so, n, k, na, cases)
        try:
            for goal, fault, e in fk.paths(lambda f: execute(mod, stubs, sym[n], k, na, f, size, N, sc, st)):
                enc |= e
                if fault is None:
                    r = fk.check(z3.Not(goal))
                    if r == z3.unsat:
                        continue
                    fk.s.add(*fk.axioms)
                    r = fk.check(z3.Not(goal))
                    if r == z3.unsat:
                        continue
                    if r != z3.sat:
                        und = 'no answer'
                        continue
                    fk.s.add(z3.Not(goal))
                if fk.check() != z3.sat:
                    und = 'no model'
                    continue
                m = fk.s.model()
                cnt = m.eval(size, model_completion=True).as_long()
                why = confirm(m, cnt)
                if why:
                    bad = '%s: %s' % (n, why)
                    break
                und = '%s: %s' % (n, fault or 'solver model not reproduced')
        except ExecError as e:
            und = '%s: %s' % (n, e)
            if 'step limit' in str(e) or 'paths' in str(e):
                why = confirm(None, N)
                if why:
                    bad = '%s: %s' % (n, why)
        for cnt in LONG + ([BIG] if n in big else []):
            # concrete length, symbolic contents
            if bad or und:
                break
            fk2 = bits.Fork(st, 60000)
            fk2.start([])
            try:
                goal, fault, e = execute(mod, stubs, sym[n], k, na, fk2, cnt, cnt, sc, st)
                ok = fault is None and fk2.check(z3.Not(goal)) == z3.unsat
            except ExecError as e:
                ok = False
            if not ok:
                why = replay(prop, so, n, k, na, [dict(n=cnt, ins=contents(None, cnt))])
                if why:
                    bad = '%s: %s' % (n, why)
                else:
                    und = '%s: length %d not decided' % (n, cnt)
        return dict(name=n, bad=bad, und=und, st=st, enc=enc)
    res = common.pool_map(one, todo, lambda n: dict(name=n, bad=None, und=n + ': length not decided in time', st=bits.Stats(), enc=set()))
    # not settled against an opaque scalar function: compare with the scalar function itself
    again = [r for r in res if r['und'] and not r['bad'] and 'not decided' not in r['und']]
    if again:
        mod2 = common.emit_ir(prop, wsrc, '-O1')

        def deep(r):
            n = r['name']
            k, na, sc = fns[n]
            st = bits.Stats()
            fk = bits.Fork(st, 60000)
            size = z3.BitVec('size', 32)
            fk.base = [z3.ULE(size, 3)]
            try:
                for goal, fault, e in fk.paths(lambda f: execute(mod2, lambda d: {}, sym[n], k, na, f, size, 3, sc, st, deep='@S_' + n)):
                    if fault is not None:
                        return r
                    if fk.check(z3.Not(goal)) != z3.unsat:
                        fk.s.add(*fk.axioms)
                        if fk.check(z3.Not(goal)) != z3.unsat:
                            return r
            except ExecError as e:
                return r
            st.merge(r['st'])
            return dict(r, und=None, st=st, deep=True)
        new = {r['name']: r for r in common.pool_map(deep, again, lambda r: r)}
        res = [new.get(r['name'], r) for r in res]
    st = bits.Stats()
    enc = set()
    for r in res:
        st.merge(r['st'])
        enc |= r['enc']
        if r['bad']:
            rep.violation(r['bad'], dict(function=r['name'], detail=r['bad']))
        elif r['und']:
            rep.und.append(r['und'])
            rep.noanswer = True
    rep.cov.update(st.dict())
    rep.cov.update(explanation='every array function is executed with arbitrary contents and an arbitrary length up to the bound; the scalar functions are '
                   'uninterpreted; per path one query asks whether an output element differs from the scalar function of the corresponding input, whether an element at or '
                   'beyond the length changes; every memory access is checked against the length by a query',
                   array_functions=len(fns), max_length=N, single_lengths=LONG, long_length=BIG, long_length_functions=sorted(big), functions_encoded=sorted(dem.get(e, e) for e in enc),
                   compared_with_scalar_body=[r['name'] for r in res if r.get('deep')])
    rep.assume = ['source generated by the repository generator in this run', 'every length up to %d, beyond that the single lengths %s, and %d for the functions listed' % (N, ', '.join(map(str, LONG)), BIG),
                  'IR of clang 18 at -O1 -fno-inline; replays use the g++ build']


def preload(rep):
    prop = 'C14'
    cc = generate(prop, ['-p'])
    mod = common.emit_ir(prop, cc, '-O1', ['-fno-inline'])
    dem = dict(zip(mod.funcs, demangle([n[1:] for n in mod.funcs])))
    base = common.builddir(prop)
    # names the preload library replaces: libm-named scalar functions with a fast counterpart, from the generator itself
    sys.dont_write_bytecode = True
    import importlib.util
    sp = importlib.util.spec_from_file_location('siggen', os.path.join(base, 'signatures_generator.py'))
    g = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(g)
    want = set(getattr(g, 'LIBM_FUNCTIONS_LIST', ())) | LIBM
    so = os.path.join(base, 'preload.so')
    common.sh(['g++'] + common.NATIVE + ['-shared', '-fPIC', '-fno-builtin', '-Wl,-Bsymbolic'] + common.INC + [cc, '-o', so])
    scalh = os.path.join(common.HERE, 'harness', 'scalar.cpp')
    ref = common.native(prop, scalh)
    pre = ctypes.CDLL(so)
    scal = {}
    for mname, dn in dem.items():
        m = re.match(r'vdt::fast_(\w+)\((double|float)(, \2)?\)$', dn)
        if m:
            scal[mname] = ('fast_' + m.group(1), m.group(2))
    targets = []
    for n in sorted(want):
        for k, suf in (('double', ''), ('float', 'f')):
            targets.append((n, k, n + suf, '@' + n + suf))
            mg = [m for m, dn in dem.items() if dn == '%s(%s)' % (n, ', '.join(['float'] * (2 if n == 'atan2' else 1)))]
            if k == 'float' and mg:
                targets.append((n, k, None, mg[0]))
    st = bits.Stats()
    enc = set()
    rng = random.Random(common.SEED)
    for n, k, cname, sym in targets:
        if sym not in mod.funcs:
            rep.violation('%s is not defined by the preload source' % sym[1:], dict(symbol=sym))
            continue
        na = 2 if n == 'atan2' else 1
        suf = 'f' if k == 'float' else ''
        fast = 'fast_' + n + suf
        f = mod.funcs[sym]
        xs = [bits.symbol('x%d' % i, k) for i in range(na)]

        def run(fork, deep=False):
            d = Lib('uf', fork)
            if deep:
                st_ = {}
            else:
                st_ = {mn: (lambda ex, a, nn=nn, kk=kk: d.scalar(nn, kk, a)) for mn, (nn, kk) in scal.items()}
            ex = exe.Exec(mod, d, st_)
            r = bv(ex.call(sym, list(xs)), W[k])
            enc.update(ex.encoded)
            if deep:
                fs = [m for m, (nn, kk) in scal.items() if nn == fast]
                return bits.same(k, r, bv(exe.Exec(mod, d).call(fs[0], list(xs)), W[k]))
            return r == d.scalar(fast, k, xs)
        held = True
        model = None
        for deep in (False, True):
            held = True
            fk = bits.Fork(st, 60000)
            try:
                for goal in fk.paths(lambda f: run(f, deep)):
                    if fk.check(z3.Not(goal)) != z3.unsat:
                        fk.s.add(*fk.axioms)
                        if fk.check(z3.Not(goal)) != z3.unsat:
                            held = False
                            if fk.check(z3.Not(goal)) == z3.sat:
                                m = fk.s.model()
                                model = [m.eval(x, model_completion=True).as_long() for x in xs]
                            break
            except (ExecError, IndexError, z3.Z3Exception) as e:
                held = False
            if held:
                break
            # replay
            fname = cname or sym[1:]
            why = None
            nat, rf = bitmain.Nat(pre), bitmain.Nat(ref)
            cand = ([model] if model else []) + [[bitmain.anybits(k, rng) for _ in xs] for _ in range(3000)]
            for v in cand:
                a, b = nat(fname, k, v), rf(('f_' if k == 'float' else 'd_') + n, k, v)
                if not bitmain.sameb(k, a, b):
                    why = '%s(%s) = 0x%x, the fast function gives 0x%x' % (fname, ', '.join(repr(bits.to_f(k, x)) for x in v), a, b)
                    break
            if why:
                rep.violation(why, dict(symbol=fname, arguments=[hex(x) for x in v]))
                break
        if not held and not why:
            rep.und.append('%s not decided' % sym)
            rep.noanswer = True
    rep.cov.update(st.dict())
    rep.cov.update(explanation='the preload source is generated in this run; each replaced symbol is executed on arbitrary argument bits with the fast functions uninterpreted, '
                   'and one query asks whether its result can differ from the fast function of that name, precision and argument order',
                   symbols=len(targets), functions_encoded=sorted(dem.get(e, e) for e in enc))
    rep.assume = ['a symbol defined twice does not compile, which is an error of the build', 'IR of clang 18 at -O1 -fno-inline']


if __name__ == '__main__':
    p = sys.argv[1]
    common.main(p, 'other', arrays if p == 'C13' else preload)
