"""Building, replaying, evidence."""
import os, sys, json, time, subprocess, ctypes, struct, tempfile, shutil, traceback, multiprocessing

T0 = time.time()

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VDT_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
INC = ['-I' + REPO + '/include', '-I' + REPO + '/include/diagnostic']
NATIVE = ['-O3', '-std=c++11', '-msse', '-W', '-Wall', '-Wno-unused-parameter']
CLANG = ['-std=c++11', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-fno-discard-value-names']


class CheckError(Exception):
    """the check could not be carried out"""


def builddir(prop):
    d = os.path.join(HERE, 'build', prop)
    os.makedirs(d, exist_ok=True)
    return d


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
    return p.stdout.decode(errors='replace')


def emit_ir(prop, src, opt='-O1', extra=(), out=None):
    import ir
    d = builddir(prop)
    o = os.path.join(d, (out or os.path.basename(src)) + opt + '.ll')
    sh(['clang++', opt] + CLANG + INC + list(extra) + ['-S', '-emit-llvm', src, '-o', o])
    return ir.parse_file(o)


def native(prop, srcs, extra=(), out=None):
    d = builddir(prop)
    if isinstance(srcs, str):
        srcs = [srcs]
    o = os.path.join(d, (out or os.path.basename(srcs[0])) + '.so')
    if os.path.exists(o):
        os.unlink(o)
    sh(['g++'] + NATIVE + ['-shared', '-fPIC'] + INC + list(extra) + list(srcs) + ['-o', o, '-lrt'])
    return ctypes.CDLL(o)


def cfun(lib, name, kind, nargs=1):
    f = getattr(lib, name)
    t = ctypes.c_double if kind == 'double' else ctypes.c_float
    f.restype = t
    f.argtypes = [t] * nargs
    return f


def hexd(kind, x):
    if kind == 'double':
        return '0x%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]
    return '0x%08x' % struct.unpack('<I', struct.pack('<f', x))[0]


class Report:
    """collects evidence, prints the verdict, exits"""

    def __init__(self, prop, level='other'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.assume = []
        self.viol = []
        self.known = []
        self.und = []
        self.noanswer = False

    def violation(self, what, replay):
        """replay: dict written to a file"""
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.viol) + 1))
        replay = dict(replay)
        replay.update(property=self.prop, what=what)
        with open(p, 'w') as f:
            json.dump(replay, f, indent=1, default=str)
        self.viol.append((what, p))

    def finish(self):
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for u in self.und[:20]:
            print('UNDECIDED property=%s %s' % (self.prop, u))
        self.cov['undecided'] = len(self.und)
        if self.und:
            self.cov['undecided_samples'] = [str(u) for u in self.und[:5]]
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assume, 'violations': len(self.viol),
              'wall_s': round(time.time() - self.t0, 3)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        for what, p in self.viol:
            print('%s' % what)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        if not self.viol and self.noanswer:
            print('ERROR property=%s too much of the domain was left undecided' % self.prop)
            sys.stdout.flush()
            sys.exit(3)
        if not self.viol:
            print('%s: held; %s' % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))})))
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)


def main(prop, level, body):
    r = Report(prop, level)
    try:
        body(r)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the check could not be carried out' % prop)
        sys.exit(3)
    r.finish()


def left(total=800):
    """seconds until a check has to come to an end"""
    return max(5, total - (time.time() - T0))


def pool_map(f, items, late, stop=lambda r: False):
    """order-preserving parallel map in forked workers; late(item) stands for a result that did not come in time"""
    out = pool_until(f, items, stop, left())
    return [out[i] if i in out else late(x) for i, x in enumerate(items)]


def _call_at(i):
    return i, _F[0](_F[1][i])


def pool_until(f, items, stop, limit):
    """results of f by index, in forked workers, until one satisfies stop or the time is over -> dict"""
    global _F
    _F = f, items
    out = {}
    end = time.time() + limit
    p = multiprocessing.get_context('fork').Pool(max(1, min(JOBS, len(items))))
    try:
        it = p.imap_unordered(_call_at, range(len(items)))
        while len(out) < len(items):
            try:
                i, r = it.next(max(0.1, end - time.time()))
            except multiprocessing.TimeoutError:
                break
            out[i] = r
            if stop(r):
                break
    finally:
        p.terminate()
        p.join()
    return out
