"""Executor for the IR of ir.py, generic over a value domain.

Concrete integers are Python ints (unsigned representation); pointers are Ptr objects;
everything else (floating-point values, symbolic integers) belongs to the domain."""
import time
import ir

M = {n: (1 << n) - 1 for n in range(1, 129)}


class ExecError(Exception):
    """the code does something this executor does not model"""


class MemFault(Exception):
    """out-of-bounds / invalid access by the code under check"""


class Unreachable(Exception):
    pass


class CppThrow(Exception):
    pass


class Obj:
    __slots__ = ('name', 'size', 'b', 'ro', 'freed', 'watch', 'lazy')

    def __init__(self, name, size, ro=False):
        self.name, self.size, self.ro = name, size, ro
        self.b = {}
        self.freed = False
        self.watch = None
        self.lazy = None

    def __repr__(self):
        return '<%s:%d>' % (self.name, self.size)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.o, self.off)

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o is x.o and self.off == x.off

    def __hash__(self):
        return hash((id(self.o), self.off))


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name

    def __eq__(self, x):
        return isinstance(x, FnPtr) and x.name == self.name

    def __hash__(self):
        return hash(self.name)


NULL = Ptr(None, 0)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def is_ptr(v):
    return isinstance(v, (Ptr, FnPtr))


class Exec:
    def __init__(self, mod, dom, stubs=None, max_steps=2000000):
        self.m, self.d = mod, dom
        self.stubs = dict(BUILTIN)
        if stubs:
            self.stubs.update(stubs)
        self.g = {}
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = float('inf')
        self.encoded = set()
        self.frames = []
        self.allow_uninit = False
        dom.ex = self

    # ------------------------------------------------------------ memory
    def new(self, name, size, ro=False):
        return Ptr(Obj(name, size, ro), 0)

    def glob(self, name):
        if name in self.g:
            return self.g[name]
        if name in self.m.aliases:
            p = self.const(ir.PTR, self.m.aliases[name])
            self.g[name] = p
            return p
        if name in self.m.funcs or name in self.m.decls:
            p = FnPtr(name)
            self.g[name] = p
            return p
        if name not in self.m.globals:
            raise ExecError('global ' + name)
        t, init, ro = self.m.globals[name]
        try:
            sz = ir.size_of(t)
        except ir.IRError:
            sz = 4096
        o = Obj(name, sz)
        p = Ptr(o, 0)
        self.g[name] = p
        if init is not None:
            self.put(p, t, init)
        o.ro = ro
        return p

    def put(self, p, t, init):
        if init[0] == 'zero':
            for i in range(ir.size_of(t)):
                p.o.b[p.off + i] = (0, 0, 1)
        elif init[0] == 'str':
            for i, c in enumerate(init[1]):
                p.o.b[p.off + i] = (c, 0, 1)
        elif init[0] == 'agg':
            for i, (e, v) in enumerate(init[1]):
                off, _ = ir.field_off(t, i)
                self.put(Ptr(p.o, p.off + off), e, v)
        elif init[0] == 'undef':
            pass
        else:
            self.store(p, t, self.const(t, init))

    def check(self, p, n, wr):
        if not isinstance(p, Ptr):
            raise ExecError('access through %r' % (p,))
        if p.o is None:
            raise MemFault('null dereference')
        if not isinstance(p.off, int):
            raise ExecError('symbolic offset')
        if p.off < 0 or p.off + n > p.o.size or p.o.freed:
            raise MemFault('%s of %d bytes at %s+%d (size %d%s)' % ('write' if wr else 'read', n, p.o.name, p.off, p.o.size, ', freed' if p.o.freed else ''))
        if wr and p.o.ro:
            raise MemFault('write to read-only %s' % p.o.name)
        if p.o.watch is not None:
            p.o.watch(p.off, n, wr)

    def store(self, p, t, v):
        if t.k in ('struct', 'array', 'vector'):
            if v is UNDEF:
                return
            for i, e in enumerate(v):
                off, et = ir.field_off(t, i)
                self.store(Ptr(p.o, p.off + off), et, e)
            return
        n = ir.size_of(t) if t.k != 'x86_fp80' else 10
        self.check(p, n, True)
        b, off = p.o.b, p.off
        if v is UNDEF:
            for i in range(n):
                b.pop(off + i, None)
            return
        if isinstance(v, int):
            for i in range(n):
                b[off + i] = (v >> 8 * i & 255, 0, 1)
        else:
            for i in range(n):
                b[off + i] = (v, i, n, t)

    def load(self, p, t):
        if t.k in ('struct', 'array', 'vector'):
            n = len(t.a) if t.k == 'struct' else t.a
            r = []
            for i in range(n):
                off, et = ir.field_off(t, i)
                r.append(self.load(Ptr(p.o, p.off + off), et))
            return r
        n = ir.size_of(t) if t.k != 'x86_fp80' else 10
        self.check(p, n, False)
        b, off = p.o.b, p.off
        if p.o.lazy is not None:
            p.o.lazy(p.o, off, n)
        e0 = b.get(off)
        if e0 is None:
            if self.allow_uninit:
                return UNDEF
            raise MemFault('read of uninitialised %s+%d' % (p.o.name, off))
        if len(e0) == 4 and e0[1] == 0 and e0[2] == n:
            v = e0[0]
            ok = True
            for i in range(1, n):
                e = b.get(off + i)
                if e is None or e[0] is not v or e[1] != i:
                    ok = False
                    break
            if ok:
                return self.retype(v, e0[3], t)
        es = [b.get(off + i) for i in range(n)]
        if any(e is None for e in es):
            if self.allow_uninit:
                return UNDEF
            raise MemFault('read of partly uninitialised %s+%d' % (p.o.name, off))
        if all(len(e) == 3 for e in es):
            v = 0
            for i, e in enumerate(es):
                v |= e[0] << 8 * i
            if t.k == 'ptr':
                return NULL if v == 0 else self.inttoptr(v)
            if t.k in ('double', 'float', 'x86_fp80'):
                return self.d.fconst(t.k, v)
            if t.k == 'int':
                return v & M[t.a]
            return v
        if any(is_ptr(e[0]) for e in es):
            raise ExecError('partial pointer load')
        # mixture: let the domain concatenate bytes
        bs = []
        for e in es:
            if len(e) == 3:
                bs.append(e[0])
            else:
                bs.append(self.d.byte(e[0], e[1], e[3]))
        v = self.d.concat(bs)
        return self.retype(v, ir.ity(8 * n), t)

    def retype(self, v, t0, t1):
        if t0.k == t1.k and (t0.k != 'int' or t0.a == t1.a):
            return v
        if isinstance(v, Ptr) and v.o is None and t1.k == 'int':
            return v.off & M[t1.a]
        if isinstance(v, (Ptr, FnPtr)):
            return v
        if t1.k == 'ptr' or t0.k == 'ptr':
            if isinstance(v, int):
                return self.inttoptr(v)
            raise ExecError('reinterpret %r as %r' % (t0, t1))
        return self.d.bitcast(t0, t1, v)

    def inttoptr(self, v):
        if isinstance(v, (Ptr, FnPtr)):
            return v
        if v == 0:
            return NULL
        return Ptr(None, v)

    def copy(self, dst, src, n):
        if n == 0:
            return
        self.check(dst, n, True)
        self.check(src, n, False)
        if src.o.lazy is not None:
            src.o.lazy(src.o, src.off, n)
        tmp = [src.o.b.get(src.off + i) for i in range(n)]
        for i, e in enumerate(tmp):
            if e is None:
                dst.o.b.pop(dst.off + i, None)
            else:
                dst.o.b[dst.off + i] = e

    def cstr(self, p):
        r = bytearray()
        while True:
            c = self.load(Ptr(p.o, p.off + len(r)), ir.ity(8))
            if not isinstance(c, int):
                raise ExecError('symbolic C string')
            if c == 0:
                return bytes(r)
            r.append(c)

    def write_bytes(self, p, bs):
        for i, c in enumerate(bs):
            self.store(Ptr(p.o, p.off + i), ir.ity(8), c)

    # --------------------------------------------------------- operands
    def const(self, t, v):
        k = v[0]
        if k == 'c':
            return v[1] & M[t.a]
        if k == 'f':
            return self.d.fconst(t.k, v[1])
        if k == 'g':
            return self.glob(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if t.k == 'int':
                return 0
            if t.k == 'ptr':
                return NULL
            if t.k in ('double', 'float', 'x86_fp80'):
                return self.d.fconst(t.k, 0)
            n = len(t.a) if t.k == 'struct' else t.a
            return [self.const(ir.field_off(t, i)[1], ('zero',)) for i in range(n)]
        if k == 'agg':
            return [self.const(e, x) for e, x in v[1]]
        if k == 'str':
            return list(v[1])
        if k == 'gep':
            base = self.const(v[2][0][0], v[2][0][1])
            return self.gep(v[1], base, [(tt, self.const(tt, x)) for tt, x in v[2][1:]])
        if k == 'cast':
            x = self.const(v[2], v[3])
            if v[1] in ('inttoptr',):
                return self.inttoptr(x)
            return x
        if k == 'cbin':
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return (a.off - b.off) & M[v[2].a]
            return ((a + b) if v[1] == 'add' else (a - b)) & M[v[2].a]
        raise ExecError('constant %r' % (v,))

    def gep(self, st, base, idx):
        if isinstance(base, FnPtr):
            if all(i == 0 for _, i in idx):
                return base
            raise ExecError('gep on function')
        off = 0
        t = st
        for j, (ty_, v) in enumerate(idx):
            if isinstance(v, int):
                w = ty_.a if ty_.k == 'int' else 64
                v = sgn(v, w)
            if j == 0:
                if not isinstance(v, int):
                    v = self.d.concretize(v, ty_)
                    v = sgn(v, ty_.a)
                off += v * ir.size_of(t)
            else:
                if not isinstance(v, int):
                    v = sgn(self.d.concretize(v, ty_), ty_.a)
                if t.k in ('array', 'vector'):
                    off += v * ir.size_of(t.b)
                    t = t.b
                else:
                    o, t = ir.field_off(t, v)
                    off += o
        if not isinstance(base, Ptr):
            raise ExecError('gep on %r' % (base,))
        return Ptr(base.o, base.off + off)

    def op(self, fr, t, v):
        if v[0] == 'l':
            try:
                return fr[v[1]]
            except KeyError:
                raise ExecError('undefined local ' + v[1])
        if v[0] == 'c' and t.k == 'int':
            return v[1] & M[t.a]
        return self.const(t, v)

    # -------------------------------------------------------------- run
    def call(self, name, args):
        if name in self.stubs:
            return self.stubs[name](self, args)
        f = self.m.funcs.get(name)
        if f is None:
            if name in self.m.aliases:
                p = self.glob(name)
                return self.call(p.name, args)
            for pre, fn in PREFIX:
                if name.startswith(pre):
                    return fn(self, name, args)
            h = getattr(self.d, 'external', None)
            if h is not None:
                return h(self, name, args)
            raise ExecError('call of external ' + name)
        return self.run(f, args)

    def run(self, f, args):
        self.encoded.add(f.name)
        if len(self.frames) > 200:
            raise ExecError('recursion')
        fr = {}
        for (t, n), a in zip(f.params, args):
            fr[n] = a
        self.frames.append(f.name)
        try:
            return self.body(f, fr)
        finally:
            self.frames.pop()

    def body(self, f, fr):
        blk, prev = f.entry, None
        d = self.d
        while True:
            ins = f.blocks[blk]
            i = 0
            # phis in parallel
            if ins and ins[0].op == 'phi':
                new = []
                while ins[i].op == 'phi':
                    p = ins[i]
                    for v, lab in p.a:
                        if lab == prev:
                            new.append((p.dst, self.op(fr, p.ty, v)))
                            break
                    else:
                        raise ExecError('phi without edge')
                    i += 1
                for k, v in new:
                    fr[k] = v
            nxt = None
            while i < len(ins):
                I = ins[i]
                i += 1
                self.steps += 1
                if self.steps > self.max_steps:
                    raise ExecError('step limit')
                if not self.steps & 1023 and time.time() > self.deadline:
                    raise ExecError('time limit')
                o = I.op
                if o == 'ret':
                    return self.op(fr, I.ty, I.a[0]) if I.a else None
                if o == 'br':
                    nxt = I.a[0]
                    break
                if o == 'condbr':
                    c = self.op(fr, ir.ity(1), I.a[0])
                    if c is UNDEF:
                        raise ExecError('branch on undef')
                    if not isinstance(c, int):
                        c = d.decide(c)
                    nxt = I.a[1] if c else I.a[2]
                    break
                if o == 'switch':
                    c = self.op(fr, I.ty, I.a[0])
                    if c is UNDEF:
                        raise ExecError('switch on undef')
                    if not isinstance(c, int):
                        for v, lab in I.a[2]:
                            if d.decide(d.icmp('eq', I.ty.a, c, v & M[I.ty.a])):
                                nxt = lab
                                break
                        else:
                            nxt = I.a[1]
                    else:
                        nxt = I.a[1]
                        for v, lab in I.a[2]:
                            if (v & M[I.ty.a]) == c:
                                nxt = lab
                                break
                    break
                if o == 'unreachable':
                    raise Unreachable(f.name)
                if o == 'invoke':
                    try:
                        r = self.do_call(fr, I)
                    except CppThrow:
                        raise ExecError('exception reaches a handler')
                    if I.dst:
                        fr[I.dst] = r
                    nxt = I.x[0]
                    break
                if o == 'resume':
                    raise ExecError('resume')
                fr_v = self.step(fr, I)
                if I.dst:
                    fr[I.dst] = fr_v
            if nxt is None:
                raise ExecError('fell off block')
            prev, blk = blk, nxt

    def do_call(self, fr, I):
        callee = I.a[0]
        args = []
        for t, v in I.a[1:]:
            args.append(None if t.k == 'metadata' else self.op(fr, t, v))
        if callee[0] == 'g':
            return self.call(callee[1], args)
        p = self.op(fr, ir.PTR, callee)
        if not isinstance(p, FnPtr):
            raise ExecError('indirect call through %r' % (p,))
        return self.call(p.name, args)

    def step(self, fr, I):
        o, d = I.op, self.d
        if o in IBIN:
            a, b = self.op(fr, I.ty, I.a[0]), self.op(fr, I.ty, I.a[1])
            if I.ty.k == 'vector':
                return [self.ibin(o, I.ty.b.a, x, y, I.x) for x, y in zip(a, b)]
            return self.ibin(o, I.ty.a, a, b, I.x)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.op(fr, I.ty, I.a[0]), self.op(fr, I.ty, I.a[1])
            if I.x and I.x & ir.Parser.FAST:
                raise ExecError('fast-math flags')
            if I.ty.k == 'vector':
                return [d.fbin(o, I.ty.b.k, x, y) for x, y in zip(a, b)]
            return d.fbin(o, I.ty.k, a, b)
        if o == 'fneg':
            a = self.op(fr, I.ty, I.a[0])
            if I.ty.k == 'vector':
                return [d.fneg(I.ty.b.k, x) for x in a]
            return d.fneg(I.ty.k, a)
        if o == 'fcmp':
            a, b = self.op(fr, I.ty, I.a[0]), self.op(fr, I.ty, I.a[1])
            if I.x == 'true':
                return 1
            if I.x == 'false':
                return 0
            return d.fcmp(I.x, I.ty.k, a, b)
        if o == 'icmp':
            a, b = self.op(fr, I.ty, I.a[0]), self.op(fr, I.ty, I.a[1])
            return self.icmp(I.x, I.ty, a, b)
        if o == 'select':
            c = self.op(fr, ir.ity(1), I.a[0])
            if isinstance(c, int):
                return self.op(fr, I.ty, I.a[1] if c else I.a[2])
            if c is UNDEF:
                raise ExecError('select on undef')
            a, b = self.op(fr, I.ty, I.a[1]), self.op(fr, I.ty, I.a[2])
            if a is b:
                return a
            if is_ptr(a) or is_ptr(b) or isinstance(a, list):
                return a if d.decide(c) else b
            return d.select(c, I.ty, a, b)
        if o in ('call',):
            return self.do_call(fr, I)
        if o == 'load':
            return self.load(self.op(fr, ir.PTR, I.a[0]), I.ty)
        if o == 'store':
            self.store(self.op(fr, ir.PTR, I.a[1]), I.ty, self.op(fr, I.ty, I.a[0]))
            return None
        if o == 'alloca':
            n = self.op(fr, ir.ity(64), I.a[0])
            return self.new('%s:%s' % (self.frames[-1], I.dst), ir.size_of(I.ty) * n)
        if o == 'getelementptr':
            base = self.op(fr, ir.PTR, I.a[0][1])
            return self.gep(I.ty, base, [(t, self.op(fr, t, v)) for t, v in I.a[1:]])
        if o in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast'):
            v = self.op(fr, I.x, I.a[0])
            if I.x.k == 'vector' and o != 'bitcast':
                return [self.cast(o, I.x.b, I.ty.b, e) for e in v]
            return self.cast(o, I.x, I.ty, v)
        if o == 'ptrtoint':
            v = self.op(fr, ir.PTR, I.a[0])
            if isinstance(v, Ptr) and v.o is None:
                return v.off & M[I.ty.a]
            return v
        if o == 'inttoptr':
            return self.inttoptr(self.op(fr, I.x, I.a[0]))
        if o == 'freeze':
            v = self.op(fr, I.ty, I.a[0])
            return d.undef(I.ty) if v is UNDEF else v
        if o == 'extractvalue':
            v = self.op(fr, I.ty, I.a[0])
            for k in I.x:
                v = v[k]
            return v
        if o == 'insertvalue':
            v = self.op(fr, I.ty, I.a[0])
            n = len(I.ty.a) if I.ty.k == 'struct' else I.ty.a
            v = [UNDEF] * n if v is UNDEF else list(v)
            if len(I.x) != 1:
                raise ExecError('nested insertvalue')
            t = I.ty
            v[I.x[0]] = self.op(fr, ir.field_off(t, I.x[0])[1], I.a[1])
            return v
        if o == 'extractelement':
            v = self.op(fr, I.ty, I.a[0])
            return v[self.op(fr, ir.ity(64), I.a[1])]
        if o == 'insertelement':
            v = self.op(fr, I.ty, I.a[0])
            v = [UNDEF] * I.ty.a if v is UNDEF else list(v)
            v[self.op(fr, ir.ity(64), I.a[2])] = self.op(fr, I.ty.b, I.a[1])
            return v
        if o == 'atomicrmw':
            p = self.op(fr, ir.PTR, I.a[0])
            v = self.op(fr, I.ty, I.a[1])
            old = self.load(p, I.ty)
            if I.x == 'add':
                self.store(p, I.ty, self.ibin('add', I.ty.a, old, v, None))
            elif I.x == 'xchg':
                self.store(p, I.ty, v)
            else:
                raise ExecError('atomicrmw ' + str(I.x))
            return old
        if o == 'landingpad':
            raise ExecError('landingpad')
        raise ExecError('instruction ' + o)

    def cast(self, o, t0, t1, v):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, (Ptr, FnPtr)):
            if o in ('bitcast', 'zext', 'sext') or (o == 'trunc' and False):
                return v
            raise ExecError('cast of pointer')
        if o == 'bitcast':
            if t0 == t1:
                return v
            if isinstance(v, list):
                raise ExecError('vector bitcast')
            return self.d.bitcast(t0, t1, v)
        if isinstance(v, int) and t0.k == 'int' and t1.k == 'int':
            if o == 'trunc':
                return v & M[t1.a]
            if o == 'zext':
                return v
            if o == 'sext':
                return sgn(v, t0.a) & M[t1.a]
        return self.d.cast(o, t0, t1, v)

    def icmp(self, pred, t, a, b):
        if t.k == 'ptr' or is_ptr(a) or is_ptr(b):
            a = NULL if a == 0 and not is_ptr(a) else a
            b = NULL if b == 0 and not is_ptr(b) else b
            if not (is_ptr(a) and is_ptr(b)):
                raise ExecError('pointer comparison %r %r' % (a, b))
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o is b.o:
                    return self.icmp(pred, ir.ity(64), a.off & M[64], b.off & M[64])
                # distinct objects: give every object a fixed distinct pseudo-address
                return self.icmp(pred, ir.ity(64), self.addr(a), self.addr(b))
            raise ExecError('pointer order')
        if a is UNDEF or b is UNDEF:
            return UNDEF        # a speculated load; using the result is an error (branch, select, arithmetic)
        if isinstance(a, int) and isinstance(b, int):
            w = t.a
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            r = {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]]
            return int(r)
        return self.d.icmp(pred, t.a, a, b)

    def addr(self, p):
        if p.o is None:
            return p.off
        if not hasattr(self, '_addr'):
            self._addr = {}
            self._next = 1 << 40
        if p.o not in self._addr:
            self._addr[p.o] = self._next
            self._next += (p.o.size + 4096) // 16 * 16
        return (self._addr[p.o] + p.off) & M[64]

    def ibin(self, o, w, a, b, fl):
        if isinstance(a, int) and isinstance(b, int):
            m = M[w]
            if o == 'add':
                return (a + b) & m
            if o == 'sub':
                return (a - b) & m
            if o == 'mul':
                return (a * b) & m
            if o == 'and':
                return a & b
            if o == 'or':
                return a | b
            if o == 'xor':
                return a ^ b
            if o == 'shl':
                return (a << b) & m if b < w else self.d.undef(ir.ity(w))
            if o == 'lshr':
                return a >> b if b < w else self.d.undef(ir.ity(w))
            if o == 'ashr':
                return (sgn(a, w) >> b) & m if b < w else self.d.undef(ir.ity(w))
            if o == 'udiv':
                return a // b
            if o == 'urem':
                return a % b
            if o in ('sdiv', 'srem'):
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if o == 'sdiv' else x - q * y) & m
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o is b.o:
                    return (a.off - b.off) & M[w]
                return (self.addr(a) - self.addr(b)) & M[w]
            if o == 'add' and isinstance(b, int):
                return Ptr(a.o, a.off + sgn(b, w))
            if o == 'sub' and isinstance(b, int):
                return Ptr(a.o, a.off - sgn(b, w))
            if o == 'sub' and isinstance(a, int):
                return (a - self.addr(b)) & M[w]
            if o == 'and' and isinstance(b, int):
                return self.addr(a) & b
            raise ExecError('pointer arithmetic ' + o)
        if a is UNDEF or b is UNDEF:
            raise ExecError('arithmetic on undef')
        return self.d.ibin(o, w, a, b, fl)


IBIN = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'}


# --------------------------------------------------------------- builtins
def _memcpy(ex, name, a):
    n = a[2]
    if not isinstance(n, int):
        n = ex.d.concretize(n, ir.ity(64))
    ex.copy(a[0], a[1], n)
    return a[0]


def _memset(ex, name, a):
    n = a[2]
    if not isinstance(n, int):
        n = ex.d.concretize(n, ir.ity(64))
    for i in range(n):
        ex.store(Ptr(a[0].o, a[0].off + i), ir.ity(8), a[1] if not isinstance(a[1], int) else a[1] & 255)
    return a[0]


def _fp(kind_name):
    return 'double' if kind_name.endswith('f64') else 'float' if kind_name.endswith('f32') else 'x86_fp80'


def _nop(ex, name, a):
    return None


def _minmax(ex, name, a):
    k = name.split('.')[1]
    w = int(name.split('.i')[-1])
    c = ex.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], ir.ity(w), a[0], a[1])
    if isinstance(c, int):
        return a[0] if c else a[1]
    return ex.d.select(c, ir.ity(w), a[0], a[1])


def _sat(ex, name, a):
    w = int(name.split('.i')[-1])
    if name.split('.')[1] == 'usub':
        c, o = ex.icmp('ult', ir.ity(w), a[0], a[1]), 0
        r = ex.ibin('sub', w, a[0], a[1], None)
    else:
        r, o = ex.ibin('add', w, a[0], a[1], None), M[w]
        c = ex.icmp('ult', ir.ity(w), r, a[0])
    if isinstance(c, int):
        return o if c else r
    return ex.d.select(c, ir.ity(w), o, r)


def _abort(ex, name, a):
    raise Unreachable('the program is aborted')


def _guard(ex, name, a):
    b = ex.load(a[0], ir.ity(8))
    if 'acquire' in name:
        return 0 if b else 1
    ex.store(a[0], ir.ity(8), 1)


def _abs(ex, name, a):
    w = int(name.split('.i')[-1])
    c = ex.icmp('slt', ir.ity(w), a[0], 0)
    n = ex.ibin('sub', w, 0, a[0], None)
    if isinstance(c, int):
        return n if c else a[0]
    return ex.d.select(c, ir.ity(w), n, a[0])


def _ctpop(ex, name, a):
    w = int(name.split('.i')[-1])
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    return ex.d.ctpop(w, a[0])


def _clz(ex, name, a):
    w = int(name.split('.i')[-1])
    if isinstance(a[0], int):
        if 'ctlz' in name:
            return w - a[0].bit_length()
        return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    return ex.d.clz(w, a[0]) if 'ctlz' in name else ex.d.ctz(w, a[0])


def _ovf(ex, name, a):
    o = name.split('.')[1]
    w = int(name.split('.i')[-1])
    if not (isinstance(a[0], int) and isinstance(a[1], int)):
        return ex.d.ovf(o, w, a[0], a[1])
    sg = o[0] == 's'
    x, y = (sgn(a[0], w), sgn(a[1], w)) if sg else (a[0], a[1])
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[o[1:4]]
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, M[w])
    return [r & M[w], int(not lo <= r <= hi)]


def _fsh(ex, name, a):
    w = int(name.split('.i')[-1])
    if all(isinstance(x, int) for x in a):
        s = a[2] % w
        v = (a[0] << w) | a[1]
        return (v >> (w - s)) & M[w] if 'fshl' in name else (v >> s) & M[w]
    return ex.d.fsh(name, w, a)


def _throw(ex, name, a):
    raise CppThrow(name)


def _new(ex, name, a):
    n = a[0]
    if not isinstance(n, int):
        n = ex.d.concretize(n, ir.ity(64))
    ex.nalloc = getattr(ex, 'nalloc', 0) + 1
    return ex.new('heap%d' % ex.nalloc, n)


def _del(ex, name, a):
    p = a[0]
    if isinstance(p, Ptr) and p.o is not None:
        if p.off != 0 or p.o.freed:
            raise MemFault('bad delete of %r' % p)
        p.o.freed = True


def _memcmp(ex, name, a):
    n = a[2]
    if not isinstance(n, int):
        n = ex.d.concretize(n, ir.ity(64))
    for i in range(n):
        x = ex.load(Ptr(a[0].o, a[0].off + i), ir.ity(8))
        y = ex.load(Ptr(a[1].o, a[1].off + i), ir.ity(8))
        c = ex.icmp('eq', ir.ity(8), x, y)
        if not isinstance(c, int):
            c = ex.d.decide(c)
        if not c:
            c = ex.icmp('ult', ir.ity(8), x, y)
            if not isinstance(c, int):
                c = ex.d.decide(c)
            return M[32] if c else 1
    return 0


def _strlen(ex, name, a):
    i = 0
    while True:
        x = ex.load(Ptr(a[0].o, a[0].off + i), ir.ity(8))
        c = ex.icmp('eq', ir.ity(8), x, 0)
        if not isinstance(c, int):
            c = ex.d.decide(c)
        if c:
            return i
        i += 1


def _memchr(ex, name, a):
    n = a[2]
    if not isinstance(n, int):
        n = ex.d.concretize(n, ir.ity(64))
    for i in range(n):
        x = ex.load(Ptr(a[0].o, a[0].off + i), ir.ity(8))
        ch = a[1] & 255 if isinstance(a[1], int) else ex.cast('trunc', ir.ity(32), ir.ity(8), a[1])
        c = ex.icmp('eq', ir.ity(8), x, ch)
        if not isinstance(c, int):
            c = ex.d.decide(c)
        if c:
            return Ptr(a[0].o, a[0].off + i)
    return NULL


PREFIX = [
    ('@llvm.memcpy', _memcpy), ('@llvm.memmove', _memcpy), ('@llvm.memset', _memset),
    ('@llvm.lifetime', _nop), ('@llvm.dbg', _nop), ('@llvm.assume', _nop), ('@llvm.experimental.noalias', _nop),
    ('@llvm.fabs', lambda ex, n, a: ex.d.fabs(_fp(n), a[0])),
    ('@llvm.sqrt', lambda ex, n, a: ex.d.fsqrt(_fp(n), a[0])),
    ('@llvm.copysign', lambda ex, n, a: ex.d.copysign(_fp(n), a[0], a[1])),
    ('@llvm.fma.', lambda ex, n, a: ex.d.ffma(_fp(n), *a)),
    ('@llvm.is.fpclass', lambda ex, n, a: ex.d.fpclass(_fp(n), a[0], a[1])),
    ('@llvm.floor', lambda ex, n, a: ex.d.fround('floor', _fp(n), a[0])),
    ('@llvm.ceil', lambda ex, n, a: ex.d.fround('ceil', _fp(n), a[0])),
    ('@llvm.trunc', lambda ex, n, a: ex.d.fround('trunc', _fp(n), a[0])),
    ('@llvm.rint', lambda ex, n, a: ex.d.fround('rint', _fp(n), a[0])),
    ('@llvm.nearbyint', lambda ex, n, a: ex.d.fround('rint', _fp(n), a[0])),
    ('@llvm.minnum', lambda ex, n, a: ex.d.fminmax('min', _fp(n), a[0], a[1])),
    ('@llvm.maxnum', lambda ex, n, a: ex.d.fminmax('max', _fp(n), a[0], a[1])),
    ('@llvm.umax', _minmax), ('@llvm.umin', _minmax), ('@llvm.smax', _minmax), ('@llvm.smin', _minmax),
    ('@llvm.abs.', _abs), ('@llvm.ctpop', _ctpop), ('@llvm.ctlz', _clz), ('@llvm.cttz', _clz),
    ('@llvm.uadd.with', _ovf), ('@llvm.usub.with', _ovf), ('@llvm.umul.with', _ovf),
    ('@llvm.sadd.with', _ovf), ('@llvm.ssub.with', _ovf), ('@llvm.smul.with', _ovf),
    ('@llvm.usub.sat', _sat), ('@llvm.uadd.sat', _sat),
    ('@llvm.trap', _abort), ('@abort', _abort), ('@__assert_fail', _abort), ('@__cxa_pure_virtual', _abort),
    ('@__cxa_guard', _guard),
    ('@llvm.fshl', _fsh), ('@llvm.fshr', _fsh),
    ('@llvm.stacksave', lambda ex, n, a: NULL), ('@llvm.stackrestore', _nop), ('@llvm.invariant', _nop),
    ('@_ZSt', lambda ex, n, a: _throw(ex, n, a) if '__throw' in n or 'terminate' in n else ext(ex, n, a)),
]


def ext(ex, n, a):
    h = getattr(ex.d, 'external', None)
    if h is not None:
        return h(ex, n, a)
    raise ExecError('call of external ' + n)


def _b(f):
    return lambda ex, a: f(ex, '', a)


BUILTIN = {
    '@fabs': lambda ex, a: ex.d.fabs('double', a[0]), '@fabsf': lambda ex, a: ex.d.fabs('float', a[0]),
    '@sqrt': lambda ex, a: ex.d.fsqrt('double', a[0]), '@sqrtf': lambda ex, a: ex.d.fsqrt('float', a[0]),
    '@memcpy': _b(_memcpy), '@memmove': _b(_memcpy), '@memset': _b(_memset), '@memcmp': _b(_memcmp), '@bcmp': _b(_memcmp),
    '@strlen': _b(_strlen), '@memchr': _b(_memchr),
    '@_Znwm': _b(_new), '@_Znam': _b(_new), '@malloc': _b(_new), '@_ZdlPv': _b(_del), '@_ZdaPv': _b(_del),
    '@_ZdlPvm': _b(_del), '@_ZdaPvm': _b(_del), '@free': _b(_del), '@__cxa_atexit': lambda ex, a: 0,
}
