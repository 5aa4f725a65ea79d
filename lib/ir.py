"""Reader for textual LLVM IR (the subset clang emits for vdt)."""
import re, struct

TOK = re.compile(r'''
  (?P<ws>[ \t\n]+|;[^\n]*)
 |(?P<cstr>c"[^"]*")
 |(?P<name>[%@](?:"[^"]*"|[-$._A-Za-z0-9]+))
 |(?P<meta>!(?:"[^"]*"|[-$._A-Za-z0-9]*))
 |(?P<attr>\#[0-9]+)
 |(?P<str>"[^"]*")
 |(?P<comdat>\$(?:"[^"]*"|[-$._A-Za-z0-9]+))
 |(?P<hex>0x[KHLMR]?[0-9A-Fa-f]+)
 |(?P<num>[-+]?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 |(?P<dots>\.\.\.)
 |(?P<id>[A-Za-z_.][-A-Za-z_0-9.]*:?)
 |(?P<p>[][{}()<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('token at %r' % s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    out.append(('eof', ''))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'array':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.a))
        return self.k

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


INT = {}


def ity(n):
    if n not in INT:
        INT[n] = Ty('int', n)
    return INT[n]


PTR, VOID, F64, F32, F80 = Ty('ptr'), Ty('void'), Ty('double'), Ty('float'), Ty('x86_fp80')
LABEL, META = Ty('label'), Ty('metadata')
ATOM = {'ptr': PTR, 'void': VOID, 'double': F64, 'float': F32, 'x86_fp80': F80,
        'label': LABEL, 'metadata': META, 'half': Ty('half'), 'fp128': Ty('fp128')}


def align_of(t):
    if t.k == 'int':
        return max(1, min(8, 1 << ((t.a + 7) // 8 - 1).bit_length())) if t.a <= 64 else 16
    if t.k in ('ptr', 'double'):
        return 8
    if t.k == 'float':
        return 4
    if t.k in ('x86_fp80', 'fp128'):
        return 16
    if t.k == 'array':
        return align_of(t.b)
    if t.k == 'vector':
        return size_of(t)
    if t.k == 'struct':
        if t.b:
            return 1
        return max([align_of(x) for x in t.a] + [1])
    raise IRError('align of %r' % t)


def size_of(t):
    if t._sz is not None:
        return t._sz
    if t.k == 'int':
        s = (t.a + 7) // 8
        s = 1 << (s - 1).bit_length() if s > 1 else 1
    elif t.k in ('ptr', 'double'):
        s = 8
    elif t.k == 'float':
        s = 4
    elif t.k in ('x86_fp80', 'fp128'):
        s = 16
    elif t.k in ('array', 'vector'):
        s = t.a * size_of(t.b)
    elif t.k == 'struct':
        s = 0
        for x in t.a:
            if not t.b:
                a = align_of(x)
                s = (s + a - 1) // a * a
            s += size_of(x)
        a = align_of(t)
        s = (s + a - 1) // a * a
    else:
        raise IRError('size of %r' % t)
    t._sz = s
    return s


def field_off(t, i):
    if t.k in ('array', 'vector'):
        return i * size_of(t.b), t.b
    s = 0
    for j, x in enumerate(t.a):
        if not t.b:
            a = align_of(x)
            s = (s + a - 1) // a * a
        if j == i:
            return s, x
        s += size_of(x)
    raise IRError('field')


# ------------------------------------------------------------- operands
# ('c', int) ints; ('f', bits) ; ('l', name) local ; ('g', name) global ; ('null',)
# ('undef',) ; ('zero',) ; ('agg', [ (ty,op) ]) ; ('str', bytes) ; ('gep', srcty, [(ty,op)]) ; ('cast', op, ty0, v, ty1)
# ('meta',)

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x')

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x

    def __repr__(self):
        return 'Inst(%s %s %s %s %s)' % (self.dst, self.op, self.ty, self.a, self.x)


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.entry = None
        self.vararg = False


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls, self.aliases = {}, {}, {}, {}, {}


PARAM_ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext', 'returned',
              'inreg', 'immarg', 'readnone', 'noalias', 'nofree', 'nest', 'swiftself', 'allocalign', 'allocptr',
              'writable', 'dead_on_unwind', 'range'}
PAREN_ATTR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'initializes', 'elementtype', 'nofpclass', 'range', 'memory'}


class Parser:
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0
        self.m = Module()

    def pk(self, d=0):
        return self.t[self.i + d][1]

    def kd(self, d=0):
        return self.t[self.i + d][0]

    def nx(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def acc(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] not in ('str', 'cstr'):
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise IRError('expected %r got %r near %s' % (s, self.pk(), ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 8])))

    # ------------------------------------------------------------- type
    def ty(self):
        k, s = self.t[self.i]
        if s in ATOM:
            self.i += 1
            t = ATOM[s]
        elif k == 'id' and re.match(r'i\d+$', s):
            self.i += 1
            t = ity(int(s[1:]))
        elif s == '[':
            self.i += 1
            n = int(self.nx())
            self.exp('x')
            e = self.ty()
            self.exp(']')
            t = Ty('array', n, e)
        elif s == '<' and self.pk(1) == '{':
            self.i += 2
            l = []
            while not self.acc('}'):
                l.append(self.ty())
                self.acc(',')
            self.exp('>')
            t = Ty('struct', l, True)
        elif s == '<':
            self.i += 1
            n = int(self.nx())
            self.exp('x')
            e = self.ty()
            self.exp('>')
            t = Ty('vector', n, e)
        elif s == '{':
            self.i += 1
            l = []
            while not self.acc('}'):
                l.append(self.ty())
                self.acc(',')
            t = Ty('struct', l, False)
        elif k == 'name' and s[0] == '%':
            self.i += 1
            if s not in self.m.types:
                self.m.types[s] = Ty('opaque', s)
            t = self.m.types[s]
        else:
            raise IRError('type? %r near %s' % (s, ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 8])))
        # function type
        if self.pk() == '(' and t.k in ('void', 'int', 'double', 'float', 'ptr', 'struct', 'array', 'x86_fp80') and self._fnty():
            self.skip_paren()
            t = Ty('fn', t)
        return t

    def _fnty(self):
        # only used in call instruction: "call void (ptr, ...) @f(" -- look for ')' then name
        d, j = 0, self.i
        while True:
            s = self.t[j][1]
            if s == '(':
                d += 1
            elif s == ')':
                d -= 1
                if d == 0:
                    return self.t[j + 1][0] == 'name'
            elif self.t[j][0] == 'eof':
                return False
            j += 1

    def skip_paren(self):
        self.exp('(')
        d = 1
        while d:
            s = self.nx()
            if s == '(':
                d += 1
            elif s == ')':
                d -= 1

    # ---------------------------------------------------------- operand
    def attrs(self):
        while True:
            s = self.pk()
            if s in PAREN_ATTR:
                self.i += 1
                if self.pk() == '(':
                    self.skip_paren()
                elif self.kd() == 'num':
                    self.i += 1
            elif s in PARAM_ATTR:
                self.i += 1
            else:
                return

    def fbits(self, t, k, s):
        if k == 'hex':
            if s.startswith('0xK'):
                return int(s[3:], 16)
            b = int(s[2:], 16)
            if t.k == 'float':
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                if d != d:
                    return (0x7fc00000 | ((b >> 63) << 31))
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return b
        d = float(s)
        if t.k == 'float':
            return struct.unpack('<I', struct.pack('<f', d))[0]
        if t.k == 'double':
            return struct.unpack('<Q', struct.pack('<d', d))[0]
        raise IRError('fp80 decimal')

    def val(self, t):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'name':
            return ('l', s) if s[0] == '%' else ('g', s)
        if k in ('num', 'hex'):
            if t.k in ('double', 'float', 'x86_fp80'):
                return ('f', self.fbits(t, k, s))
            return ('c', int(s))
        if k == 'cstr':
            b = s[2:-1]
            out = bytearray()
            j = 0
            while j < len(b):
                if b[j] == '\\':
                    out.append(int(b[j + 1:j + 3], 16))
                    j += 3
                else:
                    out.append(ord(b[j]))
                    j += 1
            return ('str', bytes(out))
        if s == 'true':
            return ('c', 1)
        if s == 'false':
            return ('c', 0)
        if s == 'null' or s == 'none':
            return ('null',)
        if s in ('undef', 'poison'):
            return ('undef',)
        if s == 'zeroinitializer':
            return ('zero',)
        if s in ('[', '{', '<'):
            if s == '<' and self.pk() == '{':
                self.i += 1
                close = ['}', '>']
            else:
                close = [{'[': ']', '{': '}', '<': '>'}[s]]
            l = []
            while not self.acc(close[0]):
                e = self.ty()
                l.append((e, self.val(e)))
                self.acc(',')
            if len(close) > 1:
                self.exp('>')
            return ('agg', l)
        if s == 'getelementptr':
            while self.pk() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            if self.acc('inrange'):
                self.skip_paren()
            self.exp('(')
            st = self.ty()
            self.exp(',')
            l = []
            while not self.acc(')'):
                self.acc('inrange')
                e = self.ty()
                l.append((e, self.val(e)))
                self.acc(',')
            return ('gep', st, l)
        if s in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'sext', 'zext'):
            self.exp('(')
            t0 = self.ty()
            v = self.val(t0)
            self.exp('to')
            t1 = self.ty()
            self.exp(')')
            return ('cast', s, t0, v, t1)
        if s in ('sub', 'add'):
            while self.pk() in ('nuw', 'nsw'):
                self.i += 1
            self.exp('(')
            t0 = self.ty()
            a = self.val(t0)
            self.exp(',')
            t1 = self.ty()
            b = self.val(t1)
            self.exp(')')
            return ('cbin', s, t0, a, b)
        if s in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
            if s == 'blockaddress':
                self.skip_paren()
                return ('undef',)
            return self.val(t)
        if k == 'meta':
            if self.pk() == '(':
                self.skip_paren()
            elif self.pk() == '{':
                d = 0
                while True:
                    q = self.nx()
                    if q == '{':
                        d += 1
                    if q == '}':
                        d -= 1
                        if d == 0:
                            break
            return ('meta',)
        if t.k == 'metadata':
            self.i -= 1
            t2 = self.ty()
            self.val(t2)
            return ('meta',)
        raise IRError('value? %r near %s' % (s, ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 8])))

    def tv(self):
        t = self.ty()
        self.attrs()
        if t.k == 'metadata' and self.kd() != 'meta':
            t2 = self.ty()
            self.val(t2)
            return (t, ('meta',))
        return (t, self.val(t))

    # ----------------------------------------------------------- module
    def line_end(self):
        """skip trailing ', !dbg !3', ', align 8', '#3' etc. up to next instruction"""
        while True:
            k, s = self.t[self.i]
            if k == 'attr' or k == 'meta':
                self.i += 1
            elif s == ',' and (self.kd(1) == 'meta' or self.pk(1) in ('align', 'comdat')):
                self.i += 2
                if self.t[self.i - 1][1] == 'align':
                    self.i += 1
                elif self.t[self.i - 1][1] == 'comdat':
                    if self.pk() == '(':
                        self.skip_paren()
            else:
                return

    def parse(self):
        while True:
            k, s = self.t[self.i]
            if k == 'eof':
                break
            if s == 'source_filename':
                self.i += 3
            elif s == 'target':
                self.i += 4
            elif k == 'comdat':
                self.i += 4
            elif s == 'module':
                self.i += 3
            elif s == 'attributes':
                while self.pk() != '{':
                    self.i += 1
                while self.pk() != '}':
                    self.i += 1
                self.i += 1
            elif k == 'meta':
                self.i += 1
                self.exp('=')
                self.skip_meta()
            elif k == 'name' and s[0] == '%':
                self.i += 1
                self.exp('=')
                self.exp('type')
                if self.acc('opaque'):
                    self.m.types.setdefault(s, Ty('opaque', s))
                else:
                    t = self.ty()
                    if s in self.m.types:
                        q = self.m.types[s]
                        q.k, q.a, q.b = t.k, t.a, t.b
                    else:
                        self.m.types[s] = t
            elif k == 'name':
                self.glob()
            elif s == 'declare':
                self.i += 1
                f = self.header()
                self.m.decls[f.name] = f
                self.line_end()
            elif s == 'define':
                self.i += 1
                self.define()
            else:
                raise IRError('top level %r' % s)
        return self.m

    def skip_meta(self):
        self.acc('distinct')
        if self.kd() == 'meta' and self.pk() == '!' and self.pk(1) == '{':
            self.i += 1
            d = 0
            while True:
                q = self.nx()
                if q == '{':
                    d += 1
                if q == '}':
                    d -= 1
                    if d == 0:
                        return
        elif self.kd() == 'meta':
            self.i += 1
            if self.pk() == '(':
                self.skip_paren()
        else:
            raise IRError('meta')

    def glob(self):
        name = self.nx()
        self.exp('=')
        ext = False
        while True:
            s = self.pk()
            if s in ('global', 'constant', 'alias', 'ifunc'):
                break
            if s == 'external':
                ext = True
            self.i += 1
            if self.pk() == '(' and s in ('thread_local', 'addrspace'):
                self.skip_paren()
        kind = self.nx()
        t = self.ty()
        if t.k == 'fn':
            pass
        if kind == 'alias':
            if self.pk() == '(':
                self.skip_paren()
            self.exp(',')
            t2 = self.ty()
            self.m.aliases[name] = self.val(t2)
        else:
            init = None
            if not ext:
                init = self.val(t)
            self.m.globals[name] = (t, init, kind == 'constant')
        while self.pk() == ',':
            if self.pk(1) in ('align', 'comdat', 'section', 'partition') or self.kd(1) == 'meta':
                self.i += 2
                if self.t[self.i - 1][0] == 'meta':
                    continue
                if self.pk() == '(':
                    self.skip_paren()
                elif self.kd() in ('num', 'str'):
                    self.i += 1
                if self.kd() == 'meta' and self.pk() != '!':
                    pass
            else:
                break
        while self.kd() == 'attr':
            self.i += 1

    def header(self):
        while True:
            s = self.pk()
            if s in ATOM or s in '[{<' or (self.kd() == 'id' and re.match(r'i\d+$', s)) or (self.kd() == 'name' and s[0] == '%'):
                break
            self.i += 1
            if s in PAREN_ATTR and self.pk() == '(':
                self.skip_paren()
            elif s in PAREN_ATTR and self.kd() == 'num':
                self.i += 1
        # return type: careful not to parse fn type
        ret = self.ty_nofn()
        name = self.nx()
        self.exp('(')
        params = []
        f = Func(name, ret, params)
        while not self.acc(')'):
            if self.acc('...'):
                f.vararg = True
                continue
            t = self.ty_nofn()
            self.attrs()
            n = None
            if self.kd() == 'name':
                n = self.nx()
            params.append((t, n))
            self.acc(',')
        while True:
            k, s = self.t[self.i]
            if k == 'attr' or s in ('unnamed_addr', 'local_unnamed_addr', 'nounwind', 'dso_local'):
                self.i += 1
            elif s in ('comdat', 'align', 'section', 'memory', 'personality', 'gc', 'prefix'):
                self.i += 1
                if s == 'personality':
                    t = self.ty()
                    self.val(t)
                elif self.pk() == '(':
                    self.skip_paren()
                elif self.kd() in ('num', 'str'):
                    self.i += 1
            elif k == 'meta' and s != '!' and self.kd(1) == 'meta':
                self.i += 2
            else:
                break
        return f

    def ty_nofn(self):
        save = self._fnty
        self._fnty = lambda: False
        try:
            return self.ty()
        finally:
            self._fnty = save

    def define(self):
        f = self.header()
        # unnamed params get numbers
        n = 0
        ps = []
        for t, nm in f.params:
            if nm is None:
                nm = '%%%d' % n
                n += 1
            elif re.match(r'%\d+$', nm):
                n = int(nm[1:]) + 1
            ps.append((t, nm))
        f.params = ps
        self.exp('{')
        cur = None
        nxt = n
        while not self.acc('}'):
            k, s = self.t[self.i]
            if (k == 'id' and s.endswith(':')):
                cur = '%' + s[:-1]
                self.i += 1
                f.blocks[cur] = []
                f.entry = f.entry or cur
                continue
            if k in ('num', 'str') and self.pk(1) == ':':
                cur = '%' + (s if k == 'num' else s)
                self.i += 2
                f.blocks[cur] = []
                f.entry = f.entry or cur
                continue
            if cur is None:
                cur = '%%%d' % nxt
                f.blocks[cur] = []
                f.entry = cur
            ins = self.inst()
            self.line_end()
            if ins is not None:
                f.blocks[cur].append(ins)
        self.m.funcs[f.name] = f

    FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'samesign'}
    FAST = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}

    def inst(self):
        dst = None
        if self.kd() == 'name' and self.pk(1) == '=':
            dst = self.nx()
            self.i += 1
        op = self.nx()
        if op in ('tail', 'musttail', 'notail'):
            op = self.nx()
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while self.pk() in self.FLAGS or self.pk() in self.FAST:
                fl.add(self.nx())
            t = self.ty()
            a = self.val(t)
            self.exp(',')
            b = self.val(t)
            return Inst(op, dst, t, [a, b], fl)
        if op == 'fneg':
            while self.pk() in self.FAST:
                self.nx()
            t = self.ty()
            return Inst(op, dst, t, [self.val(t)])
        if op in ('icmp', 'fcmp'):
            while self.pk() in self.FAST or self.pk() in self.FLAGS:
                self.nx()
            pred = self.nx()
            t = self.ty()
            a = self.val(t)
            self.exp(',')
            b = self.val(t)
            return Inst(op, dst, t, [a, b], pred)
        if op == 'select':
            while self.pk() in self.FAST:
                self.nx()
            c = self.tv()
            self.exp(',')
            a = self.tv()
            self.exp(',')
            b = self.tv()
            return Inst(op, dst, a[0], [c[1], a[1], b[1]])
        if op == 'phi':
            while self.pk() in self.FAST:
                self.nx()
            t = self.ty()
            l = []
            while True:
                self.exp('[')
                v = self.val(t)
                self.exp(',')
                lab = self.nx()
                self.exp(']')
                l.append((v, lab))
                if self.pk() == ',' and self.pk(1) == '[':
                    self.i += 1
                else:
                    break
            return Inst(op, dst, t, l)
        if op == 'br':
            if self.acc('label'):
                return Inst('br', None, None, [self.nx()])
            c = self.tv()
            self.exp(',')
            self.exp('label')
            a = self.nx()
            self.exp(',')
            self.exp('label')
            b = self.nx()
            return Inst('condbr', None, None, [c[1], a, b])
        if op == 'switch':
            c = self.tv()
            self.exp(',')
            self.exp('label')
            d = self.nx()
            self.exp('[')
            cases = []
            while not self.acc(']'):
                v = self.tv()
                self.exp(',')
                self.exp('label')
                cases.append((v[1][1], self.nx()))
            return Inst('switch', None, c[0], [c[1], d, cases])
        if op == 'ret':
            t = self.ty()
            if t.k == 'void':
                return Inst('ret', None, t, [])
            self.attrs()
            return Inst('ret', None, t, [self.val(t)])
        if op == 'unreachable':
            return Inst(op, None, None, [])
        if op in ('call', 'invoke'):
            while self.pk() in self.FAST or self.pk() in ('fastcc', 'ccc', 'coldcc'):
                self.nx()
            self.attrs()
            t = self.ty()
            if t.k == 'fn':
                t = t.a
            if self.pk() == 'asm':
                raise IRError('inline asm')
            callee = self.val(PTR)
            self.exp('(')
            args = []
            while not self.acc(')'):
                args.append(self.tv())
                self.acc(',')
            while self.kd() == 'attr':
                self.i += 1
            if self.pk() == '[':   # operand bundle
                while not self.acc(']'):
                    self.i += 1
            x = None
            if op == 'invoke':
                self.exp('to')
                self.exp('label')
                a = self.nx()
                self.exp('unwind')
                self.exp('label')
                b = self.nx()
                x = (a, b)
            return Inst(op, dst, t, [callee] + args, x)
        if op == 'load':
            while self.pk() in ('volatile', 'atomic'):
                self.i += 1
            t = self.ty()
            self.exp(',')
            p = self.tv()
            while self.pk() in ('seq_cst', 'acquire', 'monotonic', 'unordered'):
                self.i += 1
            return Inst(op, dst, t, [p[1]])
        if op == 'store':
            while self.pk() in ('volatile', 'atomic'):
                self.i += 1
            v = self.tv()
            self.exp(',')
            p = self.tv()
            while self.pk() in ('seq_cst', 'release', 'monotonic', 'unordered'):
                self.i += 1
            return Inst(op, None, v[0], [v[1], p[1]])
        if op == 'alloca':
            t = self.ty()
            n = ('c', 1)
            if self.pk() == ',' and self.pk(1) != 'align' and self.kd(1) != 'meta':
                self.i += 1
                n = self.tv()[1]
            return Inst(op, dst, t, [n])
        if op == 'getelementptr':
            while self.pk() in self.FLAGS:
                self.i += 1
            st = self.ty()
            l = []
            while self.pk() == ',' and self.kd(1) != 'meta':
                self.i += 1
                l.append(self.tv())
            return Inst(op, dst, st, l)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast',
                  'ptrtoint', 'inttoptr', 'addrspacecast'):
            while self.pk() in self.FLAGS or self.pk() in self.FAST:
                self.nx()
            v = self.tv()
            self.exp('to')
            t = self.ty()
            return Inst(op, dst, t, [v[1]], v[0])
        if op == 'freeze':
            v = self.tv()
            return Inst(op, dst, v[0], [v[1]])
        if op == 'extractvalue':
            v = self.tv()
            idx = []
            while self.pk() == ',' and self.kd(1) == 'num':
                self.i += 1
                idx.append(int(self.nx()))
            return Inst(op, dst, v[0], [v[1]], idx)
        if op == 'insertvalue':
            v = self.tv()
            self.exp(',')
            e = self.tv()
            idx = []
            while self.pk() == ',' and self.kd(1) == 'num':
                self.i += 1
                idx.append(int(self.nx()))
            return Inst(op, dst, v[0], [v[1], e[1]], idx)
        if op == 'extractelement':
            v = self.tv()
            self.exp(',')
            e = self.tv()
            return Inst(op, dst, v[0], [v[1], e[1]])
        if op == 'insertelement':
            v = self.tv()
            self.exp(',')
            e = self.tv()
            self.exp(',')
            n = self.tv()
            return Inst(op, dst, v[0], [v[1], e[1], n[1]])
        if op == 'landingpad':
            t = self.ty()
            while self.pk() in ('cleanup', 'catch', 'filter'):
                if self.nx() != 'cleanup':
                    self.tv()
            return Inst(op, dst, t, [])
        if op == 'resume':
            v = self.tv()
            return Inst(op, None, v[0], [v[1]])
        if op == 'fence':
            while self.kd() == 'id' and self.pk() in ('seq_cst', 'acquire', 'release', 'acq_rel', 'syncscope'):
                self.i += 1
            return None
        if op in ('atomicrmw', 'cmpxchg'):
            kind = None
            while self.pk() in ('volatile', 'weak'):
                self.i += 1
            if op == 'atomicrmw':
                kind = self.nx()
            l = [self.tv()]
            while self.pk() == ',' and self.pk(1) != 'align' and self.kd(1) != 'meta':
                self.i += 1
                l.append(self.tv())
            while self.pk() in ('seq_cst', 'release', 'acquire', 'acq_rel', 'monotonic'):
                self.i += 1
            return Inst(op, dst, l[1][0], [q[1] for q in l], kind)
        raise IRError('instruction %r' % op)


def parse_file(path):
    return Parser(open(path).read()).parse()
