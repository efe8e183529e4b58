"""Parser for the textual LLVM 18 IR that clang produces from /repo's sources.

It covers the subset clang -O0 (+ sroa, loop-simplify) emits for this code base.
Anything it does not know raises IRError, which the driver reports as
"undecided", never as a violation.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9\\]+|(?=[{"])))
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<num>-?[0-9]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|^!])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('token: %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    out.append(('eof', ''))
    return out


def unq(name):
    """strip sigil and quotes"""
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('ptr',)
VOID = ('void',)

PARAM_ATTRS = {
    'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
    'writeonly', 'returned', 'immarg', 'nest', 'swiftself', 'noreturn', 'nofree', 'allocptr', 'allocalign',
    'dead_on_unwind', 'writable', 'nounwind',
}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                   'inalloca', 'nofpclass', 'range'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'dllimport', 'dllexport'}
FASTMATH = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FBINOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
         'fptrunc', 'addrspacecast'}


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'dbg')

    def __init__(self, op, res=None, ty=None, args=(), extra=None, dbg=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.args = args
        self.extra = extra
        self.dbg = dbg

    def __repr__(self):
        return '%s=%s %s %s %s' % (self.res, self.op, self.ty, self.args, self.extra)


class Function:
    def __init__(self, name):
        self.name = name
        self.ret = None
        self.params = []      # (type, name, byval-type-or-None)
        self.vararg = False
        self.blocks = {}
        self.order = []
        self.declared = False
        self.dbg = None
        self.noexcept = False
        self.loops = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (type, init or None, constant)
        self.functions = {}
        self.aliases = {}
        self.dbg = {}

    # ---------------------------------------------------------------- layout
    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.types:
                raise IRError('unknown type ' + t[1])
            t = self.types[t[1]]
        return t

    def sizealign(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = (n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            a = min(p, 16)
            return ((b + a - 1) // a * a, a)
        if k == 'ptr':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'double':
            return (8, 8)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'arr':
            s, a = self.sizealign(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.sizealign(t[2])
            return (s * t[1], s * t[1])
        if k == 'struct':
            off = 0
            al = 1
            for e in t[2]:
                s, a = self.sizealign(e)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise IRError('sizeof %r' % (t,))

    def sizeof(self, t):
        return self.sizealign(t)[0]

    def storesize(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return (t[1] + 7) // 8
        if t[0] == 'x86_fp80':
            return 10
        return self.sizeof(t)

    def field(self, t, idx):
        """(offset, type) of field idx"""
        t = self.resolve(t)
        if t[0] in ('arr', 'vec'):
            return (self.sizeof(t[2]) * idx, t[2])
        off = 0
        for i, e in enumerate(t[2]):
            s, a = self.sizealign(e)
            if t[1]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return (off, e)
            off += s
        raise IRError('field')


class P:
    def __init__(self, s, mod):
        self.t = tokenize(s)
        self.i = 0
        self.mod = mod
        self.src = s

    def peek(self, k=0):
        return self.t[self.i + k]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def isp(self, v):
        return self.t[self.i][1] == v and self.t[self.i][0] in ('p', 'word', 'dots')

    def accept(self, v):
        if self.isp(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %s' % (v, self.peek(), self.src[:200]))

    # ------------------------------------------------------------------ types
    def type(self):
        t = self.basetype()
        while True:
            if self.isp('*'):
                self.next()
                t = PTR
            elif self.isp('(') and t[0] in ('void', 'i', 'ptr', 'struct', 'named', 'float', 'double') and self.fnty:
                # function type
                self.next()
                ps = []
                va = False
                while not self.accept(')'):
                    if self.accept('...'):
                        va = True
                    else:
                        ps.append(self.type())
                        self.skip_param_attrs()
                    self.accept(',')
                t = ('fn', t, ps, va)
            else:
                return t

    fnty = False

    def basetype(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.isp('addrspace'):
                    raise IRError('addrspace')
                return PTR
            if v == 'void':
                return VOID
            if re.fullmatch(r'i\d+', v):
                return ('i', int(v[1:]))
            if v in ('float', 'double', 'x86_fp80', 'label', 'metadata', 'token', 'opaque', 'half', 'fp128'):
                return (v,)
            raise IRError('type word %r' % v)
        if k == 'reg':
            return ('named', unq(v))
        if k == 'p' and v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if k == 'p' and v == '{':
            es = []
            while not self.accept('}'):
                es.append(self.type())
                self.accept(',')
            return ('struct', False, es)
        if k == 'p' and v == '<':
            if self.isp('{'):
                self.next()
                es = []
                while not self.accept('}'):
                    es.append(self.type())
                    self.accept(',')
                self.expect('>')
                return ('struct', True, es)
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        raise IRError('type %r in %s' % (v, self.src[:120]))

    # ----------------------------------------------------------------- values
    def value(self, ty):
        k, v = self.next()
        if k == 'reg':
            return ('reg', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'num':
            if ty[0] == 'i':
                return ('int', ty[1], int(v) & ((1 << ty[1]) - 1))
            return ('fp', ty, float(v))
        if k == 'flt':
            return ('fp', ty, float(v))
        if k == 'hex':
            return ('fphex', ty, v)
        if k == 'cstr':
            b = bytearray()
            s = v[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('cstr', bytes(b))
        if k == 'word':
            if v == 'true':
                return ('int', 1, 1)
            if v == 'false':
                return ('int', 1, 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                while self.isp('inbounds') or self.isp('inrange'):
                    self.next()
                self.expect('(')
                st = self.type()
                self.expect(',')
                vals = []
                while not self.accept(')'):
                    if self.isp('inrange'):
                        self.next()
                    t = self.type()
                    vals.append((t, self.value(t)))
                    self.accept(',')
                return ('gep', st, vals)
            if v in CASTS:
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, x, t2)
            if v in BINOPS:
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t = self.type()
                b = self.value(t)
                self.expect(')')
                return ('bin', v, t, a, b)
            raise IRError('value %r in %s' % (v, self.src[:160]))
        if k == 'p' and v in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.isp('{'):
                self.next()
                es = []
                while not self.accept('}'):
                    t = self.type()
                    es.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', ty, es)
            es = []
            while not self.accept(close):
                t = self.type()
                es.append((t, self.value(t)))
                self.accept(',')
            return ('agg', ty, es)
        raise IRError('value %r in %s' % (v, self.src[:160]))

    def skip_param_attrs(self):
        byval = None
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if v == 'align':
                    if self.isp('('):
                        self.next(); self.next(); self.expect(')')
                    else:
                        self.next()
                else:
                    self.expect('(')
                    depth = 1
                    if v == 'byval':
                        byval = self.type()
                    while depth:
                        q = self.next()
                        if q[1] == '(':
                            depth += 1
                        elif q[1] == ')':
                            depth -= 1
            elif k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return byval

    def tail(self):
        """parse trailing ', align N', ', !dbg !N', attrs: return dbg id"""
        dbg = None
        while self.peek()[0] != 'eof':
            k, v = self.next()
            if k == 'meta' and v == '!dbg':
                dbg = self.next()[1]
        return dbg


def parse_instr(line, mod):
    p = P(line, mod)
    res = None
    if p.peek()[0] == 'reg' and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BINOPS:
        fl = []
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.append(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (a, b), fl, p.tail())
    if op in FBINOPS or op == 'fneg':
        while p.peek()[1] in FASTMATH:
            p.next()
        t = p.type()
        a = p.value(t)
        args = (a,)
        if op != 'fneg':
            p.expect(',')
            args = (a, p.value(t))
        return Instr(op, res, t, args, None, p.tail())
    if op in CASTS:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Instr(op, res, t2, (a,), t, p.tail())
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FASTMATH:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (a, b), pred, p.tail())
    if op == 'alloca':
        if p.isp('inalloca'):
            p.next()
        t = p.type()
        n = None
        while p.accept(','):
            if p.isp('align'):
                break
            if p.peek()[0] == 'meta':
                p.i -= 1
                break
            nt = p.type()
            n = p.value(nt)
        return Instr(op, res, t, (), n, p.tail())
    if op == 'load':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr(op, res, t, (a,), None, p.tail())
    if op == 'store':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr(op, None, t, (v, a), None, p.tail())
    if op == 'getelementptr':
        inb = p.accept('inbounds')
        st = p.type()
        p.expect(',')
        vals = []
        while True:
            if p.peek()[0] in ('eof', 'meta'):
                break
            t = p.type()
            vals.append((t, p.value(t)))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                p.i -= 1
                break
        return Instr(op, res, st, vals, inb, p.tail())
    if op == 'phi':
        while p.peek()[1] in FASTMATH:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = unq(p.next()[1])
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                p.i -= 1
                break
        return Instr(op, res, t, inc, None, p.tail())
    if op == 'select':
        while p.peek()[1] in FASTMATH:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Instr(op, res, t, (c, a, b), None, p.tail())
    if op == 'br':
        if p.isp('label'):
            p.next()
            l = unq(p.next()[1])
            return Instr('br', None, None, (), (l,), p.tail())
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next()[1])
        p.expect(',')
        p.expect('label')
        b = unq(p.next()[1])
        return Instr('condbr', None, None, (c,), (a, b), p.tail())
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, unq(p.next()[1])))
        return Instr('switch', None, t, (v,), (d, cases), p.tail())
    if op == 'ret':
        t = p.type()
        v = None
        if t != VOID:
            v = p.value(t)
        return Instr('ret', None, t, (v,), None, p.tail())
    if op == 'unreachable':
        return Instr('unreachable', dbg=p.tail())
    if op == 'resume':
        t = p.type()
        v = p.value(t)
        return Instr('resume', None, t, (v,), None, p.tail())
    if op in ('call', 'invoke'):
        while True:
            k2, v2 = p.peek()
            if k2 == 'word' and (v2 in FASTMATH or v2 in ('fastcc', 'ccc', 'coldcc')):
                p.next()
            else:
                break
        p.skip_param_attrs()
        p.fnty = False
        t = p.type()
        va = False
        if p.isp('('):
            # function type for varargs
            depth = 0
            while True:
                q = p.next()
                if q[1] == '(':
                    depth += 1
                elif q[1] == ')':
                    depth -= 1
                    if depth == 0:
                        break
            va = True
        k2, v2 = p.peek()
        if k2 == 'word' and v2 == 'asm':
            return Instr('asm', res, t, (), None, p.tail())
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            if at == ('metadata',):
                # skip metadata operand
                depth = 0
                while not (depth == 0 and (p.isp(',') or p.isp(')'))):
                    q = p.next()
                    if q[1] in ('(', '{'):
                        depth += 1
                    elif q[1] in (')', '}'):
                        depth -= 1
                args.append((at, None, None))
            else:
                bv = p.skip_param_attrs()
                args.append((at, p.value(at), bv))
            p.accept(',')
        extra = None
        if op == 'invoke':
            while not p.isp('to'):
                p.next()
            p.expect('to')
            p.expect('label')
            n = unq(p.next()[1])
            p.expect('unwind')
            p.expect('label')
            u = unq(p.next()[1])
            extra = (n, u)
        return Instr(op, res, t, (callee, args), extra, p.tail())
    if op == 'landingpad':
        t = p.type()
        clauses = []
        cleanup = False
        while True:
            if p.accept('cleanup'):
                cleanup = True
            elif p.isp('catch') or p.isp('filter'):
                kind = p.next()[1]
                ct = p.type()
                cv = p.value(ct)
                clauses.append((kind, cv))
            else:
                break
        return Instr(op, res, t, (), (clauses, cleanup), p.tail())
    if op in ('extractvalue', 'insertvalue'):
        t = p.type()
        a = p.value(t)
        args = [a]
        if op == 'insertvalue':
            p.expect(',')
            t2 = p.type()
            args.append(p.value(t2))
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                p.i -= 1
                break
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, tuple(args), idx, p.tail())
    if op == 'freeze':
        t = p.type()
        return Instr(op, res, t, (p.value(t),), None, p.tail())
    if op == 'fence':
        return Instr(op, dbg=p.tail())
    return Instr('unsupported', res, None, (), op, p.tail())


def parse_header(line, mod, declare):
    p = P(line, mod)
    p.next()
    while True:
        k, v = p.peek()
        if k == 'word' and v in LINKAGE:
            p.next()
            if v == 'thread_local' and p.isp('('):
                while p.next()[1] != ')':
                    pass
        elif k == 'word' and v in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        elif k == 'meta':           # declare !dbg !123 ...
            p.next()
            p.next()
        else:
            break
    p.skip_param_attrs()
    rt = p.type()
    name = unq(p.next()[1])
    f = Function(name)
    f.ret = rt
    f.declared = declare
    p.expect('(')
    auto = 0
    while not p.accept(')'):
        if p.accept('...'):
            f.vararg = True
        else:
            t = p.type()
            bv = p.skip_param_attrs()
            n = None
            if p.peek()[0] == 'reg':
                n = unq(p.next()[1])
            f.params.append((t, n, bv))
        p.accept(',')
    toks = p.t[p.i:]
    f.attrs = [v for k, v in toks if k == 'attr']
    for j, (k, v) in enumerate(toks):
        if k == 'meta' and v == '!dbg':
            f.dbg = toks[j + 1][1]
    return f


def parse_module(text):
    mod = Module()
    mod.attrs = {}
    lines = text.split('\n')
    i = 0
    n = len(lines)
    # first pass: type names
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1)
            nm = unq(nm)
            if rest.strip() == 'opaque':
                continue
            mod.types[nm] = P(rest, mod).type()
        elif l.startswith('}'):
            pass
    while i < n:
        l = lines[i]
        if not l or l[0] in ';%':
            i += 1
            continue
        if l.startswith('@'):
            m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', l)
            name = unq(m.group(1))
            p = P(m.group(2), mod)
            const = False
            alias = False
            while True:
                k, v = p.peek()
                if k == 'word' and (v in LINKAGE):
                    p.next()
                    if v == 'thread_local' and p.isp('('):
                        while p.next()[1] != ')':
                            pass
                elif v == 'global':
                    p.next()
                    break
                elif v == 'constant':
                    p.next()
                    const = True
                    break
                elif v in ('alias', 'ifunc'):
                    p.next()
                    alias = True
                    break
                else:
                    raise IRError('global: ' + l[:120])
            if alias:
                t = p.type()
                p.expect(',')
                t = p.type()
                mod.aliases[name] = p.value(t)
            else:
                t = p.type()
                init = None
                if p.peek()[0] != 'eof' and not p.isp(',') and not p.isp('comdat'):
                    init = p.value(t)
                mod.globals[name] = (t, init, const)
            i += 1
            continue
        if l.startswith('declare'):
            f = parse_header(l, mod, True)
            mod.functions[f.name] = f
            i += 1
            continue
        if l.startswith('define'):
            f = parse_header(l, mod, False)
            mod.functions[f.name] = f
            f.body_start = i + 1
            j = i + 1
            while lines[j] != '}':
                j += 1
            f.raw = lines[i + 1:j]
            i = j + 1
            continue
        if l.startswith('attributes'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
            if m:
                mod.attrs[m.group(1)] = m.group(2)
            i += 1
            continue
        if l.startswith('!'):
            m = re.match(r'(!\d+) = (?:distinct )?(!DI\w+\(.*\))', l)
            if m:
                mod.dbg[m.group(1)] = m.group(2)
            i += 1
            continue
        i += 1
    for f in mod.functions.values():
        f.nounwind = any('nounwind' in mod.attrs.get(a, '').split() for a in f.attrs)
    return mod


def materialize(f, mod):
    """lazily parse a function body"""
    if f.blocks or f.declared:
        return
    # implicit numbering: unnamed params then entry block
    cnt = 0
    ps = []
    for (t, n, bv) in f.params:
        if n is None:
            n = str(cnt)
        if n.isdigit():
            cnt = int(n) + 1
        ps.append((t, n, bv))
    f.params = ps
    cur = None
    raw = f.raw
    # join continuation lines (invoke ... \n to label, landingpad clauses, switch)
    out = []
    k = 0
    while k < len(raw):
        l = raw[k]
        if not l.strip() or l.lstrip().startswith(';'):
            k += 1
            continue
        if not l.startswith(' '):
            out.append(l)
            k += 1
            continue
        # switch
        if l.strip().startswith('switch'):
            while not re.search(r'\](, !.*)?$', l):
                k += 1
                l += ' ' + raw[k].strip()
        while k + 1 < len(raw) and raw[k + 1].startswith('          '):
            k += 1
            l += ' ' + raw[k].strip()
        out.append(l)
        k += 1
    for l in out:
        if not l.startswith(' '):
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if not m:
                raise IRError('label ' + l)
            lab = m.group(1)
            if lab.startswith('"'):
                lab = lab[1:-1]
            cur = []
            f.blocks[lab] = cur
            f.order.append(lab)
            continue
        if cur is None:
            cur = []
            lab = str(cnt)
            f.blocks[lab] = cur
            f.order.append(lab)
        cur.append(parse_instr(l, mod))
    find_loops(f)


def succs(f, b):
    t = f.blocks[b][-1]
    if t.op in ('br', 'condbr'):
        return list(t.extra)
    if t.op == 'switch':
        return [t.extra[0]] + [x for _, x in t.extra[1]]
    if t.op == 'invoke':
        return list(t.extra)
    return []


def find_loops(f):
    """natural loops: header -> set(blocks)"""
    order = f.order
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(f, b):
            preds[s].append(b)
    entry = order[0]
    # reachable + dominators (iterative)
    rpo = []
    seen = set()
    stack = [(entry, iter(succs(f, entry)))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(f, s))))
                adv = True
                break
        if not adv:
            rpo.append(b)
            stack.pop()
    rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {b: None for b in rpo}
    dom[entry] = entry

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = dom[a]
            while idx[b] > idx[a]:
                b = dom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = None
            for p in preds[b]:
                if p in idx and dom.get(p) is not None:
                    nd = p if nd is None else inter(nd, p)
            if dom[b] != nd:
                dom[b] = nd
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in succs(f, b):
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(q for q in preds[x] if q in idx)
    f.loops = loops
