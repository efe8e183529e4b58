"""Verification-condition generation by symbolic execution of the LLVM IR of the
real code.  Every path, every loop iteration (unrolled with an unwinding
obligation, or cut at an inductive invariant), every obligation goes to the SMT
back ends.  No bound unless Options.bounded is set."""
import re
import subprocess
import time
import z3
import ir
from ir import IRError, materialize
from val import *
from mem import *
from smt import SMT


FORKS = None


class Options:
    unroll = 4            # symbolic iterations tried before an invariant is required
    bounded = None        # int: bounded exploration, loops cut after this many iterations (NOT a proof)
    nsw = True
    max_paths = 4000
    max_steps = 4000000
    time_limit = 600
    abs_div = True
    abs_mul = False       # also products of two unknown numbers (numerals.py)
    feas_ms = 6000        # solver time for the question whether a path is feasible at all
    merge_rets = False    # join the outcomes of a call without side effects that returns an integer
    merge_ints = False    # join the two sides of a branch without side effects into if-then-else values
    progress = False      # loops may be led by a location that advances irregularly (short reads and writes)
    concrete_inputs = None
    loopspec = None
    concrete_cap = 20000
    unroll_paths = 40     # give up unrolling when this many paths are live
    back = False          # text theory: also unfold at cnt-it, cnt-it-1
    shift = False         # text theory: the loop starts at code point 1
    targets = ()          # target encodings of the text theory (texts.py)


class Budget(Exception):
    pass


class State:
    __slots__ = ('eng', 'mem', 'pc', 'token', 'model', 'exc', 'ghost', 'nassume', 'nd', 'log')

    def __init__(self, eng):
        self.eng = eng
        self.mem = {}
        self.pc = []
        self.token = object()
        self.model = None
        self.exc = ()
        self.ghost = {}
        self.nassume = 0
        self.nd = {}
        self.log = ()

    def fork(self):
        s = State.__new__(State)
        s.eng = self.eng
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.token = object()
        self.token = object()
        s.model = self.model
        s.exc = self.exc
        s.ghost = dict(self.ghost)
        s.nassume = self.nassume
        s.nd = dict(self.nd)
        s.log = self.log
        return s

    # ------------------------------------------------------------ constraints
    def ev(self, c):
        """truth of c in the cached model, or None"""
        m = self.model
        if m is None:
            return None
        try:
            r = m.eval(bl(c), model_completion=True)
            for f in self.eng.smt.facts([bl(c)]):
                if not z3.is_true(m.eval(f, model_completion=True)):
                    return None       # the model is about older terms
        except z3.Z3Exception:
            return None
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return None

    def add(self, c):
        """assume c (no feasibility check)"""
        if isinstance(c, int):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        if self.model is not None and self.ev(c) != 1:
            self.model = None
        self.pc.append(c)

    def feasible(self, c=1):
        if isinstance(c, int) and not c:
            return False
        if self.ev(c) == 1 if not isinstance(c, int) else self.model is not None:
            return True
        r, m = self.eng.smt.check(self.pc + ([] if isinstance(c, int) else [c]), want_model=True)
        if r == 'unsat':
            return False
        if m is not None:
            self.model = m if isinstance(c, int) else self.model
        return True

    def must(self, c, hard=False):
        if isinstance(c, int):
            return bool(c)
        if self.ev(c) == 0:
            return False
        r, m = self.eng.smt.check(self.pc + [z3.Not(c)], hard=hard)
        return r == 'unsat'

    def decide(self, c):
        """1/0 if the path condition decides c, else None"""
        if isinstance(c, int):
            return c
        e = self.ev(c)
        if e != 0:
            if self.must(c):
                return 1
        if e != 1:
            if self.must(b_not(c)):
                return 0
        return None

    # ----------------------------------------------------------------- memory
    def obj(self, rid):
        o = self.mem.get(rid)
        if o is None:
            o = self.eng.global_obj(rid)
            if o is None:
                return None
            self.mem[rid] = o
        return o

    def wobj(self, rid):
        o = self.obj(rid)
        if o is None:
            return None
        if o.owner is not self.token:
            o = o.clone()
            o.owner = self.token
            self.mem[rid] = o
        return o

    def alloc(self, size, under=UNDEFINED, kind='', name=''):
        rid = self.eng.newrid()
        o = Obj(size, under, kind, name)
        o.owner = self.token
        self.mem[rid] = o
        return Ptr(rid, 0)


class Fn:
    """frame of an activation"""
    __slots__ = ('f', 'allocas', 'name')

    def __init__(self, f):
        self.f = f
        self.allocas = []
        self.name = f.name


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'regs', 'block', 'prev')

    def __init__(self, kind, st, val=None, regs=None, block=None, prev=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.regs = regs
        self.block = block
        self.prev = prev


class Failure:
    def __init__(self, kind, desc, loc, func, model, status, st=None):
        self.kind = kind
        self.desc = desc
        self.loc = loc
        self.func = func
        self.model = model
        self.status = status       # 'sat' | 'unknown'
        self.inputs = None
        self.havoc = False
        if st is not None:
            self.havoc = bool(st.ghost.get('havoc'))
            self.trace = list(st.log)

    def __str__(self):
        return '[%s] %s at %s in %s (%s%s)' % (self.kind, self.desc, self.loc, self.func, self.status,
                                               ', after loop abstraction' if self.havoc else '')


STD_BASES = {
    '_ZTISt9exception': None, '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTINSt10filesystem7__cxx1116filesystem_errorE': '_ZTISt12system_error',
}


def demangle_all(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


class Engine:
    def __init__(self, mod, opts=None, smt=None):
        self.mod = mod
        self.opts = opts or Options()
        self.smt = smt or SMT()
        self.smt.feas_ms = self.opts.feas_ms
        self.smt.deadline = time.time() + self.opts.time_limit
        self.smt.budget = Budget
        self.rid = 1
        self.globs = {}
        self.globrid = {}
        self.fnrid = {}
        self.ridfn = {}
        self.dem = demangle_all(list(mod.functions))
        self.base_syms = {}
        self.handlers = {}
        self.failures = []
        self.undecided = []
        self.stats = {}          # kind -> [count, trivial]
        self.discharged = {}     # (kind, desc, loc, func) -> [n, backend set]
        self.covered = set()
        self.funcs_executed = {}
        self.assumed_contracts = {}
        self.quiet = 0
        self.steps = 0
        self.paths = 0
        self.start = time.time()
        self.need_stack = [set()]
        self.unrolling = []
        self.frame_only = 0
        self.narrow = {}
        self.signmags = {}
        self.quots = {}
        self.inference_unknown = 0
        self.bounded_cut = 0
        self.loops_done = {}
        self.typeids = {}
        self.cfg = {}
        self.invlog = []
        self.sites = {}
        import lib
        import texts
        import numerals
        lib.install(self)
        if self.opts.loopspec is None:
            self.opts.loopspec = texts.Multi([texts.ShiftedSpec() if self.opts.shift else texts.TextSpec(), texts.ScanSpec(), numerals.NumberSpec(), numerals.MirrorSpec()])

    # ------------------------------------------------------------------ misc
    def newrid(self):
        self.rid += 1
        return self.rid

    def demangled(self, n):
        return self.dem.get(n, n)

    def tick(self):
        self.steps += 1
        if self.steps & 255 == 0:
            if self.steps > self.opts.max_steps:
                raise Budget('step budget')
            if time.time() - self.start > self.opts.time_limit:
                raise Budget('time budget')

    def loc(self, ins):
        d = self.mod.dbg.get(ins.dbg) if ins is not None and ins.dbg else None
        if not d:
            return '?'
        m = re.search(r'line: (\d+)', d)
        line = m.group(1) if m else '0'
        sc = re.search(r'scope: (!\d+)', d)
        f = '?'
        n = 0
        while sc and n < 20:
            n += 1
            s = self.mod.dbg.get(sc.group(1))
            if not s:
                break
            mf = re.search(r'file: (!\d+)', s)
            if mf:
                ff = self.mod.dbg.get(mf.group(1), '')
                q = re.search(r'filename: "([^"]*)"', ff)
                if q:
                    f = q.group(1)
                    break
            sc = re.search(r'scope: (!\d+)', s)
        return '%s:%s' % (f.split('/repo/')[-1], line)

    # -------------------------------------------------------------- obligations
    def oblige(self, st, cond, kind, desc, fr=None, ins=None):
        """returns True if execution may continue (cond now assumed)"""
        if isinstance(cond, int) and cond:
            if not self.quiet:
                self.record(kind, desc, fr, ins, 'folded')
            return True
        if self.quiet:
            if isinstance(cond, int):
                return False
            st.add(cond)
            return st.feasible()
        neg = [] if isinstance(cond, int) else [z3.Not(cond)]
        e = None if isinstance(cond, int) else st.ev(cond)
        if e == 0:
            r, m = 'sat', st.model
        else:
            r, m = self.smt.check(st.pc + neg, want_model=True, hard=True)
        if r == 'unsat':
            if isinstance(cond, int):
                return False           # dead path
            self.record(kind, desc, fr, ins, self.smt.backend(st.pc + neg))
            st.add(cond) if False else None
            return True
        self.fail(st, kind, desc, fr, ins, m, r)
        if isinstance(cond, int):
            return False
        st.add(cond)
        st.nassume += 1
        return st.feasible()

    def record(self, kind, desc, fr, ins, backend):
        k = (kind, desc, self.loc(ins), self.demangled(fr.name) if fr else '')
        d = self.discharged.setdefault(k, [0, {}])
        d[0] += 1
        d[1][backend] = d[1].get(backend, 0) + 1

    def fail(self, st, kind, desc, fr, ins, model, status):
        f = Failure(kind, desc, self.loc(ins), self.demangled(fr.name) if fr else '', model, status, st)
        if model is not None:
            f.inputs = self.extract_inputs(st, model)
        (self.failures if status == 'sat' else self.undecided).append(f)
        if len(self.failures) > 40:
            raise Budget('too many failures')

    def extract_inputs(self, st, model):
        out = []
        for ent in st.log:
            if ent[0] == 'nd':
                _, name, w, sym = ent
                if isinstance(sym, int):
                    v = sym
                else:
                    q = model.eval(sym, model_completion=True)
                    v = (1 if z3.is_true(q) else 0) if w == 1 else q.as_long()
                out.append(('nd', name, w, v))
            elif ent[0] == 'arr':
                _, name, ew, n, base = ent
                nv = n if isinstance(n, int) else model.eval(n, model_completion=True).as_long()
                if nv > 1 << 16:
                    out.append(('arr', name, ew, nv, None))
                else:
                    vals = []
                    for i in range(nv):
                        if base is None:
                            vals.append(0)
                        else:
                            q = model.eval(base.elem(i * ew), model_completion=True)
                            vals.append(q.as_long())
                    out.append(('arr', name, ew, nv, vals))
        return out

    # ------------------------------------------------------------------ globals
    def global_ptr(self, name):
        mod = self.mod
        if name in mod.aliases:
            v = mod.aliases[name]
            if v[0] == 'glob':
                return self.global_ptr(v[1])
            raise Unsupported('alias')
        if name in mod.functions:
            r = self.fnrid.get(name)
            if r is None:
                r = self.newrid()
                self.fnrid[name] = r
                self.ridfn[r] = name
            return Ptr(r, 0)
        r = self.globrid.get(name)
        if r is None:
            r = self.newrid()
            self.globrid[name] = r
            self.globs[r] = name
        return Ptr(r, 0)

    def global_obj(self, rid):
        name = self.globs.get(rid)
        if name is None:
            return None
        o = self.globs.get(('obj', rid))
        if o is None:
            t, init, const = self.mod.globals.get(name, (('i', 8), None, True))
            if init is None:
                o = Obj(4096, UNDEFINED, 'extern', name)
            else:
                o = Obj(self.mod.sizeof(t), UNDEFINED, 'global', name, const)
                self.init_global(o, 0, t, init)
            self.globs[('obj', rid)] = o
        return o

    def init_global(self, o, off, t, v):
        mod = self.mod
        t = mod.resolve(t)
        k = v[0]
        if k == 'zero' or k == 'null':
            o.fill_in(None, off, mod.sizeof(t), 0)
        elif k == 'undef':
            pass
        elif k == 'cstr':
            if off == 0 and not o.cells:
                o.under = Bytes(v[1])
            else:
                for i, b in enumerate(v[1]):
                    o.write(None, off + i, 1, b)
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[2]):
                fo, ft = mod.field(t, i)
                self.init_global(o, off + fo, ft, ev)
        else:
            val = self.const(v, t)
            o.write(None, off, mod.storesize(t), val)

    def const(self, v, t):
        k = v[0]
        if k == 'int':
            return v[2]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(v[1])
        if k == 'undef':
            tt = self.mod.resolve(t) if t else t
            if tt and tt[0] == 'struct':
                return Agg([UNDEF] * len(tt[2]))
            return UNDEF
        if k == 'zero':
            tt = self.mod.resolve(t)
            if tt[0] == 'struct':
                return Agg([self.const(('zero', e), e) for e in tt[2]])
            if tt[0] == 'ptr':
                return NULL
            return 0
        if k == 'gep':
            base = self.const(v[2][0][1], v[2][0][0])
            return self.gep(base, v[1], [(tt, self.const(x, tt)) for tt, x in v[2][1:]])
        if k == 'cast':
            x = self.const(v[3], v[2])
            if v[1] in ('bitcast',):
                return x
            if v[1] == 'ptrtoint':
                return self.ptrtoint(x)
            if v[1] == 'inttoptr' and isinstance(x, int):
                return Ptr(0, x)
            raise Unsupported('const cast ' + v[1])
        if k == 'bin':
            return binop(v[1], v[2][1], self.const(v[3], v[2]), self.const(v[4], v[2]))
        if k == 'fp':
            import struct
            if v[1][0] == 'float':
                return struct.unpack('<I', struct.pack('<f', v[2]))[0]
            if v[1][0] == 'double':
                return struct.unpack('<Q', struct.pack('<d', v[2]))[0]
            raise Unsupported('fp const')
        if k == 'fphex':
            h = v[2]
            if v[1][0] == 'double':
                return int(h, 16)
            if v[1][0] == 'float':
                import struct
                d = struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]
                return struct.unpack('<I', struct.pack('<f', d))[0]
            if h.startswith('0xK'):
                return int(h[3:], 16)
        if k == 'agg':
            return Agg([self.const(x, tt) for tt, x in v[2]])
        raise Unsupported('const %r' % (v,))

    def ptrtoint(self, p):
        if not isinstance(p, Ptr):
            return p
        if p.rid == 0:
            return p.off
        b = self.base_syms.get(p.rid)
        if b is None:
            b = z3.BitVec('base!%d' % p.rid, 64)
            self.base_syms[p.rid] = b
        return binop('add', 64, b, p.off)

    def inttoptr(self, v):
        if isinstance(v, int):
            return Ptr(0, v)
        for rid, b in self.base_syms.items():
            o = binop('sub', 64, v, b)
            if isinstance(o, int):
                return Ptr(rid, o)
        raise Unsupported('inttoptr')

    def gep(self, base, st, idx):
        if isinstance(base, int) and base == 0:
            base = NULL
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = st
        first = True
        for (it, i) in idx:
            if i is UNDEF:
                raise Unsupported('undef index')
            w = it[1]
            if first:
                sz = self.mod.sizeof(t)
                first = False
            else:
                tt = self.mod.resolve(t)
                if tt[0] == 'struct':
                    fo, t = self.mod.field(t, i)
                    off = add64(off, fo)
                    continue
                sz = self.mod.sizeof(tt[2])
                t = tt[2]
            ii = sext(i, w, 64) if w < 64 else i
            off = add64(off, binop('mul', 64, ii, sz))
        return Ptr(base.rid, off)

    # ------------------------------------------------------------- memory access
    def access(self, st, p, n, what, fr, ins, write=False):
        """bounds obligation; returns the object or None when the path dies"""
        if not isinstance(p, Ptr):
            if isinstance(p, int) and p == 0:
                p = NULL
            elif p is UNDEF:
                self.oblige(st, 0, 'memory', '%s through an uninitialised pointer' % what, fr, ins)
                return None
            else:
                raise Unsupported('access through %r' % (p,))
        if p.rid == 0:
            self.oblige(st, 0, 'memory', '%s through a null pointer' % what, fr, ins)
            return None
        o = st.wobj(p.rid) if write else st.obj(p.rid)
        if o is None or not o.alive:
            self.oblige(st, 0, 'memory', '%s of dead memory (%s)' % (what, o.name if o else 'region gone'), fr, ins)
            return None
        if o.kind == 'extern':
            return o
        if write and o.ro:
            self.oblige(st, 0, 'memory', '%s to constant %s' % (what, o.name), fr, ins)
            return None
        off = p.off
        sz = o.size
        if isinstance(off, int) and isinstance(sz, int) and isinstance(n, int):
            ok = int(sgn(off, 64) >= 0 and off + n <= sz)
            if ok:
                return o
        else:
            # off <= size  and  n <= size - off
            ok = icmp('ult', 64, off, sz) if isinstance(n, int) and n == 1 else b_and(icmp('ule', 64, off, sz), icmp('ule', 64, n, sub64(sz, off)))
        if not self.oblige(st, ok, 'memory', '%s stays inside %s' % (what, o.name or o.kind or 'object'), fr, ins):
            return None
        return o

    def load(self, st, p, t, fr, ins):
        """returns (ok, value)"""
        t = self.mod.resolve(t)
        if t[0] == 'struct' or t[0] == 'arr':
            es = t[2] if t[0] == 'struct' else [t[2]] * t[1]
            vs = []
            for i in range(len(es)):
                fo, ft = self.mod.field(t, i)
                ok, v = self.load(st, Ptr(p.rid, add64(p.off, fo)), ft, fr, ins)
                if not ok:
                    return False, None
                vs.append(v)
            return True, Agg(vs)
        n = self.mod.storesize(t)
        o = self.access(st, p, n, 'read', fr, ins)
        if o is None:
            return False, None
        v = o.read(st, p.off, n)
        return True, self.as_type(v, t, n)

    def as_type(self, v, t, n):
        if v is UNDEF:
            if t[0] == 'ptr':
                return UNDEF
            return fresh('undef', t[1] if t[0] == 'i' else 8 * n)
        if t[0] == 'ptr':
            if isinstance(v, Ptr):
                return v
            return self.inttoptr(v)
        if isinstance(v, Ptr):
            v = self.ptrtoint(v)
        if t[0] == 'i' and t[1] != 8 * n:
            return trunc(v, 8 * n, t[1])
        return v

    def store(self, st, p, t, v, fr, ins):
        t = self.mod.resolve(t)
        if t[0] in ('struct', 'arr'):
            if v is UNDEF:
                return True
            for i in range(len(v.v)):
                fo, ft = self.mod.field(t, i)
                if not self.store(st, Ptr(p.rid, add64(p.off, fo)), ft, v.v[i], fr, ins):
                    return False
            return True
        n = self.mod.storesize(t)
        o = self.access(st, p, n, 'write', fr, ins, True)
        if o is None:
            return False
        if t[0] == 'i' and t[1] != 8 * n and is_sym(v):
            v = zext(v, t[1], 8 * n)
        o.write(st, p.off, n, v)
        return True

    # --------------------------------------------------------------------- calls
    def call(self, st, name, args, fr, ins):
        """-> list of Outcome ret/throw"""
        self.tick()
        if name in self.mod.aliases and self.mod.aliases[name][0] == 'glob':
            name = self.mod.aliases[name][1]
        h = self.handlers.get(name)
        if h is None:
            h = self.find_handler(name)
            self.handlers[name] = h
        if h is not False:
            r = h(self, st, args, fr, ins)
            if r is not NotImplemented:
                return r
        f = self.mod.functions.get(name)
        if f is None or f.declared:
            raise Unsupported('external function %s' % self.demangled(name))
        if st.ghost.get('depth', 0) > 60:
            raise Unsupported('call depth in ' + self.demangled(name))
        self.funcs_executed[name] = self.funcs_executed.get(name, 0) + 1
        materialize(f, self.mod)
        regs = {}
        for (t, n, bvt), a in zip(f.params, args):
            regs[n] = a
        frame = Fn(f)
        tok = None
        mergeable = f.ret == ('i', 1) or (self.opts.merge_rets and f.ret and f.ret[0] == 'i')
        if mergeable:
            base = st
            st = st.fork()
            tok = (len(base.pc), base.nassume)
        st.ghost['depth'] = st.ghost.get('depth', 0) + 1
        outs = self.run(frame, [(st, regs, f.order[0], None)], None, None)
        for o in outs:
            s = o.st
            s.ghost['depth'] -= 1
            for rid in frame.allocas:
                s.mem.pop(rid, None)
            o.regs = None
        if mergeable and len(outs) > 1:
            outs = self.merge_outcomes(base, tok, outs, f.ret[1])
        if f.nounwind or f.noexcept:
            res = []
            for o in outs:
                if o.kind == 'throw':
                    self.oblige(o.st, 0, 'exception', 'no exception leaves noexcept function %s (%s)'
                                % (self.demangled(name), o.val[1]), frame, ins)
                else:
                    res.append(o)
            outs = res
        return outs

    def same_mem(self, a, b):
        """b has not changed anything that exists in a"""
        am, bm = a.mem, b.mem
        for r, o in am.items():
            q = bm.get(r)
            if q is not o:
                if q is None:
                    return False
                if q.alive != o.alive or q.under is not o.under or q.size is not o.size:
                    return False
                if not cells_eq(q.cells, o.cells):
                    return False
        return True

    def merge_outcomes(self, base, tok, outs, w=1):
        n0, na = tok
        if any(o.kind != 'ret' for o in outs):
            rets = [o for o in outs if o.kind == 'ret']
            if len(rets) < 2:
                return outs
            if not self.opts.merge_rets:
                return outs
            m = self.merge_outcomes(base, tok, rets, w)
            if len(m) == 1:
                base.add(b_or(*[b_and(*o.st.pc[n0:]) for o in rets]))
            return m + [o for o in outs if o.kind != 'ret']
        for o in outs:
            if o.st.nassume != na or o.st.exc != base.exc or not self.same_mem(base, o.st):
                return outs
            if o.val is UNDEF or o.st.nd != base.nd or len(o.st.log) != len(base.log):
                return outs
        val = outs[-1].val
        for o in reversed(outs[:-1]):
            d = o.st.pc[n0:]
            val = ite(b_and(*d), o.val, val, w)
        if len(outs) > 1 and any(o.st.ghost.get('facts', 0) != base.ghost.get('facts', 0) for o in outs):
            base.add(b_or(*[b_and(*o.st.pc[n0:]) for o in outs]))      # what was assumed about fresh values
        base.token = object()
        g = outs[0].st.ghost
        facts = max(o.st.ghost.get('facts', 0) for o in outs)
        base.ghost = dict(g)
        if facts:
            base.ghost['facts'] = facts
        return [Outcome('ret', base, val)]

    # ----------------------------------------------------------------------- run
    def run(self, fr, work, region, header):
        """execute until return/throw, or until control leaves `region` ('exit') or
        comes back to `header` ('back')"""
        f = fr.f
        outs = []
        work = list(work)
        while work:
            item = work.pop()
            if item[0] == 'outcome':
                outs.append(item[1])
                continue
            st, regs, block, prev = item[:4]
            idx = item[4] if len(item) > 4 else None
            enter = len(item) > 5
            if idx is None:
                # entering `block` from `prev`
                if region is not None:
                    if block == header and prev is not None and not enter:
                        outs.append(Outcome('back', st, None, regs, block, prev))
                        continue
                    if block not in region:
                        outs.append(Outcome('exit', st, None, regs, block, prev))
                        continue
                if block in f.loops and not enter:
                    lb = f.loops[block]
                    if prev is None or prev not in lb:
                        for o in self.loop(fr, st, regs, block, prev):
                            if o.kind == 'exit':
                                work.append((o.st, o.regs, o.block, o.prev))
                            else:
                                outs.append(o)
                        continue
                instrs = f.blocks[block]
                i = 0
                # phis
                newv = []
                while instrs[i].op == 'phi':
                    ins = instrs[i]
                    for v, b in ins.args:
                        if b == prev:
                            newv.append((ins.res, self.val(st, regs, v, ins.ty)))
                            break
                    else:
                        raise Unsupported('phi')
                    i += 1
                for r, v in newv:
                    regs[r] = v
            else:
                i = idx
                instrs = f.blocks[block]
            try:
                self.exec_block(fr, st, regs, block, instrs, i, work, outs)
            except RecursionError:
                raise Unsupported('recursion')
            if len(work) + len(outs) > self.opts.max_paths:
                raise Budget('too many paths')
        return outs

    def val(self, st, regs, v, t):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k == 'int':
            return v[2]
        if k == 'undef':
            r = self.const(v, t)
            if r is UNDEF and t[0] == 'i':
                return fresh('undef', t[1])
            return r
        return self.const(v, t)

    def branch(self, st, c):
        """(can be true, can be false) with models cached"""
        e = st.ev(c)
        t = f = None
        if e == 1:
            t = True
            tm = st.model
        elif e == 0:
            f = True
            fm = st.model
        if t is None:
            r, tm = self.smt.check(st.pc + [c], want_model=True)
            t = r != 'unsat'
        if f is None:
            if not t:
                return False, True, None, st.model
            r, fm = self.smt.check(st.pc + [z3.Not(c)], want_model=True)
            f = r != 'unsat'
        return t, f, (tm if t else None), (fm if f else None)

    def exec_block(self, fr, st, regs, block, instrs, i, work, outs):
        mod = self.mod
        V = self.val
        while True:
            ins = instrs[i]
            op = ins.op
            self.steps += 1
            if self.steps & 1023 == 0:
                self.tick()
            if op in ir.BINOPS:
                w = ins.ty[1] if ins.ty[0] == 'i' else None
                if w is None:
                    raise Unsupported('vector op')
                a = V(st, regs, ins.args[0], ins.ty)
                b = V(st, regs, ins.args[1], ins.ty)
                if isinstance(a, Ptr) or isinstance(b, Ptr):
                    a = self.ptrtoint(a)
                    b = self.ptrtoint(b)
                if op == 'mul' and self.quots:
                    r = self.product(a, b, w)
                    if r is not None:
                        regs[ins.res] = r
                        i += 1
                        continue
                if not self.arith_ob(st, op, w, a, b, ins, fr):
                    return
                if self.opts.abs_div and op in ('udiv', 'urem', 'sdiv', 'srem') and is_sym(a) and w > 8:
                    regs[ins.res] = self.absdiv(op, w, a, b)
                elif op == 'mul' and self.opts.abs_div and w > 8 and self.quotient_times(w, a, b) is not None:
                    regs[ins.res] = self.quotient_times(w, a, b)
                elif self.opts.abs_mul and op == 'mul' and w == 64 and is_sym(a) and is_sym(b):
                    regs[ins.res] = self.absmul(a, b)
                else:
                    regs[ins.res] = binop(op, w, a, b)
            elif op == 'load':
                p = V(st, regs, ins.args[0], ir.PTR)
                ok, v = self.load(st, p, ins.ty, fr, ins)
                if not ok:
                    return
                regs[ins.res] = v
            elif op == 'store':
                v = V(st, regs, ins.args[0], ins.ty)
                p = V(st, regs, ins.args[1], ir.PTR)
                if not self.store(st, p, ins.ty, v, fr, ins):
                    return
            elif op == 'icmp':
                t = mod.resolve(ins.ty)
                a = V(st, regs, ins.args[0], t)
                b = V(st, regs, ins.args[1], t)
                if t[0] == 'ptr':
                    regs[ins.res] = self.ptrcmp(ins.extra, a, b)
                else:
                    if isinstance(a, Ptr):
                        a = self.ptrtoint(a)
                    if isinstance(b, Ptr):
                        b = self.ptrtoint(b)
                    regs[ins.res] = icmp(ins.extra, t[1], a, b)
            elif op == 'getelementptr':
                base = V(st, regs, ins.args[0][1], ir.PTR)
                regs[ins.res] = self.gep(base, ins.ty, [(t, V(st, regs, v, t)) for t, v in ins.args[1:]])
            elif op in ir.CASTS:
                regs[ins.res] = self.cast(op, ins.extra, ins.ty, V(st, regs, ins.args[0], ins.extra))
            elif op == 'br':
                work.append((st, regs, ins.extra[0], block))
                return
            elif op == 'condbr':
                c = V(st, regs, ins.args[0], ir.I1)
                if isinstance(c, int):
                    work.append((st, regs, ins.extra[0 if c else 1], block))
                    return
                t, f, tm, fm = self.branch(st, c)
                if t and f:
                    if self.try_merge(fr, st, regs, block, c, tm, fm, ins, work):
                        return
                    if FORKS is not None:
                        k = self.loc(ins)
                        FORKS[k] = FORKS.get(k, 0) + 1
                    s2 = st.fork()
                    s2.pc.append(simp(z3.Not(c)))
                    s2.model = fm
                    st.pc.append(c)
                    st.model = tm
                    work.append((s2, dict(regs), ins.extra[1], block))
                    work.append((st, regs, ins.extra[0], block))
                elif t:
                    st.model = tm
                    work.append((st, regs, ins.extra[0], block))
                else:
                    if fm is not None:
                        st.model = fm
                    work.append((st, regs, ins.extra[1], block))
                return
            elif op == 'switch':
                v = V(st, regs, ins.args[0], ins.ty)
                d, cases = ins.extra
                if isinstance(v, int):
                    tgt = d
                    for cv, b in cases:
                        if cv[2] == v:
                            tgt = b
                            break
                    work.append((st, regs, tgt, block))
                    return
                rest = st
                for cv, b in cases:
                    c = icmp('eq', ins.ty[1], v, cv[2])
                    t, f, tm, fm = self.branch(rest, c)
                    if t and f:
                        s2 = rest.fork()
                        s2.pc.append(c)
                        s2.model = tm
                        work.append((s2, dict(regs), b, block))
                        rest.pc.append(simp(z3.Not(c)))
                        rest.model = fm
                    elif t:
                        work.append((rest, regs, b, block))
                        rest = None
                        break
                if rest is not None:
                    work.append((rest, regs, d, block))
                return
            elif op == 'phi':
                raise Unsupported('phi position')
            elif op == 'alloca':
                t = ins.ty
                n = 1
                if ins.extra is not None:
                    n = V(st, regs, ins.extra, ir.I32)
                p = st.alloc(mod.sizeof(t) * n, kind='stack', name='%' + ins.res)
                fr.allocas.append(p.rid)
                regs[ins.res] = p
            elif op in ('call', 'invoke'):
                outcomes = self.do_call(fr, st, regs, ins)
                if op == 'call' and len(outcomes) == 1 and outcomes[0].kind == 'ret':
                    o = outcomes[0]
                    st = o.st
                    if ins.res is not None:
                        regs[ins.res] = o.val
                    i += 1
                    continue
                many = len(outcomes) > 1
                for o in outcomes:
                    r2 = dict(regs) if many else regs
                    if o.kind == 'ret':
                        if ins.res is not None:
                            r2[ins.res] = o.val
                        if op == 'invoke':
                            work.append((o.st, r2, ins.extra[0], block))
                        else:
                            work.append((o.st, r2, block, None, i + 1))
                    else:
                        if op == 'invoke':
                            self.unwind(fr, o.st, r2, ins.extra[1], block, o.val, work, outs)
                        else:
                            outs.append(Outcome('throw', o.st, o.val))
                return
            elif op == 'ret':
                v = None
                if ins.args[0] is not None:
                    v = V(st, regs, ins.args[0], ins.ty)
                self.paths += 1
                outs.append(Outcome('ret', st, v))
                return
            elif op == 'select':
                c = V(st, regs, ins.args[0], ir.I1)
                a = V(st, regs, ins.args[1], ins.ty)
                b = V(st, regs, ins.args[2], ins.ty)
                if isinstance(c, int):
                    regs[ins.res] = a if c else b
                elif isinstance(a, Ptr) or isinstance(b, Ptr):
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
                        regs[ins.res] = Ptr(a.rid, ite(c, a.off, b.off, 64))
                    else:
                        t, f, tm, fm = self.branch(st, c)
                        if t and f:
                            s2 = st.fork()
                            s2.pc.append(simp(z3.Not(c)))
                            s2.model = fm
                            r2 = dict(regs)
                            r2[ins.res] = b
                            work.append((s2, r2, block, None, i + 1))
                            st.pc.append(c)
                            st.model = tm
                        regs[ins.res] = a if t else b
                else:
                    regs[ins.res] = ite(c, a, b, ins.ty[1])
            elif op == 'extractvalue':
                a = V(st, regs, ins.args[0], ins.ty)
                for k in ins.extra:
                    a = a.v[k]
                regs[ins.res] = a
            elif op == 'insertvalue':
                a = V(st, regs, ins.args[0], ins.ty)
                b = V(st, regs, ins.args[1], None) if ins.args[1][0] != 'undef' else UNDEF
                if len(ins.extra) != 1:
                    raise Unsupported('insertvalue')
                l = list(a.v)
                l[ins.extra[0]] = b
                regs[ins.res] = Agg(l)
            elif op == 'landingpad':
                raise Unsupported('landingpad position')
            elif op == 'resume':
                v = V(st, regs, ins.args[0], ins.ty)
                outs.append(Outcome('throw', st, st.ghost[('exc', v.v[0].rid)]))
                return
            elif op == 'freeze':
                regs[ins.res] = V(st, regs, ins.args[0], ins.ty)
            elif op == 'unreachable':
                self.oblige(st, 0, 'undefined', 'unreachable code is not reached (missing return / UB)', fr, ins)
                return
            elif op == 'fence':
                pass
            else:
                raise Unsupported('instruction %s %s' % (op, ins.extra))
            i += 1

    def arith_ob(self, st, op, w, a, b, ins, fr):
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not self.oblige(st, icmp('ne', w, b, 0), 'arithmetic', 'no division by zero', fr, ins):
                return False
            if op in ('sdiv', 'srem') and self.opts.nsw and (is_sym(a) or is_sym(b) or
                                                            (a == 1 << (w - 1) and b == mask(w))):
                ok = b_or(icmp('ne', w, a, 1 << (w - 1)), icmp('ne', w, b, mask(w)))
                return self.oblige(st, ok, 'arithmetic', 'signed division does not overflow', fr, ins)
            return True
        if ins.extra and 'nsw' in ins.extra and op in ('add', 'sub', 'mul') and self.opts.nsw and w > 1:
            if isinstance(a, int) and isinstance(b, int):
                r = {'add': sgn(a, w) + sgn(b, w), 'sub': sgn(a, w) - sgn(b, w), 'mul': sgn(a, w) * sgn(b, w)}[op]
                ok = int(-(1 << (w - 1)) <= r < (1 << (w - 1)))
                if ok:
                    return True
            else:
                x, y = bv(a, w), bv(b, w)
                if op == 'add':
                    ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == 'sub':
                    ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                ok = simp(ok)
            return self.oblige(st, ok, 'arithmetic', 'signed %s does not overflow' % op, fr, ins)
        return True

    def wide(self, a, w):
        """zero extension to 64 bits; a narrowed quotient or remainder is below 2^w already"""
        if is_sym(a):
            h = self.narrow.get(a.get_id())
            if h and h[1] == w:
                return h[2]
        return bv(zext(a, w, 64), 64)

    def signmag(self, a, w):
        """sign and magnitude (of a quotient or remainder: as computed, which is exact unless the division overflows)"""
        if is_sym(a):
            h = self.signmags.get(a.get_id())
            if h:
                return h[1], h[2]
        sa = icmp('slt', w, a, 0)
        return sa, ite(sa, binop('sub', w, 0, a), a, w)

    def product(self, a, b, w):
        """(z / c) * c = z - z % c, which does not overflow; also for the quotient of a negative number"""
        if isinstance(a, int):
            a, b = b, a
        if isinstance(a, int) or not isinstance(b, int):
            return None
        h = self.signmags.get(a.get_id())
        if h and sgn(b, w) > 0:
            r = self.product(h[2], b, w)
            return None if r is None else ite(h[1], binop('sub', w, 0, r), r, w)
        h = self.narrow.get(a.get_id())
        q = self.quots.get(h[2].get_id() if h and h[1] == w else a.get_id())
        if not q or q[2] != b:
            return None
        z, c = q[1], q[2]
        s = z3.BitVecSort(64)
        t = z3.Function('vp!urem', s, s, s)(z, z3.BitVecVal(c, 64))
        if t.get_id() not in self.smt.axioms:
            self.smt.add_axioms(t, [z3.ULT(t, c), z3.ULE(t, z), z == q[0] * c + t])
        return trunc(binop('sub', 64, z, t), 64, w)

    def absdiv(self, op, w, a, b):
        """division by a symbolic or non-power-of-two divisor: an uninterpreted
        function with the lemmas of engine/lemmas.py (proved there over Int)"""
        if op in ('sdiv', 'srem'):
            # truncated division, by sign and magnitude
            (sa, ma), (sb, mb) = self.signmag(a, w), self.signmag(b, w)
            r = self.absdiv('udiv' if op == 'sdiv' else 'urem', w, ma, mb)
            neg = binop('xor', 1, sa, sb) if op == 'sdiv' else sa
            e = ite(neg, binop('sub', w, 0, r), r, w)
            if is_sym(e):
                self.signmags[e.get_id()] = (e, binop('and', 1, neg, icmp('ne', w, r, 0)), r)
            return e
        if isinstance(b, int) and b & (b - 1) == 0:
            return binop(op, w, a, b)
        # one function for all widths: division commutes with zero extension
        s = z3.BitVecSort(64)
        x, y = self.wide(a, w), self.wide(b, w)
        r = z3.Function('vp!urem', s, s, s)(x, y)
        if isinstance(b, int) and b:
            # (z / c) / b = z / (c * b)
            z, c = x, b
            h = self.quots.get(x.get_id())
            if h:
                z, c = h[1], h[2] * b
            if c >= 2**64:
                q = z3.BitVecVal(0, 64)
            else:
                q = z3.Function('vp!udiv', s, s, s)(z, z3.BitVecVal(c, 64))
                self.quots[q.get_id()] = (q, z, c)
                if q.get_id() not in self.smt.axioms:
                    t = z3.Function('vp!urem', s, s, s)(z, z3.BitVecVal(c, 64))
                    fs = [z3.ULE(q, z3.BitVecVal((2**64 - 1) // c, 64)), z3.ULT(z, c) == (q == 0)]
                    self.smt.add_axioms(q, fs)
                    self.smt.add_axioms(t, fs)
            if op == 'urem' and r.get_id() not in self.smt.axioms:
                self.smt.add_axioms(r, [z3.ULT(r, y), x == q * b + r])
        else:
            q = z3.Function('vp!udiv', s, s, s)(x, y)
            if q.get_id() not in self.smt.axioms:
                nz = y != 0
                ge2 = z3.UGE(y, 2)
                fs = [z3.Implies(nz, z3.And(z3.ULE(q, x), z3.ULT(r, y), z3.ULE(r, x))),
                      z3.Implies(ge2, z3.ULE(q, z3.LShR(x, 1))),
                      z3.Implies(z3.ULT(x, y), z3.And(q == 0, r == x)),
                      z3.Implies(z3.And(nz, z3.UGE(x, y)), q != 0)]
                self.smt.add_axioms(q, fs)
                self.smt.add_axioms(r, fs)
        v = q if op == 'udiv' else r
        if w == 64:
            return v
        e = simp(z3.Extract(w - 1, 0, v))
        self.narrow[e.get_id()] = (e, w, v)
        return e

    def quotient_times(self, w, a, b):
        """(x / y) * y = x - x % y, for the quotients made by absdiv"""
        for u, v in ((a, b), (b, a)):
            if not is_sym(u):
                continue
            u = self.wide(u, w)
            u = z3.simplify(u) if is_sym(u) else u
            if not z3.is_app(u) or u.decl().name() != 'vp!udiv':
                continue
            x, y = u.children()
            if z3.simplify(self.wide(v, w)).eq(z3.simplify(y)):
                s = z3.BitVecSort(64)
                e = x - z3.Function('vp!urem', s, s, s)(x, y)
                return simp(e if w == 64 else z3.Extract(w - 1, 0, e))
        return None

    def absmul(self, a, b):
        """the product of two unknown 64-bit numbers: an uninterpreted function, with the laws of 0, 1 and commutativity"""
        if isinstance(a, int) or isinstance(b, int) or not self.opts.abs_div or not self.opts.abs_mul or z3.is_bv_value(a) or z3.is_bv_value(b):
            return binop('mul', 64, a, b) if isinstance(a, int) or isinstance(b, int) else simp(a * b)
        s = z3.BitVecSort(64)
        F = z3.Function('vp!mul', s, s, s)
        t, u = F(a, b), F(b, a)
        if t.get_id() not in self.smt.axioms:
            fs = [t == u, z3.Implies(a == 0, t == 0), z3.Implies(b == 0, t == 0), z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a)]
            self.smt.add_axioms(t, fs)
            self.smt.add_axioms(u, fs)
        return t

    def ptrcmp(self, pred, a, b):
        if isinstance(a, int):
            a = Ptr(0, a)
        if isinstance(b, int):
            b = Ptr(0, b)
        if a is UNDEF or b is UNDEF:
            return fresh('undef', 1)
        if a.rid == b.rid:
            return icmp(pred, 64, a.off, b.off)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        if a.rid == 0 and a.off == 0:
            return int(pred in ('ult', 'ule'))
        if b.rid == 0 and b.off == 0:
            return int(pred in ('ugt', 'uge'))
        return icmp(pred, 64, self.ptrtoint(a), self.ptrtoint(b))

    def cast(self, op, t, t2, v):
        if v is UNDEF:
            return UNDEF
        if op == 'zext':
            return zext(v, t[1], t2[1])
        if op == 'sext':
            return sext(v, t[1], t2[1])
        if op == 'trunc':
            return trunc(self.ptrtoint(v) if isinstance(v, Ptr) else v, t[1], t2[1])
        if op == 'ptrtoint':
            return resize(self.ptrtoint(v), 64, t2[1])
        if op == 'inttoptr':
            return v if isinstance(v, Ptr) else self.inttoptr(v)
        if op == 'bitcast':
            return v
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------------ if-merge
    def ipdom(self, f):
        r = self.cfg.get(f.name)
        if r is not None:
            return r
        succ = {b: ir.succs(f, b) for b in f.order}
        END = '!end'
        nodes = [b for b in f.order]
        pd = {b: None for b in nodes}
        # iterative set-based post-dominators (functions are small)
        allb = set(nodes) | {END}
        P = {b: set(allb) for b in nodes}
        P[END] = {END}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                ss = succ[b] or [END]
                n = set.intersection(*[P[s] for s in ss]) | {b}
                if n != P[b]:
                    P[b] = n
                    ch = True
        for b in nodes:
            c = P[b] - {b}
            # immediate: the one post-dominated by all others
            for x in c:
                if x != END and all(y in P[x] for y in c):
                    pd[b] = x
        self.cfg[f.name] = (pd, succ)
        return self.cfg[f.name]

    PURE = {'icmp', 'phi', 'br', 'condbr', 'select', 'zext', 'sext', 'trunc', 'load', 'getelementptr', 'freeze',
            'call', 'invoke', 'bitcast', 'ptrtoint'} | ir.BINOPS

    def try_merge(self, fr, st, regs, block, c, tm, fm, ins, work):
        """short-circuit boolean expressions: evaluate both sides up to the join and
        merge with if-then-else when nothing but i1 phis differ"""
        f = fr.f
        pd, succ = self.ipdom(f)
        J = pd.get(block)
        if J is None:
            return False
        phis = []
        for x in f.blocks[J]:
            if x.op != 'phi':
                break
            phis.append(x)
        if self.opts.merge_ints:
            if any(x.ty[0] != 'i' for x in phis):
                return False
        elif not phis or any(x.ty != ir.I1 for x in phis):
            return False
        reg = set()
        todo = [s for s in succ[block]]
        while todo:
            b = todo.pop()
            if b == J or b in reg:
                continue
            if b == block or b in f.loops:
                return False
            reg.add(b)
            if len(reg) > 80:
                return False
            todo.extend(succ[b])
        if J in f.loops and block not in f.loops[J]:
            pass
        for b in reg:
            for x in f.blocks[b]:
                if x.op not in self.PURE:
                    return False
        base = st.fork()
        n0, na = len(st.pc), st.nassume
        s1 = st.fork()
        s1.pc.append(c)
        s1.model = tm
        s2 = st.fork()
        s2.pc.append(simp(z3.Not(c)))
        s2.model = fm
        ent = []
        direct = []
        for s, b in ((s1, ins.extra[0]), (s2, ins.extra[1])):
            if b == J:
                direct.append(Outcome('exit', s, None, dict(regs), J, block))
            else:
                ent.append((s, dict(regs), b, block))
        outs = direct + self.run(fr, ent, reg, None)
        if not all(o.kind == 'exit' and o.block == J for o in outs):
            return self.push_outs(outs, work)
        ok = True
        for o in outs:
            if o.st.nassume != na or o.st.exc != base.exc or len(o.st.log) != len(base.log) \
                    or not self.same_mem(base, o.st):
                ok = False
        if not ok:
            return self.push_outs(outs, work)
        # evaluate the phis
        newv = {}
        for x in phis:
            vals = []
            for o in outs:
                for v, b in x.args:
                    if b == o.prev:
                        vals.append(self.val(o.st, o.regs, v, x.ty))
            val = vals[-1]
            for o, v in list(zip(outs, vals))[-2::-1]:
                val = ite(b_and(*o.st.pc[n0:]), v, val, x.ty[1])
            newv[x.res] = val
        facts = max(o.st.ghost.get('facts', 0) for o in outs)
        if facts != base.ghost.get('facts', 0):
            base.add(b_or(*[b_and(*o.st.pc[n0:]) for o in outs]))
            base.ghost['facts'] = facts
        r = dict(regs)
        r.update(newv)
        work.append((base, r, J, None, len(phis)))
        return True

    def push_outs(self, outs, work):
        for o in outs:
            if o.kind == 'exit':
                work.append((o.st, o.regs, o.block, o.prev))
            else:
                work.append(('outcome', o))
        return True

    # ---------------------------------------------------------------- exceptions
    def type_bases(self, ti):
        """list of typeinfo names ti derives from (itself first)"""
        out = [ti]
        if ti in STD_BASES:
            if STD_BASES[ti]:
                out += self.type_bases(STD_BASES[ti])
            return out
        g = self.mod.globals.get(ti)
        if g and g[1] is not None and g[1][0] == 'agg':
            for (t, v) in g[1][2][2:]:
                if v[0] == 'glob':
                    out += self.type_bases(v[1])
        return out

    def typeid(self, name):
        i = self.typeids.get(name)
        if i is None:
            i = len(self.typeids) + 1
            self.typeids[name] = i
        return i

    def unwind(self, fr, st, regs, block, prev, exc, work, outs):
        f = fr.f
        instrs = f.blocks[block]
        i = 0
        newv = []
        while instrs[i].op == 'phi':
            x = instrs[i]
            for v, b in x.args:
                if b == prev:
                    newv.append((x.res, self.val(st, regs, v, x.ty)))
            i += 1
        lp = instrs[i]
        if lp.op != 'landingpad':
            raise Unsupported('no landingpad')
        clauses, cleanup = lp.extra
        sel = None
        bases = self.type_bases(exc[1])
        for kind, cv in clauses:
            if kind == 'filter':
                raise Unsupported('exception filter')
            if cv[0] == 'null':
                sel = self.typeid('*')
                break
            if cv[0] == 'glob' and cv[1] in bases:
                sel = self.typeid(cv[1])
                break
        if sel is None:
            if not cleanup:
                outs.append(Outcome('throw', st, exc))
                return
            sel = 0
        for r, v in newv:
            regs[r] = v
        st.ghost[('exc', exc[0].rid)] = exc
        regs[lp.res] = Agg([exc[0], sel])
        work.append((st, regs, block, None, i + 1))

    # --------------------------------------------------------------------- calls
    def do_call(self, fr, st, regs, ins):
        callee, cargs = ins.args
        args = []
        for t, v, bvt in cargs:
            if t == ('metadata',):
                args.append(None)
                continue
            a = self.val(st, regs, v, t)
            if bvt is not None:
                # byval copy
                n = self.mod.sizeof(bvt)
                p = st.alloc(n, kind='stack', name='byval')
                fr.allocas.append(p.rid)
                src = self.access(st, a, n, 'read', fr, ins)
                if src is None:
                    return []
                st.wobj(p.rid).copy_in(st, 0, n, src, a.off)
                a = p
            args.append(a)
        if callee[0] == 'glob':
            name = callee[1]
        else:
            p = self.val(st, regs, callee, ir.PTR)
            if not isinstance(p, Ptr) or p.rid not in self.ridfn:
                if isinstance(p, Ptr) and p.rid == 0:
                    self.oblige(st, 0, 'memory', 'call through a null pointer', fr, ins)
                    return []
                raise Unsupported('indirect call to %r' % (p,))
            name = self.ridfn[p.rid]
        return self.call(st, name, args, fr, ins)

    def find_handler(self, name):
        import lib
        return lib.find(self, name)

    # --------------------------------------------------------------------- loops
    def loop(self, fr, st, regs, header, prev):
        import loops
        return loops.run_loop(self, fr, st, regs, header, prev)

    # ---------------------------------------------------------------------- main
    def run_harness(self, name):
        st = State(self)
        st.model = None
        f = self.mod.functions.get(name)
        if f is None:
            raise Unsupported('no harness ' + name)
        fr = Fn(f)
        import sys
        sys.setrecursionlimit(20000)
        outs = self.call(st, name, [], fr, None)
        for o in outs:
            if o.kind == 'throw':
                self.oblige(o.st, 0, 'exception', 'no unexpected exception (%s)' % o.val[1], fr, None)
        return outs


def cells_eq(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        wa, va = a[k]
        wb, vb = b[k]
        if wa != wb:
            return False
        if va is vb:
            continue
        if is_sym(va) and is_sym(vb):
            if not va.eq(vb):
                return False
        elif isinstance(va, Ptr) and isinstance(vb, Ptr):
            if va.rid != vb.rid:
                return False
            if is_sym(va.off) or is_sym(vb.off):
                if not (is_sym(va.off) and is_sym(vb.off) and va.off.eq(vb.off)):
                    return False
            elif va.off != vb.off:
                return False
        elif isinstance(va, int) and isinstance(vb, int):
            if va != vb:
                return False
        else:
            return False
    return True
