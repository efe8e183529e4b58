"""Contracts assumed for what lies outside /repo: the C++ runtime, the C library,
std::basic_string and std::vector mutators, plus the vp_* contract vocabulary."""
import re
import z3
from val import *
from mem import *
import machine
from machine import Outcome

ES = {'char': 1, 'char8_t': 1, 'char16_t': 2, 'char32_t': 4, 'wchar_t': 4, 'signed char': 1, 'unsigned char': 1,
      'unsigned short': 2, 'short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'std::byte': 1,
      'float': 4, 'double': 8, 'long long': 8, 'unsigned long long': 8}

EXACT = {}
RX = []
MAXLEN = 1 << 56


def exact(*names):
    def d(fn):
        for n in names:
            EXACT[n] = fn
        return fn
    return d


def rx(pat, assume=None):
    def d(fn):
        RX.append((re.compile(pat), fn, assume))
        return fn
    return d


def install(eng):
    eng.assumed = set()


def find(eng, name):
    if name in EXACT:
        return EXACT[name]
    if name.startswith('llvm.'):
        for k in sorted(LLVM, key=len, reverse=True):
            if name.startswith(k):
                return LLVM[k]
        raise Unsupported('intrinsic ' + name)
    d = eng.demangled(name)
    for r, fn, assume in RX:
        m = r.match(d)
        if m:
            def h(eng, st, args, fr, ins, fn=fn, m=m, d=d, name=name, assume=assume):
                res = fn(eng, st, args, fr, ins, m)
                if res is not NotImplemented and assume:
                    eng.assumed.add(assume)
                return res
            return h
    for pred in eng.__dict__.get('contracts', []):
        h = pred(name, d)
        if h:
            return h
    return False


def ret(st, v=None):
    return [Outcome('ret', st, v)]


def cstring(eng, st, p):
    o = st.obj(p.rid)
    b = bytearray()
    i = p.off
    while True:
        v = o.read(st, i, 1)
        if not isinstance(v, int):
            raise Unsupported('symbolic C string name')
        if v == 0:
            return b.decode('latin1')
        b.append(v)
        i += 1


# ------------------------------------------------------------------ vp_* vocabulary
def nondet(w):
    def h(eng, st, args, fr, ins):
        name = cstring(eng, st, args[0])
        k = st.nd.get(name, 0)
        st.nd[name] = k + 1
        full = '%s#%d' % (name, k)
        ci = eng.opts.concrete_inputs
        if ci is not None:
            v = ci.get(full, 0) & mask(w)
        else:
            v = z3.Bool(full) if w == 1 else z3.BitVec(full, w)
        st.log = st.log + (('nd', full, w, v),)
        return ret(st, v)
    return h


for _n, _w in (('vp_u8', 8), ('vp_u16', 16), ('vp_u32', 32), ('vp_u64', 64), ('vp_bool', 1)):
    EXACT[_n] = nondet(_w)


@exact('vp_array')
def vp_array(eng, st, args, fr, ins):
    n, ew = args[0], args[1]
    name = cstring(eng, st, args[2])
    k = st.nd.get(name, 0)
    st.nd[name] = k + 1
    full = '%s#%d' % (name, k)
    ci = eng.opts.concrete_inputs
    if ci is not None:
        vals = ci.get(full, [])
        b = b''.join((v & mask(8 * ew)).to_bytes(ew, 'little') for v in vals)
        size = n * ew
        b = (b + bytes(size))[:size]
        p = st.alloc(size, Bytes(b), 'array', name)
        st.log = st.log + (('arr', full, ew, n, None),)
        return ret(st, p)
    if is_sym(n):
        st.add(icmp('ule', 64, n, MAXLEN))
    base = Base(full, ew)
    p = st.alloc(binop('mul', 64, n, ew), base, 'array', name)
    st.log = st.log + (('arr', full, ew, n, base),)
    st.ghost[('arr', name)] = (n, base, p)
    return ret(st, p)


@exact('vp_assume')
def vp_assume(eng, st, args, fr, ins):
    c = args[0]
    if isinstance(c, int):
        return ret(st) if c else []
    st.add(c)
    st.nassume += 1
    return ret(st) if st.feasible() else []


@exact('vp_assert')
def vp_assert(eng, st, args, fr, ins):
    d = cstring(eng, st, args[1])
    if eng.oblige(st, args[0], 'ensures', d, fr, ins):
        return ret(st)
    return []


@exact('vp_fail')
def vp_fail(eng, st, args, fr, ins):
    d = cstring(eng, st, args[0])
    eng.oblige(st, 0, 'ensures', d, fr, ins)
    return []


@exact('vp_cover')
def vp_cover(eng, st, args, fr, ins):
    d = cstring(eng, st, args[0])
    if d not in eng.covered and not eng.quiet and st.feasible():
        eng.covered.add(d)
    return ret(st)


@exact('vp_uf1', 'vp_uf2', 'vp_uf3')
def vp_uf(eng, st, args, fr, ins):
    name = cstring(eng, st, args[0])
    a = args[1:]
    if eng.opts.concrete_inputs is not None:
        raise Unsupported('ghost function in concrete mode')
    s = z3.BitVecSort(64)
    f = z3.Function('ghost!' + name, *([s] * (len(a) + 1)))
    return ret(st, simp(f(*[bv(x, 64) for x in a])))


@exact('vp_havoc')
def vp_havoc(eng, st, args, fr, ins):
    """vp_havoc(ptr, nbytes, ew, name): arbitrary contents, recorded as an input"""
    p, n, ew = args[0], args[1], args[2]
    name = cstring(eng, st, args[3])
    o = eng.access(st, p, n, 'havoc', fr, ins, True)
    if o is None:
        return []
    k = st.nd.get(name, 0)
    st.nd[name] = k + 1
    full = '%s#%d' % (name, k)
    ci = eng.opts.concrete_inputs
    cnt = n // ew if isinstance(n, int) else simp(z3.UDiv(n, BV(ew, 64)))
    if ci is not None:
        vals = ci.get(full, [])
        b = b''.join((v & mask(8 * ew)).to_bytes(ew, 'little') for v in vals)
        src = Obj(n, Bytes((b + bytes(n))[:n]))
        base = None
    else:
        base = Base(full, ew)
        src = Obj(n, base)
    st.log = st.log + (('arr', full, ew, cnt, base),)
    o.copy_in(st, p.off, n, src, 0)
    return ret(st)


@exact('vp_split')
def vp_split(eng, st, args, fr, ins):
    """vp_split(v, lo, hi): case split a value into its concrete values lo..hi (a range obligation is
    not generated: values outside stay symbolic)"""
    v, lo, hi = args
    if isinstance(v, int):
        return ret(st, v)
    outs = []
    rest = st
    for k in range(lo, hi + 1):
        c = icmp('eq', 64, v, k)
        if isinstance(c, int):
            continue
        if rest.feasible(c):
            s2 = rest.fork()
            s2.add(c)
            outs.append(Outcome('ret', s2, k))
        rest.add(b_not(c))
    if rest.feasible():
        outs.append(Outcome('ret', rest, v))
    return outs


@exact('vp_same_object')
def vp_same_object(eng, st, args, fr, ins):
    a, b = args
    return ret(st, int(isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid))


# ------------------------------------------------------------------ C++ runtime
@exact('__cxa_allocate_exception')
def alloc_exc(eng, st, args, fr, ins):
    return ret(st, st.alloc(args[0], kind='exception', name='exception'))


@exact('__cxa_free_exception', '__cxa_end_catch_dummy')
def free_exc(eng, st, args, fr, ins):
    return ret(st)


@exact('__cxa_throw')
def cxa_throw(eng, st, args, fr, ins):
    ti = eng.globs.get(args[1].rid, '?')
    return [Outcome('throw', st, (args[0], ti))]


@exact('__cxa_begin_catch')
def begin_catch(eng, st, args, fr, ins):
    e = st.ghost[('exc', args[0].rid)]
    st.exc = st.exc + (e,)
    return ret(st, args[0])


@exact('__cxa_end_catch')
def end_catch(eng, st, args, fr, ins):
    st.exc = st.exc[:-1]
    return ret(st)


@exact('__cxa_rethrow')
def cxa_rethrow(eng, st, args, fr, ins):
    if not st.exc:
        raise Unsupported('rethrow')
    return [Outcome('throw', st, st.exc[-1])]


@exact('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual', 'exit')
def terminate(eng, st, args, fr, ins):
    why = 'the process is not terminated (std::terminate / abort)'
    if args and isinstance(args[0], Ptr) and ('exc', args[0].rid) in st.ghost:
        why = 'no exception leaves a noexcept function (%s)' % st.ghost[('exc', args[0].rid)][1]
    eng.oblige(st, 0, 'exception', why, fr, ins)
    return []


@exact('__cxa_guard_acquire')
def guard_acquire(eng, st, args, fr, ins):
    o = st.obj(args[0].rid)
    v = o.read(st, args[0].off, 1)
    return ret(st, 0 if v == 1 else 1)


@exact('__cxa_guard_release')
def guard_release(eng, st, args, fr, ins):
    st.wobj(args[0].rid).write(st, args[0].off, 1, 1)
    return ret(st)


@exact('__cxa_atexit', '__cxa_guard_abort')
def nop0(eng, st, args, fr, ins):
    return ret(st, 0)


@exact('_ZNSt3_V215system_categoryEv', '_ZNSt3_V216generic_categoryEv')
def error_category(eng, st, args, fr, ins):
    return ret(st, st.alloc(8, kind='heap', name='error category'))


@exact('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def op_new(eng, st, args, fr, ins):
    eng.assumed.add('allocation succeeds (operator new never throws std::bad_alloc)')
    return ret(st, st.alloc(args[0], kind='heap', name='heap'))


@exact('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free')
def op_delete(eng, st, args, fr, ins):
    p = args[0]
    if isinstance(p, int):
        p = Ptr(0, p)
    if p.rid == 0:
        return ret(st)
    o = st.wobj(p.rid)
    ok = int(o is not None and o.alive and o.kind in ('heap', 'string', 'vector') and p.off == 0)
    if not eng.oblige(st, ok, 'memory', 'delete of a live heap block', fr, ins):
        return []
    o.alive = False
    return ret(st)


THROW_TI = {
    'std::__throw_length_error': '_ZTISt12length_error', 'std::__throw_logic_error': '_ZTISt11logic_error',
    'std::__throw_out_of_range_fmt': '_ZTISt12out_of_range', 'std::__throw_out_of_range': '_ZTISt12out_of_range',
    'std::__throw_bad_alloc': '_ZTISt9bad_alloc', 'std::__throw_bad_array_new_length': '_ZTISt9bad_alloc',
    'std::__throw_bad_cast': '_ZTISt8bad_cast', 'std::__throw_invalid_argument': '_ZTISt16invalid_argument',
}


@rx(r'^(std::__throw_\w+)\(')
def std_throw(eng, st, args, fr, ins, m):
    ti = THROW_TI.get(m.group(1))
    if not ti:
        raise Unsupported(m.group(1))
    eng.global_ptr(ti)
    p = st.alloc(16, kind='exception', name='exception')
    return [Outcome('throw', st, (p, ti))]


@rx(r'^std::(exception|logic_error|runtime_error|invalid_argument|out_of_range|length_error|domain_error|range_error|'
    r'system_error|bad_alloc|bad_cast)::(~?\w+)\(')
def std_exc(eng, st, args, fr, ins, m):
    if m.group(2).startswith('~') or m.group(1) == m.group(2):
        return ret(st)
    raise Unsupported('std exception member')


# ------------------------------------------------------------------ C library
@exact('memcpy', 'memmove')
def c_memcpy(eng, st, args, fr, ins):
    return copy_bytes(eng, st, args[0], args[1], args[2], fr, ins, args[0])


@exact('memset')
def c_memset(eng, st, args, fr, ins):
    return set_bytes(eng, st, args[0], trunc(args[1], 32, 8), args[2], fr, ins, args[0])


def copy_bytes(eng, st, d, s, n, fr, ins, rv=None):
    if isinstance(n, int) and n == 0:
        return ret(st, rv)
    if is_sym(n):
        z = icmp('eq', 64, n, 0)
        k = st.decide(z)
        if k == 1:
            return ret(st, rv)
        # a zero-length copy from/to null is tolerated by the runtime used here
        if k is None and (rid0(d) or rid0(s)):
            s2 = st.fork()
            s2.add(z)
            st.add(b_not(z))
            return ret(s2, rv) + copy_bytes(eng, st, d, s, n, fr, ins, rv)
    so = eng.access(st, s, n, 'read (copy)', fr, ins)
    if so is None:
        return []
    do = eng.access(st, d, n, 'write (copy)', fr, ins, True)
    if do is None:
        return []
    so = st.obj(s.rid)
    do.copy_in(st, d.off, n, so, s.off)
    return ret(st, rv)


def rid0(p):
    return isinstance(p, int) or (isinstance(p, Ptr) and p.rid == 0)


def set_bytes(eng, st, d, v, n, fr, ins, rv=None):
    if isinstance(n, int) and n == 0:
        return ret(st, rv)
    o = eng.access(st, d, n, 'write (fill)', fr, ins, True)
    if o is None:
        return []
    o.fill_in(st, d.off, n, v)
    return ret(st, rv)


def strlen_model(ew):
    def h(eng, st, args, fr, ins, m=None):
        """n = first index holding 0; obligation: a zero element lies inside the object"""
        p = args[0]
        o = eng.access(st, p, ew, 'read (string length)', fr, ins)
        if o is None:
            return []
        # concrete prefix
        off = p.off
        i = 0
        while isinstance(off, int) and i < 4096:
            if isinstance(o.size, int) and off + ew * (i + 1) > o.size:
                break
            v = o.read(st, off + ew * i, ew)
            if not isinstance(v, int):
                break
            if v == 0:
                return ret(st, i)
            i += 1
        cap = sub64(o.size, off)
        n = fresh('strlen', 64)
        w = fresh('strlenw', 64)
        # n is the least zero index.  Existence is the callee's precondition: it is
        # discharged from a zero element known to the contract (ghost term), else undecided.
        term = st.ghost.get(('term', p.rid))
        if term is None:
            raise Unsupported('length of an unterminated symbolic string')
        tcond = st.must(b_and(icmp('ult', 64, term, o.size),
                              icmp('eq', 8 * ew, o.read(st, term, ew), 0), icmp('ule', 64, off, term)))
        if not eng.oblige(st, 1 if tcond else 0, 'requires', 'string passed to strlen/wcslen is terminated', fr, ins):
            return []
        bo = binop('mul', 64, n, ew)
        st.add(icmp('ule', 64, n, MAXLEN))
        st.add(icmp('ule', 64, add64(off, bo), term))
        st.add(icmp('eq', 8 * ew, o.read(st, add64(off, bo), ew), 0))
        # minimality, instantiated at the harness' skolem index
        for k in st.ghost.get('skolems', ()):
            kb = binop('mul', 64, k, ew)
            c = icmp('ult', 64, k, n)
            st.add(b_or(b_not(c), icmp('ne', 8 * ew, o.read(st, add64(off, kb), ew), 0)))
        eng.assumed.add('strlen/wcslen return the index of the first zero element')
        return ret(st, n)
    return h


EXACT['strlen'] = strlen_model(1)
EXACT['wcslen'] = strlen_model(4)


@exact('vp_terminated')
def vp_terminated(eng, st, args, fr, ins):
    """ghost: the element at byte offset args[1] of object args[0] is zero (a witness for strlen)"""
    st.ghost[('term', args[0].rid)] = args[1]
    return ret(st)


@exact('vp_skolem')
def vp_skolem(eng, st, args, fr, ins):
    st.ghost['skolems'] = st.ghost.get('skolems', ()) + (args[0],)
    return ret(st)


def compare_model(ew, sign):
    def h(eng, st, args, fr, ins, m=None):
        """memcmp-like: 0 iff all n elements are equal.  QF encoding: equal on the skolem
        indices if 0, a witness index where they differ otherwise."""
        a, b, n = args[0], args[1], args[2]
        if isinstance(n, int) and n == 0:
            return ret(st, 0)
        oa = eng.access(st, a, binop('mul', 64, n, ew), 'read (compare)', fr, ins)
        if oa is None:
            return []
        ob = eng.access(st, b, binop('mul', 64, n, ew), 'read (compare)', fr, ins)
        if ob is None:
            return []

        def ra(i):
            return oa.read(st, add64(a.off, binop('mul', 64, i, ew)), ew)

        def rb(i):
            return ob.read(st, add64(b.off, binop('mul', 64, i, ew)), ew)
        if isinstance(n, int) and n <= 64:
            eq = b_and(*[icmp('eq', 8 * ew, ra(i), rb(i)) for i in range(n)])
            if isinstance(eq, int):
                if eq:
                    return ret(st, 0)
                for i in range(n):
                    x, y = ra(i), rb(i)
                    if isinstance(x, int) and isinstance(y, int):
                        if x != y:
                            return ret(st, 1 if x > y else mask(32))
                    else:
                        break
            r = fresh('cmp', 32)
            st.add(icmp('eq', 1, eq, icmp('eq', 32, r, 0)))
            return ret(st, r)
        r = fresh('cmp', 32)
        w = fresh('cmpw', 64)
        st.ghost['facts'] = st.ghost.get('facts', 0) + 1
        z = icmp('eq', 32, r, 0)
        st.add(b_or(z, b_and(icmp('ult', 64, w, n), icmp('ne', 8 * ew, ra(w), rb(w)))))
        for k in st.ghost.get('skolems', ()):
            st.add(b_or(b_not(z), icmp('uge', 64, k, n), icmp('eq', 8 * ew, ra(k), rb(k))))
        eng.assumed.add('memcmp/char_traits::compare return 0 exactly when all elements are equal')
        return ret(st, r)
    return h


for _n in ('memcmp', 'bcmp'):
    EXACT[_n] = compare_model(1, True)
EXACT['wmemcmp'] = compare_model(4, True)


A_CTYPE = ('tolower/toupper are those of glibc in the "C" locale: ASCII letters are mapped, every other int value is '
           'returned unchanged')


@exact('tolower')
def c_tolower(eng, st, args, fr, ins):
    c = args[0]
    eng.assumed.add(A_CTYPE)
    up = b_and(icmp('uge', 32, c, 65), icmp('ule', 32, c, 90))
    return ret(st, ite(up, binop('add', 32, c, 32), c, 32))


@exact('toupper')
def c_toupper(eng, st, args, fr, ins):
    c = args[0]
    eng.assumed.add(A_CTYPE)
    lo = b_and(icmp('uge', 32, c, 97), icmp('ule', 32, c, 122))
    return ret(st, ite(lo, binop('sub', 32, c, 32), c, 32))


def c_abs(w):
    def h(eng, st, args, fr, ins):
        v = args[0]
        if not eng.oblige(st, icmp('ne', w, v, 1 << (w - 1)), 'arithmetic', 'abs of the most negative value', fr, ins):
            return []
        return ret(st, ite(icmp('slt', w, v, 0), binop('sub', w, 0, v), v, w))
    return h


EXACT['abs'] = c_abs(32)
EXACT['labs'] = EXACT['llabs'] = c_abs(64)


# ------------------------------------------------------------------ LLVM intrinsics
LLVM = {}


def llvm(*names):
    def d(fn):
        for n in names:
            LLVM[n] = fn
        return fn
    return d


@llvm('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.donothing', 'llvm.stackrestore',
      'llvm.var.annotation', 'llvm.invariant')
def l_nop(eng, st, args, fr, ins):
    return ret(st)


@llvm('llvm.memcpy', 'llvm.memmove')
def l_memcpy(eng, st, args, fr, ins):
    return copy_bytes(eng, st, args[0], args[1], args[2], fr, ins)


@llvm('llvm.memset')
def l_memset(eng, st, args, fr, ins):
    return set_bytes(eng, st, args[0], args[1], args[2], fr, ins)


@llvm('llvm.eh.typeid.for')
def l_typeid(eng, st, args, fr, ins):
    p = args[0]
    if isinstance(p, int) or p.rid == 0:
        return ret(st, eng.typeid('*'))
    return ret(st, eng.typeid(eng.globs.get(p.rid)))


@llvm('llvm.trap', 'llvm.ubsantrap')
def l_trap(eng, st, args, fr, ins):
    eng.oblige(st, 0, 'undefined', 'undefined behaviour trap not reached (missing return / unreachable)', fr, ins)
    return []


@llvm('llvm.expect')
def l_expect(eng, st, args, fr, ins):
    return ret(st, args[0])


@llvm('llvm.is.constant')
def l_isconst(eng, st, args, fr, ins):
    return ret(st, 0)


@llvm('llvm.stacksave')
def l_stacksave(eng, st, args, fr, ins):
    return ret(st, NULL)


@llvm('llvm.abs')
def l_abs(eng, st, args, fr, ins):
    w = ins.ty[1]
    v, poison = args[0], args[1]
    if poison == 1:
        if not eng.oblige(st, icmp('ne', w, v, 1 << (w - 1)), 'arithmetic', 'abs of the most negative value', fr, ins):
            return []
    return ret(st, ite(icmp('slt', w, v, 0), binop('sub', w, 0, v), v, w))


@llvm('llvm.bswap')
def l_bswap(eng, st, args, fr, ins):
    w = ins.ty[1]
    n = w // 8
    return ret(st, concat_bytes([(extract_bytes(args[0], w, n - 1 - i, 1), 1) for i in range(n)]))


def _ovf(op, signed):
    def h(eng, st, args, fr, ins):
        w = eng.mod.resolve(ins.ty)[2][0][1]
        a, b = args[0], args[1]
        v = binop(op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, w), sgn(b, w)) if signed else (a, b)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            o = int(not (-(1 << (w - 1)) <= r < (1 << (w - 1)))) if signed else int(not (0 <= r <= mask(w)))
        else:
            x, y = bv(a, w), bv(b, w)
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(x, y, signed), z3.BVAddNoUnderflow(x, y)) if signed else \
                    z3.BVAddNoOverflow(x, y, False)
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if signed else \
                    z3.BVSubNoUnderflow(x, y, False)
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, signed), z3.BVMulNoUnderflow(x, y)) if signed else \
                    z3.BVMulNoOverflow(x, y, False)
            o = b_not(simp(ok))
        return ret(st, Agg([v, o]))
    return h


for _o in ('add', 'sub', 'mul'):
    LLVM['llvm.s%s.with.overflow' % _o] = _ovf(_o, True)
    LLVM['llvm.u%s.with.overflow' % _o] = _ovf(_o, False)


def _minmax(pred):
    def h(eng, st, args, fr, ins):
        w = ins.ty[1]
        return ret(st, ite(icmp(pred, w, args[0], args[1]), args[0], args[1], w))
    return h


for _o, _p in (('umax', 'ugt'), ('umin', 'ult'), ('smax', 'sgt'), ('smin', 'slt')):
    LLVM['llvm.%s.' % _o] = _minmax(_p)


# ------------------------------------------------------------------ std::basic_string
STR = r'^std::__cxx11::basic_string<([\w ]+), std::char_traits<[\w ]+>, std::allocator<[\w ]+>>::'
A_STR = 'std::basic_string member functions behave as the C++ standard says (value semantics of the character sequence)'


class Str:
    """view of a std::basic_string object at pointer p (layout: data pointer, size, 16 bytes of SSO/capacity)"""

    def __init__(self, eng, st, p, ew):
        self.eng, self.st, self.p, self.ew = eng, st, p, ew
        self.o = st.obj(p.rid)
        if self.o is None:
            raise Unsupported('string object gone')

    def data(self):
        return self.o.read(self.st, self.p.off, 8)

    def size(self):
        return self.o.read(self.st, add64(self.p.off, 8), 8)

    def content(self):
        d = self.data()
        if not isinstance(d, Ptr):
            raise Unsupported('string without data')
        return self.st.obj(d.rid), d.off

    def init(self, size, build):
        """fresh string: build(obj) fills the content"""
        st = self.st
        d = st.alloc(binop('mul', 64, add64(size, 1), self.ew), kind='string', name='string content')
        o = st.wobj(d.rid)
        build(o)
        o.write(st, binop('mul', 64, size, self.ew), self.ew, 0)
        s = st.wobj(self.p.rid)
        s.write(st, self.p.off, 8, d)
        s.write(st, add64(self.p.off, 8), 8, size)
        self.o = s

    def rebuild(self, size, build):
        """new content in the same region; build(new, old)"""
        st = self.st
        d = self.data()
        if not isinstance(d, Ptr):
            raise Unsupported('string without data')
        old = st.obj(d.rid)
        new = Obj(binop('mul', 64, add64(size, 1), self.ew), UNDEFINED, 'string', 'string content')
        new.owner = st.token
        build(new, old)
        new.write(st, binop('mul', 64, size, self.ew), self.ew, 0)
        st.mem[d.rid] = new
        s = st.wobj(self.p.rid)
        s.write(st, add64(self.p.off, 8), 8, size)
        self.o = s


def str_replace(eng, st, s, pos, n1, size, n2, put):
    """replace [pos,pos+n1) by n2 elements written by put(obj, byteoff)"""
    ew = s.ew
    tail = sub64(sub64(size, pos), n1)
    ns = add64(add64(pos, n2), tail)

    def build(new, old):
        new.copy_in(st, 0, binop('mul', 64, pos, ew), old, 0)
        put(new, binop('mul', 64, pos, ew))
        new.copy_in(st, binop('mul', 64, add64(pos, n2), ew), binop('mul', 64, tail, ew), old,
                    binop('mul', 64, add64(pos, n1), ew))
    s.rebuild(ns, build)


def src_obj(eng, st, p, nbytes, fr, ins):
    if isinstance(nbytes, int) and nbytes == 0:
        return Obj(0)
    o = eng.access(st, p, nbytes, 'read (string source)', fr, ins)
    return o


def bound_pos(eng, st, pos, size, what):
    """split on pos <= size; returns (ok state or None, [throw outcomes])"""
    c = icmp('ule', 64, pos, size)
    k = st.decide(c)
    if k == 1:
        return st, []
    eng.global_ptr('_ZTISt12out_of_range')
    bad = st if k == 0 else st.fork()
    if k is None:
        bad.add(b_not(c))
        st.add(c)
    p = bad.alloc(16, kind='exception', name='exception')
    return (None if k == 0 else st), [Outcome('throw', bad, (p, '_ZTISt12out_of_range'))]


@rx(STR + r'(~?\w+|operator\S*?)(?:<.*>)?\((.*)\)( const)?( &| &&)?$', A_STR)
def str_member(eng, st, args, fr, ins, m):
    return do_string(eng, st, args, fr, ins, m.group(1), m.group(2), m.group(3))


def split_params(s):
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def do_string(eng, st, args, fr, ins, T, mname, params):
    ew = ES.get(T)
    if ew is None:
        return NotImplemented
    ps = [q for q in split_params(params)]
    this = args[0]
    a = args[1:]
    if not isinstance(this, Ptr):
        raise Unsupported('string this')

    def S(p=this):
        return Str(eng, st, p, ew)

    def is_str(q):
        return q.startswith('std::__cxx11::basic_string<')

    def is_ptr(q):
        return q == T + ' const*'

    def is_n(q):
        return q == 'unsigned long'

    def is_alloc(q):
        return q.startswith('std::allocator')
    W = 8 * ew

    def fill(o, off, n, c):
        o.fill_in(st, off, binop('mul', 64, n, ew), c, ew)

    def put_copy(src, soff, n):
        return lambda o, off: o.copy_in(st, off, binop('mul', 64, n, ew), src, soff)

    def put_fill(n, c):
        return lambda o, off: fill(o, off, n, c)

    if mname == 'basic_string':
        if any(is_alloc(q) for q in ps):
            k = [i for i, q in enumerate(ps) if is_alloc(q)][0]
            ps, a = ps[:k] + ps[k + 1:], a[:k] + a[k + 1:]
        if not ps:
            S().init(0, lambda o: None)
            return ret(st)
        if len(ps) == 1 and is_str(ps[0]):
            src = Str(eng, st, a[0], ew)
            n = src.size()
            so, soff = src.content()
            S().init(n, lambda o: o.copy_in(st, 0, binop('mul', 64, n, ew), so, soff))
            if ps[0].endswith('&&'):
                Str(eng, st, a[0], ew).rebuild(0, lambda new, old: None)
            return ret(st)
        if len(ps) == 2 and is_ptr(ps[0]) and is_n(ps[1]):
            n = a[1]
            so = src_obj(eng, st, a[0], binop('mul', 64, n, ew), fr, ins)
            if so is None:
                return []
            S().init(n, lambda o: o.copy_in(st, 0, binop('mul', 64, n, ew), so, a[0].off if isinstance(a[0], Ptr) else 0))
            return ret(st)
        if len(ps) == 1 and is_ptr(ps[0]):
            outs = []
            for o1 in strlen_model(ew)(eng, st, [a[0]], fr, ins):
                s1 = o1.st
                n = o1.val
                so = src_obj(eng, s1, a[0], binop('mul', 64, n, ew), fr, ins)
                if so is None:
                    continue
                Str(eng, s1, this, ew).init(n, lambda o: o.copy_in(s1, 0, binop('mul', 64, n, ew), so, a[0].off))
                outs += ret(s1)
            return outs
        if len(ps) == 2 and is_n(ps[0]) and ps[1] == T:
            S().init(a[0], lambda o: fill(o, 0, a[0], a[1]))
            return ret(st)
        if len(ps) == 1 and ps[0].startswith('std::basic_string_view<') and ps[0].endswith('&'):
            vo = st.obj(a[0].rid)
            n = vo.read(st, a[0].off, 8)
            d = vo.read(st, add64(a[0].off, 8), 8)
            so = src_obj(eng, st, d, binop('mul', 64, n, ew), fr, ins)
            if so is None:
                return []
            S().init(n, lambda o: o.copy_in(st, 0, binop('mul', 64, n, ew), so, d.off if isinstance(d, Ptr) else 0))
            return ret(st)
        if len(ps) == 2 and (ps[0] == ps[1]):
            if is_ptr(ps[0]) or ps[0] == T + '*':
                d, e = a[0], a[1]
                nb = sub64(e.off, d.off)
                n = nb if ew == 1 else simp(z3.LShR(bv(nb, 64), ew.bit_length() - 1))
                so = src_obj(eng, st, d, nb, fr, ins)
                if so is None:
                    return []
                S().init(n, lambda o: o.copy_in(st, 0, nb, so, d.off))
                return ret(st)
        raise Unsupported('basic_string constructor (%s)' % params)
    if mname == '~basic_string':
        d = S().data()
        if isinstance(d, Ptr):
            o = st.wobj(d.rid)
            if o is not None:
                o.alive = False
        return ret(st)
    if mname in ('reserve', 'shrink_to_fit'):
        return ret(st)
    if mname == 'capacity':
        s = S()
        v = fresh('capacity', 64)
        st.add(icmp('uge', 64, v, s.size()))
        st.add(icmp('ule', 64, v, MAXLEN))
        return ret(st, v)
    if mname == 'max_size':
        return ret(st, MAXLEN * 2)
    if mname in ('clear',):
        S().rebuild(0, lambda n, o: None)
        return ret(st)
    if mname == 'push_back':
        s = S()
        n = s.size()
        str_replace(eng, st, s, n, 0, n, 1, put_fill(1, a[0]))
        return ret(st)
    if mname == 'pop_back':
        s = S()
        n = s.size()
        if not eng.oblige(st, icmp('ne', 64, n, 0), 'requires', 'pop_back on a non-empty string', fr, ins):
            return []
        str_replace(eng, st, s, sub64(n, 1), 1, n, 0, lambda o, off: None)
        return ret(st)
    if mname == 'resize':
        s = S()
        n = s.size()
        k = a[0]
        c = a[1] if len(a) > 1 else 0
        g = icmp('ugt', 64, k, n)

        def build(new, old):
            new.fill_in(st, 0, binop('mul', 64, k, ew), c, ew)
            mn = ite(g, n, k, 64)
            new.copy_in(st, 0, binop('mul', 64, mn, ew), old, 0)
        s.rebuild(k, build)
        return ret(st)
    if mname in ('assign', 'operator=', 'append', 'operator+=', 'insert'):
        s = S()
        size = s.size()
        pos = size
        throws = []
        rv = this
        if mname == 'insert':
            if not is_n(ps[0]):
                raise Unsupported('insert(iterator)')
            s2, throws = bound_pos(eng, st, a[0], size, 'insert')
            if s2 is None:
                return throws
            pos = a[0]
            ps, a = ps[1:], a[1:]
        n1 = 0
        if mname in ('assign', 'operator='):
            pos, n1 = 0, size
        if len(ps) == 1 and is_str(ps[0]):
            src = Str(eng, st, a[0], ew)
            n = src.size()
            so, soff = src.content()
            snap = Obj(so.size)
            snap.under = so.snapshot()
            str_replace(eng, st, s, pos, n1, size, n, put_copy(snap, soff, n))
            if ps[0].endswith('&&') and a[0].rid != this.rid:
                Str(eng, st, a[0], ew).rebuild(0, lambda new, old: None)
            return ret(st, rv) + throws
        if len(ps) == 1 and ps[0] == T:
            str_replace(eng, st, s, pos, n1, size, 1, put_fill(1, a[0]))
            return ret(st, rv) + throws
        if len(ps) == 2 and is_n(ps[0]) and ps[1] == T:
            str_replace(eng, st, s, pos, n1, size, a[0], put_fill(a[0], a[1]))
            return ret(st, rv) + throws
        if len(ps) == 2 and is_ptr(ps[0]) and is_n(ps[1]):
            n = a[1]
            so = src_obj(eng, st, a[0], binop('mul', 64, n, ew), fr, ins)
            if so is None:
                return throws
            snap = Obj(so.size)
            snap.under = so.snapshot()
            str_replace(eng, st, s, pos, n1, size, n, put_copy(snap, a[0].off if isinstance(a[0], Ptr) else 0, n))
            return ret(st, rv) + throws
        if len(ps) == 1 and is_ptr(ps[0]):
            outs = list(throws)
            for o1 in strlen_model(ew)(eng, st, [a[0]], fr, ins):
                s1 = o1.st
                n = o1.val
                so = src_obj(eng, s1, a[0], binop('mul', 64, n, ew), fr, ins)
                if so is None:
                    continue
                snap = Obj(so.size)
                snap.under = so.snapshot()
                str_replace(eng, s1, Str(eng, s1, this, ew), pos, n1, size, n,
                            lambda o, off: o.copy_in(s1, off, binop('mul', 64, n, ew), snap, a[0].off))
                outs += ret(s1, rv)
            return outs
        if len(ps) == 1 and ps[0].startswith('std::basic_string_view<'):
            raise Unsupported('string from view')
        raise Unsupported('basic_string::%s(%s)' % (mname, params))
    if mname == 'erase':
        if ps and is_n(ps[0]):
            s = S()
            size = s.size()
            s2, throws = bound_pos(eng, st, a[0], size, 'erase')
            if s2 is None:
                return throws
            rem = sub64(size, a[0])
            n = ite(icmp('ult', 64, a[1], rem), a[1], rem, 64)
            str_replace(eng, st, s, a[0], n, size, 0, lambda o, off: None)
            return ret(st, this) + throws
        raise Unsupported('erase(iterator)')
    if mname in ('size', 'length', 'data', 'c_str', 'begin', 'end', 'cbegin', 'cend', 'empty', 'operator[]', 'at',
                 'front', 'back', '_M_data', 'rbegin', 'rend', 'crbegin', 'crend', 'get_allocator', 'compare', 'find',
                 'operator', '_M_length', '_M_check', '_M_limit', '_S_compare'):
        return NotImplemented           # accessors: executed as they are
    if mname == 'substr':
        return NotImplemented
    if mname == 'swap':
        raise Unsupported('string swap')
    raise Unsupported('basic_string::%s(%s)' % (mname, params))


CT = r'^std::char_traits<([\w ]+)>::'


@rx(CT + r'length\(', 'char_traits::length returns the index of the first zero element')
def ct_length(eng, st, args, fr, ins, m):
    return strlen_model(ES[m.group(1)])(eng, st, args, fr, ins)


@rx(CT + r'compare\(', 'char_traits::compare returns 0 exactly when all elements are equal')
def ct_compare(eng, st, args, fr, ins, m):
    return compare_model(ES[m.group(1)], True)(eng, st, args, fr, ins)


@rx(CT + r'(copy|move)\(', 'char_traits::copy/move copy the elements')
def ct_copy(eng, st, args, fr, ins, m):
    return copy_bytes(eng, st, args[0], args[1], binop('mul', 64, args[2], ES[m.group(1)]), fr, ins, args[0])


# ------------------------------------------------------------------ std::vector
VEC = r'^std::vector<([\w: ]+), std::allocator<[\w: ]+>>::'
A_VEC = 'std::vector member functions behave as the C++ standard says; growing an empty vector allocates exactly the ' \
        'requested capacity (libstdc++)'


class Vec:
    def __init__(self, eng, st, p, ew):
        self.eng, self.st, self.p, self.ew = eng, st, p, ew
        self.o = st.obj(p.rid)

    def get(self):
        b = self.o.read(self.st, self.p.off, 8)
        e = self.o.read(self.st, add64(self.p.off, 8), 8)
        c = self.o.read(self.st, add64(self.p.off, 16), 8)
        f = lambda x: Ptr(0, x) if isinstance(x, int) else x
        return f(b), f(e), f(c)

    def bytes(self):
        b, e, c = self.get()
        return sub64(e.off, b.off)

    def put(self, b, e, c):
        o = self.st.wobj(self.p.rid)
        o.write(self.st, self.p.off, 8, b)
        o.write(self.st, add64(self.p.off, 8), 8, e)
        o.write(self.st, add64(self.p.off, 16), 8, c)
        self.o = o

    def set_content(self, nbytes, build):
        """new block of exactly nbytes"""
        st = self.st
        b0, _, _ = self.get()
        if isinstance(nbytes, int) and nbytes == 0:
            self.put(NULL, NULL, NULL)
            return
        d = st.alloc(nbytes, kind='vector', name='vector content')
        o = st.wobj(d.rid)
        build(o)
        self.put(d, Ptr(d.rid, nbytes), Ptr(d.rid, nbytes))
        if b0.rid:
            st.wobj(b0.rid).alive = False


@rx(VEC + r'(~?\w+|operator\S*?)\((.*)\)( const)?( noexcept)?$', A_VEC)
def vec_member(eng, st, args, fr, ins, m):
    T, name, params = m.group(1), m.group(2), m.group(3)
    ew = ES.get(T)
    if ew is None:
        return NotImplemented
    this = args[0]
    a = args[1:]
    ps = split_params(params)
    if name == 'vector':
        if ps and ps[-1].startswith('std::allocator'):
            ps, a = ps[:-1], a[:-1]
        o = st.wobj(this.rid)
        for k in (0, 8, 16):
            o.write(st, add64(this.off, k), 8, 0)
        if not ps:
            return ret(st)
        v = Vec(eng, st, this, ew)
        if len(ps) == 1 and ps[0] == 'unsigned long':
            nb = binop('mul', 64, a[0], ew)
            v.set_content(nb, lambda o: o.fill_in(st, 0, nb, 0, ew))
            return ret(st)
        if len(ps) == 2 and ps[0] == 'unsigned long':
            nb = binop('mul', 64, a[0], ew)
            x = st.obj(a[1].rid).read(st, a[1].off, ew)
            v.set_content(nb, lambda o: o.fill_in(st, 0, nb, x, ew))
            return ret(st)
        if len(ps) == 1 and ps[0].endswith(' const&'):
            src = Vec(eng, st, a[0], ew)
            nb = src.bytes()
            b, e, c = src.get()
            if b.rid:
                so = st.obj(b.rid)
                v.set_content(nb, lambda o: o.copy_in(st, 0, nb, so, b.off))
            return ret(st)
        if len(ps) == 1 and ps[0].endswith('&&'):
            src = Vec(eng, st, a[0], ew)
            b, e, c = src.get()
            v.put(b, e, c)
            src.put(NULL, NULL, NULL)
            return ret(st)
        raise Unsupported('vector constructor (%s)' % params)
    if name == '~vector':
        b, _, _ = Vec(eng, st, this, ew).get()
        if b.rid:
            o = st.wobj(b.rid)
            if o is not None:
                o.alive = False
        return ret(st)
    if name == 'shrink_to_fit':
        v = Vec(eng, st, this, ew)
        b, e, c = v.get()
        if b.rid:
            v.put(b, e, e)
        return ret(st)
    if name == 'reserve':
        raise Unsupported('vector::reserve')
    if name == 'resize':
        v = Vec(eng, st, this, ew)
        b, e, c = v.get()
        nb0 = sub64(e.off, b.off)
        nb = binop('mul', 64, a[0], ew)
        old = st.obj(b.rid) if b.rid else Obj(0)
        x = 0
        if len(a) > 1:
            x = st.obj(a[1].rid).read(st, a[1].off, ew)
        g = icmp('ugt', 64, nb, nb0)

        def build(o):
            o.fill_in(st, 0, nb, x, ew)
            if b.rid:
                o.copy_in(st, 0, ite(g, nb0, nb, 64), old, b.off)
        # capacity never shrinks on resize
        k = st.decide(g)
        if b.rid and k == 0:
            v.put(b, Ptr(b.rid, add64(b.off, nb)), c)
            return ret(st)
        if b.rid and k is None:
            s2 = st.fork()
            s2.add(b_not(g))
            v2 = Vec(eng, s2, this, ew)
            v2.put(b, Ptr(b.rid, add64(b.off, nb)), c)
            st.add(g)
            v.set_content(nb, build)
            return ret(st) + ret(s2)
        if is_sym(nb):
            z = icmp('eq', 64, nb, 0)
            if st.decide(z) is None:
                s2 = st.fork()
                s2.add(z)
                st.add(b_not(z))
                v.set_content(nb, build)
                return ret(st) + ret(s2)
        v.set_content(nb, build)
        return ret(st)
    if name == 'operator=':
        v = Vec(eng, st, this, ew)
        src = Vec(eng, st, a[0], ew)
        b, e, c = src.get()
        if ps[0].endswith('&&'):
            b0, _, _ = v.get()
            v.put(b, e, c)
            src.put(b0, b0, b0)
            return ret(st, this)
        raise Unsupported('vector copy assignment')
    if name in ('size', 'capacity', 'data', 'begin', 'end', 'cbegin', 'cend', 'empty', 'operator[]', 'front', 'back',
                'max_size', '_M_data_ptr'):
        return NotImplemented
    raise Unsupported('vector::%s(%s)' % (name, params))
