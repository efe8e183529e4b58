"""Ghost theory of numbers as text.

vp_digits(v, r, sep, ew, id): the digits of v in radix r, least significant first (ew: bytes per character of the result).
    quot(0) = v, quot(x+1) = quot(x) / r;  cnt is the least x with quot(x) = 0  (digit x is quot(x) % r)
    m3(x) = x mod 3;  dpos(x): characters to the right of digit x (separators included)
vp_numeral(p, n, ew, r, sep, id): b, the length of the longest suffix of the n characters at p in which every
character is what is expected there, reading from the right: a digit of radix r or, after three digits, the separator
(sep = 0: no separators).
    dc(x): characters since the last separator, lw(x): weight of the last digit, q(x): weight of the next digit,
    val(x): value of the x rightmost characters (modulo 2^64), de(x): character x-1 is a separator
All are used only through their one-step unfoldings."""
import z3
from val import *
from mem import *
from lib import exact, ret, MAXLEN
from texts import c64
import loops

S = z3.BitVecSort(64)


class Digits:
    def __init__(self, eng, tid, v, r, sep, ew):
        self.eng, self.id, self.v, self.r, self.sep, self.ew = eng, tid, v, r, sep, ew
        self.cnt = z3.BitVec('dcnt!%d' % tid, 64)
        self.quotf, self.m3f, self.dposf = (z3.Function('%s!%d' % (n, tid), S, S) for n in ('quot', 'm3', 'dpos'))

    def quot(self, x):
        return self.quotf(c64(x))

    def m3(self, x):
        return self.m3f(c64(x))

    def dpos(self, x):
        return self.dposf(c64(x))

    def div(self, op, a):
        return c64(self.eng.absdiv(op, 64, a, self.r) if self.eng.opts.abs_div else binop(op, 64, a, self.r))

    def digit(self, x):
        return self.div('urem', self.quot(x))

    def char(self, x):
        d = self.digit(x)
        return z3.If(z3.ULT(d, 10), d + 48, d + 55)

    def facts(self, x):
        x = c64(x)
        q, q1, m, d = self.quot(x), self.quot(x + 1), self.m3(x), self.dpos(x)
        sep = z3.And(m == 2, c64(self.sep) != 0, q1 != 0)
        return [z3.Implies(x == 0, z3.And(q == c64(self.v), m == 0, d == 0)),
                z3.ULE(m, 2),
                z3.Implies(z3.ULT(x, self.cnt), z3.And(q != 0, q1 == self.div('udiv', q), z3.ULT(self.digit(x), c64(self.r)))),
                z3.Implies(x == self.cnt, q == 0),
                z3.Implies(z3.ULT(x, self.cnt), z3.And(
                    (q1 != 0) == z3.ULT(x + 1, self.cnt),
                    self.m3(x + 1) == z3.If(m == 2, BV(0, 64), m + 1),
                    self.dpos(x + 1) == d + 1 + z3.If(sep, BV(1, 64), BV(0, 64)))),
                z3.Implies(z3.ULE(x, self.cnt), z3.And(z3.ULE(x, d), z3.ULE(d, 128))),
                z3.Implies(z3.And(z3.ULE(x, self.cnt), c64(self.sep) == 0), d == x)]


class Numeral:
    def __init__(self, eng, tid, n, ew, r, sep, rid, off, src):
        self.eng, self.id, self.n, self.ew, self.r, self.sep, self.rid, self.off, self.src = eng, tid, n, ew, r, sep, rid, off, src
        self.b = z3.BitVec('nlen!%d' % tid, 64)
        self.dcf, self.lwf, self.qf, self.valf = (z3.Function('%s!%d' % (m, tid), S, S) for m in ('dc', 'lw', 'qw', 'nval'))
        self.def_ = z3.Function('de!%d' % tid, S, z3.BoolSort())

    def char(self, st, x):
        """character x from the right"""
        i = sub64(sub64(self.n, x), 1)
        return c64(zext(self.src.read(st, add64(self.off, binop('mul', 64, i, self.ew)), self.ew), 8 * self.ew, 64))

    def digit(self, c):
        """(is a digit, value)"""
        d = z3.If(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c - 48, z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c - 55,
                  z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 87, BV(99, 64))))
        return z3.ULT(d, c64(self.r)), d

    def expect(self, st, x):
        """(separator expected, the character is as expected, digit value)"""
        c = self.char(st, x)
        isd, d = self.digit(c)
        sp = z3.And(c64(self.sep) != 0, self.dcf(c64(x)) == 3)
        return sp, z3.If(sp, c == c64(self.sep), isd), d

    def facts(self, st, x):
        x = c64(x)
        sp, ok, d = self.expect(st, x)
        inside = z3.ULT(x, self.b)
        dc, lw, q, v, de = self.dcf(x), self.lwf(x), self.qf(x), self.valf(x), self.def_(x)
        dc1, lw1, q1, v1, de1 = self.dcf(x + 1), self.lwf(x + 1), self.qf(x + 1), self.valf(x + 1), self.def_(x + 1)
        return [z3.Implies(x == 0, z3.And(dc == 0, q == 1, v == 0, z3.Not(de))),
                z3.Implies(z3.ULT(x, c64(self.n)), z3.And(
                    z3.Implies(inside, ok), z3.Implies(x == self.b, z3.Not(ok)),
                    dc1 == z3.If(sp, BV(0, 64), z3.If(inside, dc + 1, dc)),
                    lw1 == z3.If(z3.And(inside, z3.Not(sp)), q, lw),
                    v1 == z3.If(z3.And(inside, z3.Not(sp)), v + self.eng.absmul(d, q), v),
                    de1 == z3.If(inside, sp, de))),
                z3.Implies(z3.And(x != 0, z3.ULE(x, self.b)), q == self.eng.absmul(lw, c64(self.r))),
                z3.Implies(z3.And(x == 0, inside), q1 == c64(self.r)),
                z3.Implies(c64(self.sep) != 0, z3.ULE(dc, 3)), z3.ULE(dc, x), z3.Implies(c64(self.sep) == 0, z3.Not(de))]


def digits(st):
    return [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'digits']


def numerals(st):
    return [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'numeral']


@exact('vp_digits')
def vp_digits(eng, st, args, fr, ins):
    v, r, sep, ew, tid = args
    if eng.opts.concrete_inputs is not None:
        raise Unsupported('ghost digits in concrete mode')
    D = Digits(eng, tid, v, c64(zext(r, 32, 64)), sep, ew)
    st.ghost[('digits', tid)] = D
    st.add(z3.ULE(D.cnt, 64))
    st.add((D.cnt == 0) == (c64(v) == 0))
    for x in [0] + (list(range(1, eng.opts.bounded + 1)) if eng.opts.bounded is not None else []):
        for f in D.facts(x):
            st.add(f)
    if eng.opts.bounded is not None:
        st.add(z3.ULE(D.cnt, eng.opts.bounded))
    st.nassume += 1
    return ret(st, D.cnt) if st.feasible() else []


def _need(st, T, x):
    for f in (T.facts(x) if isinstance(T, Digits) else T.facts(st, x)):
        st.add(f)


@exact('vp_digit_char')
def vp_digit_char(eng, st, args, fr, ins):
    D = st.ghost[('digits', args[0])]
    _need(st, D, args[1])
    return ret(st, simp(z3.Extract(31, 0, D.char(args[1]))))


@exact('vp_digit_pos')
def vp_digit_pos(eng, st, args, fr, ins):
    D = st.ghost[('digits', args[0])]
    _need(st, D, args[1])
    return ret(st, D.dpos(args[1]))


@exact('vp_digit_group')
def vp_digit_group(eng, st, args, fr, ins):
    D = st.ghost[('digits', args[0])]
    _need(st, D, args[1])
    return ret(st, D.m3(args[1]))


@exact('vp_numeral')
def vp_numeral(eng, st, args, fr, ins):
    p, n, ew, r, sep, tid = args
    if eng.opts.concrete_inputs is not None:
        raise Unsupported('ghost numeral in concrete mode')
    o = st.obj(p.rid) if p.rid else Obj(0)
    T = Numeral(eng, tid, n, ew, c64(zext(r, 32, 64)), sep, p.rid, p.off, Obj(o.size, o.snapshot()))
    st.ghost[('numeral', tid)] = T
    st.add(icmp('ule', 64, n, MAXLEN))
    st.add(z3.ULE(T.b, c64(n)))
    xs = [0, 1, T.b]
    if eng.opts.bounded is not None:
        B = eng.opts.bounded
        st.add(z3.ULE(c64(n), BV(B, 64)))
        xs = list(range(B + 1))
    for x in xs:
        _need(st, T, x)
    st.nassume += 1
    return ret(st, T.b) if st.feasible() else []


@exact('vp_numeral_value')
def vp_numeral_value(eng, st, args, fr, ins):
    T = st.ghost[('numeral', args[0])]
    _need(st, T, args[1])
    return ret(st, T.valf(c64(args[1])))


@exact('vp_numeral_separator')
def vp_numeral_separator(eng, st, args, fr, ins):
    """is character x-1 from the right a separator?"""
    T = st.ghost[('numeral', args[0])]
    _need(st, T, args[1])
    return ret(st, T.def_(c64(args[1])))


class NumberSpec(loops.LoopSpec):
    def facts(self, ctx, it):
        r = []
        for D in digits(ctx.st):
            r += D.facts(it)
            for k in ctx.st.ghost.get('skolems', ()):
                r += D.facts(k)
        for T in numerals(ctx.st):
            r += T.facts(ctx.st, it) + T.facts(ctx.st, it + 1)
        return r

    def scalars(self, ctx, it):
        out = []
        for D in digits(ctx.st):
            out += [('quot%d(it)' % D.id, lambda x, D=D: D.quot(x)), ('m3(it)', lambda x, D=D: D.m3(x)), ('dpos%d(it)' % D.id, lambda x, D=D: D.dpos(x))]
        for T in numerals(ctx.st):
            for s in (1, 0):
                for nm, fn in (('val', T.valf), ('lw', T.lwf), ('qw', T.qf), ('dc', T.dcf)):
                    out.append(('%s%d(it+%d)' % (nm, T.id, s), lambda x, fn=fn, s=s: fn(c64(x) + s)))
        return out

    def bools(self, ctx, it):
        out = []
        for T in numerals(ctx.st):
            for s in (1, 0):
                out.append(('separator%d(it+%d)' % (T.id, s), lambda x, T=T, s=s: T.def_(c64(x) + s)))
                out.append(('signed%d(it+%d)' % (T.id, s), lambda x, T=T, s=s: z3.UGT(c64(x) + s, T.b)))
                out.append(('negative%d(it+%d)' % (T.id, s), lambda x, T=T, s=s, st=ctx.st: z3.And(z3.UGT(c64(x) + s, T.b), T.char(st, T.b) == 45)))
        return out

    def sizes(self, ctx, it, obj):
        out = []
        for D in digits(ctx.st):
            ew = D.ew
            out.append(('(dpos%d(it)+1)*%d' % (D.id, ew), lambda x, D=D, ew=ew: simp((D.dpos(x) + 1) * ew)))
        return out

    def ghosts(self, ctx, it):
        out = []
        x = c64(it)
        for D in digits(ctx.st):
            out.append(('it<=digits', z3.ULE(x, D.cnt)))
            for k in ctx.st.ghost.get('skolems', ()):
                out.append(('k<it: dpos(k)<dpos(it)', z3.Implies(z3.ULT(c64(k), x), z3.ULT(D.dpos(k), D.dpos(it)))))
        for T in numerals(ctx.st):
            for s in (0, 1):
                out.append(('it+%d<=n' % s, z3.ULE(x + s, c64(T.n))))
                out.append(('it+%d<=b' % s, z3.ULE(x + s, T.b)))
                out.append(('it+%d<=b+1' % s, z3.ULE(x + s, T.b + 1)))
                c = T.char(ctx.st, T.b)
                out.append(('it+%d>b: minus' % s, z3.Implies(z3.UGT(x + s, T.b), c == 45)))
                out.append(('it+%d>b: sign' % s, z3.Implies(z3.UGT(x + s, T.b), z3.Or(c == 45, c == 43))))
        return out

    def objs(self, ctx, it, view):
        out = []
        if view.kind != 'string':
            return out
        for D in digits(ctx.st):
            ew = D.ew
            size = c64(view.size)
            for k in ctx.st.ghost.get('skolems', ()):
                k = c64(k)
                last = size - 2 * ew          # the rightmost character
                got = view.at(simp(last - D.dpos(k) * ew), ew)
                out.append(('k<it: digit k is written', z3.Implies(z3.ULT(k, c64(it)), bv(got, 8 * ew) == fitw(D.char(k), 8 * ew))))
                sep = view.at(simp(last - (D.dpos(k) - 1) * ew), ew)
                out.append(('k<=it: separator before digit k', z3.Implies(z3.And(z3.ULE(k, c64(it)), z3.ULT(k, D.cnt), k != 0, D.m3(k) == 0, c64(D.sep) != 0),
                                                                        bv(sep, 8 * ew) == fitw(c64(D.sep), 8 * ew))))
        return out


def fitw(v, w):
    return loops.fit(v, w)



class MirrorSpec(loops.LoopSpec):
    """arrays of bytes reversed in place, from both ends"""

    def ghosts(self, ctx, it):
        out = []
        for name, (cnt, base, ew) in ctx.arr.items():
            if base is not None and ew == 1:
                out.append(('2*it<=n(%s)+1' % name, z3.ULE(2 * c64(it), c64(cnt) + 1)))
        return out

    def objs(self, ctx, it, view):
        out = []
        if view.kind not in ('array', 'heap'):
            return out
        for q, k in enumerate(ctx.st.ghost.get('skolems', ())):
            k, n, i = c64(k), c64(view.size), c64(it)
            for w, kk in (('k', k), ('n-1-k', simp(n - 1 - k))):
                m = simp(n - 1 - kk)
                out.append(('%s%d: reversed up to it from both ends' % (w, q), z3.Implies(z3.ULT(kk, n),
                            bv(view.at(kk, 1), 8) == z3.If(z3.Or(z3.ULT(kk, i), z3.ULT(m, i)), bv(view.was(m, 1), 8), bv(view.was(kk, 1), 8)))))
        return out
