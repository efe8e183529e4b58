"""Ghost theory of encoded text.

vp_text(p, n, kind, id) says: the n code units at p are well-formed text (kind 0: ASCII in char,
1: UTF-8, 2: UTF-16, 4: UTF-32) of cnt code points.  Ghost functions, defined by recursion over the
text and used only through their one-step unfoldings:
    pos(0) = 0,   pos(x+1)  = pos(x) + length of the sequence at pos(x),   pos(cnt) = n
    opos_w(0) = 0, opos_w(x+1) = opos_w(x) + length of the code point at pos(x) in encoding w
"""
import z3
from val import *
from mem import *
from lib import exact, ret, EXACT, MAXLEN
import lib
import loops
from machine import Outcome

EW = {0: 1, 1: 1, 2: 2, 4: 4}


def c64(x):
    return bv(x, 64)


class Text:
    def __init__(self, tid, kind, n, cnt, rid, off, src):
        self.id = tid
        self.kind = kind
        self.ew = EW[kind]
        self.n = n
        self.cnt = cnt
        self.rid = rid
        self.off = off
        self.src = src        # Obj snapshot
        s = z3.BitVecSort(64)
        self.posf = z3.Function('pos!%d' % tid, s, s)
        self.oposf = {w: z3.Function('opos!%d!%d' % (tid, w), s, s) for w in EW}
        self.targets = set()

    def pos(self, x):
        return self.posf(c64(x))

    def opos(self, w, x):
        return self.oposf[w](c64(x))

    def unit(self, st, i):
        """code unit i (unsigned) as 32-bit"""
        v = self.src.read(st, add64(self.off, binop('mul', 64, i, self.ew)), self.ew)
        return zext(v, 8 * self.ew, 32)

    def decode(self, st, P):
        """(wf, length, code point) of the sequence at code unit P, as z3 terms (64, 32 bit)"""
        u = [self.unit(st, add64(P, i)) for i in range({0: 1, 1: 4, 2: 2, 4: 1}[self.kind])]
        b = [bv(x, 32) for x in u]
        rem = bv(sub64(self.n, P), 64)

        def room(k):
            return z3.UGE(rem, k)
        valid = lambda c: z3.And(z3.ULE(c, 0x10FFFF), z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF)))
        if self.kind == 0:
            return z3.And(room(1), z3.ULT(b[0], 128)), BV(1, 64), b[0]
        if self.kind == 4:
            return z3.And(room(1), valid(b[0])), BV(1, 64), b[0]
        if self.kind == 2:
            lead = z3.And(z3.UGE(b[0], 0xD800), z3.ULE(b[0], 0xDBFF))
            trail0 = z3.And(z3.UGE(b[0], 0xDC00), z3.ULE(b[0], 0xDFFF))
            trail1 = z3.And(z3.UGE(b[1], 0xDC00), z3.ULE(b[1], 0xDFFF))
            wf = z3.And(room(1), z3.Not(trail0), z3.Implies(lead, z3.And(room(2), trail1)))
            ln = z3.If(lead, BV(2, 64), BV(1, 64))
            cp = z3.If(lead, ((b[0] - 0xD800) << 10) + (b[1] - 0xDC00) + 0x10000, b[0])
            return wf, ln, cp
        is1 = z3.ULT(b[0], 0x80)
        is2 = (b[0] & 0xE0) == 0xC0
        is3 = (b[0] & 0xF0) == 0xE0
        is4 = (b[0] & 0xF8) == 0xF0
        tr = [None] + [(b[i] & 0xC0) == 0x80 for i in (1, 2, 3)]
        ln = z3.If(is1, BV(1, 64), z3.If(is2, BV(2, 64), z3.If(is3, BV(3, 64), BV(4, 64))))
        lo = [x & 0x3F for x in b]
        cp = z3.If(is1, b[0], z3.If(is2, ((b[0] & 0x1F) << 6) | lo[1],
                                    z3.If(is3, ((b[0] & 0xF) << 12) | (lo[1] << 6) | lo[2],
                                          ((b[0] & 7) << 18) | (lo[1] << 12) | (lo[2] << 6) | lo[3])))
        wf = z3.And(room(1), z3.Or(is1, is2, is3, is4), z3.UGE(rem, ln),
                    z3.Implies(z3.Not(is1), tr[1]), z3.Implies(z3.Or(is3, is4), tr[2]), z3.Implies(is4, tr[3]), valid(cp),
                    z3.Implies(is2, z3.UGE(cp, 0x80)), z3.Implies(is3, z3.UGE(cp, 0x800)), z3.Implies(is4, z3.UGE(cp, 0x10000)))
        return wf, ln, cp

    def olen(self, w, cp):
        if w in (0, 4):
            return BV(1, 64)
        if w == 2:
            return z3.If(z3.UGE(cp, 0x10000), BV(2, 64), BV(1, 64))
        return z3.If(z3.ULT(cp, 0x80), BV(1, 64), z3.If(z3.ULT(cp, 0x800), BV(2, 64), z3.If(z3.ULT(cp, 0x10000), BV(3, 64), BV(4, 64))))

    def encode(self, w, cp):
        """list of (condition, unit value of 8*EW bits) per unit index"""
        if w == 0:
            return [(z3.BoolVal(True), z3.Extract(7, 0, cp))]
        if w == 4:
            return [(z3.BoolVal(True), cp)]
        if w == 2:
            s = z3.UGE(cp, 0x10000)
            c = cp - 0x10000
            return [(z3.BoolVal(True), z3.Extract(15, 0, z3.If(s, 0xD800 + z3.LShR(c, 10), cp))),
                    (s, z3.Extract(15, 0, 0xDC00 + (c & 0x3FF)))]
        e = lambda x: z3.Extract(7, 0, x)
        l1, l2, l3 = z3.ULT(cp, 0x80), z3.ULT(cp, 0x800), z3.ULT(cp, 0x10000)
        t = lambda k: 0x80 | (z3.LShR(cp, k) & 0x3F)
        return [(z3.BoolVal(True), e(z3.If(l1, cp, z3.If(l2, 0xC0 | z3.LShR(cp, 6), z3.If(l3, 0xE0 | z3.LShR(cp, 12), 0xF0 | z3.LShR(cp, 18)))))),
                (z3.Not(l1), e(z3.If(l2, t(0), z3.If(l3, t(6), t(12))))),
                (z3.Not(l2), e(z3.If(l3, t(0), t(6)))),
                (z3.Not(l3), e(t(0)))]

    def facts(self, st, x, full=True):
        """the definitions, unfolded at index x"""
        x = c64(x)
        P = self.pos(x)
        if not full:
            return [z3.Implies(z3.ULE(x, c64(self.cnt)), z3.And(z3.ULE(P, c64(self.n)), z3.ULE(x, P))), z3.Implies(x == 0, P == 0),
                    z3.Implies(x == c64(self.cnt), P == c64(self.n))] + (
                   [z3.Implies(z3.ULE(x, c64(self.cnt)), P == x), c64(self.cnt) == c64(self.n)] if self.kind in (0, 4) else [])
        wf, ln, cp = self.decode(st, P)
        P1 = self.pos(x + 1)
        inside = z3.ULT(x, c64(self.cnt))
        upto = z3.ULE(x, c64(self.cnt))
        fs = [z3.Implies(upto, z3.And(z3.ULE(P, c64(self.n)), z3.ULE(x, P))),
              z3.Implies(x == 0, P == 0),
              z3.Implies(x == c64(self.cnt), P == c64(self.n)),
              z3.Implies(inside, z3.And(z3.ULT(P, c64(self.n)), wf, P1 == P + ln, z3.ULE(P1, c64(self.n))))]
        if self.kind in (0, 4):
            fs.append(z3.Implies(upto, P == x))
            fs.append(c64(self.cnt) == c64(self.n))
        for w in self.targets:
            O = self.opos(w, x)
            if w in (0, 4):
                fs.append(z3.Implies(upto, O == x))
            elif w == self.kind or self.kind == 0:
                fs.append(z3.Implies(upto, O == P))          # well-formed text in its own encoding (ASCII: in any) has its own length
            fs.append(z3.Implies(x == 0, O == 0))
            O1 = self.opos(w, x + 1)
            fs.append(z3.Implies(inside, O1 == O + self.olen(w, cp)))
            fs.append(z3.Implies(inside, z3.And(z3.ULT(O, O1), z3.ULE(O1, O + 4))))      # follows, spares the solver the encoding
            fs.append(z3.Implies(upto, z3.ULE(O, 4 * P)))
        return fs


def texts(st):
    return [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'text']


def need(st, T, x, full=True):
    for f in T.facts(st, x, full):
        st.add(f)


@exact('vp_text')
def vp_text(eng, st, args, fr, ins):
    p, n, kind, tid = args
    if eng.opts.concrete_inputs is not None:
        raise Unsupported('ghost text in concrete mode')
    o = st.obj(p.rid) if p.rid else Obj(0)
    src = Obj(o.size, o.snapshot())
    cnt = z3.BitVec('cnt!%d' % tid, 64)
    st.add(icmp('ule', 64, n, MAXLEN))
    T = Text(tid, kind, n, cnt, p.rid, p.off, src)
    T.targets = set(eng.opts.targets)
    st.ghost[('text', tid)] = T
    st.add(z3.ULE(cnt, c64(n)))
    need(st, T, 0, not eng.opts.back)
    need(st, T, cnt, False)
    if eng.opts.back:
        need(st, T, simp(cnt - 1))
    if eng.opts.bounded is not None:
        B = eng.opts.bounded
        st.add(z3.ULE(cnt, BV(B - 1, 64)))
        for i in range(1, B):
            need(st, T, i)
    st.nassume += 1
    return ret(st, cnt) if st.feasible() else []


@exact('vp_pos')
def vp_pos(eng, st, args, fr, ins):
    T = st.ghost[('text', args[0])]
    need(st, T, args[1])
    return ret(st, T.pos(args[1]))


@exact('vp_mark')
def vp_mark(eng, st, args, fr, ins):
    """a place in the text that loops compare themselves with"""
    T = st.ghost[('text', args[0])]
    need(st, T, args[1])
    st.ghost['marks'] = st.ghost.get('marks', ()) + ((args[0], c64(args[1])),)
    return ret(st, None)


def order_facts(st, T, x):
    """pos is strictly increasing (by induction over its definition)"""
    r = []
    x = c64(x)
    for tid, m in st.ghost.get('marks', ()):
        if tid == T.id:
            up = z3.And(z3.ULE(m, c64(T.cnt)), z3.ULE(x, c64(T.cnt)))
            r.append(z3.Implies(z3.And(up, z3.ULT(x, m)), z3.And(z3.ULT(T.pos(x), T.pos(m)), z3.ULE(T.pos(x + 1), T.pos(m)))))
            r.append(z3.Implies(z3.And(up, z3.UGT(x, m)), z3.UGT(T.pos(x), T.pos(m))))
            r.append(z3.Implies(x == m, T.pos(x) == T.pos(m)))
    return r


@exact('vp_opos')
def vp_opos(eng, st, args, fr, ins):
    T = st.ghost[('text', args[0])]
    if args[1] not in T.targets:
        raise Unsupported('target encoding not declared in the registry')
    need(st, T, args[2])
    return ret(st, T.opos(args[1], args[2]))


@exact('vp_cp')
def vp_cp(eng, st, args, fr, ins):
    T = st.ghost[('text', args[0])]
    need(st, T, args[1])
    wf, ln, cp = T.decode(st, T.pos(args[1]))
    return ret(st, simp(cp))


def agree_facts(st, a, x):
    A, B, off = a
    x = c64(x)
    y = simp(x + c64(off))
    return B.facts(st, x) + A.facts(st, y) + [z3.Implies(z3.ULT(x, c64(B.cnt)), A.decode(st, A.pos(y))[2] == B.decode(st, B.pos(x))[2])]


@exact('vp_agree')
def vp_agree(eng, st, args, fr, ins):
    """assume: for all x < count of text b: code point off + x of text a is code point x of text b"""
    A, B = st.ghost[('text', args[0])], st.ghost[('text', args[1])]
    a = (A, B, args[2])
    st.ghost[('agree', args[0], args[1])] = a
    st.add(z3.ULE(c64(args[2]), c64(A.cnt)))
    st.add(z3.ULE(c64(B.cnt), c64(A.cnt) - c64(args[2])))
    if eng.opts.bounded is not None:
        for i in range(eng.opts.bounded):
            for f in agree_facts(st, a, i):
                st.add(f)
    else:
        for i in ([simp(c64(B.cnt) - 1)] if eng.opts.back else [0]):
            for f in agree_facts(st, a, i):
                st.add(f)
    st.nassume += 1
    return ret(st, None) if st.feasible() else []


def agrees(st):
    return [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'agree']


class TextSpec(loops.LoopSpec):
    def facts(self, ctx, it):
        r = []
        for a in agrees(ctx.st):
            x = simp(c64(a[1].cnt) - it - 1) if ctx.st.eng.opts.back else it
            A, B, off = a
            x = c64(x)
            r.append(z3.Implies(z3.ULT(x, c64(B.cnt)), A.decode(ctx.st, A.pos(simp(x + c64(off))))[2] == B.decode(ctx.st, B.pos(x))[2]))
        for T in texts(ctx.st):
            if ctx.st.eng.opts.back:
                r += T.facts(ctx.st, simp(c64(T.cnt) - it - 1))
                r += T.facts(ctx.st, simp(c64(T.cnt) - it), False)
            else:
                r += T.facts(ctx.st, it) + order_facts(ctx.st, T, it)
        return r

    def offsets(self, ctx, it, obj):
        out = []
        for T in texts(ctx.st):
            if ctx.rid == T.rid or (obj is not None and obj.kind == 'string'):
                if not ctx.st.eng.opts.back:
                    out.append(('pos%d(it)' % T.id, lambda x, T=T: simp(c64(T.off) + T.pos(x) * T.ew)))
                if ctx.st.eng.opts.back:
                    out.append(('pos%d(cnt-it)' % T.id, lambda x, T=T: simp(c64(T.off) + T.pos(c64(T.cnt) - x) * T.ew)))
        return out

    def scalars(self, ctx, it):
        out = []
        for T in texts(ctx.st):
            out.append(('pos%d(it)' % T.id, lambda x, T=T: T.pos(x)))
            for w in T.targets:
                out.append(('opos%d,%d(it)' % (T.id, w), lambda x, T=T, w=w: T.opos(w, x)))
            for k in ctx.st.ghost.get('skolems', ()):
                wf, ln, cp = T.decode(ctx.st, T.pos(k))
                c = z3.ZeroExt(32, cp)
                if not ctx.st.eng.opts.back:
                    out.append(('k<it ? cp(k) : 0', lambda x, c=c, k=k: z3.If(z3.ULT(c64(k), c64(x)), c, BV(0, 64))))
                if ctx.st.eng.opts.back:
                    out.append(('k>=cnt-it ? cp(k) : 0', lambda x, c=c, k=k, T=T: z3.If(z3.UGE(c64(k), c64(T.cnt) - c64(x)), c, BV(0, 64))))
        return out

    def sizes(self, ctx, it, obj):
        out = []
        for T in texts(ctx.st):
            for w in T.targets:
                out.append(('(opos%d,%d(it)+1)*%d' % (T.id, w, EW[w]), lambda x, T=T, w=w: simp((T.opos(w, x) + 1) * EW[w])))
        return out

    def ghosts(self, ctx, it):
        out = []
        for T in texts(ctx.st):
            out.append(('it<=cnt%d' % T.id, z3.ULE(c64(it), c64(T.cnt))))
            for T2 in texts(ctx.st):
                if T2.id <= T.id:
                    continue
                for k in ctx.st.ghost.get('skolems', ()):
                    k1 = k2 = c64(k)
                    if ctx.st.eng.opts.back:
                        k1, k2 = simp(c64(T.cnt) - 1 - k1), simp(c64(T2.cnt) - 1 - k2)
                    out.append(('k<it: cp%d(k)==cp%d(k)' % (T.id, T2.id),
                                z3.Implies(z3.ULT(c64(k), c64(it)), T.decode(ctx.st, T.pos(k1))[2] == T2.decode(ctx.st, T2.pos(k2))[2])))
            for k in ctx.st.ghost.get('skolems', ()):
                kk = c64(k)
                wf, ln, cp = T.decode(ctx.st, T.pos(kk))
                if not ctx.st.eng.opts.back:
                    out.append(('k<it: pos%d(k+1)<=pos(it)' % T.id, z3.Implies(z3.ULT(kk, c64(it)), z3.ULE(T.pos(kk) + ln, T.pos(it)))))
                for w in T.targets:
                    out.append(('k<it: opos%d,%d(k+1)<=opos(it)' % (T.id, w),
                                z3.Implies(z3.ULT(kk, c64(it)), z3.ULE(T.opos(w, kk) + T.olen(w, cp), T.opos(w, it)))))
        return out

    def objs(self, ctx, it, view):
        out = []
        if view.kind != 'string':
            return out
        for T in texts(ctx.st):
            for w in T.targets:
                for q, k in enumerate(ctx.st.ghost.get('skolems', ())):
                    kk = c64(k)
                    wf, ln, cp = T.decode(ctx.st, T.pos(kk))
                    ew = EW[w]
                    O = T.opos(w, kk)
                    for i, (cond, val) in enumerate(T.encode(w, cp)):
                        got = view.at(simp((O + i) * ew), ew)
                        out.append(('k%d<it: unit %d of text%d as %d is written' % (q, i, T.id, w),
                                    z3.Implies(z3.And(z3.ULT(kk, c64(it)), cond), bv(got, 8 * ew) == val)))
        return out


class ShiftedSpec(TextSpec):
    """for a loop that starts at code point 1"""

    def facts(self, ctx, it):
        return super().facts(ctx, c64(it) + 1)

    def ghosts(self, ctx, it):
        return super().ghosts(ctx, simp(c64(it) + 1)) + [('it+1<=%s' % n, z3.ULE(c64(it) + 1, v)) for n, v in ctx.sym.items()
                                                         if not isinstance(v, int) and z3.is_bv(v) and v.size() == 64]

    def objs(self, ctx, it, view):
        return super().objs(ctx, simp(c64(it) + 1), view)

    def offsets(self, ctx, it, obj):
        return [(n, lambda x, fn=fn: fn(c64(x) + 1)) for n, fn in super().offsets(ctx, it, obj)]

    def scalars(self, ctx, it):
        return [(n, lambda x, fn=fn: fn(c64(x) + 1)) for n, fn in super().scalars(ctx, it)]

    def sizes(self, ctx, it, obj):
        return [(n, lambda x, fn=fn: fn(c64(x) + 1)) for n, fn in super().sizes(ctx, it, obj)]


class ScanSpec(loops.LoopSpec):
    """scans: everything before the current index has been looked at"""

    def ghosts(self, ctx, it):
        out = []
        for name, sym in ctx.sym.items():
            if not isinstance(sym, int) and z3.is_bv(sym) and sym.size() == 64:
                out.append(('it<=%s' % name, z3.ULE(c64(it), sym)))
        for name, (cnt, base, ew) in ctx.arr.items():
            if base is None:
                continue
            out.append(('it<=n(%s)' % name, icmp('ule', 64, it, cnt)))
            out.append(('it<n(%s)' % name, icmp('ult', 64, it, cnt)))
            for k in ctx.st.ghost.get('skolems', ()):
                e = base.elem(binop('mul', 64, k, ew))
                out.append(('k<it: %s[k]!=0' % name, z3.Implies(z3.ULT(c64(k), c64(it)), e != 0)))
        return out


class Multi(loops.LoopSpec):
    def __init__(self, parts):
        self.parts = parts

    def _j(self, m, *a):
        r = []
        for p in self.parts:
            r += getattr(p, m)(*a)
        return r

    def facts(self, *a):
        return self._j('facts', *a)

    def ghosts(self, *a):
        return self._j('ghosts', *a)

    def scalars(self, *a):
        return self._j('scalars', *a)

    def offsets(self, *a):
        return self._j('offsets', *a)

    def objs(self, *a):
        return self._j('objs', *a)

    def sizes(self, *a):
        return self._j('sizes', *a)

    def bools(self, *a):
        return self._j('bools', *a)
