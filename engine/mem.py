"""Memory: regions with a size and a content.  The content of a region is a dict
of cells written at concrete offsets over a chain of immutable layers, so that
arrays of symbolic length need neither quantifiers nor the SMT array theory."""
import z3
from val import *


class Unsupported(Exception):
    """the code left the fragment the executor handles: undecided, not wrong"""


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    n = '%s!%d' % (prefix, _fresh[0])
    if w == 1:
        return z3.Bool(n)
    return z3.BitVec(n, w)


def add64(a, b):
    return binop('add', 64, a, b)


def sub64(a, b):
    return binop('sub', 64, a, b)


class Undefined:
    def read(self, st, off, n):
        return UNDEF


UNDEFINED = Undefined()


class Zero:
    def read(self, st, off, n):
        return 0


class Bytes:
    def __init__(self, b):
        self.b = b

    def read(self, st, off, n):
        if isinstance(off, int):
            if off + n > len(self.b):
                return UNDEF
            return int.from_bytes(self.b[off:off + n], 'little')
        r = None
        for o in range(0, len(self.b) - n + 1):
            v = int.from_bytes(self.b[o:o + n], 'little')
            r = v if r is None else ite(icmp('eq', 64, off, o), v, r, 8 * n)
        return UNDEF if r is None else r


class Base:
    """unconstrained elements: an uninterpreted function of the byte offset"""

    def __init__(self, name, ew):
        self.name = name
        self.ew = ew
        self.fn = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8 * ew))

    def elem(self, off):
        return self.fn(bv(off, 64))

    def read(self, st, off, n):
        ew = self.ew
        if ew == 1:
            if n == 1:
                return self.elem(off)
            return concat_bytes([(self.elem(add64(off, i)), 1) for i in range(n)])
        if isinstance(off, int):
            al = off % ew == 0
        else:
            al = st.must(icmp('eq', 64, binop('and', 64, off, ew - 1), 0))
        if al and n % ew == 0:
            return concat_bytes([(self.elem(add64(off, i)), ew) for i in range(0, n, ew)])
        if isinstance(off, int):
            lo = off // ew * ew
            hi = (off + n + ew - 1) // ew * ew
            v = concat_bytes([(self.elem(i), ew) for i in range(lo, hi, ew)])
            return extract_bytes(v, 8 * (hi - lo), off - lo, n)
        if n == 1:
            lo = binop('and', 64, off, mask(64) & ~(ew - 1))
            sh = binop('shl', 64, sub64(off, lo), 3)
            return trunc(binop('lshr', 8 * ew, self.elem(lo), resize(sh, 64, 8 * ew)), 8 * ew, 8)
        return concat_bytes([(self.read(st, add64(off, i), 1), 1) for i in range(n)])


def _ite_read(c, a, b, w):
    if isinstance(c, int):
        return a() if c else b()
    x = a()
    y = b()
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        raise Unsupported('pointer read at a symbolic offset')
    if x is UNDEF:
        x = fresh('undef', w)
    if y is UNDEF:
        y = fresh('undef', w)
    return ite(c, x, y, w)


class Write:
    def __init__(self, under, off, n, val):
        self.under = under
        self.off = off
        self.n = n
        self.val = val

    def read(self, st, off, n):
        d = sub64(off, self.off)
        if isinstance(d, int):
            s = sgn(d, 64)
            if s == 0 and n == self.n:
                return self.val
            if s >= self.n or s + n <= 0:
                return self.under.read(st, off, n)
            if isinstance(self.val, Ptr):
                raise Unsupported('partial read of a pointer')
            if s >= 0 and s + n <= self.n:
                if self.val is UNDEF:
                    return UNDEF
                return extract_bytes(self.val, 8 * self.n, s, n)
            return concat_bytes([(self.rbyte(st, off, i), 1) for i in range(n)])
        if n == self.n:
            eq = icmp('eq', 64, d, 0)
            if n > 1:
                part = b_and(b_not(eq), b_or(icmp('ult', 64, d, n), icmp('ult', 64, binop('sub', 64, 0, d), n)))
                if not st.must(b_not(part)):
                    return concat_bytes([(self.rbyte(st, off, i), 1) for i in range(n)])
            k = st.decide(eq)
            if k is not None:
                eq = k
            return _ite_read(eq, lambda: self.val, lambda: self.under.read(st, off, n), 8 * n)
        dis = b_and(icmp('uge', 64, d, self.n), icmp('uge', 64, binop('sub', 64, 0, d), n))
        if st.must(dis):
            return self.under.read(st, off, n)
        return concat_bytes([(self.rbyte(st, off, i), 1) for i in range(n)])

    def rbyte(self, st, off, i):
        o = add64(off, i)
        d = sub64(o, self.off)
        ins = icmp('ult', 64, d, self.n)
        k = st.decide(ins)
        if k is not None:
            ins = k

        def a():
            if isinstance(self.val, Ptr):
                raise Unsupported('byte of a pointer')
            if self.val is UNDEF:
                return fresh('undef', 8)
            if isinstance(d, int):
                return extract_bytes(self.val, 8 * self.n, d, 1)
            w = 8 * self.n
            if w == 8:
                return self.val
            return trunc(binop('lshr', w, bv(self.val, w), resize(binop('shl', 64, d, 3), 64, w)), w, 8)

        def b():
            r = self.under.read(st, o, 1)
            return fresh('undef', 8) if r is UNDEF else r
        return _ite_read(ins, a, b, 8)


class Range:
    """a range [dst, dst+len) taken from elsewhere (copy or fill)"""

    def __init__(self, under, dst, ln):
        self.under = under
        self.dst = dst
        self.ln = ln

    def read(self, st, off, n):
        d = sub64(off, self.dst)
        if n == 1:
            ins = icmp('ult', 64, d, self.ln)
        else:
            # fully inside
            ins = b_and(icmp('ult', 64, d, self.ln), icmp('ule', 64, n, sub64(self.ln, d)))
        k = st.decide(ins)
        if k == 1:
            return self.inner(st, d, n)
        if n == 1:
            if k == 0:
                return self.under.read(st, off, n)
            return _ite_read(ins, lambda: self.inner(st, d, 1), lambda: self.under.read(st, off, 1), 8)
        out = b_or(icmp('eq', 64, self.ln, 0),
                   b_and(icmp('uge', 64, d, self.ln), icmp('uge', 64, binop('sub', 64, 0, d), n)))
        if st.must(b_or(ins, out)):
            if k == 0:
                return self.under.read(st, off, n)
            return _ite_read(ins, lambda: self.inner(st, d, n), lambda: self.under.read(st, off, n), 8 * n)

        def byte(i):
            r = self.read(st, add64(off, i), 1)
            return fresh('undef', 8) if r is UNDEF else r
        return concat_bytes([(byte(i), 1) for i in range(n)])


class Copy(Range):
    def __init__(self, under, dst, ln, src, soff):
        Range.__init__(self, under, dst, ln)
        self.src = src
        self.soff = soff

    def inner(self, st, d, n):
        return self.src.read(st, add64(self.soff, d), n)


class Fill(Range):
    def __init__(self, under, dst, ln, val, ew):
        Range.__init__(self, under, dst, ln)
        self.val = val
        self.ew = ew

    def inner(self, st, d, n):
        if self.ew == 1:
            return concat_bytes([(self.val, 1)] * n)
        if n == self.ew:
            return self.val       # element aligned accesses (checked by Range callers)
        if isinstance(self.val, int):
            b = self.val.to_bytes(self.ew, 'little')
            if len(set(b)) == 1:
                return int.from_bytes(b[:1] * n, 'little')
        if n % self.ew == 0:
            return concat_bytes([(self.val, self.ew)] * (n // self.ew))
        if n == 1:
            w = 8 * self.ew
            sh = binop('shl', 64, binop('and', 64, d, self.ew - 1), 3)
            return trunc(binop('lshr', w, self.val, resize(sh, 64, w)), w, 8)
        raise Unsupported('read of a fill')


class Cells:
    def __init__(self, under, cells):
        self.under = under
        self.cells = cells

    def read(self, st, off, n):
        return read_cells(st, self.cells, self.under, off, n)


def read_cells(st, cells, under, off, n):
    if isinstance(off, int):
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        hit = False
        for o in range(off - 15, off + n):
            c = cells.get(o)
            if c is not None and o + c[0] > off:
                hit = True
                break
        if not hit:
            return under.read(st, off, n)
        parts = []
        i = off
        while i < off + n:
            got = None
            for o in range(i, i - 16, -1):
                c = cells.get(o)
                if c is not None and o + c[0] > i:
                    got = (o, c)
                    break
            if got:
                o, (w, v) = got
                k = min(o + w, off + n) - i
                if isinstance(v, Ptr):
                    raise Unsupported('partial read of a pointer')
                if v is UNDEF:
                    v = fresh('undef', 8 * k)
                    parts.append((v, k))
                else:
                    parts.append((extract_bytes(v, 8 * w, i - o, k), k))
                i += k
            else:
                v = under.read(st, i, 1)
                if v is UNDEF:
                    v = fresh('undef', 8)
                parts.append((v, 1))
                i += 1
        return concat_bytes(parts)
    if not cells:
        return under.read(st, off, n)
    lay = under
    for o in sorted(cells):
        w, v = cells[o]
        lay = Write(lay, o, w, v)
    return lay.read(st, off, n)


class Obj:
    __slots__ = ('size', 'cells', 'under', 'alive', 'kind', 'name', 'owner', 'ro')

    def __init__(self, size, under=UNDEFINED, kind='', name='', ro=False):
        self.size = size
        self.cells = {}
        self.under = under
        self.alive = True
        self.kind = kind
        self.name = name
        self.owner = None
        self.ro = ro

    def clone(self):
        o = Obj(self.size, self.under, self.kind, self.name, self.ro)
        o.cells = dict(self.cells)
        o.alive = self.alive
        return o

    def snapshot(self):
        if not self.cells:
            return self.under
        return Cells(self.under, dict(self.cells))

    def read(self, st, off, n):
        return read_cells(st, self.cells, self.under, off, n)

    def _clear(self, off, n):
        cells = self.cells
        for o in range(off - 15, off + n):
            c = cells.get(o)
            if c is not None and o + c[0] > off:
                w, v = c
                del cells[o]
                if o < off or o + w > off + n:
                    # keep the parts outside
                    if isinstance(v, Ptr):
                        continue
                    if o < off:
                        cells[o] = (off - o, UNDEF if v is UNDEF else extract_bytes(v, 8 * w, 0, off - o))
                    if o + w > off + n:
                        k = o + w - off - n
                        cells[off + n] = (k, UNDEF if v is UNDEF else extract_bytes(v, 8 * w, w - k, k))

    def write(self, st, off, n, val):
        if isinstance(off, int):
            c = self.cells.get(off)
            if c is None or c[0] != n:
                self._clear(off, n)
            if is_sym(val) and z3.is_bool(val):
                val = zext(val, 1, 8)
            self.cells[off] = (n, val)
            return
        if isinstance(val, Ptr):
            raise Unsupported('pointer written at a symbolic offset')
        self.flush()
        self.under = Write(self.under, off, n, val)

    def flush(self):
        if self.cells:
            self.under = Cells(self.under, dict(self.cells))
            self.cells = {}

    def copy_in(self, st, off, ln, src, soff):
        """src: Obj (possibly self)"""
        if isinstance(ln, int) and ln == 0:
            return
        if isinstance(ln, int) and ln <= 512 and isinstance(off, int) and isinstance(soff, int):
            new = []
            i = soff
            end = soff + ln
            sc = src.cells
            while i < end:
                c = sc.get(i)
                if c is not None and i + c[0] <= end:
                    new.append((i - soff, c[0], c[1]))
                    i += c[0]
                    continue
                # gap or partial: find the next cell start
                j = i + 1
                while j < end and j not in sc:
                    j += 1
                # covered by an earlier partial cell?
                part = None
                for o in range(i - 15, i):
                    c = sc.get(o)
                    if c is not None and o + c[0] > i:
                        part = (o, c)
                if part or c is not None:
                    v = read_cells(st, sc, src.under, i, 1)
                    new.append((i - soff, 1, v))
                    i += 1
                    continue
                u = src.under
                if u is UNDEFINED:
                    new.append((i - soff, j - i, UNDEF))
                    i = j
                    continue
                step = getattr(u, 'ew', 1)
                if i % step == 0 and (j - i) % step == 0 and step <= 8:
                    for q in range(i, j, step):
                        new.append((q - soff, step, u.read(st, q, step)))
                else:
                    for q in range(i, j):
                        new.append((q - soff, 1, u.read(st, q, 1)))
                i = j
            self._clear_range(off, ln)
            for o, w, v in new:
                if v is UNDEF and w > 16:
                    for q in range(0, w, 8):
                        self.cells[off + o + q] = (min(8, w - q), UNDEF)
                else:
                    self.cells[off + o] = (w, v)
            return
        snap = src.snapshot()
        self.flush()
        self.under = Copy(self.under, off, ln, snap, soff)

    def _clear_range(self, off, n):
        if n <= 64:
            self._clear(off, n)
        else:
            for o in [o for o, c in self.cells.items() if o < off + n and o + c[0] > off]:
                c = self.cells.get(o)
                if c is not None:
                    if o >= off and o + c[0] <= off + n:
                        del self.cells[o]
                    else:
                        self._clear(max(o, off), min(o + c[0], off + n) - max(o, off))

    def fill_in(self, st, off, ln, val, ew=1):
        """ln in bytes"""
        if isinstance(ln, int) and isinstance(off, int) and ln <= 4096 * ew:
            self._clear_range(off, ln)
            if ew == 1 and isinstance(val, int):
                i = 0
                while i < ln:
                    k = 8 if ln - i >= 8 and (off + i) % 8 == 0 else 1
                    self.cells[off + i] = (k, int.from_bytes(bytes([val]) * k, 'little'))
                    i += k
            else:
                for i in range(0, ln, ew):
                    self.cells[off + i] = (ew, val)
            return
        self.flush()
        self.under = Fill(self.under, off, ln, val, ew)
