"""Values of the symbolic machine: Python ints (concrete) or z3 terms, pointers
as (region, offset) pairs, and helpers that fold constants."""
import z3

BV = z3.BitVecVal


class Ptr:
    __slots__ = ('rid', 'off')

    def __init__(self, rid, off=0):
        self.rid = rid
        self.off = off

    def __repr__(self):
        return '&%s+%s' % (self.rid, self.off)


NULL = Ptr(0, 0)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class FP:
    """a concrete floating point value (only concrete FP is executed)"""
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v = v
        self.w = w


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def simp(e):
    """simplify and turn numerals into Python ints (BV) / 0,1 (Bool)"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def bv(x, w):
    """to a z3 term of width w (i1 excluded)"""
    if isinstance(x, int):
        return BV(x, w)
    if x is UNDEF:
        raise ValueError('undef')
    return x


def bl(x):
    """to z3 Bool"""
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if z3.is_bv(x):
        return x != 0
    return x


def b_not(x):
    if isinstance(x, int):
        return 1 - x
    return simp(z3.Not(x))


def b_and(*xs):
    ys = []
    for x in xs:
        if isinstance(x, int):
            if not x:
                return 0
        else:
            ys.append(x)
    if not ys:
        return 1
    if len(ys) == 1:
        return ys[0]
    return simp(z3.And(*ys))


def b_or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, int):
            if x:
                return 1
        else:
            ys.append(x)
    if not ys:
        return 0
    if len(ys) == 1:
        return ys[0]
    return simp(z3.Or(*ys))


def bit(a):
    """the truth value a bit-vector 0/1 stands for, else None"""
    if isinstance(a, int):
        return a if a in (0, 1) else None
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        c, x, y = a.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            x, y = x.as_long(), y.as_long()
            if x == 1 and y == 0:
                return c
            if x == 0 and y == 1:
                return b_not(c)
    return None


def binop(op, w, a, b):
    if w == 1:
        if op in ('and', 'mul'):
            return b_and(a, b)
        if op == 'or':
            return b_or(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return b_not(a) if b else a
            return simp(z3.Xor(a, b))
        raise ValueError(op)
    m = mask(w)
    if op in ('and', 'or', 'xor'):
        x, y = bit(a), bit(b)
        if x is not None and y is not None and not (isinstance(a, int) and isinstance(b, int)):
            return zext(binop(op, 1, x, y), 1, w)
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 'udiv':
            return a // b if b else m
        if op == 'urem':
            return a % b if b else a
        if op == 'sdiv':
            x, y = sgn(a, w), sgn(b, w)
            if y == 0:
                return m
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if op == 'srem':
            x, y = sgn(a, w), sgn(b, w)
            if y == 0:
                return a
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & m
    if op == 'add':
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
    elif op == 'sub':
        if isinstance(b, int) and b == 0:
            return a
    elif op == 'mul':
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return 0
            if b == 1:
                return a
            if b & (b - 1) == 0:
                return simp(a * BV(b, w))
    x, y = bv(a, w), bv(b, w)
    if op == 'add':
        r = x + y
    elif op == 'sub':
        r = x - y
    elif op == 'mul':
        r = x * y
    elif op == 'and':
        r = x & y
    elif op == 'or':
        r = x | y
    elif op == 'xor':
        r = x ^ y
    elif op == 'shl':
        r = x << y
    elif op == 'lshr':
        r = z3.LShR(x, y)
    elif op == 'ashr':
        r = x >> y
    elif op == 'udiv':
        r = z3.UDiv(x, y)
    elif op == 'urem':
        r = z3.URem(x, y)
    elif op == 'sdiv':
        r = x / y
    elif op == 'srem':
        r = z3.SRem(x, y)
    else:
        raise ValueError(op)
    return simp(r)


def icmp(pred, w, a, b):
    if w == 1:
        if pred == 'eq':
            return b_not(binop('xor', 1, a, b))
        if pred == 'ne':
            return binop('xor', 1, a, b)
        a, b = zext(a, 1, 8), zext(b, 1, 8)
        if pred[0] == 's':
            a, b = binop('sub', 8, 0, a), binop('sub', 8, 0, b)
        w = 8
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[-2:] if pred not in ('eq', 'ne') else pred
        return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
    x, y = bv(a, w), bv(b, w)
    if x.eq(y):
        return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
         'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
         'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
    return simp(r)


def zext(a, w, w2):
    if isinstance(a, int):
        return a
    if w == 1:
        return simp(z3.If(bl(a), BV(1, w2), BV(0, w2))) if w2 > 1 else a
    return simp(z3.ZeroExt(w2 - w, a)) if w2 > w else a


def sext(a, w, w2):
    if isinstance(a, int):
        return sgn(a, w) & mask(w2)
    if w == 1:
        return simp(z3.If(bl(a), BV(mask(w2), w2), BV(0, w2)))
    return simp(z3.SignExt(w2 - w, a)) if w2 > w else a


def trunc(a, w, w2):
    if isinstance(a, int):
        return a & mask(w2)
    if w2 == 1:
        return simp(z3.Extract(0, 0, a) == 1)
    return simp(z3.Extract(w2 - 1, 0, a))


def resize(a, w, w2):
    if w == w2:
        return a
    return zext(a, w, w2) if w < w2 else trunc(a, w, w2)


def ite(c, a, b, w):
    """c: int/Bool"""
    if isinstance(c, int):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if w == 1:
        return simp(z3.If(c, bl(a), bl(b)))
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    return simp(z3.If(c, bv(a, w), bv(b, w)))


def extract_bytes(v, w, lo, n):
    """n bytes starting at byte lo of the w-bit value v (little endian)"""
    if isinstance(v, int):
        return (v >> (8 * lo)) & mask(8 * n)
    if w == 1:
        v = zext(v, 1, 8)
        w = 8
    if lo == 0 and n * 8 == w:
        return v
    return simp(z3.Extract(8 * (lo + n) - 1, 8 * lo, v))


def concat_bytes(parts):
    """parts: list of (value, nbytes), least significant first"""
    if all(isinstance(v, int) for v, n in parts):
        r = 0
        s = 0
        for v, n in parts:
            r |= v << s
            s += 8 * n
        return r
    if len(parts) == 1:
        return parts[0][0]
    return simp(z3.Concat(*[bv(v, 8 * n) for v, n in reversed(parts)]))
