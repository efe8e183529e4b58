"""Bit-vector queries as linear integer arithmetic.

Every linear bit-vector term is translated exactly: a sum c0 + c1*x1 + ... modulo 2^w becomes the integer sum minus
2^w * q with a fresh integer q (range from the coefficients) and the range [0, 2^w) of the result.  Extraction,
concatenation, extension, constant shifts and masks of the form 2^k-1 are exact as well; any other operation becomes a
fresh integer in its range (the same one for the same term), which is sound for "unsat" only (exact = False)."""
import z3

def _k(name):
    return getattr(z3, 'Z3_OP_' + name)


ADD, SUB, MUL, NEG = _k('BADD'), _k('BSUB'), _k('BMUL'), _k('BNEG')
ULEQ, ULT, UGEQ, UGT = _k('ULEQ'), _k('ULT'), _k('UGEQ'), _k('UGT')
SLEQ, SLT, SGEQ, SGT = _k('SLEQ'), _k('SLT'), _k('SGEQ'), _k('SGT')
EXTRACT, CONCAT, ZEXT, SEXT = _k('EXTRACT'), _k('CONCAT'), _k('ZERO_EXT'), _k('SIGN_EXT')
BAND, BOR, BXOR, BNOT, SHL, LSHR = _k('BAND'), _k('BOR'), _k('BXOR'), _k('BNOT'), _k('BSHL'), _k('BLSHR')
ITE, EQ, AND, OR, NOT, IMPLIES, DISTINCT, XOR, IFF = (_k('ITE'), _k('EQ'), _k('AND'), _k('OR'), _k('NOT'), _k('IMPLIES'),
                                                     _k('DISTINCT'), _k('XOR'), _k('IFF'))
UNINT, TRUE, FALSE = _k('UNINTERPRETED'), _k('TRUE'), _k('FALSE')


class Lin:
    """integer linear form: const + sum coef*atom, atoms are z3 Int constants/terms with known ranges"""
    __slots__ = ('c', 't', 'deps', 'exact', 'raw')

    def __init__(self, c, t, deps, exact, raw=None):
        self.c, self.t, self.deps, self.exact = c, t, deps, exact
        self.raw = raw or self          # an equal form modulo 2^w that was not reduced


class LIA:
    def __init__(self):
        self.memo = {}       # term id -> (term, value)
        self.side = []       # constraints
        self.n = 0
        self.rng = {}        # atom id -> (lo, hi)
        self.atoms = {}      # atom id -> z3 Int
        self.ufs = {}
        self.score = {}
        self.consts = {}     # bv constants: id -> (bv const, atom)

    # ------------------------------------------------------------ helpers
    def fresh(self, lo, hi, name='v'):
        self.n += 1
        a = z3.Int('lia!%s!%d' % (name, self.n))
        self.rng[a.get_id()] = (lo, hi)
        self.atoms[a.get_id()] = a
        self.side.append(z3.And(a >= lo, a <= hi))
        return a, len(self.side) - 1

    def rangeof(self, l):
        lo = hi = l.c
        for i, k in l.t.items():
            a, b = self.rng[i]
            if k >= 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def expr(self, l):
        ts = [(self.atoms[i] if k == 1 else k * self.atoms[i]) for i, k in sorted(l.t.items())]
        if l.c or not ts:
            ts.append(z3.IntVal(l.c))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def lin(self, ls, ks, c):
        t = {}
        deps, exact = frozenset(), True
        for l, k in zip(ls, ks):
            c += k * l.c
            deps |= l.deps
            exact &= l.exact
            for i, q in l.t.items():
                t[i] = t.get(i, 0) + k * q
        return Lin(c, {i: k for i, k in t.items() if k}, deps, exact)

    def wrap(self, l, w):
        """l modulo 2^w"""
        M = 1 << w
        lo, hi = self.rangeof(l)
        if lo >= 0 and hi < M:
            return l
        if lo // M == hi // M:
            return Lin(l.c - M * (lo // M), l.t, l.deps, l.exact)
        q, d = self.fresh(lo // M, hi // M, 'q')
        r = Lin(l.c, dict(l.t), l.deps | {d}, l.exact)
        r.t[q.get_id()] = -M
        v, d2 = self.fresh(0, M - 1, 'r')
        self.side.append(v == self.expr(r))
        return Lin(0, {v.get_id(): 1}, r.deps | {d2, len(self.side) - 1}, l.exact, l)

    def norm(self, l, w):
        """coefficients in [-2^(w-1), 2^(w-1)); equal modulo 2^w"""
        M, H = 1 << w, 1 << (w - 1)
        t = {i: (k + H) % M - H for i, k in l.t.items()}
        c = (l.c + H) % M - H
        return Lin(c, {i: k for i, k in t.items() if k}, l.deps, l.exact)

    def atom(self, lo, hi, deps, exact, name='v'):
        v, d = self.fresh(lo, hi, name)
        return Lin(0, {v.get_id(): 1}, deps | {d}, exact)

    def divmod(self, l, M):
        """(l div M, l mod M) for M > 0"""
        lo, hi = self.rangeof(l)
        if M == 1:
            return l, Lin(0, {}, l.deps, l.exact)
        if lo >= 0 and hi < M:
            return Lin(0, {}, l.deps, l.exact), l
        if not l.t:
            return Lin(l.c // M, {}, l.deps, l.exact), Lin(l.c % M, {}, l.deps, l.exact)
        q, d = self.fresh(lo // M, hi // M, 'd')
        r, d2 = self.fresh(0, M - 1, 'm')
        self.side.append(self.expr(l) == M * q + r)
        deps = l.deps | {d, d2, len(self.side) - 1}
        return Lin(0, {q.get_id(): 1}, deps, l.exact), Lin(0, {r.get_id(): 1}, deps, l.exact)

    # ------------------------------------------------------------ terms
    def get(self, e):
        r = self.memo.get(e.get_id())
        if r is not None:
            return r[1]
        stack = [e]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in self.memo:
                stack.pop()
                continue
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.memo[i] = (t, self.node(t, [self.memo[c.get_id()][1] for c in ch]))
        return self.memo[e.get_id()][1]

    def node(self, t, a):
        if z3.is_bool(t):
            return self.bnode(t, a)
        if not z3.is_bv(t):
            raise ValueError('sort')
        w = t.size()
        M = 1 << w
        if z3.is_bv_value(t):
            return Lin(t.as_long(), {}, frozenset(), True)
        d = t.decl()
        k = d.kind()
        if k == ADD:
            return self.wrap(self.norm(self.lin([x.raw for x in a], [1] * len(a), 0), w), w)
        if k == SUB:
            return self.wrap(self.norm(self.lin([x.raw for x in a], [1] + [-1] * (len(a) - 1), 0), w), w)
        if k == NEG:
            return self.wrap(self.norm(self.lin([x.raw for x in a], [-1], 0), w), w)
        if k == MUL:
            c, rest = 1, []
            for x in a:
                if x.t:
                    rest.append(x)
                else:
                    c *= x.c
            c %= M
            if not rest:
                return Lin(c, {}, frozenset(), True)
            if len(rest) == 1:
                if c >= M >> 1:
                    c -= M
                return self.wrap(self.norm(self.lin([rest[0].raw], [c], 0), w), w)
            return self.opaque(t, a)
        if k == ZEXT:
            return a[0]
        if k == SEXT:
            w0 = t.children()[0].size()
            x = a[0]
            if not x.t:
                return Lin(x.c if x.c < 1 << (w0 - 1) else x.c + M - (1 << w0), {}, x.deps, x.exact)
            q, _ = self.divmod(x, 1 << (w0 - 1))
            return self.lin([x, q], [1, M - (1 << w0)], 0)
        if k == EXTRACT:
            hi, lo = t.params() if hasattr(t, 'params') and callable(t.params) else (d.params()[0], d.params()[1])
            x = a[0]
            if lo:
                x, _ = self.divmod(x, 1 << lo)
            if hi + 1 < t.children()[0].size():
                _, x = self.divmod(x, 1 << (hi - lo + 1))
            return x
        if k == CONCAT:
            out, sh = None, 0
            ch = t.children()
            ls, ks = [], []
            for x, c in reversed(list(zip(a, ch))):
                ls.append(x)
                ks.append(1 << sh)
                sh += c.size()
            return self.lin(ls, ks, 0)
        if k == ITE:
            c, x, y = a
            if not x.t and not y.t and x.c == y.c:
                return x
            (l1, h1), (l2, h2) = self.rangeof(x), self.rangeof(y)
            v, dd = self.fresh(min(l1, l2), max(h1, h2), 'i')
            self.side.append(v == z3.If(c[0], self.expr(x), self.expr(y)))
            return Lin(0, {v.get_id(): 1}, c[1] | x.deps | y.deps | {dd, len(self.side) - 1}, c[2] and x.exact and y.exact)
        if k == SHL and not a[1].t:
            s = a[1].c
            if s >= w:
                return Lin(0, {}, frozenset(), True)
            return self.wrap(self.lin([a[0]], [1 << s], 0), w)
        if k == LSHR and not a[1].t:
            s = a[1].c
            if s >= w:
                return Lin(0, {}, frozenset(), True)
            return self.divmod(a[0], 1 << s)[0]
        if k == BNOT:
            return self.lin(a, [-1], M - 1)
        if k == BAND and len(a) == 2:
            for x, y in (a, a[::-1]):
                if not x.t and (x.c & (x.c + 1)) == 0:
                    return self.divmod(y, x.c + 1)[1]
        if k in (BAND, BOR, BXOR):
            if all(self.rangeof(x)[0] >= 0 and self.rangeof(x)[1] <= 1 for x in a):
                es = [self.expr(x) for x in a]
                v, dd = self.fresh(0, 1, 'b')
                if k == BAND:
                    f = z3.And(*[e == 1 for e in es])
                elif k == BOR:
                    f = z3.Or(*[e == 1 for e in es])
                else:
                    f = es[0] == 1
                    for e in es[1:]:
                        f = z3.Xor(f, e == 1)
                self.side.append((v == 1) == f)
                deps = frozenset({dd, len(self.side) - 1})
                for x in a:
                    deps |= x.deps
                return Lin(0, {v.get_id(): 1}, deps, all(x.exact for x in a))
        if k == UNINT:
            if not a:
                v, dd = self.fresh(0, M - 1, 'c')
                self.consts[v.get_id()] = (t, v, dd)
                return Lin(0, {v.get_id(): 1}, frozenset({dd}), True)
            key = d.name(), len(a)
            f = self.ufs.get(key)
            if f is None:
                f = z3.Function('lia!' + d.name(), *([z3.IntSort()] * (len(a) + 1)))
                self.ufs[key] = f
            try:
                args = [self.expr(x) if isinstance(x, Lin) else z3.If(x[0], z3.IntVal(1), z3.IntVal(0)) for x in a]
            except AttributeError:
                return self.opaque(t, a)
            v, dd = self.fresh(0, M - 1, 'f')
            self.side.append(v == f(*args))
            deps = frozenset({dd, len(self.side) - 1})
            for x in a:
                deps |= x.deps if isinstance(x, Lin) else x[1]
            self.consts[t.get_id()] = (t, v, dd)
            return Lin(0, {v.get_id(): 1}, deps, all(x.exact if isinstance(x, Lin) else x[2] for x in a))
        return self.opaque(t, a)

    def opaque(self, t, a):
        deps = frozenset()
        l = self.atom(0, (1 << t.size()) - 1, deps, False, 'o')
        return l

    def bnode(self, t, a):
        k = t.decl().kind()
        if k == TRUE:
            return (z3.BoolVal(True), frozenset(), True)
        if k == FALSE:
            return (z3.BoolVal(False), frozenset(), True)
        ch = t.children()
        if k in (AND, OR, NOT, IMPLIES, XOR, IFF) or (k in (EQ, DISTINCT, ITE) and z3.is_bool(ch[-1])):
            es = [x[0] for x in a]
            deps, ex = frozenset(), True
            for x in a:
                deps |= x[1]
                ex &= x[2]
            if k == AND:
                f = z3.And(*es)
            elif k == OR:
                f = z3.Or(*es)
            elif k == NOT:
                f = z3.Not(es[0])
            elif k == IMPLIES:
                f = z3.Implies(*es)
            elif k == ITE:
                f = z3.If(*es)
            elif k in (XOR, DISTINCT):
                f = z3.Xor(*es)
            else:
                f = es[0] == es[1]
            return (f, deps, ex)
        if k == UNINT and not a:
            return (t, frozenset(), True)
        if all(isinstance(x, Lin) for x in a):
            deps, ex = frozenset(), True
            for x in a:
                deps |= x.deps
                ex &= x.exact
            if k in (SLEQ, SLT, SGEQ, SGT):
                w = ch[0].size()
                H = 1 << (w - 1)
                ss = []
                for x in a:
                    q, _ = self.divmod(x, H)
                    s = self.lin([x, q], [1, -2 * H], 0)
                    deps |= s.deps
                    ss.append(s)
                a = ss
                k = {SLEQ: ULEQ, SLT: ULT, SGEQ: UGEQ, SGT: UGT}[k]
            if k in (ULEQ, ULT, UGEQ, UGT, EQ, DISTINCT) and len(a) == 2:
                d = self.lin([a[0], a[1]], [1, -1], 0)
                if k == EQ or k == DISTINCT:
                    lo, hi = self.rangeof(d)
                    if lo > 0 or hi < 0:
                        f = z3.BoolVal(False)
                    else:
                        f = self.expr(a[0]) == self.expr(a[1])
                    if k == DISTINCT:
                        f = z3.Not(f)
                else:
                    x, y = self.expr(a[0]), self.expr(a[1])
                    f = {ULEQ: x <= y, ULT: x < y, UGEQ: x >= y, UGT: x > y}[k]
                return (f, deps, ex)
        b = z3.Bool('lia!b!%d' % t.get_id())
        return (b, frozenset(), False)

    # ------------------------------------------------------------ queries
    def check(self, cs, ms):
        """(answer, equations fixing the bit-vector constants, exact)"""
        try:
            fs = [self.get(c) for c in cs]
        except (ValueError, z3.Z3Exception):
            return 'unknown', None, False
        todo, done = set(), set()
        exact = True
        s = z3.SolverFor('QF_UFLIA')
        for f, d, ex in fs:
            s.add(f)
            todo |= d
            exact &= ex
        # worth trying as long as it decides something
        score = self.score.setdefault(exact, [0, 0])
        if score[0] > 8 and score[1] * 4 < score[0] and score[0] % 16:
            score[0] += 1
            return 'unknown', None, False
        score[0] += 1
        if not exact:
            ms = min(ms, 300)
        s.set('timeout', ms)
        for i in todo:
            s.add(self.side[i])
        r = s.check()
        if r == z3.unsat:
            score[1] += 1
            return 'unsat', None, exact
        if r == z3.sat and exact:
            score[1] += 1
            m = s.model()
            fix = []
            for t, v, dd in self.consts.values():
                if dd in todo:
                    fix.append(t == z3.BitVecVal(m.eval(v, model_completion=True).as_long(), t.size()))
            return 'sat', fix, True
        return 'unknown', None, exact

