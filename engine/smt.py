"""Back ends: z3 (incremental, then from scratch), cvc5 as a second opinion."""
import time
import z3
import lia
from val import *

try:
    import cvc5
    import cvc5.pythonic  # noqa
except Exception:      # pragma: no cover
    cvc5 = None


class SMT:
    def __init__(self, quick_ms=40, full_ms=20000, use_cvc5=True):
        self.quick_ms = quick_ms
        self.full_ms = full_ms
        self.feas_ms = 6000
        self.use_cvc5 = use_cvc5
        self.stats = {'z3-inc': [0, 0.0], 'z3': [0, 0.0], 'cvc5': [0, 0.0], 'z3-lia': [0, 0.0], 'model-reuse': [0, 0.0]}
        self.cache = {}
        self.memo = {}
        self.axioms = {}       # id(term) -> facts about a term
        self.deadline = None
        self.unknowns = 0
        self.lia = lia.LIA()
        self._reset()

    def _reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', self.quick_ms)
        self.lits = {}
        self.n = 0

    def lit(self, c):
        i = c.get_id()
        l = self.lits.get(i)
        if l is None:
            self.n += 1
            p = z3.Bool('vp!lit!%d' % self.n)
            self.s.add(z3.Implies(p, c))
            l = (p, c)
            self.lits[i] = l
        return l[0]

    def facts(self, cs):
        """global facts about the terms occurring in cs (closure)"""
        if not self.axioms:
            return []
        out, done = [], set()
        todo = list(cs)
        while todo:
            for k in self._reach(todo.pop()):
                if k not in done:
                    done.add(k)
                    fs = self.axioms[k][1]
                    out.extend(fs)
                    todo.extend(fs)
        seen, uniq = set(), []
        for f in out:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                uniq.append(f)
        return uniq

    def _reach(self, e):
        """ids of the terms with facts below e (memoised; the memo keeps the terms alive)"""
        memo = self.memo
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        stack = [(e, None)]
        while stack:
            t, ch = stack.pop()
            j = t.get_id()
            if j in memo:
                continue
            if ch is None:
                ch = t.children()
                stack.append((t, ch))
                stack.extend((c, None) for c in ch if c.get_id() not in memo)
            else:
                r = frozenset()
                for c in ch:
                    q = memo[c.get_id()][1]
                    if q and q is not r:
                        r = r | q
                if j in self.axioms:
                    r = r | {j}
                memo[j] = (t, r)
        return memo[i][1]

    def add_axioms(self, term, facts):
        self.axioms[term.get_id()] = (term, facts)
        self.memo.pop(term.get_id(), None)

    def check(self, cs, want_model=False, hard=False):
        """('sat'|'unsat'|'unknown', model)"""
        cs = [bl(c) for c in cs if not (isinstance(c, int) and c)]
        for c in cs:
            if z3.is_false(c):
                return 'unsat', None
        key = frozenset(c.get_id() for c in cs)
        hit = self.cache.get(key)
        if hit and (not want_model or hit[0] != 'sat' or hit[1] is not None):
            if not (hard and hit[0] == 'unknown'):
                return hit[0], hit[1]
        if self.deadline and time.time() > self.deadline:
            raise self.budget('time limit')
        allc = cs + self.facts(cs)
        if self.n > 4000:
            self._reset()
        t = time.time()
        ls = [self.lit(c) for c in allc]
        r = self.s.check(*ls)
        m = None
        if r == z3.sat:
            m = self.s.model()
        st = self.stats['z3-inc']
        st[0] += 1
        st[1] += time.time() - t
        res = str(r)
        be = 'z3-inc'
        if r == z3.unknown:
            # linear arithmetic over 64-bit sizes
            t = time.time()
            res, fix, exact = self.lia.check(allc, self.limit(4000 if hard else 2000))
            be = 'z3-lia'
            if res == 'sat':
                s = z3.SolverFor('QF_UFBV')
                s.set('timeout', 2000)
                s.add(*allc)
                s.add(*fix)
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    res = 'unknown'
            st = self.stats['z3-lia']
            st[0] += 1
            st[1] += time.time() - t
        if res == 'unknown':
            t = time.time()
            s = z3.SolverFor('QF_UFBV')
            s.set('timeout', self.limit(self.full_ms if hard else self.feas_ms))
            s.add(*allc)
            r = s.check()
            st = self.stats['z3']
            st[0] += 1
            st[1] += time.time() - t
            res = str(r)
            be = 'z3'
            if r == z3.sat:
                m = s.model()
            if r == z3.unknown and hard and self.use_cvc5 and cvc5 is not None:
                t = time.time()
                res = self.run_cvc5(allc, self.full_ms)
                st = self.stats['cvc5']
                st[0] += 1
                st[1] += time.time() - t
                be = 'cvc5'
        if res == 'unknown':
            self.unknowns += 1
        self.cache[key] = (res, m, be, cs)
        return res, m

    def backend(self, cs):
        cs = [bl(c) for c in cs if not (isinstance(c, int) and c)]
        key = frozenset(c.get_id() for c in cs)
        h = self.cache.get(key)
        return h[2] if h else 'z3'

    def limit(self, ms):
        if self.deadline:
            ms = max(1, min(ms, int(1000 * (self.deadline - time.time())) + 1000))
        return ms

    def run_cvc5(self, cs, ms):
        try:
            s = z3.Solver()
            s.add(*cs)
            txt = '(set-logic QF_UFBV)\n' + s.to_smt2()
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(self.limit(ms)))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                out = c.invoke(slv, sm)
                o = str(out).strip()
                if o in ('sat', 'unsat', 'unknown'):
                    return o
        except Exception:
            return 'unknown'
        return 'unknown'
