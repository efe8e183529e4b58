"""Loops: unrolled completely when they end within the unroll limit (the unwinding
obligation is that no path is left), otherwise cut at an inductive invariant.

Invariants are not tied to names in the code.  A ghost iteration counter `it` is
added, every location the loop modifies gets closed-form candidates (linear in
`it`, or the ghost functions of the harness' LoopSpec), and the candidates that
are not inductive are dropped (Houdini).  What survives is proved to hold
initially and to be preserved; only then is it assumed."""
import copy
import z3
from val import *
from mem import *
from machine import Outcome, Budget
import ir


class LoopSpec:
    """default: no ghost functions"""

    def facts(self, ctx, it):
        return []

    def ghosts(self, ctx, it):
        return []

    def scalars(self, ctx, it):
        return []

    def offsets(self, ctx, it, obj):
        return []

    def objs(self, ctx, it, view):
        return []

    def sizes(self, ctx, it, obj):
        return []

    def bools(self, ctx, it):
        return []


class Ctx:
    def __init__(self, st, log):
        self.st = st
        self.sym = {}
        self.arr = {}
        for e in log:
            if e[0] == 'nd':
                self.sym[e[1]] = e[3]
            else:
                self.arr[e[1]] = (e[3], e[4], e[2])

    def nd(self, n, k=0):
        return self.sym['%s#%d' % (n, k)]

    def has(self, n, k=0):
        return '%s#%d' % (n, k) in self.sym

    def array(self, n, k=0):
        """(count, Base, element width)"""
        return self.arr['%s#%d' % (n, k)]


def header_phis(f, header):
    out = []
    for x in f.blocks[header]:
        if x.op != 'phi':
            break
        out.append(x)
    return out


def phi_vals(eng, st, regs, f, header, prev):
    r = {}
    for x in header_phis(f, header):
        for v, b in x.args:
            if b == prev:
                r[x.res] = eng.val(st, regs, v, x.ty)
    return r


def run_loop(eng, fr, st, regs, header, prev):
    f = fr.f
    L = f.loops[header]
    key = (f.name, header)
    need = eng.need_stack[-1]
    if key in need and eng.opts.bounded is None:
        return with_invariant(eng, fr, st, regs, header, prev)
    snap = st.fork()
    snap_regs = dict(regs)
    disc = None if eng.quiet else copy.deepcopy(eng.discharged)
    nf = (len(eng.failures), len(eng.undecided))
    mark = [0]
    eng.unrolling.append(mark)
    try:
        ok, outs = unroll(eng, fr, st, regs, header, prev, L, mark)
    except UnrollAbort as e:
        if e.mark is not mark:
            raise
        ok = False
    except Budget as e:
        if 'too many paths' not in str(e) and 'too many failures' not in str(e):
            raise
        if eng.opts.bounded is not None or nf[0] or nf[1]:
            raise
        ok = False
    finally:
        while eng.unrolling.pop() is not mark:
            pass
    if ok:
        eng.loops_done.setdefault((eng.demangled(f.name), header), 'unrolled completely')
        return outs
    if eng.opts.bounded is not None:
        raise Budget('paths')
    for m in eng.unrolling:
        if m[0]:
            raise UnrollAbort(m)      # an enclosing loop is being unrolled; that one needs the invariant
    need.add(key)
    # the attempt to unroll is discarded as a whole; the invariant decides
    del eng.failures[nf[0]:]
    del eng.undecided[nf[1]:]
    if disc is not None:
        eng.discharged = disc
    return with_invariant(eng, fr, snap, snap_regs, header, prev)


class UnrollAbort(Exception):
    def __init__(self, mark):
        self.mark = mark


def unroll(eng, fr, st, regs, header, prev, L, mark):
    opts = eng.opts
    cur = [(st, regs, prev, 0)]
    results = []
    n = 0
    lim = opts.bounded if opts.bounded is not None else opts.unroll
    while cur:
        n += 1
        if n > opts.concrete_cap:
            return False, None
        nxt = []
        for (s, r, p, k) in cur:
            n0 = len(s.pc)
            mark[0] = k
            outs = eng.run(fr, [(s, r, header, p, None, 'enter')], L, header)
            for o in outs:
                if o.kind == 'back':
                    kk = k + (1 if len(o.st.pc) > n0 else 0)
                    if kk > lim:
                        if opts.bounded is not None:
                            eng.bounded_cut += 1
                            continue
                        return False, None
                    nxt.append((o.st, o.regs, o.prev, kk))
                else:
                    results.append(o)
        cur = nxt
        if opts.bounded is None and any(k for _, _, _, k in cur) and len(cur) > opts.unroll_paths:
            return False, None
        if len(cur) + len(results) > opts.max_paths:
            return False, None
    return True, results


class Loc:
    def __init__(self, kind, key, width, init):
        self.kind = kind          # 'phi' | 'cell' | 'size'
        self.key = key
        self.width = width        # bits; for pointers 64 (offset)
        self.init = init          # int/BV (pointers: the offset), None if unknown
        self.rid = None           # for pointers: the region
        self.cands = []           # list of (name, fn(it) -> expr)
        self.pick = 0
        self.bnds = []            # surviving inequality candidates (name, fn(v) -> Bool)
        self.undef = False

    def __repr__(self):
        return '%s %s' % (self.kind, self.key)


def tobv(v, w):
    if is_sym(v) and z3.is_bool(v):
        return zext(v, 1, 8) if w == 8 else v
    return v


def with_invariant(eng, fr, st0, regs0, header, prev):
    f = fr.f
    L = f.loops[header]
    spec = eng.opts.loopspec or LoopSpec()
    init = phi_vals(eng, st0, regs0, f, header, prev)
    it = fresh('it', 64)
    locs = {}
    objs = {}                # rid -> True: content havocked

    def mkloc(kind, key, w, v):
        if isinstance(v, Ptr):
            l = Loc(kind, key, 64, v.off)
            l.rid = v.rid
        elif v is UNDEF or v is None or isinstance(v, Agg):
            l = Loc(kind, key, w, None)
            l.undef = True
        else:
            l = Loc(kind, key, w, v)
        return l

    for x in header_phis(f, header):
        t = eng.mod.resolve(x.ty)
        w = t[1] if t[0] == 'i' else 64
        locs[('phi', x.res)] = mkloc('phi', x.res, w, init[x.res])

    def build(round_names):
        """the arbitrary-iteration state"""
        s = st0.fork()
        r = dict(regs0)
        ctx = Ctx(s, s.log)
        s.ghost['havoc'] = True
        s.model = None
        vals = {}
        s.pc.append(z3.ULT(it, BV(1 << 60, 64)))
        for fct in spec.facts(ctx, it):
            s.pc.append(bl(fct))
        for l in locs.values():
            if l.undef:
                v = UNDEF
            elif l.pick < len(l.cands):
                v = l.cands[l.pick][1](prog if l.cands[l.pick][0] in PROG else it)
            elif lead[0] is l:
                v = (sub64 if down[0] else add64)(l.init, prog)
                for bn, bf in l.bnds:
                    c = bf(v)
                    if not isinstance(c, int):
                        s.pc.append(c)
            else:
                v = fresh('h_%s' % (str(l.key)[:20]), l.width)
                for bn, bf in l.bnds:
                    c = bf(v)
                    if not isinstance(c, int):
                        s.pc.append(c)
            vals[l] = v
        for l in locs.values():
            v = vals[l]
            pv = Ptr(l.rid, v) if (l.rid is not None and v is not UNDEF) else v
            if l.kind == 'phi':
                r[l.key] = pv
            elif l.kind == 'cell':
                rid, off = l.key
                o = s.wobj(rid)
                w = l.cw
                o.cells.pop(off, None)
                o._clear(off, w)
                o.cells[off] = (w, pv)
            elif l.kind == 'size':
                o = s.wobj(l.key)
                o.size = v
        if lead[0] is not None:
            for nm, l, fn in pbnds:
                if not l.undef and (l is lead[0] or l.pick < len(l.cands) and l.cands[l.pick][0] in PROG):
                    v = (sub64 if down[0] else add64)(l.init, prog) if l is lead[0] else l.cands[l.pick][1](prog)
                    c = fn(v)
                    if not isinstance(c, int):
                        s.pc.append(c)
        for rid in objs:
            o = s.wobj(rid)
            if rid in okcopy and lead[0] is not None:
                copied(s, o, rid, prog)
                continue
            ew = obj_ew(o)
            o.cells = {}
            o.under = Base('h_obj%d!%d' % (rid, it.get_id()), ew)
        for (nm, rid) in list(okinv):
            for (n2, c) in spec_objs(s, ctx, rid):
                if n2 == nm:
                    s.pc.append(bl(c))
        for (nm, c) in spec.ghosts(ctx, it):
            if nm in okghost:
                s.pc.append(bl(c))
        return s, r

    def obj_ew(o):
        u = o.under
        seen = 0
        while seen < 50:
            seen += 1
            e = getattr(u, 'ew', None)
            if e:
                return e
            if hasattr(u, 'src') and getattr(u.src, 'ew', None):
                return u.src.ew
            if not hasattr(u, 'under'):
                break
            u = u.under
        for off, (w, v) in o.cells.items():
            return w if w in (1, 2, 4, 8) else 1
        return 1

    def spec_objs(s, ctx, rid, itv=None):
        o = s.obj(rid)
        return spec.objs(ctx, it if itv is None else itv, View(s, o, st0.obj(rid)))

    okinv = set()
    okghost = set()
    # progress: how far an irregularly advancing location (the leader) has come; other locations may
    # advance with it, and objects may hold a copy of that length
    prog = fresh('prog', 64)
    lead = [None]
    down = [False]        # the leader counts downwards

    def advance(o):
        v = back_val(lead[0], o)
        return sub64(lead[0].init, v) if down[0] else sub64(v, lead[0].init)
    notlead = set()
    pbnds = []
    okcopy = {}

    def copied(s, o, rid, n):
        """the content of the object before the loop, with n bytes copied"""
        o0 = st0.obj(rid)
        d0, src, s0 = okcopy[rid]
        o.cells = dict(o0.cells)
        o.under = Copy(o0.snapshot(), d0, n, src, s0)
        o.cells = {}
        o.size = o0.size

    def body(s, r):
        n = len(header_phis(f, header))
        # whether an inner loop can be unrolled depends on what is known about the outer one
        eng.need_stack.append(set())
        u, eng.unrolling = eng.unrolling, []
        try:
            return eng.run(fr, [(s, r, header, None, n)], L, header)
        finally:
            eng.need_stack.pop()
            eng.unrolling = u

    def diff(hs, o):
        """locations changed by the iteration"""
        ch = False
        for rid, ho in hs.mem.items():
            bo = o.st.mem.get(rid)
            if bo is ho:
                continue
            if bo is None:
                continue
            if bo.alive != ho.alive:
                raise Unsupported('loop frees memory')
            if rid in objs:
                continue
            if bo.under is not ho.under:
                objs[rid] = True
                ch = True
                # all cell locs of this object are subsumed
                for k in [k for k in locs if k[0] == 'cell' and k[1][0] == rid]:
                    del locs[k]
            if not same_val(bo.size, ho.size):
                if ('size', rid) not in locs:
                    o0 = st0.obj(rid)
                    locs[('size', rid)] = mkloc('size', rid, 64, o0.size)
                    ch = True
                    if rid not in objs:
                        objs[rid] = True
            if rid in objs:
                continue
            for off in set(bo.cells) | set(ho.cells):
                a = bo.cells.get(off)
                b = ho.cells.get(off)
                if a is not None and b is not None and a[0] == b[0] and same_val(a[1], b[1]):
                    continue
                if ('cell', (rid, off)) in locs:
                    continue
                o0 = st0.obj(rid)
                c0 = o0.cells.get(off)
                w = (a or b)[0]
                if c0 is not None and c0[0] == w:
                    v0 = c0[1]
                elif c0 is None and o0.under is UNDEFINED:
                    v0 = None
                else:
                    objs[rid] = True
                    for k in [k for k in locs if k[0] == 'cell' and k[1][0] == rid]:
                        del locs[k]
                    ch = True
                    break
                l = mkloc('cell', (rid, off), 8 * w, v0)
                l.cw = w
                if v0 is None or v0 is UNDEF:
                    l.undef = True
                locs[('cell', (rid, off))] = l
                ch = True
        return ch

    def back_val(l, o):
        """value of the location at the back edge (None: pointer left its region)"""
        if l.kind == 'phi':
            v = phi_vals(eng, o.st, o.regs, f, header, o.prev)[l.key]
        elif l.kind == 'cell':
            q = o.st.obj(l.key[0])
            c = q.cells.get(l.key[1])
            if c is None or c[0] != l.cw:
                v = q.read(o.st, l.key[1], l.cw)
            else:
                v = c[1]
        else:
            v = o.st.obj(l.key).size
        if l.rid is not None:
            if not isinstance(v, Ptr) or v.rid != l.rid:
                if isinstance(v, int) and l.rid == 0:
                    return v
                raise Unsupported('loop-carried pointer changes its object')
            return v.off
        if isinstance(v, Ptr):
            raise Unsupported('loop-carried value becomes a pointer')
        if v is UNDEF:
            return fresh('undef', l.width)
        if l.width != 1:
            v = tobv(v, l.width)
        return v

    unk0 = eng.smt.unknowns
    # ---- 1. what does the loop modify?
    eng.quiet += 1
    eng.frame_only += 1
    try:
        for _ in range(12):
            s, r = build(())
            hs = s.fork()
            outs = body(s, r)
            if not any([diff(hs, o) for o in outs if o.kind == 'back']):
                break
        else:
            raise Unsupported('loop frame does not stabilise')
    finally:
        eng.frame_only -= 1
        eng.quiet -= 1
    if eng.frame_only:
        return [o for o in outs if o.kind != 'back']
    eng.quiet += 1
    try:
        # ---- 2. candidates
        s1 = st0.fork()
        r1 = dict(regs0)
        r1.update(init)
        first = body(s1, r1)
        ctx0 = Ctx(st0, st0.log)
        for l in locs.values():
            if l.undef or l.init is None:
                continue
            cs = []
            seen = set()
            if l.rid is not None:
                ctx0.rid = l.rid
                cs += list(spec.offsets(ctx0, it, st0.obj(l.rid)))
            elif l.kind == 'size':
                cs += list(spec.sizes(ctx0, it, st0.obj(l.key)))
            elif l.width == 64:
                cs += [c for c in spec.scalars(ctx0, it) if c[0].startswith('opos')]
            for o in first:
                if o.kind != 'back':
                    continue
                b = back_val(l, o)
                if l.width == 1:
                    continue
                d = binop('sub', l.width, b, tobv(l.init, l.width))
                if isinstance(d, int) and d not in seen:
                    seen.add(d)
                    cs.append(('%s + %d*it' % ('init', sgn(d, l.width)),
                               lambda x, d=d, l=l: lin(l.init, d, x, l.width)))
            if l.rid is not None or l.kind == 'size':
                pass
            elif l.width > 1:
                for nm, fn in spec.scalars(ctx0, it):
                    if nm.startswith('opos') and l.width == 64:
                        continue
                    cs.append((nm, lambda x, fn=fn, l=l: fit(fn(x), l.width)))
            if l.width == 1 or l.width == 8:
                for nm, fn in spec.bools(ctx0, it):
                    cs.append((nm, lambda x, fn=fn, l=l: fn(x) if l.width == 1 else zext(fn(x), 1, 8)))
            if 0 not in seen:
                cs.append(('init', lambda x, l=l: l.init))
            if eng.opts.progress and l.width == 64 and l.kind != 'size':
                cs.append((PROG[0], lambda x, l=l: add64(l.init, x)))
                cs.append((PROG[1], lambda x, l=l: sub64(l.init, x)))
                for m in locs.values():
                    if l.kind == m.kind == 'cell' and m is not l and m.key[0] == l.key[0] and m.width == 64 and not m.undef and m.rid is None and l.rid is None:
                        cs.append((PROG[2], lambda x, l=l, m=m: umax64(l.init, add64(m.init, x))))
            # initial validity
            good = []
            for nm, fn in cs:
                try:
                    v = fn(BV(0, 64))
                except z3.Z3Exception:
                    continue
                if eq_must(st0, v, l.init, l.width):
                    good.append((nm, fn))
            l.cands = good
            if l.width in (8,) and l.rid is None:
                l.bnds = [('bool', lambda v: icmp('ule', 8, v, 1))] if st0.must(icmp('ule', 8, l.init, 1)) else []
            elif l.width > 1:
                iv = l.init
                l.bnds = [('>=init', lambda v, iv=iv, w=l.width: icmp('uge', w, v, iv)),
                          ('<=init', lambda v, iv=iv, w=l.width: icmp('ule', w, v, iv))]
        for rid in objs:
            for (nm, c) in spec.objs(ctx0, BV(0, 64), View(st0, st0.obj(rid), st0.obj(rid))):
                if st0.must(c):
                    okinv.add((nm, rid))
        if eng.opts.progress:
            for l in locs.values():
                if l.undef or l.init is None or l.width != 64 or l.rid is not None or l.kind == 'size':
                    continue
                vs = {}
                for v in list(regs0.values()) + [l.init] + [c[1] for off, c in (st0.obj(l.key[0]).cells.items() if l.kind == 'cell' else ())
                                               if c[0] == 8 and ('cell', (l.key[0], off)) not in locs]:
                    if z3.is_bv(v) and v.size() == 64:
                        vs[v.get_id()] = v
                for v in list(vs.values())[:24]:
                    pbnds.append(('bounded', l, lambda x, v=v, l=l: b_or(icmp('ule', 64, x, v), icmp('eq', 64, x, l.init))))
        pbnds0, okcopy0 = list(pbnds), None
        for rid in objs if eng.opts.progress else ():
            o0 = st0.obj(rid)
            for o in first:
                if o.kind == 'back':
                    c = o.st.obj(rid)
                    if isinstance(c.under, Copy) and not c.cells and same_under(c.under.under, o0) and same_val(c.size, o0.size):
                        okcopy[rid] = (c.under.dst, c.under.src, c.under.soff)
        okcopy0 = dict(okcopy)
        for (nm, c) in spec.ghosts(ctx0, BV(0, 64)):
            sx = st0.fork()
            for fct in spec.facts(ctx0, BV(0, 64)):
                sx.add(fct)
            if sx.must(c):
                okghost.add(nm)
        # ---- 3. Houdini.  A wrong equality for one location can make right candidates of
        # others fail, so invariants are only dropped when the equalities are stable, and
        # exhausted locations get another pass once the others have settled.
        it1 = it + 1
        inv0, ghost0 = set(okinv), set(okghost)
        seen_conf = set()
        rounds = 0
        while True:
            while True:
                rounds += 1
                if rounds > 120:
                    raise Unsupported('no inductive invariant found')
                s, r = build(())
                hs = s.fork()
                outs = [o for o in body(s, r) if o.kind == 'back']
                changed = False
                for o in outs:
                    if diff(hs, o):
                        raise Unsupported('loop frame grew')
                for l in locs.values():
                    if l.undef or l.pick >= len(l.cands):
                        continue
                    if l.cands[l.pick][0] in PROG and lead[0] is None:
                        if l.key in notlead:
                            l.pick += 1
                            changed = True
                            continue
                        lead[0] = l
                        down[0] = all(o.st.must(icmp('ule', 64, back_val(l, o), l.init)) for o in first if o.kind == 'back')
                        l.pick = len(l.cands)
                        changed = True
                        continue
                    for o in outs:
                        if l.cands[l.pick][0] in PROG:
                            want = l.cands[l.pick][1](advance(o))
                        else:
                            want = l.cands[l.pick][1](it1)
                        if not eq_must(o.st, back_val(l, o), want, l.width):
                            l.pick += 1
                            changed = True
                            break
                if changed:
                    continue
                for o in outs:
                    for l in locs.values():
                        if l.undef or l.pick < len(l.cands):
                            continue
                        bvv = back_val(l, o)
                        for b in list(l.bnds):
                            if not o.st.must(b[1](bvv)):
                                l.bnds.remove(b)
                                changed = True
                    if lead[0] is not None:
                        for b in list(pbnds):
                            l = b[1]
                            if (l is lead[0] or l.pick < len(l.cands) and l.cands[l.pick][0] in PROG) and not o.st.must(b[2](back_val(l, o))):
                                pbnds.remove(b)
                                changed = True
                        for rid in list(okcopy):
                            e = st0.obj(rid).clone()
                            copied(o.st, e, rid, advance(o))
                            x = fresh('x', 64)
                            sx = o.st.fork()
                            sx.add(icmp('ult', 64, x, e.size))
                            a, b = o.st.obj(rid).read(sx, x, 1), e.read(sx, x, 1)
                            if a is UNDEF or b is UNDEF or not sx.must(icmp('eq', 8, a, b), True):
                                del okcopy[rid]
                                changed = True
                    octx = Ctx(o.st, o.st.log)
                    for rid in set(q for _, q in okinv):
                        for n2, c in spec.objs(octx, it1, View(o.st, o.st.obj(rid), st0.obj(rid))):
                            if (n2, rid) in okinv and not o.st.must(c, True):
                                okinv.discard((n2, rid))
                                changed = True
                    for (nm, c) in spec.ghosts(octx, it1):
                        if nm in okghost and not o.st.must(c, True):
                            okghost.discard(nm)
                            changed = True
                if not changed:
                    break
            followers = [l for l in locs.values() if not l.undef and l.pick < len(l.cands) and l.cands[l.pick][0] in PROG]
            if lead[0] is not None and (followers or okcopy):
                break
            conf = (tuple(l.pick for l in locs.values()), lead[0] and lead[0].key) + tuple(sorted(okghost)) + tuple(sorted(n for n, _ in okinv))
            ex = [l for l in locs.values() if not l.undef and l.cands and l.pick >= len(l.cands)]
            if not ex or conf in seen_conf or len(seen_conf) >= (5 if lead[0] is not None else 2):
                break
            if lead[0] is not None:
                notlead.add(lead[0].key)
                pbnds[:] = pbnds0
                okcopy.update(okcopy0)
            seen_conf.add(conf)
            for l in ex:
                l.pick = 0
            lead[0] = None
            okinv |= inv0
            okghost |= ghost0
    finally:
        eng.quiet -= 1
    # ---- 4. final run: obligations inside the loop, exits
    desc = []
    for l in locs.values():
        if l.undef:
            continue
        if l.pick < len(l.cands):
            desc.append('%r == %s' % (l, l.cands[l.pick][0]))
        else:
            desc.append('%r : %s' % (l, ', '.join(b[0] for b in l.bnds) or 'arbitrary'))
    if lead[0] is not None:
        desc += ['progress of %r' % lead[0]] + ['%r bounded' % b[1] for b in pbnds if b[1] is lead[0] or b[1].pick < len(b[1].cands) and b[1].cands[b[1].pick][0] in PROG] + ['obj is a copy as long as the progress' for _ in okcopy]
    desc += ['%s(obj)' % n for n, _ in okinv] + list(okghost)
    gave_up = eng.smt.unknowns > unk0
    if gave_up:
        desc.append('(solver gave up on %d candidate queries)' % (eng.smt.unknowns - unk0))
        eng.inference_unknown += 1
    if not eng.quiet:
        eng.invlog.append({'function': eng.demangled(f.name), 'loop': header, 'invariant': desc})
        eng.loops_done[(eng.demangled(f.name), header)] = 'invariant'
        for d in desc:
            eng.record('loop invariant (holds initially, preserved)', re_anon(d), fr, f.blocks[header][-1], 'z3')
    s, r = build(())
    s.nassume += 1
    if not s.feasible():
        return []
    outs = body(s, r)
    return [o for o in outs if o.kind != 'back']


PROG = ('init + progress', 'init - progress', 'maximum of init and another + progress')


def umax64(a, b):
    return ite(icmp('ult', 64, a, b), b, a, 64)


def same_under(u, o):
    """the layer u is the content of the object o"""
    if not o.cells:
        return u is o.under
    return isinstance(u, Cells) and u.under is o.under and u.cells == o.cells


def re_anon(d):
    import re
    return re.sub(r'\(\d+, ', '(obj, ', re.sub(r'^size \d+', 'size', d))


def fit(v, w):
    if isinstance(v, int):
        return v & mask(w)
    if z3.is_bool(v):
        return zext(v, 1, w)
    return resize(v, v.size(), w)


def lin(init, d, x, w):
    x = fit(x, w)
    return binop('add', w, init, binop('mul', w, d, x))


def eq_must(st, a, b, w):
    if a is UNDEF or b is UNDEF:
        return False
    if w == 1:
        return st.must(b_not(binop('xor', 1, a, b)))
    return st.must(icmp('eq', w, tobv(a, w), tobv(b, w)))


def same_val(a, b):
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and same_val(a.off, b.off)
    return False


class View:
    """what an invariant may say about a memory object"""

    def __init__(self, st, o, before):
        self.st = st
        self.o = o
        self.before = before      # the object before the loop

    @property
    def kind(self):
        return self.o.kind

    @property
    def name(self):
        return self.o.name

    @property
    def size(self):
        return self.o.size

    def at(self, off, n):
        v = self.o.read(self.st, off, n)
        if v is UNDEF:
            v = fresh('undef', 8 * n)
        return v

    def was(self, off, n):
        v = self.before.read(self.st, off, n)
        if v is UNDEF:
            v = fresh('undef', 8 * n)
        return v
