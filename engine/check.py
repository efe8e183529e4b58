#!/usr/bin/env python3-vt
"""check.py PROPERTY: the check of one property.

1. compile the contracts of the property together with /repo's current sources to LLVM IR
   (deductive verification) and to a native sanitizer build (replay of counterexamples);
2. discharge every obligation of every contract (machine.py / loops.py / smt.py);
3. failed obligations: replay the verifier's counterexample against the real code; look for
   a smaller one with bounded symbolic execution; search natively;
4. write evidence/<PROPERTY>.json; exit 0 / exit 1 with a VIOLATION line."""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
import ir
import machine
import registry

INC = ['-DCMP_CONFIG_HEADER_ONLY=true', '-I' + REPO + '/api/include', '-I' + REPO + '/api/src',
       '-I' + VERIF + '/contracts', '-w', '-Wno-c++11-narrowing', '-fno-access-control']
STD = '-std=c++20'


def compile_ir(src, out):
    subprocess.run(['clang++', STD, '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone'] + INC +
                   ['-S', '-emit-llvm', src, '-o', out + '.0'], check=True, capture_output=True, text=True)
    subprocess.run(['opt', '-S', '-passes=sroa,loop-simplify', out + '.0', '-o', out], check=True,
                   capture_output=True, text=True)
    os.unlink(out + '.0')


def compile_native(src, out):
    subprocess.run(['clang++', STD, '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                    '-fno-sanitize=vptr,function,nonnull-attribute', '-DVP_NATIVE'] + INC +
                   [src, os.path.join(VERIF, 'native', 'vp_native.cpp'), '-o', out] + registry.LIBS,
                   check=True, capture_output=True, text=True)


def case_text(harness, failure, inputs):
    t = ['harness ' + harness, 'failure ' + failure]
    for e in inputs:
        if e[0] == 'nd':
            t.append('nd %s %d %d' % (e[1], e[2], e[3]))
        elif e[4] is not None:
            t.append('arr %s %d %d %s' % (e[1], e[2], e[3], ' '.join(map(str, e[4]))))
        else:
            t.append('arr %s %d %d' % (e[1], e[2], e[3]))
    return '\n'.join(t) + '\n'


def replay(binary, case, timeout=30):
    """None: not confirmed; else the text"""
    try:
        p = subprocess.run([binary, 'replay', case], capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout: the code does not terminate'
    if p.returncode in (0, 3, 7):
        return None
    return p.stdout + p.stderr[-6000:]


def cover_labels(mod, name):
    out = set()
    f = mod.functions.get(name)
    if f is None:
        return out
    ir.materialize(f, mod)
    for b in f.order:
        for x in f.blocks[b]:
            if x.op in ('call', 'invoke') and x.args[0] == ('glob', 'vp_cover'):
                v = x.args[1][0][1]
                if v[0] == 'glob':
                    g = mod.globals.get(v[1])
                    if g and g[1] and g[1][0] == 'cstr':
                        out.add(g[1][1].split(b'\0')[0].decode())
    return out


MOD = None


def verify(args):
    """runs in a worker process"""
    irfile, harness, spec, optd, bounded = args
    global MOD
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    t = time.time()
    res = {'harness': harness, 'error': None}
    try:
        if MOD is None or MOD[0] != irfile:
            MOD = (irfile, ir.parse_module(open(irfile).read()))
        mod = MOD[1]
        o = machine.Options()
        for k, v in optd.items():
            setattr(o, k, v)
        if bounded:
            o.bounded = bounded
        end = optd.get('deadline')
        if end:
            o.time_limit = min(o.time_limit, end - time.time())
            if o.time_limit < 1:
                raise machine.Budget('no time left')
        if spec:
            import texts
            import numerals
            o.loopspec = texts.Multi([texts.TextSpec(), texts.ScanSpec(), numerals.NumberSpec(), numerals.MirrorSpec()] + [registry.specs()[x]() for x in spec.split(',')])
        e = machine.Engine(mod, o)
        try:
            e.run_harness(harness)
        except (machine.Unsupported, machine.Budget) as ex:
            res['error'] = '%s: %s' % (type(ex).__name__, ex)
        labels = cover_labels(mod, harness)
        if e.inference_unknown:
            # a solver gave up while invariants were inferred: a failure behind a loop means nothing
            e.undecided += [f for f in e.failures if f.havoc]
            e.failures = [f for f in e.failures if not f.havoc]
        res.update(
            failures=[dict(desc=str(f), kind=f.kind, what=f.desc, loc=f.loc, inputs=f.inputs, havoc=f.havoc) for f in e.failures],
            undecided=[str(f) for f in e.undecided],
            discharged=[[list(k), v[0], v[1]] for k, v in e.discharged.items()],
            uncovered=sorted(labels - e.covered), covered=sorted(e.covered),
            functions=sorted(e.demangled(n) for n in e.funcs_executed), stats=e.smt.stats, invariants=e.invlog,
            assumed=sorted(e.assumed), paths=e.paths, cut=e.bounded_cut,
            loops={'%s %s' % k: v for k, v in e.loops_done.items()})
    except machine.Budget as ex:
        res['error'] = 'Budget: %s' % ex
    except Exception as ex:       # an engine error is "undecided", never a verdict
        res['error'] = 'engine: %s\n%s' % (ex, traceback.format_exc()[-1500:])
    res['time'] = time.time() - t
    return res


def fuzz(args):
    binary, harness, seed, secs, out = args
    try:
        p = subprocess.run([binary, 'fuzz', harness, str(seed), str(secs), out], capture_output=True, text=True,
                           timeout=secs + 90, errors='replace')
    except subprocess.TimeoutExpired:
        return harness, None, 'timeout', ''
    return harness, p.returncode, p.stdout, p.stderr[-6000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--no-fuzz', action='store_true')
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = registry.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    rc = 2
    try:
        rc = check(pid, P, tier, seed, work, a, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, P, tier, seed, work, a, t0):
    outdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(outdir, exist_ok=True)
    srcs = P['src']
    irs, bins = {}, {}
    ctx = mp.get_context('fork')
    with cf.ThreadPoolExecutor(8) as tp:
        jobs = []
        for s in srcs:
            sp = os.path.join(VERIF, 'contracts', s)
            b = os.path.splitext(s)[0]
            irs[s] = os.path.join(work, b + '.ll')
            bins[s] = os.path.join(work, b)
            jobs.append(tp.submit(compile_ir, sp, irs[s]))
            jobs.append(tp.submit(compile_native, sp, bins[s]))
        for j in jobs:
            try:
                j.result()
            except subprocess.CalledProcessError as e:
                print('ERROR: the contracts do not compile against the current tree')
                print((e.stderr or '')[-4000:])
                return 2
    harnesses = []
    for s in srcs:
        names = subprocess.run([bins[s], 'list'], capture_output=True, text=True).stdout.split()
        for n in names:
            if n.startswith('vp_h_%s_' % pid) and not n.startswith('vp_h_%s_kf_' % pid) and (not a.only or re.search(a.only, n)):
                harnesses.append((s, n))
    if not harnesses:
        print('ERROR: no contracts for', pid)
        return 2
    optd = dict(time_limit=P.get('limit', 240) * (3 if tier == 'thorough' else 1))
    optd.update(P.get('opts', {}))
    hopts = P.get('hopts', {})

    def opts_of(h):
        o = dict(optd)
        spec = P.get('spec')
        for k, v in hopts.items():
            if re.search(k, h):
                o.update({q: w for q, w in v.items() if q != 'spec'})
                spec = v.get('spec', spec)
        return spec, o

    fz_secs = (2.0 if tier == 'quick' else 20.0) if not a.no_fuzz else 0.2
    results, fuzzes, bounded = {}, {}, {}
    order = sorted(harnesses, key=lambda x: -P.get('weight', {}).get(x[1].replace('vp_h_%s_' % pid, ''), 1))
    srcof = {h: s for s, h in harnesses}
    confirmed = {}       # harness -> (case, output of the real code)
    notes = []
    thorough = tier == 'thorough'
    end1 = t0 + (5000 if thorough else 420)
    end2 = t0 + (7000 if thorough else 620)

    def try_replay(h, fails, tag):
        for i, f in enumerate(fails[:8]):
            if f['inputs'] is None:
                continue
            case = os.path.join(work, '%s_%s_%d' % (tag, h, i))
            open(case, 'w').write(case_text(h, f['desc'], f['inputs']))
            rr = replay(bins[srcof[h]], case)
            if rr:
                confirmed[h] = (open(case).read(), rr)
                return True
        return False

    def fuzz_verdict(h, r, out, err, case):
        if r in (0, None, 3):
            return False
        txt = open(case).read() if os.path.exists(case) else ''
        if not txt:
            notes.append('%s: native search ended with %s without a case: %s' % (h, r, err[-300:]))
            return False
        confirmed[h] = (txt, out[-3000:] + err)
        return True

    def stage(jobs, fjobs, workers, threads, end, tag):
        """runs proofs (processes) and native searches (threads); ends early at the first confirmed violation"""
        res = {}
        pool = cf.ProcessPoolExecutor(workers, mp_context=ctx)
        tp = cf.ThreadPoolExecutor(threads)
        fut = {}
        for h, j in jobs:
            fut[pool.submit(verify, j)] = (h, False, None)
        for h, j in fjobs:
            fut[tp.submit(fuzz, j)] = (h, True, j[4])
        stop = False
        pending = set(fut)
        while pending and not stop:
            done, pending = cf.wait(pending, timeout=max(1, end + 60 - time.time()), return_when=cf.FIRST_COMPLETED)
            if not done:
                break
            for f in done:
                h, isf, case = fut[f]
                try:
                    r = f.result()
                except Exception as ex:
                    r = (h, None, '', str(ex)) if isf else {'harness': h, 'error': 'worker died: %s' % ex, 'time': 0}
                if isf:
                    fuzzes.setdefault(h, r[1:])
                    stop |= fuzz_verdict(h, r[1], r[2], r[3], case)
                else:
                    res[h] = r
                    if r.get('failures'):
                        stop |= try_replay(h, r['failures'], tag)
        for f in pending:
            f.cancel()
        for q in list((pool._processes or {}).values()):
            q.kill()
        pool.shutdown(wait=False, cancel_futures=True)
        if pending:
            subprocess.run(['pkill', '-9', '-f', work + '/'], capture_output=True)
        tp.shutdown(wait=False, cancel_futures=True)
        for h, j in jobs:
            if h not in res:
                res[h] = {'harness': h, 'time': 0, 'error': 'not finished: ' + ('stopped at the first confirmed violation' if stop else 'out of time')}
        return res, stop

    results, stopped = stage(
        [(h, (irs[s], h) + (lambda so: (so[0], dict(so[1], deadline=end1)))(opts_of(h)) + (None,)) for s, h in order],
        [(h, (bins[s], h, seed, fz_secs, os.path.join(work, h + '.case'))) for s, h in order], 7, 2, end1, 'case')

    def failed(r):
        return bool(r.get('failures')) or bool(r.get('uncovered') and not r.get('error'))
    if not stopped:
        # bounded symbolic execution and a longer native search for what is left: a counterexample, or the stand-in
        left = [(s, h) for s, h in order if failed(results[h]) or results[h].get('error') or results[h].get('undecided')]
        if left:
            secs = 30.0 if not thorough else 120.0
            bounded, stopped = stage(
                [(h, (irs[s], h) + (lambda so: (so[0], dict(so[1], deadline=end2, time_limit=90 if not thorough else 400, abs_div=False)))(opts_of(h)) + (P.get('bound', 6),)) for s, h in left],
                [(h, (bins[s], h, seed + 1000, secs, os.path.join(work, h + '.case2'))) for s, h in left if time.time() < end2 - secs], 6, 4, end2, 'bcase')
    violations = [(h, results[h].get('failures') or [], confirmed[h]) for s, h in harnesses if h in confirmed]
    if not violations:
        violations = [(h, results[h].get('failures') or [], None) for s, h in harnesses if failed(results[h])]

    # ------------------------------------------------------------------ evidence
    obligations = discharged = 0
    by_backend, solver_time = {}, {}
    funcs, assumed, invs, samples = set(), set(), [], []
    per = {}
    proved, not_proved = [], []
    for s, h in harnesses:
        r = results[h]
        d = sum(x[1] for x in r.get('discharged') or [])
        u = len(r.get('undecided') or []) + len(r.get('failures') or []) + len(r.get('uncovered') or [])
        if r.get('error'):
            u += 1
        discharged += d
        obligations += d + u
        for x in r.get('discharged') or []:
            for b, n in x[2].items():
                by_backend[b] = by_backend.get(b, 0) + n
        for b, (n, t) in (r.get('stats') or {}).items():
            solver_time[b] = round(solver_time.get(b, 0) + t, 2)
        funcs |= set(r.get('functions') or [])
        assumed |= set(r.get('assumed') or [])
        for i in r.get('invariants') or []:
            invs.append(dict(i, harness=h))
        (not_proved if u else proved).append(h)
        per[h[5:]] = {'obligations': d + u, 'discharged': d, 'distinct_obligations': len(r.get('discharged') or []),
                      'paths': r.get('paths'), 'seconds': round(r.get('time', 0), 1),
                      'status': 'proved' if not u else ('FAILED' if (r.get('failures')) else 'undecided'),
                      'loops': sorted(set((r.get('loops') or {}).values()))}
        if r.get('error'):
            per[h[5:]]['error'] = r['error'][:400]
        if h in bounded:
            b = bounded[h]
            per[h[5:]]['bounded_stand_in'] = {'loop_bound': P.get('bound', 6), 'cut_paths': b.get('cut'), 'error': (b.get('error') or '')[:200],
                                             'failures': len(b.get('failures') or [])}
    repo_funcs = sorted(f for f in funcs if f.startswith('cmp::') or ' cmp::' in f or 'cmp::' in f.split('(')[0])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'python3-vt engine/check.py %s' % pid,
            'trusted_base': registry.TRUSTED,
            'contracts': per,
            'functions_under_contract': repo_funcs,
            'obligations_by_back_end': by_backend, 'solver_seconds': solver_time,
            'proved_contracts': len(proved), 'not_proved_contracts': [h[5:] for h in not_proved],
            'loop_invariants': invs[:40],
            'native_validation': {h[5:]: (re.search(r'VPFUZZ (.*)', fuzzes[h][1]).group(1)[:400]
                                          if re.search(r'VPFUZZ', fuzzes[h][1] or '') else 'rc %s' % fuzzes[h][0]) for h in fuzzes},
        },
        'assumptions': sorted(assumed) + P.get('assumptions', []),
        'wall_s': 0, 'violations': 0,
    }
    known = known_findings(pid)
    reported = 0
    lines = []
    for h, fails, confirmed in violations:
        path = os.path.join(outdir, '%s_%s.txt' % (pid, h[5:]))
        with open(path, 'w') as f:
            if confirmed:
                f.write(confirmed[0])
                f.write('# --- output of the real code (sanitizer build of the contract)\n')
                f.write(''.join('# ' + l + '\n' for l in confirmed[1].splitlines()))
            else:
                f.write('harness %s\n' % h)
                f.write('# no failing input found; the failed obligation(s):\n')
            for x in fails[:20]:
                f.write('# failed obligation: %s\n#   verifier model: %s\n' % (x['desc'], str(x['inputs'])[:1500]))
            for x in results[h].get('uncovered') or []:
                f.write('# not reachable any more (vacuous contract): %s\n' % x)
        reported += 1
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'))
        for x in fails[:4]:
            print('  failed obligation:', h[5:], x['desc'])
        if confirmed:
            print('  failing input (%s): %s' % (h[5:], ' '.join(confirmed[0].split('\n')[1:8])[:300]))
    # findings recorded in known_findings.json: their case is replayed; they never hide another failure,
    # because their contracts (vp_h_<property>_kf_*) are not part of the proof
    for k in known:
        case = os.path.join(work, 'kf_case')
        open(case, 'w').write('harness %s\nfailure known\n%s\n' % (k['harness'], '\n'.join(k.get('case', []))))
        ks = k['src']
        if ks not in bins:
            continue
        if replay(bins[ks], case):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            print('  note: the known finding does not show any more: %s' % k['what'])
    ev['violations'] = reported
    ev['wall_s'] = round(time.time() - t0, 2)
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for h in per:
        p = per[h]
        print('  %-44s %-9s %5d/%-5d obligations %6.1fs paths %s %s' % (h, p['status'], p['discharged'], p['obligations'], p['seconds'], p['paths'],
                                                              p.get('error', '').split('\n')[0][:160]))
        if a.verbose:
            r = results['vp_h_' + h]
            for f in (r.get('failures') or [])[:3]:
                print('      FAIL', f['desc'][:200], str(f['inputs'])[:300])
            for f in (r.get('undecided') or [])[:10]:
                print('      UNDEC', f)
            for x in r.get('uncovered') or []:
                print('      UNCOVERED', x)
            if r.get('error'):
                print('      ERR', r['error'])
            for i in sorted(set('%s %s %s' % (i['function'][:80], i['loop'], i['invariant']) for i in r.get('invariants') or [])):
                print('      INV', i)
    for n in notes:
        print('  note:', n)
    print('%s: %d/%d obligations discharged, %d of %d contracts proved, %.1fs' % (pid, discharged, obligations, len(proved), len(harnesses), ev['wall_s']))
    # one line per violated contract; confirmed ones first
    lines.sort(key=lambda l: 'no-failing' in l)
    if any('no-failing' not in l for l in lines):
        lines = [l for l in lines if 'no-failing' not in l]
    for l in lines:
        print(l)
    return 1 if reported else 0


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['open'] if k['property'] == pid]


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
