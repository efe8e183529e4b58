import sys, subprocess, time, os
sys.path.insert(0, os.path.dirname(__file__))
import ir, machine, smt, loops

def compile_ir(src, out, extra=()):
    cmd = ['clang++', '-std=c++20', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone', '-DCMP_CONFIG_HEADER_ONLY=true',
           '-I/repo/api/include', '-I/repo/api/src', '-I/verif/contracts', '-w', '-S', '-emit-llvm', src, '-o', out + '.0'] + list(extra)
    subprocess.check_call(cmd)
    subprocess.check_call(['opt', '-S', '-passes=sroa,loop-simplify', out + '.0', '-o', out])

if __name__ == '__main__':
    src = sys.argv[1]
    compile_ir(src, '/tmp/w/x.ll')
    t = time.time()
    mod = ir.parse_module(open('/tmp/w/x.ll').read())
    print('parse', time.time() - t)
    for h in sys.argv[2:] or [n for n in mod.functions if n.startswith('vp_h_')]:
        o = machine.Options()
        e = machine.Engine(mod, o)
        t = time.time()
        try:
            e.run_harness(h)
        except (machine.Unsupported, machine.Budget) as ex:
            import traceback; traceback.print_exc()
            print(h, 'UNSUPPORTED', repr(ex))
        print(h, 'time %.2f' % (time.time() - t), 'paths', e.paths, 'oblig', sum(v[0] for v in e.discharged.values()), 'cov', e.covered, e.smt.stats)
        for f in e.failures[:10]:
            print('  FAIL', f, f.inputs)
        for f in e.undecided[:10]:
            print('  UNDEC', f)
        for i in e.invlog:
            print('  INV', i)
