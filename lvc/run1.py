"""dev runner: run1.py harness.cpp[,state.cpp,...] [harness names...]"""
import sys, os, time, re
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, ex, build

if __name__ == '__main__':
    srcs = sys.argv[1].split(',')
    only = sys.argv[2:]
    t = time.time()
    with cf.ThreadPoolExecutor(8) as pool:
        fin = build.prepare([(srcs[0], srcs[1:], [], os.environ.get('ALL','').split())], os.environ.get('LVC_TMP','/tmp/w')+'/lvc_' + os.path.basename(srcs[0]), pool)[0]
    if isinstance(fin, Exception):
        print(fin); sys.exit(2)
    m = ir.Module(open(fin).read())
    cs = build.contracts(m)
    print('prep %.1fs' % (time.time() - t))
    nf = int(os.environ.get('NF', '2'))
    for f in list(m.funcs):
        if f.startswith('vc_harness_') and (not only or any(re.fullmatch(o, f[11:]) for o in only)):
            E = ex.Engine(m, {k: v[0] for k, v in cs.items()}, dict({'debug': bool(os.environ.get('DBG'))}, **({'bound': int(os.environ['BOUND'])} if os.environ.get('BOUND') else {})))
            R = E.run_harness(f, 600)
            nob = sum(a + b for a, b in R.oblig.values())
            print('%-40s paths=%d steps=%d obl=%d(smt %d) fail=%d undec=%d q=%d %.1fs smt=%.1fs restarts=%d' % (f[11:], R.paths, R.steps, nob, sum(a for a, b in R.oblig.values()), len(R.fail), len(R.undecided), R.smt_queries, R.wall, R.smt_time, R.restarts))
            for x in R.fail[:nf]:
                print('   FAIL', x['obligation'], '@', x['where']); print('      ', {k: v for k, v in list(x['model'].items())[:14]}, x['trace'])
            for x in R.undecided[:nf]:
                print('   UNDEC', x)
            if os.environ.get('VERB'):
                print('   covers', R.covers); print('   funcs', sorted(ex.short(x) for x in R.funcs)); print('  loops', R.loops)
                print('   contracts', R.contracts)
            sys.stdout.flush()
