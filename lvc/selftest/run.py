"""Self-test of the engine: ok_* must be accepted, bad_* must not."""
import sys, os, re, tempfile, shutil
import concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
import ir, ex, build
d = tempfile.mkdtemp()
try:
    with cf.ThreadPoolExecutor(8) as pool:
        fin = build.prepare([(os.path.join(H, 'selftest.cpp'), [], [], [])], d, pool)[0]
    if isinstance(fin, Exception):
        print(fin); sys.exit(2)
    m = ir.Module(open(fin).read())
    cs = build.contracts(m)
    bad = n = 0
    for f in m.funcs:
        if f.startswith('vc_harness_') and (len(sys.argv) < 2 or re.fullmatch(sys.argv[1], f[11:])):
            E = ex.Engine(m, {k: v[0] for k, v in cs.items()}, {})
            R = E.run_harness(f, 120)
            n += 1
            ok = not R.fail and not R.undecided
            if ok != f.startswith('vc_harness_ok_') or (not ok and f.startswith('vc_harness_ok_')):
                bad += 1
                print('WRONG', f[11:], 'accepted' if ok else [x['obligation'] + ' ' + str(x['model']) for x in R.fail][:3] + R.undecided[:3])
            elif len(sys.argv) > 1 or not ok and not R.fail:
                print(f[11:], [x['obligation'] for x in R.fail][:3], R.undecided[:3])
    print('%d self-tests, %d wrong' % (n, bad))
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
