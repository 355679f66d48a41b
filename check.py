#!/usr/bin/env python3
"""check.py <property id> : decides one property of /repo's current tree.  exit 0 held / exit 1 + VIOLATION line."""
import sys, os, json, time, re, shutil, tempfile, subprocess, traceback, multiprocessing as mp
import concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/lvc')
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
import build
import props

TRUSTED = ['LLVM-16 clang front end, coroutine splitting and the sroa/simplifycfg passes (the verified text is the IR they produce from /repo)',
           'the VC generator /verif/lvc (ir.py, ex.py) and its models of compiler intrinsics and C++ runtime functions (builtins_lv.py)',
           'z3 (QF_AUFBV), cvc5 as fallback and, in the thorough tier, as cross-check']


def work_one(a):
    """one harness, in its own process"""
    fin, name, opts, budget = a
    import ir, ex
    m = MODS[fin]
    cs = CONTR[fin]
    E = ex.Engine(m, {k: v[0] for k, v in cs.items()}, opts)
    R = E.run_harness('vc_harness_' + name, budget)
    bounded = None
    if R.undecided or any(x['kind'] == 'loop-contract' for x in R.fail):
        # the loop contract does not fit this loop (or the code is out of reach): bounded stand-in of the same harness,
        # loop contracts off, every list and counter below the bound
        o2 = dict(opts)
        o2['bound'] = 4
        E2 = ex.Engine(m, {k: v[0] for k, v in cs.items()}, o2)
        R2 = E2.run_harness('vc_harness_' + name, budget / 2)
        bounded = 'bounded stand-in (lists shorter than 4): %d obligations, %d failed, %d undecided' % (sum(a + b for a, b in R2.oblig.values()), len(R2.fail), len(R2.undecided))
        keep = [x for x in R.fail if x['kind'] != 'loop-contract']
        soft = [x for x in R.fail if x['kind'] == 'loop-contract']
        if soft and not R2.fail and not R2.undecided:
            R.undecided += ['loop contract does not fit: ' + x['obligation'] for x in soft]
            R.fail = []
        elif soft or not keep:
            R.fail = keep + R2.fail + (soft if not R2.fail else [])
    return {'name': name, 'oblig': R.oblig, 'fail': R.fail, 'undecided': R.undecided, 'covers': R.covers, 'paths': R.paths,
            'steps': R.steps, 'q': R.smt_queries, 'smt': R.smt_time, 'wall': R.wall, 'funcs': sorted(R.funcs),
            'contracts': R.contracts, 'builtins': sorted(R.builtins), 'loops': {str(k): str(v) for k, v in R.loops.items()},
            'cross': getattr(R, 'cross', {}), 'bounded': bounded, 'unroll': R.maxunroll}


MODS = {}
CONTR = {}


def load(fin):
    import ir
    m = ir.Module(open(fin).read())
    return m, build.contracts(m)


def child(q, a):
    try:
        q.send(work_one(a))
    except MemoryError:
        q.send({'name': a[1], 'error': 'out of memory'})
    except BaseException as e:
        q.send({'name': a[1], 'error': '%s: %s' % (type(e).__name__, str(e)[:300])})
    q.close()


def run_all(tasks, njobs, limit):
    """each task in a forked process; a process that dies or overruns is an undecided harness"""
    ctx = mp.get_context('fork')
    out = []
    pend = list(tasks)
    live = []
    end = time.time() + limit
    while pend or live:
        if time.time() > end:
            for t in pend:
                out.append({'name': t[1], 'error': 'time budget exhausted'})
            pend = []
        while pend and len(live) < njobs:
            t = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, t), daemon=True)
            p.start(); w.close()
            live.append((p, r, t, time.time()))
        for e in list(live):
            p, r, t, t0 = e
            if r.poll(0.02):
                try:
                    out.append(r.recv())
                except EOFError:
                    out.append({'name': t[1], 'error': 'verifier process died'})
                p.join(5)
                live.remove(e)
            elif time.time() - t0 > t[3] * 1.5 + 30 or time.time() > end:
                p.kill()
                out.append({'name': t[1], 'error': 'time budget exhausted'})
                live.remove(e)
    return out


def main():
    pid = sys.argv[1]
    spec = props.P[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    for d in ('evidence', 'replay'):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    work = tempfile.mkdtemp(prefix='librf_verif_%s_' % pid)
    try:
        rc = decide(pid, spec, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, spec, tier, seed, t0, work):
    thorough = tier == 'thorough'
    und, fails, res = [], [], []
    pool = cf.ThreadPoolExecutor(8)
    units = [(u['harness'], u.get('src', []), u.get('flags', []), u.get('all', [])) for u in spec['units']]
    fins = build.prepare(units, work + '/ll', pool)
    tasks = []
    by = {}
    for u, fin in zip(spec['units'], fins):
        if isinstance(fin, Exception):
            und.append('build of %s: %s' % (u['harness'], str(fin)[:1500]))
            continue
        try:
            MODS[fin], CONTR[fin] = load(fin)
        except Exception as e:
            und.append('IR of %s: %s' % (u['harness'], str(e)[:400]))
            continue
        for k, v in CONTR[fin].items():
            by[MODS[fin].funcs[k].dname] = v[1]
        names = [f[11:] for f in MODS[fin].funcs if f.startswith('vc_harness_')]
        rx = u.get('only')
        names = [n for n in names if not rx or re.fullmatch(rx, n)]
        if not names:
            und.append('no harness in ' + u['harness'])
        opts = {'second': thorough, 'timeout_ms': 60000 if thorough else 10000}
        opts.update(u.get('opts', {}))
        slow = u.get('slow', [])
        for n in names:
            tasks.append((0 if any(re.fullmatch(s, n) for s in slow) else 1, (fin, n, opts, 2400 if thorough else 300), u['harness']))
    tasks.sort(key=lambda t: t[0])
    expected = json.load(open(VERIF + '/expected.json')).get(pid, {}) if os.path.exists(VERIF + '/expected.json') else {}
    seen = {}
    for r in run_all([t[1] for t in tasks], 8, 10800 if thorough else 560):
        if 'error' in r:
            und.append('%s: %s' % (r['name'], r['error']))
            continue
        res.append(r)
        for x in r['fail']:
            fails.append((r['name'], x))
        if r['bounded']:
            und.append('%s: %s' % (r['name'], r['bounded']))
        for x in r['undecided']:
            und.append('%s: %s' % (r['name'], x))
        ok = sorted(k for k, v in r['covers'].items() if v)
        nob = sum(a + b for a, b in r['oblig'].values())
        seen[r['name']] = ok
        if not r['fail'] and not r['undecided']:
            if nob == 0 or r['paths'] == 0:
                und.append('%s: vacuous (no obligation)' % r['name'])
            miss = [c for c in expected.get(r['name'], []) if c not in ok]
            if miss:
                und.append('%s: vacuity guard: not reached: %s' % (r['name'], miss))
    missing = [n for n in expected if n not in seen]
    if missing and not und:
        und.append('harnesses missing: %s' % missing)
    if '--record' in sys.argv:
        p = VERIF + '/expected.json'
        d = json.load(open(p)) if os.path.exists(p) else {}
        d[pid] = {k: seen[k] for k in sorted(seen)}
        json.dump(d, open(p, 'w'), indent=1, sort_keys=True)

    nob = sum(a + b for r in res for a, b in r['oblig'].values())
    nsmt = sum(a for r in res for a, b in r['oblig'].values())
    # ---- concrete replay / bounded stand-in on the real code
    wit = None
    if fails or und or thorough:
        wit = witness(spec, work, seed, thorough, fails, und, pool)
    replay = os.path.join(VERIF, 'replay', pid + '.txt')
    viol = False
    if fails or (wit and wit['found']):
        viol = True
        with open(replay, 'w') as f:
            f.write('property %s: %s\n' % (pid, spec['title']))
            for n, x in fails:
                f.write('FAILED OBLIGATION %s :: %s (%s)\n  at %s\n  verifier model %s\n  choices %s\n' % (n, x['obligation'], x['kind'], x['where'], json.dumps(x['model']), x['trace']))
            for u in und:
                f.write('UNDECIDED %s\n' % u)
            if wit:
                f.write('REPLAY AGAINST THE REAL CODE (%s): %s\n%s\n' % (wit['cmd'], 'FAILS' if wit['found'] else 'no failing input found', wit['out']))
    cov = {
        'obligations': nob + len(fails) + len([u for u in und]),
        'discharged': nob,
        'discharged_by_smt': nsmt,
        'discharged_by_evaluation': nob - nsmt,
        'checker_cmd': 'VERIF_TIER=%s python3-vt /verif/check.py %s' % (tier, pid),
        'trusted_base': TRUSTED + ['builtin: ' + b for b in sorted({b for r in res for b in r['builtins'] if not b.startswith('vc_')})],
        'harnesses': {r['name']: {'paths': r['paths'], 'obligations': sum(a + b for a, b in r['oblig'].values()), 'named': len(r['oblig']), 'smt_queries': r['q'], 'solver_s': round(r['smt'], 2), 'wall_s': round(r['wall'], 2), 'loop_contracts': r['loops'], 'max_unroll': r['unroll']} for r in res},
        'functions_verified': sorted({f for r in res for f in r['funcs']}),
        'callee_contracts_used': {k: by.get(k, '?') for k in sorted({c for r in res for c in r['contracts']})},
        'named_obligations': sorted({o for r in res for o in r['oblig']}),
        'solver_s': round(sum(r['smt'] for r in res), 2),
        'back_ends': 'z3 %s in-process; cvc5 on unknown' % z3v(),
        'cross_check_cvc5': {k: sum(r['cross'].get(k, 0) for r in res) for r0 in res for k in r0['cross']},
        'undecided': und,
        'failed': [{'harness': n, 'obligation': x['obligation'], 'where': x['where']} for n, x in fails],
        'bounded_stand_in': wit and {'cmd': wit['cmd'], 'found': wit['found'], 'output': wit['out'][-800:], 'note': 'bounded; never counted as proved'},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + props.COMMON,
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    kf = known(pid)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d obligations discharged (%d by SMT), %d failed, %d undecided, %d harnesses, %.1fs' % (pid, nob, nsmt, len(fails), len(und), len(res), time.time() - t0))
    for u in und[:10]:
        print('  undecided:', u[:300])
    for n, x in fails[:10]:
        print('  failed:', n, '::', x['obligation'], '@', x['where'])
    if viol:
        found = bool(wit and wit['found'])
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if found else ' no-failing-input-found'))
        return 1
    return 0


def z3v():
    import z3
    return z3.get_version_string()


def known(pid):
    p = VERIF + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def witness(spec, work, seed, thorough, fails, und, pool):
    w = spec.get('witness')
    if not w:
        return None
    outs, found, cmds = [], False, []
    for x in w:
        cmd = '%s [%s] seed=%d' % (x['src'], x.get('san', 'address,undefined'), seed)
        cmds.append(cmd)
        try:
            exe = build.native([os.path.join(VERIF, 'witness', x['src'])], work + '/n_' + x['src'] + x.get('san', 'a')[0], work + '/w_' + x['src'] + x.get('san', 'a')[0], x.get('san', 'address,undefined'), pool, x.get('flags', []))
        except build.BuildError as e:
            outs.append('witness build: %s' % str(e)[:1500])
            und.append('witness build failed: ' + str(e)[:300])
            continue
        env = dict(os.environ)
        env.update({'ASAN_OPTIONS': 'detect_leaks=%d:abort_on_error=0' % (1 if x.get('leaks') else 0), 'UBSAN_OPTIONS': 'print_stacktrace=1', 'TSAN_OPTIONS': 'halt_on_error=1'})
        lim = x.get('limit', 150)
        try:
            r = subprocess.run([exe, str(seed), '8' if thorough else '1'] + x.get('args', []), capture_output=True, text=True, errors='replace', timeout=lim, env=env, cwd=work)
            o = (r.stdout[-3000:] + r.stderr[-5000:])
            outs.append('[%s] exit %d\n%s' % (cmd, r.returncode, o))
            if r.returncode != 0:
                found = True
                break
        except subprocess.TimeoutExpired as e:
            o = (e.stdout or b'')[-3000:]
            outs.append('[%s] did not finish within %d s (hang)\n%s' % (cmd, lim, o))
            found = True
            break
    return {'cmd': '; '.join(cmds), 'found': found, 'out': '\n'.join(outs)}


if __name__ == '__main__':
    main()
