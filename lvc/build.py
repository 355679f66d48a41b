"""Compiles /repo's current sources and a harness to LLVM IR (the text the verifier works on)."""
import os, re, subprocess, hashlib, concurrent.futures as cf
LLVM = '/usr/lib/llvm-16/bin/'
CXX = '/usr/bin/clang++-16'
REPO = os.environ.get('LVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=gnu++20', '-fcoroutines-ts', '-Wno-everything', '-stdlib=libstdc++', '-DLIBRF_DYNAMIC_EXPORTS=1', '-fPIC', '-pthread',
         '-I', REPO + '/include', '-I', REPO + '/modern_cb']


class BuildError(Exception):
    pass


def sh(cmd, timeout=300):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise BuildError('timeout: ' + ' '.join(cmd))
    if r.returncode:
        raise BuildError(' '.join(cmd[:1] + cmd[-3:]) + '\n' + r.stderr[:4000])


def to_ll(src, out, extra=()):
    sh([CXX] + FLAGS + ['-I', VERIF + '/harness', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-access-control', '-S', '-emit-llvm', '-o', out] + list(extra) + [src])
    return out


def prepare(units, work, ex):
    """units: [(harness.cpp, [repo sources], [flags], [flags of harness and sources])] -> [path of final IR or BuildError], in parallel"""
    os.makedirs(work, exist_ok=True)
    jobs = {}

    def ll(src, extra):
        k = (src, tuple(extra))
        if k not in jobs:
            out = os.path.join(work, '%d_%s.ll' % (len(jobs), os.path.basename(src)))
            jobs[k] = ex.submit(to_ll, src, out, extra)
        return jobs[k]
    plan = []
    for h, srcs, extra, both in units:
        fs = [ll(os.path.join(VERIF, 'harness', h), list(both) + list(extra))] + [ll(os.path.join(REPO, 'source', s), both) for s in srcs]
        plan.append(fs)
    out = []
    for i, fs in enumerate(plan):
        try:
            lls = [f.result() for f in fs]
            one = lls[0]
            if len(lls) > 1:
                one = os.path.join(work, 'linked%d.ll' % i)
                sh([LLVM + 'llvm-link', '-S', '-o', one] + lls)
            fin = os.path.join(work, 'final%d.ll' % i)
            sh([LLVM + 'opt', '-S', '-passes=function(sroa,simplifycfg)', '-o', fin, one])
            out.append(fin)
        except BuildError as e:
            out.append(e)
    return out


def contracts(m):
    """contract table of the harness module: symbol -> (stub symbol, discharged by)"""
    out = {}
    ents = []

    def cst(v):
        assert v[0] == 'g', v
        ty, init, c = m.globals[v[1]]
        return bytes(x[1] for x in init[1]).rstrip(b'\0').decode()
    for g, (ty, init, c) in m.globals.items():
        if g.startswith('vc_contract_') and init:
            re_, stub, by = init[1]
            ents.append((re.compile(cst(re_)), stub[1], cst(by)))
    for f in m.funcs.values():
        for rx, stub, by in ents:
            if rx.fullmatch(f.dname) and f.name != stub:
                out[f.name] = (stub, by)
                break
    return out


def native(srcs, work, out, san, ex, extra=()):
    """native build of the library's current sources with a witness driver"""
    os.makedirs(work, exist_ok=True)
    base = [CXX] + FLAGS + ['-g', '-O1', '-fno-omit-frame-pointer'] + (['-fsanitize=' + san, '-fno-sanitize-recover=all'] if san else []) + list(extra)
    objs = []
    fs = []
    for s in srcs + sorted(os.path.join(REPO, 'source', f) for f in os.listdir(REPO + '/source') if f.endswith('.cpp')):
        o = os.path.join(work, os.path.basename(s) + '.o')
        objs.append(o)
        fs.append(ex.submit(sh, base + ['-I', VERIF + '/witness', '-c', '-o', o, s], 600))
    for f in fs:
        f.result()
    sh(base + ['-o', out] + objs)
    return out
