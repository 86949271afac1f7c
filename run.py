#!/usr/bin/env python3
"""Driver: compiles the harnesses of one property together with /repo's current sources to LLVM IR,
runs the symbolic executor, replays every counterexample natively and writes the evidence file."""
import os, sys, json, time, signal, subprocess, shutil, re, glob, concurrent.futures, threading, argparse
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
BUILD = os.path.join(V, 'build'); H = os.path.join(V, 'harness'); SYMEX = os.environ.get('VERIF_SYMEX') or os.path.join(BUILD, 'symex')
ARCH = ['-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed']
OPT = 'always-inline,function(lower-expect,sroa,early-cse,simplifycfg,lowerinvoke,simplifycfg,loop-simplify,lcssa)'

def sh(cmd, timeout=600, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate()
        return 124, 'TIMEOUT ' + (out or b'').decode('utf-8', 'replace')

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    if os.environ.get("VERIF_SYMEX"): return
    srcs = [os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine'))]
    if os.path.exists(SYMEX) and os.path.getmtime(SYMEX) >= max(os.path.getmtime(s) for s in srcs): return
    rc, out = sh(['bash', os.path.join(V, 'engine', 'build.sh'), SYMEX])
    if rc: print(out); sys.exit(3)

def lib_sources(kind):
    core = [s for s in glob.glob(REPO + '/emp-tool/**/*.cpp', recursive=True) if '/files/' not in s]
    fl = [s for s in core if os.path.basename(s).startswith('float32_')]
    return sorted(set(core) - set(fl)) if kind == 'core' else sorted(fl) if kind == 'float' else []

class Ctx:
    def __init__(self, prop, tier, seed, keep):
        self.prop, self.tier, self.seed, self.keep = prop, tier, seed, keep
        self.work = os.path.join(BUILD, 'work', '%s-%s-%d' % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)
        self.lock = threading.Lock(); self.cache = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
    def once(self, key, fn):
        with self.lock:
            f = self.cache.get(key)
            if f is None:
                f = self.cache[key] = self.pool.submit(fn)
        return f.result()

def include_dirs(ctx, unit):
    """Optionally a scratch copy of the headers with size constants scaled down (stated in the evidence)."""
    sc = unit.get('scale')
    if not sc: return [REPO], ''
    key = ('scale', json.dumps(sc, sort_keys=True))
    def mk():
        d = os.path.join(ctx.work, 'scaled%d' % (abs(hash(key)) % 10**9)); os.makedirs(d, exist_ok=True)
        shutil.copytree(REPO + '/emp-tool', d + '/emp-tool', ignore=shutil.ignore_patterns('files', '*.o'))
        done = []
        for root, _, fs in os.walk(d):
            for f in fs:
                if not f.endswith(('.h', '.hpp', '.cpp')): continue
                p = os.path.join(root, f); s = o = open(p, errors='replace').read()
                for name, val in sc.items():
                    s = re.sub(r'(\b(?:const(?:expr)?|static|int|long|unsigned|size_t|uint\w+|int\w+)\b[^;\n=(]*\b' + name + r'\s*=\s*)[^;]+;', lambda m: m.group(1) + str(val) + ';', s)
                    s = re.sub(r'(#define\s+' + name + r'\s+)\S.*', lambda m: m.group(1) + str(val), s)
                    if s != o: done.append(name)
                if s != o: open(p, 'w').write(s)
        return d, sorted(set(done))
    d, done = ctx.once(key, mk)
    return [d], 'constants scaled: ' + ', '.join('%s=%s' % (k, sc[k]) for k in done) if done else 'no constant scaled'

def compile_bc(ctx, src, out, incs, flags, std):
    cmd = ['clang++-18', '-std=' + std] + ARCH + ['-I' + H + '/stubinc'] + ['-I' + i for i in incs] + ['-I' + H, '-include', os.path.join(H, 'pre.h'), '-D_FORTIFY_SOURCE=0', '-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-w', '-emit-llvm', '-c', src, '-o', out] + flags
    return sh(cmd)

def ufl(unit, ctx):
    fl = list(unit.get('flags', [])) + ['-D' + d for d in unit.get('defs', [])]
    if ctx.tier == 'thorough': fl += ['-DTHOROUGH'] + ['-D' + d for d in unit.get('tdefs', [])]
    return fl

def run_unit(ctx, unit):
    t0 = time.time(); name = unit['name']; r = {'unit': name, 'status': 'ok', 'violations': [], 'notes': []}
    d = os.path.join(ctx.work, name); os.makedirs(d)
    try: incs, note = include_dirs(ctx, unit)
    except Exception as e: incs, note = [REPO], 'scaling failed: %s' % e
    if note: r['notes'].append(note)
    if unit.get('blob'):
        # a data file of the repository, embedded so that the harness can hand it to the library's loader
        try:
            data = open(os.path.join(REPO, unit['blob']), 'rb').read()
            with open(os.path.join(d, 'blob.h'), 'w') as f:
                f.write('static const unsigned char BLOB[]=\n')
                for l in data.split(b'\n'): f.write('"' + ''.join(chr(c) if 32 <= c < 127 and c not in b'"\\?' else '\\%03o' % c for c in l) + '\\n"\n')
                f.write(';\nstatic const unsigned long BLOB_LEN=%d;\n' % len(data))
        except OSError as e: r['status'] = 'not-compiled'; r['notes'].append('missing data file: %s' % e); r['wall_s'] = 0; return r
        r['notes'].append('data file encoded: %s (%d bytes)' % (unit['blob'], len(data))); incs = incs + [d]
    std = unit.get('std', 'c++11'); fl = ufl(unit, ctx); srcs = [os.path.join(H, s) for s in unit['src']]
    jobs = []; bcs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, 'h%d.bc' % i); bcs.append(o); jobs.append(ctx.pool.submit(compile_bc, ctx, s, o, incs, fl, std))
    libs = []
    for k in unit.get('lib', ['core']):
        for s in lib_sources(k):
            rel = os.path.relpath(s, REPO); src = os.path.join(incs[0], rel); o = os.path.join(ctx.work, 'lib-%s-%d.bc' % (os.path.basename(s), abs(hash((incs[0], std, tuple(unit.get('flags', []))))) % 10**9))
            libs.append((('lib', o), src, o)); bcs.append(o)
    for s in ['libmodel.cpp'] + unit.get('model', []):
        o = os.path.join(ctx.work, 'model-%s.bc' % s); libs.append((('lib', o), os.path.join(H, s), o)); bcs.append(o)
    errs = []
    with concurrent.futures.ThreadPoolExecutor(8) as tp:
        def one(x):
            key, src, o = x
            with ctx.lock:
                f = ctx.cache.get(key)
                if f is None: f = ctx.cache[key] = ctx.pool.submit(compile_bc, ctx, src, o, incs, unit.get('flags', []), std)
            return f.result()
        for rc, out in tp.map(one, libs):
            if rc: errs.append(out)
    for j in jobs:
        rc, out = j.result()
        if rc: errs.append(out)
    if errs:
        r['status'] = 'not-compiled'; r['notes'].append(errs[0][-1500:]); r['wall_s'] = round(time.time() - t0, 2); return r
    bc = os.path.join(d, 'all.bc')
    rc, out = sh(['llvm-link-18'] + bcs + ['-o', bc + '0'])
    if rc == 0: rc, out = sh(['opt-18', '-passes=' + unit.get('opt', OPT), bc + '0', '-o', bc])
    if rc: r['status'] = 'not-linked'; r['notes'].append(out[-1500:]); r['wall_s'] = round(time.time() - t0, 2); return r
    tl = unit.get('ttime', 600) if ctx.tier == 'thorough' else unit.get('time', 60)
    ql = unit.get('tqtime', 300) if ctx.tier == 'thorough' else unit.get('qtime', 20)
    out_d = os.path.join(d, 'out'); os.makedirs(out_d)
    with ctx.sem(unit.get('jobs', 2)) as nj:
        rc, out = sh([SYMEX, bc, '--out', out_d, '--time', str(tl), '--qtime', str(ql), '--jobs', str(nj), '--seed', str(ctx.seed), '--maxviol', str(unit.get('maxviol', 4))], timeout=tl + ql + 120)
    if out.strip(): r['notes'].append(out[-600:])
    ev = []
    try:
        for l in open(os.path.join(out_d, 'events.jsonl')):
            try: ev.append(json.loads(l))
            except Exception: pass
    except OSError: pass
    try: r['summary'] = json.load(open(os.path.join(out_d, 'summary.json')))
    except Exception: r['summary'] = {}; r['status'] = 'engine-failed rc=%d' % rc
    try: r['functions'] = [f for f in open(os.path.join(out_d, 'functions.txt')).read().split('\n') if 'emp::' in f]
    except OSError: r['functions'] = []
    r['undecided'] = [e for e in ev if e['event'] in ('undecided', 'error')][:12]
    r['slow'] = [e for e in ev if e['event'] == 'slow'][:12]
    hangs = 0
    for e in ev:
        if e['event'] not in ('violation', 'hang'): continue
        if e['event'] == 'hang':
            hangs += 1
            if hangs > 2: continue
        v = {'label': e['label'], 'kind': e['kind'], 'loc': e.get('loc', ''), 'case': e.get('path', '')}
        ok, how, path = replay(ctx, unit, d, incs, fl, std, e)
        v['reproduced'] = ok; v['how'] = how; v['replay'] = path
        if e['event'] == 'hang' and not ok: continue
        r['violations'].append(v)
        if ok: break
    for x in (bc, bc + '0'):
        if os.path.exists(x) and not ctx.keep: os.remove(x)
    r['wall_s'] = round(time.time() - t0, 2)
    return r

def native_build(ctx, unit, d, incs, fl, std, san):
    exe = os.path.join(d, 'native' + ('-asan' if san else ''))
    def mk():
        libs = []
        for k in unit.get('lib', ['core']): libs += [os.path.join(incs[0], os.path.relpath(s, REPO)) for s in lib_sources(k)]
        cmd = ['clang++-18', '-std=' + std] + ARCH + ['-I' + i for i in incs] + ['-I' + H, '-O0' if san else '-O1', '-g', '-w', '-ftrivial-auto-var-init=pattern', '-DNATIVE_REPLAY'] + (['-fsanitize=address'] if san else []) + fl + [os.path.join(H, s) for s in unit['src']] + [os.path.join(H, s) for s in unit.get('native', [])] + libs + [os.path.join(H, 'replay.cpp'), '-o', exe] + unit.get('nlibs', ['-lcrypto', '-lpthread'])
        return sh(cmd)
    rc, out = ctx.once(('native', exe), mk)
    return exe if rc == 0 else None, out

def replay(ctx, unit, d, incs, fl, std, e):
    """Run the real code natively on the counterexample; only what reproduces is reported."""
    keep = os.path.join(BUILD, 'replay', ctx.prop); os.makedirs(keep, exist_ok=True)
    tag = '%s-%s' % (unit['name'], os.path.basename(e['model']).split('.')[0]); mf = os.path.join(keep, tag + '.model')
    shutil.copy(e['model'], mf)
    logs = []
    for san in ((True, False) if e['kind'] in ('memory', 'abort') else (False, True)):
        exe, out = native_build(ctx, unit, d, incs, fl, std, san)
        if not exe: logs.append('native build failed: ' + out[-800:]); continue
        env = dict(os.environ, MALLOC_PERTURB_='165', ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=1000000:alloc_dealloc_mismatch=0')
        rd = os.path.join(d, 'rd'); os.makedirs(rd, exist_ok=True)
        to = 60 if e['event'] == 'hang' else 120
        rc, out = sh(['bash', '-c', 'ulimit -c 0; exec "$@"', 'x', exe, mf], timeout=to, env=env, cwd=rd)
        logs.append('[%s] exit %d\n%s' % ('asan' if san else 'plain', rc, out[-3000:]))
        bad = (rc == 124 or rc in (-11, 139) or 'stack-overflow' in out) if e['event'] == 'hang' else (rc == 42 or 'AddressSanitizer' in out or rc < 0 or rc in (134, 139, 136, 135))
        if bad:
            rp = os.path.join(keep, tag + '.txt')
            exe2 = os.path.join(keep, tag + '.exe'); shutil.copy(exe, exe2)
            open(rp, 'w').write('property %s unit %s\nlabel: %s (%s)\nlocation: %s\ncase: %s\nre-run: %s %s\n\n%s\n\nmodel:\n%s' % (ctx.prop, unit['name'], e['label'], e['kind'], e.get('loc', ''), e.get('path', ''), exe2, mf, '\n'.join(logs), open(mf).read()[:20000]))
            return True, ('asan' if san else 'plain'), rp
    rp = os.path.join(keep, tag + '.unconfirmed.txt'); open(rp, 'w').write('label: %s\nloc: %s\n' % (e['label'], e.get('loc', '')) + '\n'.join(logs))
    return False, 'not reproduced', rp

class Sem:
    """Token pool shared by the engines of concurrently running units."""
    def __init__(self, n): self.n = self.free = n; self.c = threading.Condition()
    def __call__(self, k):
        s = self
        class G:
            def __enter__(g):
                g.k = min(k, s.n)
                with s.c:
                    while s.free < g.k: s.c.wait()
                    s.free -= g.k
                return g.k
            def __exit__(g, *a):
                with s.c: s.free += g.k; s.c.notify_all()
        return G()

def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(V, 'known-findings.txt')):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) unit=(\S+) label="([^"]*)"(?: case="([^"]*)")? (.*)', l)
            if m and m.group(1) == prop: out.append(m.groups())
    except OSError: pass
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    build_engine()
    from checks import PROPS
    spec = PROPS[a.prop]; ctx = Ctx(a.prop, a.tier, seed, a.keep); ctx.sem = Sem(int(os.environ.get('VERIF_JOBS', '8')))
    units = [u for u in spec['units'] if (not a.only or u['name'] in a.only.split(',')) and (a.tier == 'thorough' or not u.get('thorough_only'))]
    units.sort(key=lambda u: -u.get('time', 60) * u.get('jobs', 2))
    res = []
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as tp:
            futs = {tp.submit(run_unit, ctx, u): u for u in units}
            for f in concurrent.futures.as_completed(futs):
                try: r = f.result()
                except Exception as ex:
                    import traceback; r = {'unit': futs[f]['name'], 'status': 'driver-error', 'notes': [traceback.format_exc()[-1500:]], 'violations': [], 'summary': {}}
                res.append(r)
                if a.v: print(json.dumps({k: r.get(k) for k in ('unit', 'status', 'notes', 'summary', 'undecided', 'slow', 'violations', 'wall_s')}, indent=1))
    finally:
        if not a.keep: shutil.rmtree(ctx.work, ignore_errors=True)
    res.sort(key=lambda r: r['unit'])
    tot = {}
    for r in res:
        for k, v in (r.get('summary') or {}).items():
            if isinstance(v, (int, float)): tot[k] = (max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v)
    fns = sorted(set(f for r in res for f in r.get('functions', [])))
    kf = known_findings(a.prop); viol = []; known = []
    for r in res:
        for v in r['violations']:
            if not v['reproduced']: continue
            hit = [k for k in kf if k[1] == r['unit'] and k[2] == v['label'] and (not k[3] or k[3] == v['case'])]
            (known if hit else viol).append((r, v, hit[0] if hit else None))
    reach_bad = [r['unit'] for r in res if r['status'] == 'ok' and not any((r.get('summary') or {}).get('reach', {}).values())]
    undec = int(tot.get('undecided', 0) + tot.get('errors', 0))
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'explanation': 'Bounded symbolic execution of the LLVM IR compiled from the current /repo sources; every assertion and every memory access becomes a SAT obligation over all values of the symbolic inputs within the bounds; counterexamples are replayed natively.',
                       'bounds': spec.get('bounds', {}).get(a.tier) or spec.get('bounds', {}).get('quick', ''), 'outside': spec.get('outside', ''), 'stubs': spec.get('stubs', ''),
                       'functions_encoded': len(fns), 'functions': fns[:200], 'obligations': int(tot.get('obligations', 0) + tot.get('structural', 0)), 'discharged_structurally': int(tot.get('structural', 0)), 'discharged_by_solver': int(tot.get('decided', 0)), 'undecided': undec,
                       'queries': int(tot.get('queries', 0)), 'queries_sat': int(tot.get('sat', 0)), 'queries_unsat': int(tot.get('unsat', 0)), 'queries_unknown': int(tot.get('unknown', 0)), 'solver_seconds': round(tot.get('solver_s', 0), 3), 'sat_sweep_merges': int(tot.get('sweep_merges', 0)), 'external_solver_runs': int(tot.get('kissat_runs', 0)), 'largest_cnf_vars': int(tot.get('max_cnf_vars', 0)), 'instructions_executed': int(tot.get('instrs', 0)), 'case_split_paths': int(tot.get('paths', 0)),
                       'units': [{'unit': r['unit'], 'status': r['status'], 'wall_s': r.get('wall_s'), 'summary': r.get('summary'), 'undecided': r.get('undecided', []), 'unconfirmed': [v for v in r['violations'] if not v['reproduced']], 'notes': [n[-300:] for n in r.get('notes', [])]} for r in res],
                       'vacuous_units': reach_bad, 'violations': [dict(v, unit=r['unit']) for r, v, _ in viol], 'known_findings': [k[4] for _, _, k in known]}}
    if a.only is None:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for r in res:
        s = r.get('summary') or {}
        print('%s/%s: %s paths=%s obligations=%s solver=%s undecided=%s errors=%s solver_s=%.1f wall=%ss' % (a.prop, r['unit'], r['status'], s.get('paths'), s.get('obligations', 0) + s.get('structural', 0), s.get('decided'), s.get('undecided'), s.get('errors'), s.get('solver_s', 0), r.get('wall_s')))
        for v in r['violations']: print('   counterexample: %s [%s] reproduced=%s case(%s) at %s' % (v['label'], v['kind'], v['reproduced'], v['case'], v['loc']))
        for u in r.get('undecided', [])[:3]: print('   undecided: %s' % json.dumps(u)[:400])
        if r['status'] != 'ok': print('   ' + (r['notes'][-1][:1500] if r.get('notes') else ''))
    for k in set(x[2][4] for x in known): print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    if viol:
        for r, v, _ in viol: print('VIOLATION property=%s replay=%s' % (a.prop, v['replay']))
        return 1
    if reach_bad and len(reach_bad) == len(res): print('no unit reached its end'); return 2
    if not (tot.get('decided', 0) + tot.get('structural', 0)): print('nothing could be decided'); return 2
    print('%s held on everything explored (%d obligations, %d undecided)' % (a.prop, ev['coverage']['obligations'], undec))
    return 0
if __name__ == '__main__': sys.exit(main())
