#!/usr/bin/env python3-vt
"""check.py PID [--tier quick|thorough] [--entry name[:k]] : decide one property on /repo's current tree."""
import sys, os, time, json, glob, shutil, tempfile, subprocess, argparse, pickle, select, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import build

def run_entry(eng, name, k, opts, deadline, fd):
    """in a forked child"""
    import engine
    res = dict(entry=name, k=k, ok=False, unsupported=None)
    t0 = time.time()
    try:
        eng.deadline = deadline
        f = eng.mod.funcs[name]
        eng.run_function(name, None, [k] if f.params else [])
        res['ok'] = True
    except engine.Unsupported as e:
        res['unsupported'] = '%s | in %s | %s' % (e, ' > '.join(x[:90] for x in (getattr(e, 'loc', None) or [])[-3:]), (getattr(e, 'inst', '') or '')[:160])
    except MemoryError:
        res['unsupported'] = 'memory limit'
    except Exception as e:
        res['unsupported'] = 'internal: ' + traceback.format_exc()[-1500:]
    res.update(stats=eng.stats, labels=eng.by_label, covers=sorted(eng.covers), undecided=eng.undecided[:20], external=sorted(eng.external_used), secs=time.time() - t0,
               lemma=bool(getattr(eng, 'used_lemma', False)), functions=sorted(eng.visited),
               failures=[dict(label=x.label, kind=x.kind, where=x.where, nd=x.nd) for x in eng.failures])
    with os.fdopen(fd, 'wb') as fh: pickle.dump(res, fh)

def run_all(eng, jobs, opts, budget, workers=8):
    t_end = time.time() + budget
    pend = list(jobs); run = {}; out = []
    buf = {}
    while pend or run:
        while pend and len(run) < workers:
            name, k = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    run_entry(eng, name, k, opts, t_end, w)
                finally:
                    os._exit(0)
            os.close(w); run[r] = (pid, name, k); buf[r] = b''
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d: buf[r] += d; continue
            pid, name, k = run.pop(r); os.close(r); os.waitpid(pid, 0)
            try: out.append(pickle.loads(buf.pop(r)))
            except Exception: out.append(dict(entry=name, k=k, ok=False, unsupported='worker died', stats={}, labels={}, covers=[], undecided=[], external=[], failures=[], secs=0, functions=[]))
        if time.time() > t_end + 20:
            for r, (pid, name, k) in list(run.items()):
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
                out.append(dict(entry=name, k=k, ok=False, unsupported='time limit', stats={}, labels={}, covers=[], undecided=[], external=[], failures=[], secs=0, functions=[]))
            run = {}
            for name, k in pend: out.append(dict(entry=name, k=k, ok=False, unsupported='time limit (not started)', stats={}, labels={}, covers=[], undecided=[], external=[], failures=[], secs=0, functions=[]))
            pend = []
    return out

def replay_text(pid, r, f):
    L = ['# property %s, obligation failed: %s' % (pid, f['label']), '# harness %s case %s' % (r['entry'], r['k']), '# call stack: ' + ' > '.join(f['where'])]
    for e in f['nd']:
        if e[1] == 'arr':
            _, _, n, d, cells = e
            L.append('a %s %d %d %d %s' % (f_name(e[0]), n, d, len(cells), ' '.join('%d %d' % c for c in sorted(cells.items()))))
        else: L.append('v %s %d' % (f_name(e[0]), e[2]))
    return '\n'.join(L) + '\n'
def f_name(n): return n.replace(' ', '_') or '_'

def demangle(names):
    if not names: return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')[:len(names)]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry'); ap.add_argument('-v', action='store_true'); ap.add_argument('--no-native', action='store_true'); ap.add_argument('--budget', type=int, default=0)
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='irvc_')
    try:
        rc = check(a, a.pid, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(a, pid, tier, seed, t0, work):
    import engine
    from llparse import Module
    meta = json.load(open(os.path.join(VERIF, 'harness', 'meta.json'))).get(pid, {})
    hs = sorted(glob.glob(os.path.join(VERIF, 'harness', pid + '_*.cpp')))
    if not hs: print('no harness for', pid); return 2
    budget = a.budget or (560 if tier == 'quick' else 3000)
    evdir = os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    build_err = None
    try:
        final, ds, srcs = build.build_module(hs, work, tier)
    except build.BuildError as e:
        print('BUILD-ERROR', str(e)[:3000]); return 2
    t_build = time.time() - t0
    opts = {}
    for d in ds: opts.update(d['opts'])
    results = []; unsupported_all = None
    try:
        mod = Module().parse(open(final).read())
        eng = engine.Engine(mod, None, opts)
        eng.run_ctors()
        jobs = [(n, k) for d in ds for n, c in d['entries'] for k in range(c)]
        if a.entry:
            en, _, ek = a.entry.partition(':')
            jobs = [j for j in jobs if j[0] == en and (not ek or j[1] == int(ek))]
        results = run_all(eng, jobs, opts, budget)
    except engine.Unsupported as e:
        unsupported_all = str(e)
    known = [r for r in results if r['entry'].startswith('known_')]
    main_r = [r for r in results if not r['entry'].startswith('known_')]
    fails = []
    for r in main_r:
        for f in r['failures']: fails.append((r, f))
    unsup = [r for r in main_r if r['unsupported'] or r['undecided']]
    if unsupported_all: unsup = [dict(entry=n, k=k, unsupported=unsupported_all, undecided=[]) for d in ds for n, c in d['entries'] for k in range(c) if not n.startswith('known_')]
    if a.v:
        for i, r in enumerate(sorted(results, key=lambda r: -r['secs'])):
            s = r['stats']
            if i >= 6 and not r['unsupported'] and not r['failures'] and not r['undecided']: continue
            print('  %-40s %3d %6.1fs paths=%s obl=%s/%s steps=%s solver=%.1fs %s' % (r['entry'], r['k'], r['secs'], s.get('paths'), s.get('discharged'), s.get('obligations'), s.get('steps'), s.get('solver_s', 0), 'UNSUPPORTED ' + r['unsupported'] if r['unsupported'] else ''))
            for f in r['failures'][:6]: print('      FAIL', f['label'], '|', ' > '.join(f['where'][-3:]), '|', [(n[0], hex(n[2]) if isinstance(n[2], int) else n[2]) for n in f['nd']][:14])
            for u in r['undecided'][:4]: print('      UNDECIDED', u)
    covers = set(c for r in results for c in r['covers'])
    want = set(c for d in ds for c in d['cover'])
    missing = want - covers
    violations = []      # (replay, confirmed)
    exe = None; native_err = None; search = []
    def native():
        nonlocal exe, native_err
        if exe is None and native_err is None and not a.no_native:
            try: exe = build.build_native(hs, work, tier)
            except build.BuildError as e: native_err = str(e)[-1500:]; print('native build failed:', native_err)
        return exe
    rdir = os.path.join(VERIF, 'replays')
    if fails:
        os.makedirs(rdir, exist_ok=True)
        seen = set(); n = 0
        for r, f in fails:
            key = (f['label'], r['entry'])
            if key in seen and len([1 for x in violations if x[2] == key]) and any(x[2] == key and x[1] for x in violations): continue
            if n >= 12: break
            n += 1; seen.add(key)
            path = os.path.join(rdir, '%s_%s_%s_%d.txt' % (pid, r['entry'], r['k'], n))
            txt = replay_text(pid, r, f)
            open(path, 'w').write(txt)
            ok = False; outp = ''
            if native():
                try:
                    p = subprocess.run([exe, r['entry'], str(r['k']), 'replay', path], capture_output=True, text=True, timeout=60)
                    outp = (p.stdout + p.stderr)[-6000:]
                    ok = p.returncode != 0
                except subprocess.TimeoutExpired:
                    outp = 'timeout'; ok = True
            with open(path, 'a') as fh:
                fh.write('# native replay: %s\n' % ('REPRODUCED' if ok else 'not reproduced'))
                for l in outp.split('\n')[:60]: fh.write('#   ' + l + '\n')
            violations.append((path, ok, key))
        # no confirmed failing input yet: seeded native search on the failing harnesses
        if not any(v[1] for v in violations) and native():
            for (en, k) in sorted(set((r['entry'], r['k']) for r, f in fails))[:6]:
                s = native_search(exe, en, k, seed, 10, rdir, pid)
                search.append(s)
                if s['failed']: violations.append((s['replay'], True, (s['label'], en)))
    # stand-in for what the prover could not decide: seeded native search, labelled bounded
    if unsup and native():
        per = max(3, min(20, 120 // max(1, len(unsup))))
        from concurrent.futures import ThreadPoolExecutor
        os.makedirs(rdir, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            for s in ex.map(lambda r: native_search(exe, r['entry'], r['k'], seed, per, rdir, pid), unsup[:40]):
                search.append(s)
                if s['failed']: violations.append((s['replay'], True, (s['label'], s['entry'])))
    obl = sum(r['stats'].get('obligations', 0) for r in main_r); dis = sum(r['stats'].get('discharged', 0) for r in main_r)
    labels = {}
    for r in main_r:
        for l, (x, y) in r['labels'].items():
            e = labels.setdefault(l, [0, 0]); e[0] += x; e[1] += y
    bounded = [r for r in main_r if r['entry'].startswith('bounded_')]
    funs = sorted(set(f for r in main_r for f in r['functions']))
    dem = demangle(funs)
    contract_funs = sorted(set(d for d in dem if 'tiny::' in d or not d.startswith(('std::', 'void std::', '__gnu', 'bool std::', 'decltype', 'auto std::', 'prove_', 'bounded_', 'known_', 'vf'))))
    repo_funs = [d for d in contract_funs if not d.startswith(('operator', '_ZNSt', 'fmt::'))][:400]
    level = meta.get('level', 'proof')
    for r in unsup[:10]: print('UNDECIDED property=%s harness=%s case=%s: %s' % (pid, r['entry'], r['k'], (r['unsupported'] or str(r['undecided'][:2]))[:600]))
    if unsup or (bounded and level == 'proof' and len(bounded) == len(main_r)): level = 'other' if level == 'proof' else level
    ev = dict(property=pid, tier=tier, seed=seed, level=level,
              coverage=dict(
                  explanation=('bounded: ' + meta.get('bound', 'see undecided') if level == 'other' else 'all obligations discharged; bounded_cases are bounded in program length and are not counted as proved'),
                  obligations=obl, discharged=dis, paths=sum(r['stats'].get('paths', 0) for r in main_r),
                  harness_cases=len(main_r), bounded_cases=len(bounded), ir_steps=sum(r['stats'].get('steps', 0) for r in main_r),
                  solver_queries=sum(r['stats'].get('queries', 0) for r in main_r), solver_s=round(sum(r['stats'].get('solver_s', 0) for r in main_r), 2),
                  backends='z3 %s (incremental, bit-blast tactic), cvc5 1.1.2 second' % engine.z3.get_version_string(),
                  checker_cmd='python3-vt irvc/check.py %s --tier %s' % (pid, tier),
                  named_obligations={k: '%d/%d' % (v[1], v[0]) for k, v in sorted(labels.items())},
                  functions_under_contract=meta.get('functions', []),
                  functions_verified_through=repo_funs,
                  covers_reached=sorted(covers), covers_missing=sorted(missing),
                  undecided=[dict(harness=r['entry'], case=r['k'], why=(r['unsupported'] or str(r['undecided'][:3]))[:500]) for r in unsup],
                  native_search=search, build_s=round(t_build, 1),
                  trusted_base=['clang 18 front end (IR of the sources actually compiled here)', 'irvc/engine.py + irvc/llparse.py (VC generator)', 'irvc/hooks.py (C++ runtime and LLVM intrinsics)',
                                'models/stl_models.cpp (libstdc++ out-of-line tree/list/hash helpers)', 'models/fmt (format stub)', 'z3/cvc5'] +
                               (['lemma L1 (unsigned multiply/divide round trip)'] if any(r.get('lemma') for r in main_r) else []) +
                               ['external: ' + x for x in demangle(sorted(set(x for r in main_r for x in r['external'])))]),
              assumptions=meta.get('assumptions', []) + ['signed overflow wraps (-fwrapv)', 'statistics logging and log text are dropped (no-ops)', 'operator new does not fail'],
              wall_s=round(time.time() - t0, 1), violations=len(set(v[2] for v in violations)))
    rc = 0
    if violations:
        rc = 1
    elif not main_r or obl == 0 or (missing and not unsup):
        if unsupported_all:
            pass
        else:
            print('VACUOUS property=%s obligations=%d missing covers=%s' % (pid, obl, sorted(missing))); rc = 2
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for r in known:
        if r['failures']: print('KNOWN-FINDING: property=%s %s' % (pid, meta.get('known', {}).get(r['entry'], r['entry'])))
    if violations:
        conf = [v for v in violations if v[1]]
        for path, ok, key in (conf or violations)[:3]:
            print('failed obligation: %s (harness %s)%s' % (key[0], key[1], '' if ok else ' -- counterexample not reproduced natively'))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if ok else ' no-failing-input-found'))
    else:
        print('%s: %s  obligations %d/%d discharged, %d cases (%d bounded, %d undecided), %d paths, solver %.1f s, wall %.1f s' % (
            pid, 'OK' if rc == 0 else 'NO VERDICT', dis, obl, len(main_r), len(bounded), len(unsup), ev['coverage']['paths'], ev['coverage']['solver_s'], ev['wall_s']))
    return rc

def native_search(exe, en, k, seed, secs, rdir, pid):
    d = dict(entry=en, case=k, failed=False, label='', replay='')
    try:
        p = subprocess.run([exe, en, str(k), 'search', str(seed), str(secs), '2000000'], capture_output=True, text=True, timeout=secs + 60)
        d['result'] = p.stdout.strip().split('\n')[0] if p.stdout else ''
        if p.returncode == 1:
            d['failed'] = True
            d['label'] = p.stdout.strip().split('\n')[-1]
            path = os.path.join(rdir, '%s_%s_%s_search.txt' % (pid, en, k))
            vals = [l.strip() for l in p.stderr.split('\n') if l.startswith(('  v ', '  a '))]
            open(path, 'w').write('# found by seeded native search: %s\n# harness %s case %s\n%s\n' % (d['label'], en, k, '\n'.join(vals)))
            d['replay'] = path
    except subprocess.TimeoutExpired:
        d['result'] = 'timeout'
    return d

if __name__ == '__main__':
    main()
