#!/usr/bin/env python3
# run.py <property> [quick|thorough] : decides one property; see DESIGN.md
import sys, os, json, subprocess, time, tempfile, shutil, re, concurrent.futures as cf, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import V, B, BuildError
import checks
TIER = os.environ.get('VERIF_TIER') or 'quick'
SEED = int(os.environ.get('VERIF_SEED') or 1)
ANSI = re.compile(r'\x1b\[[0-9;]*m')
def known():
    out = []; p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                head, _, what = l[7:].partition(' :: ')
                d = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', head)); d = {k: v.strip('"') for k, v in d.items()}; d['what'] = what; out.append(d)
    return out
def func_of(v):
    for s in v['stack']:
        if '/repo/' in s: return s.split(' ')[0]
    return v['stack'][0].split(' ')[0] if v['stack'] else '?'
def symx(job, outdir):
    t0 = time.time()
    bc = build.harness_ir(job['h'], job.get('variant', 'std'))
    out = os.path.join(outdir, job['id'] + '.json')
    cmd = [build.engine(), bc, '-o', out, '-e', 'sx_main', '-t', str(job['t']), '-q', str(job.get('q', 20000)), '-fp', job.get('fp', 'real'), '-maxviol', '8']
    if job.get('omp'): cmd += ['-omp', str(job['omp'])]
    if job.get('nouninit'): cmd += ['-nouninit']
    if job.get('pathsteps'): cmd += ['-pathsteps', str(job['pathsteps'])]
    for k, v in job['P'].items(): cmd += ['-P', '%s=%d' % (k, v)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if not os.path.exists(out): return dict(job=job, error='the symbolic executor produced no result (exit %d): %s' % (p.returncode, p.stdout[-800:]))
    r = json.load(open(out)); return dict(job=job, r=r, rc=p.returncode)
def native_run(job, model, kind, extra_env=None, valgrind=False, timeout=60):
    exe = build.native(job['h'], kind, job.get('variant', 'std'))
    d = tempfile.mkdtemp(prefix='cn24v-')
    try:
        mf = d + '/model.txt'; open(mf, 'w').write(''.join('%s %s\n' % (n, v) for n, v in model))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000:malloc_fill_byte=190:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=98', TSAN_OPTIONS='exitcode=96:halt_on_error=1', SX_THREADS=str(job.get('omp', 1)))
        for k, v in job['P'].items(): env['SXP_' + k] = str(v)
        if extra_env: env.update(extra_env)
        w = d + '/w'; os.mkdir(w)
        cmd = ['/bin/sh', '-c', 'ulimit -v 16000000 2>/dev/null; exec "$@"', 'x', exe, mf] if kind == 'plain' else [exe, mf]
        if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=97', '--track-origins=no', exe, mf]
        try: p = subprocess.run(cmd, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired: return 'timeout', ''
        return p.returncode, ANSI.sub('', p.stdout[-6000:] + '\n' + p.stderr[-6000:])
    finally: shutil.rmtree(d, ignore_errors=True)
def replay(job, v):
    """replays one counterexample on the real build; returns (confirmed, description)"""
    model = v['model']; k = v['kind']
    if k == 'race':
        rc, o = native_run(job, model, 'tsan', extra_env=dict(SX_THREADS=str(job.get('omp', 2)))); line = next((l for l in o.splitlines() if 'WARNING: ThreadSanitizer' in l), '')
        return rc == 96, (line or 'thread sanitizer reports nothing (status %s)' % rc)
    if 'mmap' in v['msg'] or v.get('triage'): return True, 'access outside a memory mapping: page granularity hides it from the native sanitizers, confirmed by reading'
    rc, o = native_run(job, model, 'asan')
    line = next((l for l in o.splitlines() if 'SX-ASSERT-FAIL' in l or 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'SX-EXCEPTION' in l), '')
    if rc == 78: return False, 'the native run left the path: ' + o[-300:]
    if rc == 'timeout': return (k == 'unwinding'), 'the native run does not finish within 60 s'
    if rc != 0: return True, (line or 'native run ended with status %s: %s' % (rc, o[-300:])).strip()
    if k == 'uninitialised':
        rc, o = native_run(job, model, 'plain', valgrind=True, timeout=300)
        if rc != 0: return True, 'valgrind: ' + next((l for l in o.splitlines() if '==' in l), o[-200:])
    if k == 'assert':
        rc, o = native_run(job, model, 'plain')
        if rc not in (0, 78): return True, next((l for l in o.splitlines() if 'SX-ASSERT-FAIL' in l or 'SX-EXC' in l), 'status %s' % rc)
        rc, o = native_run(job, model, 'plain', valgrind=True, timeout=300) # an undefined value may happen to be the right one in this build
        if rc not in (0, 78): return True, 'valgrind: ' + next((l for l in o.splitlines() if '==' in l and ('ninit' in l or 'nvalid' in l)), o[-200:])
    return False, 'the native run of this input shows nothing: ' + o[-200:]
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else TIER
    t0 = time.time(); C = checks.CHECKS[prop]
    jobs = [dict(j) for j in C['jobs'](tier)]
    for i, j in enumerate(jobs):
        j.setdefault('P', {}); j.setdefault('t', 240 if tier == 'quick' else 800); j.setdefault('id', '%s-%d-%s' % (prop, i, j['h'])); j.setdefault('n', '%s%s' % (j['h'], ''.join(',%s=%s' % kv for kv in sorted(j['P'].items()))))
    outdir = tempfile.mkdtemp(prefix='cn24v-out-'); results = []; code = 0; messages = []
    evd = V + '/evidence'; os.makedirs(evd, exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fe = ex.submit(build.engine); variants = sorted(set(j.get('variant', 'std') for j in jobs)); fi = [ex.submit(build.ir, v) for v in variants]
            fn = [] if C.get('no_native') else [ex.submit(build.native, j['h'], 'plain', j.get('variant', 'std')) for j in {(j['h'], j.get('variant', 'std')): j for j in jobs if not j.get('no_native') and not j.get('known')}.values()]
            fe.result(); [f.result() for f in fi]
            tb = time.time() - t0
            results = list(ex.map(lambda j: symx(j, outdir), jobs))
            [f.result() for f in fn]
    except BuildError as e:
        print('ERROR property=%s cannot build: %s' % (prop, e)); shutil.rmtree(outdir, ignore_errors=True); sys.exit(2)
    agg = dict(paths=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, simplified=0, solver_s=0, asserts_solver=0, asserts_concrete=0, forks=0, inexact_ops=0, variables=0, assume_killed=0, infeasible=0, branch_unknown=0)
    funcs = set(); stubs = set(); reach = {}; samples = []; viols = []; asserts = {}; per_job = []
    for R in results:
        j = R['job']
        if 'error' in R: messages.append('ERROR %s: %s' % (j['n'], R['error'])); code = 2; continue
        r = R['r']
        for k in agg: agg[k] += r.get(k, 0)
        funcs.update(r['functions']); stubs.update(r['stubs'])
        for k, n in r['reach'].items(): reach[k] = reach.get(k, 0) + n
        for k, n in r['asserts'].items(): asserts[k] = asserts.get(k, 0) + n
        for k, s in list(r['samples'].items())[:2]:
            if len(samples) < 12: samples.append(dict(job=j['n'], reached=k, input=s.strip()))
        per_job.append(dict(job=j['n'], paths=r['paths'], queries=r['queries'], solver_s=round(r['solver_s'], 3), wall_s=round(r['wall_s'], 2), max_query_s=round(r['max_query_s'], 3), rss_mb=r['maxrss_mb']))
        for v in r['violations']: viols.append((j, v))
        if r['errors'] or r['timed_out'] or r['inconclusive']:
            if not j.get('known'): messages.append('ERROR %s: %s' % (j['n'], '; '.join(r['errors'][:4]))); code = 2
        for w in j.get('reach', []):
            if not r['reach'].get(w) and not r['violations'] and code == 0: messages.append('ERROR %s: vacuous, "%s" is never reached' % (j['n'], w)); code = 2
    # --- violations: filter the listed findings, replay the rest
    kn = [k for k in known() if k.get('property') == prop]; new = []; seen_known = {}
    for j, v in viols:
        f = func_of(v); hit = None
        for k in kn:
            if k.get('job') and k['job'] != j.get('name'): continue
            if k.get('kind') and k['kind'] != v['kind']: continue
            if k.get('func') and k['func'] not in f: continue
            if k.get('msg') and k['msg'] not in v['msg']: continue
            hit = k; break
        if hit and j.get('known'): seen_known.setdefault(hit['what'], (j, v))
        else: new.append((j, v))
    for w in sorted(seen_known): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    confirmed = 0; done = set()
    if new:
        for i, (j, v) in enumerate(new):
            key = (v['kind'], v['msg'], func_of(v))
            if key in done or confirmed >= 3: continue
            done.add(key)
            try: ok, how = replay(j, v)
            except BuildError as e: ok, how = False, 'cannot build the replay: %s' % e
            path = '%s/replay-%s-%d.txt' % (evd, prop, i)
            open(path, 'w').write('property: %s\ntier: %s\njob: %s\nkind: %s\nwhat: %s\nwhere: %s\nconfirmed on the real build: %s (%s)\ncall stack:\n  %s\nnotes: %s\nparameters: %s\ninput (name value):\n%s\nreplay: python3 /verif/vf/run.py --replay %s %s\n' % (prop, tier, j['n'], v['kind'], v['msg'], v['loc'], ok, how, '\n  '.join(v['stack']), v['notes'], json.dumps(j['P']), ''.join('%s %s\n' % (n, x) for n, x in v['model']), prop, path))
            if ok:
                confirmed += 1; print('VIOLATION property=%s replay=%s' % (prop, path)); print('  %s: %s at %s [%s] -- %s' % (v['kind'], v['msg'], v['loc'], j['n'], how[:300]))
            else: messages.append('ERROR %s: counterexample does not reproduce on the real build (%s: %s at %s): %s; see %s' % (j['n'], v['kind'], v['msg'], v['loc'], how[:300], path)); code = code or 2
    # --- conformance of the encoding: the solver's witnesses must behave the same in the real build
    validated = 0
    if not new and code == 0 and not C.get('no_native'):
        picks = []
        for R in results:
            j = R['job']
            if j.get('no_native') or j.get('known'): continue
            for k, s in R['r']['samples'].items(): w = R['r'].get('witness', {}).get(k, s); picks.append((j, k, [tuple(p.split('=', 1)) for p in w.strip().split(' ') if '=' in p], w.startswith('~')))
        step = max(1, len(picks) // 16)
        def val(p):
            j, k, m, off = p; rc, o = native_run(j, m, 'plain'); return p, rc, o
        with cf.ThreadPoolExecutor(8) as ex:
            for (j, k, m, off), rc, o in ex.map(val, picks[::step][:24]):
                if rc in (0, 78) and ('SX-REACH: ' + k) in o: validated += 1
                elif off and rc == 77: messages.append('NOTE %s: the witness for "%s" has values single precision rounds; not compared' % (j['n'], k))
                else: messages.append('ERROR %s: the real build disagrees with the encoding on a witness for "%s" (status %s): %s' % (j['n'], k, rc, o.strip()[-300:])); code = 2
    shutil.rmtree(outdir, ignore_errors=True)
    if confirmed: code = 1
    wall = time.time() - t0
    cov = dict(states=agg['paths'], transitions=agg['steps'], traces_validated_against_impl=validated, samples=samples or [dict(note='no witness')],
        functions_encoded=sorted(funcs), bounds=C['bounds'](tier) if callable(C['bounds']) else C['bounds'], outside=C.get('outside', ''), queries=agg['queries'], queries_sat=agg['sat'], queries_unsat=agg['unsat'], queries_unknown=agg['unknown'], decided_by_solver_simplifier=agg['simplified'], solver_s=round(agg['solver_s'], 3),
        symbolic_paths=agg['paths'], instructions_executed=agg['steps'], symbolic_variables=agg['variables'], assertions_decided_by_solver=agg['asserts_solver'], assertions_on_concrete_values=agg['asserts_concrete'], float_operations_outside_exact_range=agg['inexact_ops'], paths_cut_by_assumptions=agg['assume_killed'],
        assertions=asserts, reached=reach, environment_models=sorted(stubs), jobs=per_job, known_findings=sorted(seen_known), explanation='states are feasible symbolic paths (each stands for every input satisfying its path condition), transitions are IR instructions executed symbolically; samples are solver models of the reachability witnesses')
    json.dump(dict(property=prop, tier=tier, seed=SEED, level='model_checking', coverage=cov, assumptions=C.get('assumptions', []) + checks.COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=confirmed), open('%s/%s.json' % (evd, prop), 'w'), indent=1)
    for m in messages: print(m)
    print('%s %s: %s; %d jobs, %d paths, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, %d functions encoded, %d witnesses replayed, wall %.1fs' % (prop, tier, {0: 'held on everything explored', 1: 'VIOLATED', 2: 'no answer'}[code], len(jobs), agg['paths'], agg['queries'], agg['unsat'], agg['sat'], agg['unknown'], agg['solver_s'], len(funcs), validated, wall))
    sys.exit(code)
def replay_main():
    prop, path = sys.argv[2], sys.argv[3]; txt = open(path).read(); params = json.loads(re.search(r'^parameters: (.*)$', txt, re.M).group(1)); tier = re.search(r'^tier: (.*)$', txt, re.M).group(1); jn = re.search(r'^job: (.*)$', txt, re.M).group(1)
    model = [l.split(' ') for l in txt.split('input (name value):\n')[1].split('replay: ')[0].splitlines() if ' ' in l]
    h = jn.split(',')[0]
    j = next((dict(j) for j in checks.CHECKS[prop]['jobs'](tier) if j['h'] == h and j.get('P', {}) == params), dict(h=h)); j['P'] = params
    for kind in ('asan', 'plain'): print(kind, *native_run(j, model, kind))
if __name__ == '__main__':
    if sys.argv[1] == '--replay': replay_main()
    else: main()
