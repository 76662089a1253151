#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current tree.

usage: vrun.py <property> [--tier quick|thorough] [--seed N] [--keep] [--only SUBSTR] [--scale X]
Exit 0: held on everything observed.  Exit 1: a VIOLATION line was printed.  Exit 2: the check could not decide.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry

REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0',
           LC_ALL='C')


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, 'include'), HARNESS):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh: h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()


def compile_cmd(job, out):
    cxx = job.get('cxx', 'clang++')
    cmd = [cxx, '-std=' + job.get('std', 'c++17'), '-g1', '-w', job.get('opt', '-O1')]
    san = job.get('san', 'asan')
    if san == 'asan': cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern']
    elif san == 'tsan': cmd += ['-fsanitize=thread', '-ftrivial-auto-var-init=pattern']
    elif san == 'ubsan': cmd += ['-fsanitize=undefined', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern']
    elif san == 'none': cmd += ['-ftrivial-auto-var-init=pattern']
    cmd += ['-I' + os.path.join(REPO, 'include'), '-isystem', '/opt/vp/compat', '-I' + HARNESS]
    cmd += ['-DVF_PROP=%d' % job['prop']] + ['-D' + d for d in job.get('defs', [])] + job.get('flags', [])
    cmd += [os.path.join(HARNESS, job['tu'] + '.cpp'), '-o', out, '-lpthread']
    return cmd


def build(job, th):
    key = hashlib.sha256((th + json.dumps(job, sort_keys=True)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, '%s-%s' % (job['name'], key))
    if os.path.exists(out): return out, 0.0, None
    for old in glob.glob(os.path.join(BUILD, job['name'] + '-' + '?' * 16)):
        try: os.unlink(old)
        except OSError: pass
    t = time.time()
    err = ''
    for attempt in range(2):
        tmp = out + '.tmp%d' % os.getpid()
        try:
            r = subprocess.run(compile_cmd(job, tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            return None, time.time() - t, ('timeout', 'compiler timeout')
        if r.returncode == 0:
            os.rename(tmp, out)
            return out, time.time() - t, None
        err = r.stdout.decode(errors='replace')
        if ' error: ' not in err and attempt == 0: continue  # the compiler itself was disturbed: try again
        break
    return None, time.time() - t, ('error' if ' error: ' in err else 'broken', err)


def run_one(binary, args, timeout):
    p = subprocess.Popen([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd='/tmp', start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return 'timeout', o.decode(errors='replace'), e.decode(errors='replace')


def parse(o):
    r = {'evals': 0, 'distinct': 0, 'states': 0, 'stats': {}, 'samples': [], 'done': False, 'config': '?', 'fail': None, 'findings': []}
    for line in o.split('\n'):
        f = line.split('\t')
        if f[0] == 'EVALS': r['evals'] = int(f[1])
        elif f[0] == 'DISTINCT': r['distinct'] = int(f[1])
        elif f[0] == 'STATES': r['states'] = int(f[1])
        elif f[0] == 'STAT': r['stats'][f[1]] = r['stats'].get(f[1], 0) + int(f[2])
        elif f[0] == 'SAMPLE': r['samples'].append(f[1])
        elif f[0] == 'CONFIG': r['config'] = f[1]
        elif f[0] == 'FINDING': r['findings'].append((f[1], f[2], f[3] if len(f) > 3 else ''))
        elif f[0] == 'DONE': r['done'] = True
        elif f[0] == 'FAIL':
            r['fail'] = dict(x.split('=', 1) for x in f[1:] if '=' in x)
    return r


def execute(job, binary, seed, thorough, scale, timeout):
    args = ['--seed', str(seed)]
    n = job.get('thorough_cases', job['cases'] * 20) if thorough else job['cases']
    args += ['--cases', str(max(1, int(n * scale)))]
    if thorough: args = ['--thorough'] + args
    args += job.get('args', [])
    rc, o, e = run_one(binary, args, timeout)
    r = parse(o)
    r.update(rc=rc, stderr=e, args=args, verdict='held')
    if r['fail'] or (rc != 0 and rc != 'timeout'):
        if r['fail'] is None:
            if rc in (-9, -15):  # ended from outside
                r['verdict'] = 'inconclusive'; r['why'] = 'killed (signal %s)' % rc; return r
            r['fail'] = {'key': 'sanitizer' if rc in (66, 77) or 'Sanitizer' in e else 'crash', 'config': r['config'], 'detail': 'exit %s' % rc, 'case': '-1', 'seed': str(seed), 'history': ''}
        r['verdict'] = 'violated'
        m = re.search(r'(?m)^.*(runtime error:.*|ERROR: \w+Sanitizer.*|WARNING: ThreadSanitizer.*)$', e)
        if m: r['fail']['report'] = m.group(0).strip()[:400]
    elif rc == 'timeout' or not r['done']:
        r['verdict'] = 'inconclusive'; r['why'] = 'timeout' if rc == 'timeout' else 'no DONE line'
    elif r['evals'] == 0:
        r['verdict'] = 'inconclusive'; r['why'] = 'nothing observed'
    else:
        for s in job.get('need', []):
            if r['stats'].get(s, 0) == 0:
                r['verdict'] = 'inconclusive'; r['why'] = 'event "%s" was never observed' % s
    return r


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status', 'open') == 'open']


def matches(k, f, job):
    """A failure of a randomised job matches a listed finding only when every pattern the entry names matches."""
    m = k.get('match')
    if not m: return False
    src = {'key': f.get('key', ''), 'config': f.get('config', ''), 'detail': f.get('detail', ''), 'report': f.get('report', ''), 'job': job['name']}
    return all(re.fullmatch(pat, src.get(field, ''), re.S) for field, pat in m.items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=None); ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--only', default=''); ap.add_argument('--scale', type=float, default=1.0); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or '1')
    except ValueError: seed = 1
    thorough = tier == 'thorough'
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for old in glob.glob(os.path.join(OUT, a.prop + '-*')): os.unlink(old)
    jobs = [j for j in registry.jobs(a.prop, tier) if a.only in j['name']]
    if not jobs: print('no jobs for', a.prop); return 2
    info = registry.PROPS[a.prop]
    th = tree_hash()
    known = load_known(a.prop)
    results, errors, violations, known_hits = [], [], [], {}
    ex = cf.ThreadPoolExecutor(JOBS)
    compile_s = 0.0

    def shard_seed(j, s):
        return int(hashlib.sha256(('%d/%s/%d' % (seed, j['name'], s)).encode()).hexdigest()[:8], 16) % 1000000007 if (seed, s) != (1, 0) else 1

    def do(j):
        b, cs, err = build(j, th)
        res = []
        if err: return j, cs, err, res
        timeout = 3000 if thorough else 600
        for s in range(j.get('shards', 8 if thorough and j.get('shardable', True) else 1)):
            res.append((b, s))
        return j, cs, err, res

    def work(j, b, s):
        sd = shard_seed(j, s)
        r = execute(j, b, sd, thorough, a.scale, 3000 if thorough else 600)
        if r['verdict'] == 'inconclusive' or (r['verdict'] == 'violated' and r['fail'].get('key') == 'hang'):
            r2 = execute(j, b, sd, thorough, a.scale, 3000 if thorough else 600)  # once more before believing it
            r = r2
        r['job'] = j; r['binary'] = b; r['sd'] = sd
        return r

    futs = [ex.submit(do, j) for j in sorted(jobs, key=lambda j: -j.get('weight', 1))]
    runs = []
    for f in cf.as_completed(futs):
        j, cs, err, res = f.result()
        compile_s += cs
        if err:
            kind, text = err
            if kind == 'error':
                path = os.path.join(OUT, '%s-%s-compile.txt' % (a.prop, j['name']))
                with open(path, 'w') as fh: fh.write('documented interface used by this monitor no longer compiles\n' + ' '.join(compile_cmd(j, 'OUT')) + '\n\n' + text[:20000])
                violations.append(({'key': 'compile', 'config': j['name'], 'detail': next((l for l in text.split('\n') if ' error: ' in l), '')[:300]}, j, path))
            else: errors.append('%s: compiler %s: %s' % (j['name'], kind, text[-300:]))
            continue
        for b, s in res: runs.append(ex.submit(work, j, b, s))
    for f in cf.as_completed(runs):
        r = f.result(); j = r['job']; results.append(r)
        if r['verdict'] == 'inconclusive': errors.append('%s: inconclusive: %s' % (j['name'], r.get('why')))
        if r['verdict'] == 'violated':
            k = next((k for k in known if matches(k, r['fail'], j)), None)
            if k: known_hits[k['id']] = k; continue
            path = os.path.join(OUT, '%s-%s-%s.txt' % (a.prop, j['name'], r['sd']))
            with open(path, 'w') as fh:
                fh.write('property %s, monitor %s\n' % (a.prop, j['name']))
                for x, y in r['fail'].items(): fh.write('%s: %s\n' % (x, y))
                ra = [x for x in r['args']]
                if r['fail'].get('case', '-1') != '-1': ra += ['--case', r['fail']['case']]
                fh.write('\nreplay:\n  %s\n  %s\n' % (' '.join(compile_cmd(j, '/tmp/vf_replay')), ' '.join(['/tmp/vf_replay'] + ra)))
                fh.write('\nstderr:\n' + r['stderr'][:12000])
            violations.append((r['fail'], j, path))
        for fid, state, detail in r['findings']:
            k = next((k for k in known if k['id'] == fid), None)
            if state == 'absent': continue
            if k and state == 'present': known_hits[k['id']] = k
            else:
                path = os.path.join(OUT, '%s-%s-probe-%s.txt' % (a.prop, j['name'], fid))
                with open(path, 'w') as fh: fh.write('probe %s: %s %s\nreplay:\n  %s\n  /tmp/vf_replay %s\n' % (fid, state, detail, ' '.join(compile_cmd(j, '/tmp/vf_replay')), ' '.join(r['args'])))
                violations.append(({'key': 'probe-' + fid, 'config': j['name'], 'detail': '%s %s' % (state, detail)}, j, path))
    ex.shutdown()
    wall = time.time() - t0
    stats = {}
    for r in results:
        for k, v in r['stats'].items(): stats[k] = stats.get(k, 0) + v
    samples = []
    for r in sorted(results, key=lambda r: r['job']['name']):
        for s in r['samples'][:1]: samples.append('[%s, seed %s] %s' % (r['job']['name'], r['sd'], s))
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': info['level'],
          'coverage': {'evaluations': sum(r['evals'] for r in results),
                       'distinct_nontrivial': sum(r['distinct'] for r in results),
                       'rule': info['rule'],
                       'samples': samples[:8],
                       'distinct_observed_states': sum(r['states'] for r in results),
                       'observed_events': dict(sorted(stats.items())),
                       'monitors_run': [{'name': r['job']['name'], 'config': r['config'], 'seed': r['sd'], 'cases': r['evals'], 'distinct': r['distinct'], 'verdict': r['verdict']} for r in sorted(results, key=lambda r: r['job']['name'])],
                       'known_findings_seen': sorted(known_hits)},
          'assumptions': info.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(violations)}
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    for k in known_hits.values(): print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    print('%s %s seed=%d: %d cases, %d distinct, %d monitors, %.1fs (compile cpu %.0fs)' % (a.prop, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], len(results), wall, compile_s))
    for f, j, path in violations[:12]:
        print('  %s [%s] %s %s' % (f.get('key'), j['name'], f.get('detail', '')[:300], f.get('report', '')[:200]))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    if violations: return 1
    for e in errors: print('INCONCLUSIVE', e)
    if errors: return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
