#!/usr/bin/env python3
"""Decides one property by seeded simulation:  check.py PROP [quick|thorough] [--time S] [--seed N] [--jobs N]
Replays a file:                             check.py --replay FILE
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import sys, os, json, time, subprocess, tempfile, shutil, re, fcntl, hashlib, struct, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); B = os.environ.get('SIM_BUILD', V + '/build'); CSIM = B + '/csim'
ENV = dict(os.environ, ASAN_OPTIONS='detect_stack_use_after_return=0:detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:abort_on_error=0:malloc_context_size=8:quarantine_size_mb=32:max_free_fill_size=4096',
           UBSAN_OPTIONS='print_stacktrace=1')
def build(go):
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for s in ['build.sh'] + ['build_go.sh'] * go:
            r = subprocess.run(['bash', V + '/' + s, B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: sys.stdout.write(r.stdout.decode(errors='replace')[-4000:]); print('build of /repo failed: no answer'); sys.exit(2)
def crash_class(err, rc):
    m = re.search(r'AddressSanitizer:? ([a-zA-Z-]+)', err) 
    kind = m.group(1) if m else ('bounds' if 'runtime error' in err else 'signal%d' % rc)
    if kind == 'DEADLYSIGNAL': m = re.search(r'ERROR: AddressSanitizer: (\S+)', err); kind = m.group(1) if m else 'SEGV'
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (/repo/\S+?):\d+', err)
    return 'crash:' + kind, (fr[0][0] + ' ' + fr[0][1] if fr else '')
def replay(path, trace=False, timeout=120):
    """-> (class or None, text)"""
    try: r = subprocess.run([CSIM, 'replay', path] + (['--trace'] if trace else []), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return 'hang:wall', ''
    out = r.stdout.decode(errors='replace'); err = r.stderr.decode(errors='replace')
    if r.returncode == 0: return None, out
    m = re.search(r'^VIOLATION (\S+)$', out, re.M)
    if r.returncode == 1 and m: return m.group(1), out
    return crash_class(err, r.returncode)[0], out + '\n' + err[:6000]
def write_tape(path, prop, tape):
    with open(path, 'w') as f: f.write(prop + '\n' + ' '.join(map(str, tape)) + '\n')
def minimise(prop, tape, cls, tmp, secs, jobs):
    t0 = time.time(); best = list(tape); n = [0]
    ex = cf.ThreadPoolExecutor(jobs)
    def test(t):
        n[0] += 1; p = '%s/min%d' % (tmp, n[0]); write_tape(p, prop, t); c, out = replay(p, timeout=60); os.unlink(p)
        return c == cls
    def first(cands):
        """first candidate that still fails"""
        it = iter(cands)
        while time.time() - t0 < secs:
            batch = []
            for c in it:
                batch.append(c)
                if len(batch) == jobs: break
            if not batch: return None
            for c, ok in zip(batch, ex.map(test, batch)):
                if ok: return c
        return None
    while best and best[-1] == 0: best.pop()
    if not test(best): return tape
    progress = True
    while progress and time.time() - t0 < secs:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < secs:
            i = 0
            while i < len(best) and time.time() - t0 < secs:
                cands = []
                for k in range(jobs):
                    a = i + k * size
                    if a >= len(best): break
                    cands.append(best[:a] + best[a + size:])
                    if any(best[a:a + size]): cands.append(best[:a] + [0] * len(best[a:a + size]) + best[a + size:])
                c = first(cands)
                if c is not None:
                    while c and c[-1] == 0: c.pop()
                    if len(c) < len(best) or sum(1 for x in c if x) < sum(1 for x in best if x): best = c; progress = True
                    else: i += size * jobs
                else: i += size * jobs
            size //= 2
        for i in range(len(best)):
            if time.time() - t0 > secs: break
            if i < len(best) and best[i] > 1:
                c = first([best[:i] + [x] + best[i + 1:] for x in sorted({1, 2, best[i] // 2, best[i] - 1}) if x < best[i]])
                if c is not None: best = c; progress = True
    ex.shutdown(); return best
def report(prop, cls, msg, tape, tmp, jobs, extra, minsecs):
    rd = V + '/replays'; os.makedirs(rd, exist_ok=True)
    raw = tmp + '/raw'; write_tape(raw, prop, tape); c, out = replay(raw)
    h = hashlib.sha1((prop + cls + msg[:200]).encode()).hexdigest()[:10]; path = '%s/%s-%s.replay' % (rd, prop, h)
    if c == cls:
        small = minimise(prop, tape, cls, tmp, minsecs, jobs); write_tape(path, prop, small)
        c2, out2 = replay(path, trace=True); c3, out3 = replay(path, trace=True)
        with open(path + '.trace', 'w') as f: f.write('%s draws %d -> %d, replays identically: %s\n%s\n' % (cls, len(tape), len(small), c2 == c3 == cls and out2 == out3 or cls.startswith('crash'), out2))
        t2 = re.sub(r'\x1b\[[0-9;]*m', '', out2); k = t2.find('\nVIOLATION '); t2 = t2[k:] if k >= 0 else t2; print(t2[:2500])
    else: # only after what the process did before: replay the whole worker
        with open(path, 'w') as f: f.write('worker %s\n%s\n' % (prop, json.dumps(extra)))
        print('class %s; reproduces as the worker run %s\n%s' % (cls, json.dumps(extra), msg[:3000]))
    print('VIOLATION property=%s replay=%s' % (prop, path)); sys.stdout.flush()
def run_worker_replay(path):
    lines = open(path).read().split('\n'); prop = lines[0].split()[1]; e = json.loads(lines[1]); tmp = tempfile.mkdtemp(dir=B)
    r = subprocess.run([CSIM, 'run', '--prop', prop, '--seed', str(e['seed']), '--from', str(e['from']), '--step', str(e['step']), '--max', str(e['max']), '--time', '100000', '--state', tmp + '/s', '--out', tmp + '/o'], env=ENV)
    shutil.rmtree(tmp); return r.returncode
def main():
    av = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(av):
        if av[i].startswith('--'): opt[av[i][2:]] = av[i + 1]; i += 2
        else: pos.append(av[i]); i += 1
    build('C20' in pos[:1] or ('replay' in opt and open(opt['replay']).readline().strip() in ('C20', 'worker C20')))
    if 'replay' in opt:
        p = opt['replay']
        if open(p).readline().startswith('worker '): sys.exit(1 if run_worker_replay(p) else 0)
        c, out = replay(p, trace=True); print(out); print('result:', c or 'held'); sys.exit(1 if c else 0)
    prop = pos[0]; tier = pos[1] if len(pos) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(opt.get('seed', os.environ.get('VERIF_SEED', '1') or 1)); jobs = int(opt.get('jobs', os.cpu_count() or 4))
    secs = float(opt.get('time', 40 if tier == 'quick' else 780))
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix='run-', dir=B); rc = 0; nviol = 0; res = []; notes = []
    # known findings: deterministic probes
    kf = V + '/known-findings.txt'
    for line in open(kf) if os.path.exists(kf) else []:
        m = re.match(r'finding: property=(\S+) probe=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            r = subprocess.run([CSIM, 'probe', m.group(2)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode == 4: print('KNOWN-FINDING: property=%s %s' % (prop, m.group(3)))
            else: notes.append('known finding no longer reproduces: ' + m.group(2))
    procs = []
    for w in range(jobs):
        a = [CSIM, 'run', '--prop', prop, '--seed', str(seed), '--from', str(w), '--step', str(jobs), '--time', str(secs), '--state', '%s/s%d' % (tmp, w), '--out', '%s/o%d' % (tmp, w), '--distinct', '%s/d%d' % (tmp, w)]
        if 'max' in opt: a += ['--max', opt['max']]
        procs.append(subprocess.Popen(a, env=ENV, stdout=subprocess.DEVNULL, stderr=open('%s/e%d' % (tmp, w), 'w')))
    end = time.time() + secs + 90; found = None
    live = set(range(jobs))
    while live:
        for w in list(live):
            c = procs[w].poll()
            if c is None:
                if time.time() > end: procs[w].kill(); live.discard(w); notes.append('worker %d stuck' % w); found = found or (w, -1)
                continue
            live.discard(w)
            if c != 0 and found is None:
                found = (w, c); end = min(end, time.time() + 3)
                for x in live: procs[x].kill()
        time.sleep(0.05)
    def state(w):
        with open('%s/s%d' % (tmp, w), 'rb') as f: h = struct.unpack('<5Q', f.read(40)); return h[1], h[2], list(struct.unpack('<%dQ' % h[3], f.read(8 * h[3])))
    for w in range(jobs):
        try: res.append((w, json.load(open('%s/o%d' % (tmp, w)))))
        except Exception: pass
    if found:
        w, c = found; err = open('%s/e%d' % (tmp, w)).read(); d = dict(res).get(w, {}); idx, runs, tape = state(w)
        extra = {'seed': seed, 'from': w, 'step': jobs, 'max': runs + 1, 'index': idx}
        if c == 1 and 'violation' in d: cls, msg = d['violation']['cls'], d['violation']['msg']
        elif c == -1: cls, msg = 'hang:wall', 'run %d did not end' % idx
        else: (cls, fr) = crash_class(err, c); msg = fr + '\n' + err[:4000]
        if cls.startswith('harness:') or c == 3: print('harness failure: no answer\n' + msg + err[:2000]); sys.exit(2)
        report(prop, cls, msg, tape, tmp, jobs, extra, 60 if tier == 'quick' else 300); rc = 1; nviol = 1
    gate = 0
    if not found: # the same seed in a fresh process must give the same execution
        picks = [(idx, h) for w, d in res for idx, h in (d['hashes'][:1] + d['hashes'][-1:])]
        with cf.ThreadPoolExecutor(jobs) as ex:
            def again(p): return subprocess.run([CSIM, 'hash', '--prop', prop, '--seed', str(seed), '--index', str(p[0])], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode()
            for (idx, h), out in zip(picks, ex.map(again, picks)):
                gate += 1
                if ('HASH ' + h) not in out:
                    if prop == 'C06': # "repeating a run from the same inputs repeats its result exactly"
                        p = '%s/replays/%s-repeat-%d.replay' % (V, prop, idx); os.makedirs(V + '/replays', exist_ok=True)
                        w = idx % jobs
                        open(p, 'w').write('worker %s\n%s\n' % (prop, json.dumps({'seed': seed, 'from': w, 'step': jobs, 'max': idx // jobs + 1, 'index': idx})))
                        print('run %d gives another execution when repeated in a fresh process' % idx); print('VIOLATION property=%s replay=%s' % (prop, p)); rc = 1; nviol = 1; break
                    print('run %d does not repeat: simulator not deterministic here' % idx); notes.append('run %d did not repeat' % idx); rc = rc or 2
    distinct = set()
    for w in range(jobs):
        try: b = open('%s/d%d' % (tmp, w), 'rb').read(); distinct.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        except OSError: pass
    add = lambda k: sum(d.get(k, 0) for _, d in res)
    def merge(k):
        o = {}
        for _, d in res:
            for a, b in d.get(k, {}).items(): o[a] = o.get(a, 0) + b
        return dict(sorted(o.items()))
    edges = 0; bits = [0] * 40000
    for _, d in res:
        for i, ch in enumerate(d.get('edgebits', '')): bits[i] |= int(ch, 16)
    edges = sum(bin(x).count('1') for x in bits); tot = max([d.get('edges_total', 0) for _, d in res] or [0])
    wall = time.time() - t0; sim_wall = max([d['wall'] for _, d in res] or [1]); runs = add('runs')
    info = json.load(open(V + '/components.json')); rule = subprocess.run([CSIM, 'list'], env=ENV, stdout=subprocess.PIPE).stdout.decode()
    rule = dict(l.split('\t', 1) for l in rule.strip().split('\n')).get(prop, '')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
        'evaluations': runs, 'distinct_nontrivial': len(distinct), 'rule': 'seeded runs; non-trivial: ' + rule, 'samples': [s for _, d in res for s in d['samples']][:6] or ['(none)'],
        'runs_per_hour': int(runs / max(sim_wall, .001) * 3600), 'seeds_per_hour': int(runs / max(sim_wall, .001) * 3600), 'simulated_steps': add('steps'), 'engine_runs': add('vm_runs'),
        'simulated_time': '%d basic-block steps of real code (the step clock is the simulated time)' % add('steps'), 'faults_injected': merge('faults'), 'counts': merge('counts'),
        'distinct_states': '%d distinct schedule/data paths (non-trivial), %d of %d basic-block edges of the real code' % (len(distinct), edges, tot), 'determinism_gate': '%d runs repeated in fresh processes, identical event hashes' % gate,
        'components': info.get(prop, info['default'])}, 'assumptions': info['assumptions'], 'wall_s': round(wall, 2), 'violations': nviol}
    if notes: ev['coverage']['notes'] = notes
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    print('%s %s: %d runs, %d distinct non-trivial, %d engine runs, %d steps, %.0f s, exit %d' % (prop, tier, runs, len(distinct), add('vm_runs'), add('steps'), wall, rc))
    shutil.rmtree(tmp); sys.exit(rc)
main()
