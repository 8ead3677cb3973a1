#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  check.py PROPERTY            tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  check.py --replay FILE       run a replay file again (exit 1 if it still fails)
  check.py --setup             build only

Exit 0: the property held in every simulated run. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken. Anything else is an
error of the check itself.
"""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
HARNESS = os.path.join(BUILD, 'harness')
sys.path.insert(0, VERIF)
from checks import CHECKS, REAL, STUB, ASSUME  # noqa: E402

def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()

def build():
    """make, with staleness decided by content: time stamps of a copied tree mean nothing."""
    os.makedirs(BUILD, exist_ok=True)
    cur = {}
    for top, ext in ((REPO + '/src', ('.cpp', '.h')), (REPO + '/src-gen', ('.cpp', '.h')), (REPO + '/include', ('.h',)),
                     (VERIF + '/sim', ('.cpp', '.h')), (VERIF + '/workloads', ('.cpp', '.h')), (VERIF + '/smp', ('.h',))):
        for d, _, fs in os.walk(top):
            for f in fs:
                if f.endswith(ext):
                    p = os.path.join(d, f)
                    cur[p] = sha(p)
    cur['Makefile'] = sha(os.path.join(VERIF, 'Makefile'))
    stamp = os.path.join(BUILD, 'stamp.json')
    try:
        old = json.load(open(stamp))
    except Exception:
        old = None
    if old is None or {p: h for p, h in cur.items() if not p.endswith('.cpp')} != \
            {p: h for p, h in old.items() if not p.endswith('.cpp')}:
        stale = None
    else:
        stale = [p for p in set(cur) | set(old) if cur.get(p) != old.get(p)]
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            o = os.path.join(d, f)
            if f == 'harness' and (stale is None or stale):
                os.unlink(o)
            elif f.endswith('.o') and (stale is None or any(
                    o.endswith('/' + os.path.relpath(p, REPO if p.startswith(REPO + '/') else VERIF)[:-4] + '.o') for p in stale)):
                os.unlink(o)
    if os.path.exists(stamp):
        os.unlink(stamp)
    r = subprocess.run(['make', '-s', '-j8', 'REPO=' + REPO, 'B=' + BUILD], cwd=VERIF, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write((r.stdout + r.stderr)[-4000:])
        sys.exit(3)
    with open(stamp, 'w') as f:
        json.dump(cur, f)

def run_one(text, *flags):
    fd, path = tempfile.mkstemp(prefix='sim', suffix='.replay')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        r = subprocess.run([HARNESS, 'one', path] + list(flags), capture_output=True, text=True, timeout=700)
        return json.loads(r.stdout)
    except (subprocess.TimeoutExpired, json.JSONDecodeError):
        return {'status': 4, 'cls': '', 'msg': 'no answer', 'hash': '', 'dec': [], 'nops': 0}
    finally:
        os.unlink(path)

def plan(wl, seed, drop=(), dec=None, sched=0):
    t = 'workload %s\nseed %s\n' % (wl, seed)
    if sched:
        t += 'schedseed %d\n' % sched
    t += ''.join('drop %d\n' % d for d in sorted(drop))
    if dec is not None:
        t += 'mode scripted\n' + ''.join('dec %s %d %d\n' % tuple(d) for d in dec)
    return t

def norm(cls):
    return cls

class Minimiser:
    def __init__(self, cls, budget):
        self.cls, self.end = cls, time.time() + budget
        self.pool = cf.ThreadPoolExecutor(8)
        self.tried = 0

    def fails(self, text):
        r = run_one(text, '-d')
        self.tried += 1
        return r if r['status'] == 2 and norm(r['cls']) == norm(self.cls) else None

    def ddmin(self, items, make):
        """smallest list found for which make(list) still fails; tries the chunks of one round in parallel"""
        n, best = 2, list(items)
        while best and time.time() < self.end:
            n = min(n, len(best))
            size = -(-len(best) // n)
            chunks = [best[i:i + size] for i in range(0, len(best), size)]
            cands = [[x for j, c in enumerate(chunks) if j != i for x in c] for i in range(len(chunks))]
            hit = None
            for k in range(0, len(cands), 8):
                res = list(self.pool.map(lambda c: self.fails(make(c)), cands[k:k + 8]))
                for c, r in zip(cands[k:k + 8], res):
                    if r:
                        hit = c
                        break
                if hit is not None or time.time() > self.end:
                    break
            if hit is not None:
                best, n = hit, max(n - 1, 2)
            elif n >= len(best):
                break
            else:
                n *= 2
        return best

def minimise(wl, seed, first, budget):
    m = Minimiser(first['cls'], budget)
    nops = first['nops']
    keep = m.ddmin(list(range(nops)), lambda k: plan(wl, seed, set(range(nops)) - set(k)))
    drop = set(range(nops)) - set(keep)
    r = m.fails(plan(wl, seed, drop))
    if not r:  # cannot happen for a deterministic run
        drop, r = set(), first
    dec, scripted = r['dec'], False
    best = plan(wl, seed, drop)
    if not r.get('overflow'):
        s = m.fails(plan(wl, seed, drop, dec))
        if s:
            scripted = True
            dec = m.ddmin(dec, lambda d: plan(wl, seed, drop, d))
            # a second pass over the operations, now that the schedule is fixed
            keep2 = m.ddmin([i for i in range(nops) if i not in drop],
                            lambda k: plan(wl, seed, set(range(nops)) - set(k), dec))
            drop = set(range(nops)) - set(keep2)
            best = plan(wl, seed, drop, dec)
    return best, {'operations': nops - len(drop), 'of_operations': nops, 'scripted': scripted,
                  'decisions': len(dec) if scripted else None, 'candidates_tried': m.tried}

def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(path):
        for e in json.load(open(path)).get('findings', []):
            if e['property'] == prop:
                out.append(e)
    return out

def confirm(wl, seed, first_hash, cls):
    """same seed twice in one process and once more in a fresh one"""
    a = run_one(plan(wl, seed), '-2', '-d')
    b = run_one(plan(wl, seed), '-d')
    ok = a['status'] == b['status'] == 2 and a.get('repeat') and a['hash'] == b['hash'] == first_hash and a['cls'] == cls
    return a if ok else None

def main():
    if sys.argv[1:2] == ['--setup']:
        build()
        return 0
    if sys.argv[1:2] == ['--replay']:
        build()
        text = ''.join(l for l in open(sys.argv[2]) if not l.startswith('#'))
        r = run_one(text, '-v')
        print(r.pop('history', ''))
        print('status %s class %s hash %s\n%s' % (r['status'], r['cls'], r['hash'], r['msg']))
        return 1 if r['status'] == 2 else 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    t0 = time.time()
    build()
    tb = time.time() - t0
    secs = float(os.environ.get('VERIF_SECS', 0)) or (c.get('quick', 40) if tier == 'quick' else c.get('thorough', 600))
    wl = ','.join('%s:%d' % (n, w) for n, w in c['workloads'].items())
    known = known_findings(prop)
    kcls = ';'.join(e['class'] for e in known)
    base = (seed * 1000003 + int(prop[1:])) & (2**63 - 1)
    print('property %s: %s; tier %s, seed %d, base %d, workloads %s' % (prop, c['title'], tier, seed, base, wl), flush=True)
    lim = 640 if tier == 'quick' else 3600
    used, agg, bad = 0.0, None, []
    for attempt in range(3):
        b = subprocess.run([HARNESS, 'batch', 'wl=' + wl, 'base=%d' % (base + attempt * 7919), 'secs=%g' % max(5, secs - used),
                            'known=' + kcls, 'workers=%d' % min(8, os.cpu_count() or 1)], capture_output=True, text=True)
        try:
            d = json.loads(b.stdout)
        except json.JSONDecodeError:
            sys.stderr.write('batch failed: rc %s %s\n' % (b.returncode, b.stderr[-2000:]))
            return 3
        used += d['wall']
        agg = merge(agg, d)
        fresh = [v for v in d['violations'] if v['cls'] not in [e['class'] for e in known]]
        for v in fresh:
            first = confirm(v['workload'], v['seed'], v['hash'], v['cls'])
            if first:
                bad.append((v, first))
                break
            sys.stderr.write('not reproduced: %s\n' % json.dumps(v))
        if bad:
            break
        if not fresh and d['errors'] <= 3:
            break
        if time.time() - t0 > lim / 2:
            break
    if d['errors']:
        sys.stderr.write('%d runs without an answer: %s (seed %s)\n' % (d['errors'], d['err'], d['err_seed']))
    code = 0
    info = None
    if bad:
        v, first = bad[0]
        # on a violation the remaining time goes into the smallest replay
        text, info = minimise(v['workload'], v['seed'], first, 60 if tier == 'quick' else 300)
        fin = run_one(text, '-h')
        fin2 = run_one(text, '-h')
        if fin['status'] != 2 or fin['hash'] != fin2['hash']:
            text = plan(v['workload'], v['seed'])
            fin = run_one(text, '-h')
            info = {'minimised': False}
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.replay' % (prop, v['seed']))
        with open(path, 'w') as f:
            f.write('# property %s class %s\n# found by seed %d as run %s, hash %s\n' % (prop, fin['cls'], seed, v['index'], fin['hash']))
            for line in (fin['msg'] + '\n' + fin.get('history', '')[-6000:]).split('\n'):
                f.write('# ' + line + '\n')
            f.write(text)
        print('class: %s\n%s' % (fin['cls'], fin['msg']))
        print('minimised: %s' % json.dumps(info))
        print('history (tail):\n%s' % fin.get('history', '')[-2500:])
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        code = 1
    elif agg['mismatches']:
        sys.stderr.write('the simulation is not repeatable: %s\n' % agg['err'])
        code = 3
    elif fresh:
        sys.stderr.write('a violation could not be reproduced\n')
        code = 3
    elif d['errors'] > 3:
        code = 3
    for e in known:
        # shown by its own fixed replay: what the batch met does not decide it
        r = run_one(open(os.path.join(VERIF, e['replay'])).read()) if e.get('replay') else None
        if r is None or (r['status'] == 2 and r['cls'] == e['class']):
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    hours = max(agg['wall'], 1e-9) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
        'assumptions': ASSUME + c.get('assume', []),
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': min(agg['distinct'], agg['nontrivial']),
            'rule': 'one evaluation is one complete simulated run of ' + c['what'] + '; every operation, interleaving, delay and fault is drawn '
                    'from one seed. Distinct: the hash of the sequence of (thread, scheduling point) pairs together with that of the recorded operations, '
                    'observations and injected faults differs. Non-trivial: more than one operation and at least one context switch between threads or one injected fault.',
            'samples': [samples(agg, wl, base)],
            'runs_per_hour': int(agg['runs'] / hours), 'seeds_per_hour': int(agg['runs'] / hours),
            'build_s': round(tb, 1), 'explore_s': round(agg['wall'], 2),
            'simulated_seconds': round(agg['simtime_ns'] / 1e9, 3),
            'scheduling_steps': agg['steps'], 'context_switches': agg['switches'],
            'synchronisation_operations': agg['syncops'], 'memory_accesses_checked_for_races': agg['memops'],
            'operations_generated': agg['ops'], 'distinct_interleavings': agg['distinct'],
            'simulated_process_lives': agg['lives'], 'runs_with_restart': agg['multi_life_runs'],
            'faults_injected': agg['faults'], 'rare_conditions_reached': agg['probes'],
            'runs_per_workload': agg['workloads'], 'known_finding_runs': agg['known'],
            'determinism': {'runs_repeated': agg['reruns'], 'hash_mismatches': agg['mismatches']},
            'runs_without_answer': agg['errors'],
            'oracle': c['oracle'], 'real_components': REAL, 'stubbed_components': STUB,
            'minimisation': info,
        },
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs (%d distinct), %.1f simulated s, %d faults, %d repeats equal, exit %d' % (
        prop, agg['runs'], agg['distinct'], agg['simtime_ns'] / 1e9, sum(agg['faults'].values()), agg['reruns'] - agg['mismatches'], code))
    return code

def samples(agg, wl, base):
    """the first run of the batch, written out"""
    for n in agg['workloads']:
        s = agg.get('sample_seed') or 0
        r = run_one(plan(n, base), '-v')
        return {'workload': n, 'seed': base, 'status': r['status'], 'steps': r.get('steps'), 'operations': r.get('nops'),
                'faults': r.get('faults'), 'event_log_head': [l for l in r.get('history', '').split('\n') if '. T' not in l][:40]}
    return {}

def merge(a, d):
    if a is None:
        return dict(d)
    for k, v in d.items():
        if isinstance(v, dict):
            for n, x in v.items():
                a[k][n] = a[k].get(n, 0) + x
        elif isinstance(v, list):
            a[k] = a[k] + v
        elif isinstance(v, str):
            a[k] = v or a[k]
        else:
            a[k] += v
    return a

if __name__ == '__main__':
    sys.exit(main())
