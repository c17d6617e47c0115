#!/opt/vp/venv/bin/python
"""Decides one property by seeded deterministic simulation.

  check.py C01 [--tier quick|thorough] [--runs-scale F]     search
  check.py C01 --replay FILE                                replay one recorded violation

Exit 0: held on everything explored.  Exit 1: a VIOLATION line with a replay file, reproduced from that file in a
fresh process.  Anything else (3): the machinery itself failed.
"""
import argparse
import hashlib
import json
import os
import queue
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/vp/venv/bin/python'
JOBS = int(os.environ.get('VSIM_JOBS', '8'))
RUN_TIMEOUT = 90

from vsim.props import PROPS        # noqa: E402


def die(msg):
    print('ERROR', msg, file=sys.stderr)
    sys.exit(3)


class Worker:
    """A worker process and its pipe; ask() returns the answer, or 'hang' / 'crash'."""

    def __init__(self, pkg, scratch, hashseed='0'):
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', PYTHONPATH=HERE, PYTHONWARNINGS='ignore', GYM_DISABLE_WARNINGS='1')
        self.errpath = os.path.join(scratch, 'stderr')
        self.err = open(self.errpath, 'wb')
        self.p = subprocess.Popen([PY, '-m', 'vsim.worker', pkg, scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd=HERE)
        self.buf = b''
        r = self.read(120)
        if not isinstance(r, dict):
            raise RuntimeError('worker did not start: %s' % self.stderr())

    def stderr(self):
        try:
            return open(self.errpath, 'rb').read()[-3000:].decode('utf-8', 'replace')
        except OSError:
            return ''

    def read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return 'hang'
            ok, _, _ = select.select([fd], [], [], left)
            if not ok:
                return 'hang'
            b = os.read(fd, 1 << 20)
            if not b:
                return 'crash'
            self.buf += b
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def ask(self, q, timeout=RUN_TIMEOUT):
        try:
            self.p.stdin.write(json.dumps(q).encode() + b'\n')
            self.p.stdin.flush()
        except OSError:
            return 'crash'
        return self.read(timeout)

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.rc = self.p.returncode
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


def once(pkg, scratch, q, hashseed='0', timeout=RUN_TIMEOUT):
    shutil.rmtree(scratch, ignore_errors=True)
    w = Worker(pkg, scratch, hashseed)
    try:
        r = w.ask(q, timeout)
        if r == 'crash':
            w.p.wait()
            return {'crash': w.p.returncode, 'stderr': w.stderr()}
        return {'hang': True} if r == 'hang' else r
    finally:
        w.close()


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('open: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out.append((key[len('class='):], what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--runs-scale', type=float, default=float(os.environ.get('VSIM_SCALE', '1')))
    ap.add_argument('--max-wall', type=float)
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    spec = PROPS[a.prop]
    t_start = time.monotonic()
    b = subprocess.run([PY, os.path.join(HERE, 'vsim', 'build.py')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if b.returncode:
        print(b.stdout[-2000:], b.stderr[-6000:], file=sys.stderr)
        die('the tree does not build')
    pkg = b.stdout.strip().splitlines()[-1]
    t_built = time.monotonic()
    scratch = tempfile.mkdtemp(prefix='vsim-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        rc = replay(a, spec, pkg, scratch) if a.replay else search(a, spec, pkg, scratch, t_start, t_built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def replay(a, spec, pkg, scratch):
    f = json.load(open(a.replay))
    q = {'cmd': 'plan', 'world': f['world'], 'plan': f['plan'], 'sched': f['sched'], 'seed': f['seed'], 'focus': f['focus'],
         'tier': f['tier'], 'trace': True}
    r = once(pkg, os.path.join(scratch, 'r'), q)
    got = verdict(r)
    for e in (r.get('trace') or [])[-60:]:
        print('  ', e[:300])
    print('recorded:', f['cls'], '--', f['msg'][:600])
    print('replayed:', got)
    same = got is not None and got[0] == f['cls'] and (r.get('d') == f['digest'])
    print('reproduced exactly' if same else 'NOT reproduced (digest %s, recorded %s)' % (r.get('d'), f['digest']))
    if got is not None and got[0] == f['cls']:
        print('VIOLATION property=%s replay=%s' % (a.prop, os.path.abspath(a.replay)))
        return 1
    return 0


def verdict(r):
    """(class, message) of one answer, or None."""
    if not isinstance(r, dict):
        return ('worker-' + r, '')
    if 'error' in r:
        die('harness error:\n' + r['error'])
    if 'crash' in r:
        return ('process-crash', 'the process running the code died with status %s\n%s' % (r['crash'], r['stderr'][-800:]))
    if 'hang' in r:
        return ('hang', 'a run did not finish within %d s of real time' % RUN_TIMEOUT)
    return tuple(r['v']) if r.get('v') else None


def search(a, spec, pkg, scratch, t_start, t_built):
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    base = os.environ.get('VERIF_SEED', '1')
    jobs = []
    twice_every = spec.get('twice_every', 25)
    for wname, quick_n, thorough_n in spec['worlds']:
        n = max(1, int((quick_n if tier == 'quick' else thorough_n) * a.runs_scale))
        for i in range(n):
            jobs.append((i / n, {'cmd': 'seed', 'world': wname, 'seed': '%s/%s/%s/%s/%d' % (base, a.prop, wname, tier, i),
                                 'tier': tier, 'focus': spec.get('focus'), 'twice': i % twice_every == 0}))
    jobs.sort(key=lambda j: j[0])           # the worlds advance together, should time run out
    jobs = [j[1] for j in jobs]
    wall_cap = a.max_wall or (240 if tier == 'quick' else 3000)
    todo = queue.SimpleQueue()
    for j in jobs:
        todo.put(j)
    lock = threading.Lock()
    res = {'runs': 0, 'sigs': set(), 'digests': set(), 'trivial': 0, 'faults': {}, 'probes': {}, 'sim_ns': 0, 'steps': 0,
           'switches': 0, 'twice': 0, 'per_world': {}, 'wall': 0.0}
    bad = []
    samples = []
    errors = []
    stop = threading.Event()

    def serve(k):
        w = None
        n = 0
        try:
            while not stop.is_set() and time.monotonic() - t_built < wall_cap:
                try:
                    q = todo.get_nowait()
                except queue.Empty:
                    break
                if w is None:
                    w = Worker(pkg, os.path.join(scratch, 'w%d-%d' % (k, n)))
                    n += 1
                r = w.ask(q)
                if not isinstance(r, dict):
                    if r == 'crash':
                        w.p.wait()
                        r = {'crash': w.p.returncode, 'stderr': w.stderr()}
                    else:
                        r = {'hang': True}
                    w.close()
                    w = None
                    with lock:
                        bad.append((q, r))
                        res['runs'] += 1
                        if not a.keep_going:
                            stop.set()
                    continue
                if 'error' in r:
                    errors.append((q, r['error']))
                    stop.set()
                    break
                with lock:
                    res['runs'] += 1
                    pw = res['per_world'].setdefault(q['world'], 0)
                    res['per_world'][q['world']] = pw + 1
                    res['sim_ns'] += r['t']
                    res['steps'] += r['s']
                    res['switches'] += r['w']
                    res['wall'] += r['wall']
                    res['digests'].add(r['d'])
                    if r['x']:
                        res['trivial'] += 1
                    else:
                        res['sigs'].add(r['g'])
                    for n_, v in r['f'].items():
                        res['faults'][n_] = res['faults'].get(n_, 0) + v
                    for n_, v in r['p'].items():
                        res['probes'][n_] = res['probes'].get(n_, 0) + v
                    if len(samples) < 12 and res['runs'] % 17 == 1:
                        samples.append('%s seed=%s -> digest %s, %d steps, %d context switches, faults %s'
                                       % (q['world'], q['seed'], r['d'], r['s'], r['w'], json.dumps(r['f'])))
                    if q['twice']:
                        res['twice'] += 1
                        if not r['same']:
                            errors.append((q, 'one seed gave two different executions'))
                            stop.set()
                    if r['v']:
                        bad.append((q, r))
                        if not a.keep_going:
                            stop.set()
        except Exception as e:      # noqa
            errors.append((None, repr(e)))
            stop.set()
        finally:
            if w is not None:
                w.close()
    ths = [threading.Thread(target=serve, args=(k,)) for k in range(JOBS)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    searched = time.monotonic() - t_built
    if errors and not bad:
        evidence(a, spec, tier, base, res, samples, searched, time.monotonic() - t_start, [], len(jobs), errors)
        die('%s: %s' % (errors[0][0], errors[0][1]))
    open_ = known_findings(a.prop)
    hits = {}
    report = None
    if a.keep_going:
        seen = {}
        for q, r in bad:
            v = verdict(r)
            seen.setdefault(v[0], []).append((q['seed'], v[1][:700]))
        for c, l in seen.items():
            print('%4d x %s' % (len(l), c))
            for s, m in l[:3]:
                print('      ', s, m)
    bad.sort(key=lambda x: (not (isinstance(x[1], dict) and x[1].get('v')), x[0]['seed']))
    gated = 0
    for q, r in bad:
        v = verdict(r)
        kf = [k for k in open_ if k[0] == v[0]]
        if kf:
            hits[kf[0][0]] = hits.get(kf[0][0], 0) + 1
            continue
        report = confirm(a, spec, pkg, scratch, q, r, v, tier)
        gated += 1
        if report or gated >= 3:
            break
    for key, what in open_:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, what))
    viol = []
    if report:
        viol = [{'class': report['cls'], 'message': report['msg'][:1000], 'seed': report['seed'], 'replay': report['path']}]
    evidence(a, spec, tier, base, res, samples, searched, time.monotonic() - t_start, viol, len(jobs), errors, hits)
    print('%s %s: %d runs in %.1f s (%d distinct), %d faults injected, simulated %.0f s'
          % (a.prop, tier, res['runs'], searched, len(res['sigs']), sum(res['faults'].values()), res['sim_ns'] / 1e9))
    if report:
        print('violation: %s -- %s' % (report['cls'], report['msg'][:800]))
        print('VIOLATION property=%s replay=%s' % (a.prop, report['path']))
        return 1
    if gated and not report:
        die('a violation was seen but did not reproduce')
    return 0


def confirm(a, spec, pkg, scratch, q, r, v, tier):
    """Same seed in fresh processes, twice, then minimise, then replay the file in a fresh process."""
    q = dict(q, twice=False, want_plan=True)
    again = [once(pkg, os.path.join(scratch, 'c'), q, hashseed=h) for h in ('0', '0')]
    vs = [verdict(x) for x in again]
    if any(x is None or x[0] != v[0] for x in vs):
        print('NOT-REPRODUCED %s seed=%s first=%s then=%s' % (q['world'], q['seed'], v, vs), file=sys.stderr)
        return None
    if again[0].get('d') != again[1].get('d'):
        print('NOT-DETERMINISTIC seed=%s' % q['seed'], file=sys.stderr)
        return None
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    rep = {'property': a.prop, 'world': q['world'], 'seed': q['seed'], 'tier': q['tier'], 'focus': q['focus'], 'cls': v[0], 'msg': v[1]}
    if 'plan' in again[0] or v[0] == 'process-crash':
        if 'plan' in again[0]:
            plan, sched = again[0]['plan'], again[0]['sched']
        else:
            # the process dies: the decisions stay a function of the seed unless none of them is needed
            plan, sched = once(pkg, os.path.join(scratch, 'c'), dict(q, cmd='gen'))['plan'], None
        size0 = (len(json.dumps(plan)), len(sched or ()))
        m = once(pkg, os.path.join(scratch, 'm'), {'cmd': 'min', 'world': q['world'], 'plan': plan, 'sched': sched, 'seed': q['seed'], 'focus': q['focus'],
                                                   'tier': q['tier'], 'cls': v[0], 'budget': 60 if tier == 'quick' else 180}, timeout=400)
        cands = [(m['plan'], m['sched'])] if m.get('ok') else []
        cands.append((plan, sched))
        for p, s in cands:
            x = once(pkg, os.path.join(scratch, 'c'), {'cmd': 'plan', 'world': q['world'], 'plan': p, 'sched': s, 'seed': q['seed'], 'focus': q['focus'],
                                                       'tier': q['tier'], 'trace': True})
            vx = verdict(x)
            if vx and vx[0] == v[0]:
                rep.update(plan=p, sched=s, digest=x.get('d'), msg=vx[1], trace=x.get('trace'), faults=x.get('f'),
                           minimised={'from': size0, 'to': (len(json.dumps(p)), len(s or ())), 'trials': m.get('trials')})
                break
        else:
            print('REPLAY-FAILED seed=%s' % q['seed'], file=sys.stderr)
            return None
    else:
        # a hang in compiled code: the replay file carries the plan as generated
        rep.update(plan=once(pkg, os.path.join(scratch, 'c'), dict(q, cmd='gen'))['plan'], sched=None, digest=None)
    name = '%s-%s.json' % (a.prop, hashlib.sha256(json.dumps([rep['cls'], rep['seed']]).encode()).hexdigest()[:10])
    rep['path'] = os.path.join(d, name)
    with open(rep['path'], 'w') as f:
        json.dump(rep, f, indent=1)
    return rep


def evidence(a, spec, tier, base, res, samples, searched, wall, viol, planned, errors, hits=None):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': a.prop, 'tier': tier, 'seed': int(base) if base.isdigit() else base, 'level': 'exploration',
        'coverage': {
            'evaluations': res['runs'],
            'distinct_nontrivial': len(res['sigs']),
            'rule': spec['rule'],
            'samples': samples or ['none'],
            'planned_runs': planned,
            'runs_per_scenario': res['per_world'],
            'runs_per_hour': int(res['runs'] / searched * 3600) if searched > 0 else 0,
            'simulated_seconds': res['sim_ns'] / 1e9,
            'scheduler_steps': res['steps'], 'context_switches': res['switches'],
            'distinct_executions': len(res['digests']),
            'trivial_runs': res['trivial'],
            'faults_injected': res['faults'],
            'rare_conditions_reached': res['probes'],
            'determinism_rechecks': {'runs_executed_again_and_replayed': res['twice'], 'mismatches': len([e for e in errors if e[0]])},
            'real_components': spec['real'], 'stubbed_components': spec['stub'],
            'known_finding_hits': hits or {},
        },
        'wall_s': round(wall, 2),
        'violations': viol,
    }
    p = os.path.join(HERE, 'evidence', a.prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    main()
