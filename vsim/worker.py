"""One worker process: runs the seeds it is told on stdin, one JSON answer per line.

Requests (one JSON object per line):
  {"cmd": "seed", "world": "w_client:ClientFaulty", "seed": "...", "tier": "quick", "focus": [...], "twice": true}
  {"cmd": "plan", "world": ..., "plan": {...}, "sched": [...], "focus": [...]}
  {"cmd": "min",  "world": ..., "plan": {...}, "sched": [...], "focus": [...], "cls": "...", "budget": seconds}
"""
import copy
import importlib
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vsim import seams, world       # noqa: E402

seams.install()
real_perf = seams.real['perf_counter']


def load(name, scratch):
    mod, cls = name.split(':')
    w = getattr(importlib.import_module('vsim.' + mod), cls)()
    w.scratch = scratch
    return w


def main():
    pkg, scratch = sys.argv[1], sys.argv[2]
    world.PKG = pkg
    sys.path.insert(0, pkg)
    os.makedirs(scratch, exist_ok=True)
    proto = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)
    worlds = {}

    def say(o):
        proto.write(json.dumps(o) + '\n')
        proto.flush()
    say({'ready': os.getpid()})
    for line in sys.stdin:
        q = json.loads(line)
        w = worlds.get(q['world'])
        if w is None:
            w = worlds[q['world']] = load(q['world'], scratch)
        world.FOCUS = set(q['focus']) if q.get('focus') else None
        world.TIER = q.get('tier', 'quick')
        try:
            answer(w, q, say)
        except Exception:
            import traceback
            say({'error': traceback.format_exc()})
    os._exit(0)


def answer(w, q, say):
    from vsim.kernel import Decisions
    if True:
        if q['cmd'] == 'gen':
            say({'plan': w.gen(random.Random(q['seed']), q['tier'])})
        elif q['cmd'] == 'seed':
            t0 = real_perf()
            plan = w.gen(random.Random(q['seed']), q['tier'])
            o = w.run(plan, Decisions(seed=q['seed']))
            r = o.to_json()
            r['wall'] = real_perf() - t0
            if q.get('twice'):
                o2 = w.run(w.gen(random.Random(q['seed']), q['tier']), Decisions(seed=q['seed']))
                o3 = w.run(json.loads(json.dumps(plan)), Decisions(replay=list(o.sched)))
                r['same'] = o2.digest == o.digest and o3.digest == o.digest
            if o.violation or q.get('want_plan'):
                r['plan'], r['sched'] = plan, o.sched
            say(r)
        elif q['cmd'] == 'plan':
            o = w.run(q['plan'], decisions(q['sched'], q.get('seed')))
            r = o.to_json()
            r['trace'] = [repr(e) for e in w.last_sim.log[-400:]] if q.get('trace') else None
            say(r)
        elif q['cmd'] == 'min':
            say(minimise(w, q))


def decisions(sched, seed):
    from vsim.kernel import Decisions
    return Decisions(seed=seed) if sched is None else Decisions(replay=list(sched))


def minimise(w, q):
    """Shrink plan and schedule while the same class of violation remains; every trial in a forked child, since a
    trial may hang or crash."""
    from vsim.kernel import Decisions
    end = real_perf() + q['budget']
    best = (q['plan'], q['sched'])
    trials = [0]

    def trial(plan, sched):
        trials[0] += 1
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                o = w.run(copy.deepcopy(plan), decisions(sched, q.get('seed')))
                os.write(wr, json.dumps({'v': o.violation, 'used': len(o.sched), 'd': o.digest}).encode())
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        import select
        data = b''
        lim = real_perf() + 20
        while True:
            left = lim - real_perf()
            ok, _, _ = select.select([r], [], [], max(0, left))
            if not ok:
                os.kill(pid, 9)
                break
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        if not data:
            if q['cls'] == 'process-crash' and os.WIFSIGNALED(st) and os.WTERMSIG(st) != 9:
                return {'v': ['process-crash', ''], 'used': 1 << 30}
            return None
        o = json.loads(data)
        return o if o['v'] and o['v'][0] == q['cls'] else None

    def ok():
        return real_perf() < end
    first = trial(*best)
    if first is None:
        return {'plan': best[0], 'sched': best[1], 'ok': False, 'trials': trials[0]}
    progress = True
    while progress and ok():
        progress = False
        for cand in w.shrinks(best[0]):
            if not ok():
                break
            for sched in (best[1], []):
                o = trial(cand, sched)
                if o:
                    best = (cand, sched if sched is None else sched[:o['used']])
                    progress = True
                    break
            if progress:
                break
    # the schedule: drop the tail, then zero blocks of decisions
    plan, sched = best
    if ok() and (sched is None or sched) and trial(plan, []):
        sched = []
    n = len(sched or ())
    k = n
    while k >= 1 and ok() and sched:
        i = 0
        while i < len(sched) and ok():
            if any(sched[i:i + k]):
                c = sched[:i] + [0] * len(sched[i:i + k]) + sched[i + k:]
                if trial(plan, c):
                    sched = c
            i += k
        k //= 2
    while sched and sched[-1] == 0:
        sched.pop()
    return {'plan': plan, 'sched': sched, 'ok': trial(plan, sched) is not None, 'trials': trials[0]}


if __name__ == '__main__':
    main()
