"""USI engine client (cshogi.usi.Engine) against simulated engine processes."""
import os
import random

from . import kernel, seams
from .kernel import MS, SEC, Signal
from .proc import SimProc
from .world import World, Violation, check, raised

MOVES = ['7g7f', '3c3d', '2g2f', '8c8d', '8h2b+', 'P*5e', '5i4h', 'B*4e', '9g9f', '1c1d+', 'N*3d', '2b3a']
WORDS = ['USI_Hash', 'USI_Ponder', 'Threads', 'BookFile', 'ResignValue', 'EvalDir', 'usi_Mixed.Case-1', 'Slow Mover']


def cmd_of(op):
    """The one line the client must send for op."""
    k = op['op']
    if k in ('connect', 'usi'):
        return 'usi'
    if k == 'setoption':
        return 'setoption name %s value %s' % (op['name'], op['value'])
    if k == 'position':
        s = 'position ' + (op['sfen'] or 'startpos')
        if op['moves']:
            s += ' moves ' + ' '.join(op['moves'])
        return s
    if k == 'go':
        a = op['args']
        s = 'go' + (' ponder' if a.get('ponder') else '')
        for n in ('btime', 'wtime'):
            if a.get(n) is not None:
                s += ' %s %d' % (n, a[n])
        if a.get('byoyomi') is not None:
            s += ' byoyomi %d' % a['byoyomi']
        else:
            for n in ('binc', 'winc'):
                if a.get(n) is not None:
                    s += ' %s %d' % (n, a[n])
        if a.get('nodes') is not None:
            s += ' nodes %d' % a['nodes']
        return s
    if k == 'go_mate':
        return 'go mate ' + ('infinite' if op['byoyomi'] is None else str(op['byoyomi']))
    if k == 'gameover':
        return 'gameover' + (' ' + op['result'] if op['result'] else '')
    return k       # isready usinewgame ponderhit stop quit


REPLYING = ('connect', 'usi', 'isready', 'go', 'go_mate')


class ClientBrain:
    """Answers exactly as its script says; knows nothing of what the client expects."""

    def __init__(self, sim, plan, world, idx):
        self.sim, self.plan, self.world, self.idx = sim, plan, world, idx
        self.state = 'idle'
        self.n = 0              # commands received
        self.after_search = None
        self.emitted = bytearray()
        self.spoken = []
        self.rng = random.Random(plan['chunkseed'])

    def attach(self, side):
        self.side = side

    def input_latency(self):
        return self.plan['latency']

    def out(self, text, enc='ascii'):
        """One line, possibly torn into chunks with pauses between them."""
        data = text.encode(enc) + (b'\r\n' if self.plan['crlf'] else b'\n')
        acts = []
        if self.plan['chunk']:
            i = 0
            while i < len(data):
                j = min(len(data), i + 1 + self.rng.randrange(self.plan['chunk']))
                acts.append(('out', data[i:j]))
                acts.append(('delay', self.rng.choice([0, 1000, 5 * MS])))
                i = j
            if len(acts) > 2:
                self.sim.probe('reply-delivered-in-pieces')
        else:
            acts.append(('out', data))
        return acts

    def die_action(self, f):
        sim = self.sim

        def go():
            sim.fault('engine-' + f['kind'])
            if f['kind'] == 'close-out':
                self.side.proc.pout.wclosed = True
                self.side.proc.pout.sig.notify_all()
                self.state = 'mute'
                return []
            return [('exit', f.get('code', -9))]
        return ('call', go)

    def on_line(self, line):
        k = self.n
        self.n += 1
        ops = self.plan['wire']
        op = ops[k] if k < len(ops) else {'op': '?'}
        acts = []
        if self.plan['stderr'].get(str(k)):
            acts.append(('err', self.plan['stderr'][str(k)]))
            if self.plan['stderr'][str(k)] > 65536:
                self.sim.fault('engine-stderr-flood')
        kind = op['op']
        if op.get('think'):
            acts.append(('delay', op['think']))
        lines = op.get('lines', [])
        enc = op.get('enc', 'ascii')
        if kind == 'go' and op['args'].get('ponder'):
            self.state = 'pondering'
            half = len(lines) // 2
            for t in lines[:half]:
                acts += self.out(t, enc)
            self.after_search = [a for t in lines[half:] for a in self.out(t, enc)]
        elif kind in ('ponderhit', 'stop') and self.after_search is not None:
            acts += self.after_search
            self.after_search = None
            self.state = 'idle'
        else:
            for t in lines:
                acts += self.out(t, enc)
        if kind == 'quit':
            acts += [('delay', op.get('linger', 0)), ('exit', 0)]
        f = self.plan.get('fault')
        if f and f['cmd'] == k:
            # die inside the reply: after `at` of the actions, maybe leaving half a line behind
            cut = min(len(acts), int(f['at'] * (len(acts) + 1)))
            tail = acts[cut:cut + 1]
            acts = acts[:cut]
            if f.get('torn') and tail and tail[0][0] == 'out' and len(tail[0][1]) > 1:
                b = tail[0][1]
                n = 1 + int(f['torn'] * (len(b) - 1))
                acts.append(('out', b[:n]))
                self.sim.probe('reply-cut-off-mid-line')
            acts.append(self.die_action(f))
            if kind == 'quit' and f['kind'] == 'close-out':
                acts.append(('exit', 0))
        if self.state == 'mute' and kind != 'quit':
            return []
        return acts


class ClientWorld(World):
    """Ops on 1..3 Engine objects, each driven by its own task."""
    prop = 'client'
    faulty = False
    preempt = 0.05
    droppable = ('engines',)

    # -- plan ------------------------------------------------------------------------
    def gen_op(self, rng, first):
        k = rng.choice(['usi', 'setoption', 'isready', 'usinewgame', 'position', 'go', 'go', 'go', 'go_mate', 'gameover', 'ponder', 'isready'])
        op = {'op': k, 'think': rng.choice([0, 0, 1000, 300 * MS, 20 * SEC, 3600 * SEC])}
        noise = lambda: [rng.choice(['info string hello', 'info depth %d' % rng.randrange(9), '', 'unknown output', 'id author x',
                                     'info string bestmove 9i9h', 'info string usiok readyok', 'readyok?', 'usiok.', 'copyprotection ok', 'option name A type spin default 1 min 0 max 9'])
                         for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        if k == 'usi':
            op['lines'] = ['id name E%d' % rng.randrange(99)] + noise() + ['usiok']
        elif k == 'setoption':
            op.update(name=rng.choice(WORDS), value=rng.choice([16, 'true', '/tmp/a b', -5, 0, True, 'C:\\Eval Dir\\NN.bin', 'USI value X', '/データ/定跡.db', '100%', '"q"', 1 << 40]))
        elif k == 'isready':
            op['lines'] = noise() + ['readyok']
        elif k == 'position':
            op.update(sfen=rng.choice([None, None, 'sfen lnsgkgsnl/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1']),
                      moves=rng.choice([None, [], MOVES[:rng.randrange(1, 9)]]))
            if rng.random() < .03:
                op['moves'] = [rng.choice(MOVES) for _ in range(rng.choice([200, 600, 2000]))]
        elif k in ('go', 'ponder'):
            op['op'] = 'go'
            a = {}
            for n in ('btime', 'wtime', 'byoyomi', 'binc', 'winc', 'nodes'):
                if rng.random() < .4:
                    a[n] = rng.choice([0, 1, 1000, 600000])
            if k == 'ponder':
                a['ponder'] = True
            op['args'] = a
            infos = []
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                pv = [rng.choice(MOVES) for _ in range(rng.randrange(1, 4))]
                sc = rng.choice(['cp %d' % rng.randrange(-3000, 3000), 'mate %d' % rng.choice([-7, -1, 1, 5]), 'mate +', 'mate -'])
                mp = 'multipv %d ' % rng.randrange(1, 4) if rng.random() < .5 else ''
                infos.append('info depth %d %sscore %s nodes %d pv %s' % (rng.randrange(1, 30), mp, sc, rng.randrange(10 ** 6), ' '.join(pv)))
                if rng.random() < .3:
                    # other orders and fields engines use
                    f = ['depth %d' % rng.randrange(1, 30), 'score ' + sc + rng.choice(['', ' lowerbound', ' upperbound']), 'seldepth 31', 'nps 12345',
                         'hashfull 1000', 'time 0', 'currmove 9g9f', 'nodes 0']
                    f = rng.sample(f, rng.randrange(0, len(f)))
                    if rng.random() < .5:
                        f.insert(rng.randrange(len(f) + 1), 'multipv %d' % rng.randrange(1, 13))
                    infos[-1] = ' '.join(['info'] + f + ['pv'] + pv)
            best = rng.choice(MOVES + ['resign', 'win'])
            if infos and rng.random() < .7:
                best = rng.choice(infos).split(' pv ')[1].split()[0]
            pd = rng.choice([None, None, rng.choice(MOVES), rng.choice(MOVES + ['(none)'])])
            op['lines'] = infos + noise() + ['bestmove ' + best + (' ponder ' + pd if pd else '')]
            if rng.random() < .3:
                rng.shuffle(infos)
            op['ret'] = [best, pd]
        elif k == 'go_mate':
            op['byoyomi'] = rng.choice([None, 0, 5000])
            res = rng.choice(['nomate', 'timeout', 'notimplemented', ' '.join(rng.sample(MOVES, 3))])
            op['lines'] = noise() + ['checkmate ' + res]
            op['ret'] = res
        elif k == 'gameover':
            op['result'] = rng.choice([None, 'win', 'lose', 'draw'])
        if op.get('lines') and rng.random() < .2:
            # engines speak UTF-8 or Shift-JIS
            op['lines'].insert(rng.randrange(len(op['lines'])), rng.choice(['id author 山田', 'info string 定跡を読み込みました', 'info string 評価関数ファイルの読み込み完了']))
            op['enc'] = rng.choice(['utf-8', 'shift-jis'])
        return op

    def gen_engine(self, rng, i):
        name = rng.choice(['Engine%d', 'My Engine %d.0 64-bit', 'id name %d usiok', '将棋エンジン%d', 'e%d']) % i
        lines = ['id name ' + name, rng.choice(['id author A', 'id author 山田']), 'option name X type check default true', 'option name usiok type button', '']
        rng.shuffle(lines)
        wire = [{'op': 'connect', 'lines': lines[:rng.randrange(6)] + ['usiok'], 'think': rng.choice([0, 2 * SEC]), 'enc': rng.choice(['utf-8', 'shift-jis'])}]
        ctor = rng.random() < .15
        if 'id name ' + name not in wire[0]['lines']:
            wire[0]['lines'].insert(0, 'id name ' + name)
        wire[0]['name'] = name
        for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
            op = self.gen_op(rng, False)
            wire.append(op)
            if op['op'] == 'go' and op['args'].get('ponder'):
                wire.append({'op': rng.choice(['ponderhit', 'stop']), 'think': rng.choice([0, 10 * MS]),
                             'wait': rng.choice([0, 1, 5 * MS, 2 * SEC])})
        if rng.random() < .8:
            wire.append({'op': 'quit', 'linger': rng.choice([0, 0, 3 * SEC])})
        p = {'wire': wire, 'latency': rng.choice([0, 0, 1000, 2 * MS]), 'crlf': rng.random() < .3,
             'chunk': rng.choice([0, 0, 1, 3, 20]), 'chunkseed': rng.randrange(1 << 30), 'stderr': {},
             'listener': rng.choice(['none', 'list', 'info', 'multi'])}
        if ctor:
            p['ctor'] = True
        for k in range(len(wire)):
            if rng.random() < .1:
                p['stderr'][str(k)] = rng.choice([10, 5000, 70000, 200000])
        return p

    def gen(self, rng, tier):
        plan = {'engines': [self.gen_engine(rng, i) for i in range(rng.choice([1, 1, 2, 3]))],
                'switch': rng.choice([.2, .5, .9]), 'preempt': rng.choice([0, .02, .1])}
        if self.faulty:
            for e in plan['engines']:
                if rng.random() < .8:
                    k = rng.randrange(len(e['wire']))
                    if rng.random() < .7:
                        c = [i for i, o in enumerate(e['wire']) if o['op'] in REPLYING]
                        k = rng.choice(c)
                    e['fault'] = {'cmd': k, 'kind': rng.choice(['die', 'die', 'die', 'close-out']), 'at': rng.random(),
                                  'torn': rng.choice([0, 0, rng.random()]), 'code': rng.choice([-9, -11, 0, 1])}
                if rng.random() < .06:
                    e['nospawn'] = rng.choice([2, 12, 13, 24])
        return plan

    # -- execution --------------------------------------------------------------------------
    def body(self, plan, sim, out):
        from cshogi.usi import Engine
        from cshogi.usi.Engine import InfoListener, MultiPVListener
        procs, unstarted = [], set()

        def popen(args, kw):
            path = args[0][0] if args else kw['args'][0]
            i = int(path.rsplit('engine', 1)[1])
            f = plan['engines'][i].get('nospawn')
            if f and i not in unstarted:
                unstarted.add(i)
                sim.fault('engine-not-started')
                raise OSError(f, os.strerror(f), path)
            b = ClientBrain(sim, plan['engines'][i], self, i)
            p = SimProc(sim, len(procs), b, kw)
            procs.append((i, p))
            return p
        seams.hooks.popen = popen
        recs = [[] for _ in plan['engines']]

        def driver(i):
            e = plan['engines'][i]
            rec = recs[i]
            heard = []
            eng = Engine('/opt/engines/engine%d' % i, connect=False)
            aux = {}
            if e['listener'] == 'info':
                aux['l'] = InfoListener(listner=heard.append)
            elif e['listener'] == 'multi':
                aux['l'] = MultiPVListener(listner=heard.append)

            def lst():
                if e['listener'] == 'none':
                    return None
                if e['listener'] == 'list':
                    return heard.append
                return aux['l'].listen()
            pend = None
            if e.get('nospawn'):
                # the system cannot start the engine: the caller is told, and may try again
                try:
                    ret = eng.connect(listener=lst())
                except OSError as ex:
                    told = ex.errno == e['nospawn']
                else:
                    told = False
                if not told:
                    raise Violation('start-failure-hidden', 'the engine could not be started, connect() returned all the same')
            for k, op in enumerate(e['wire']):
                r = {'op': op, 'k': k, 'heard0': len(heard)}
                rec.append(r)
                name = op['op']

                def call():
                    nonlocal eng
                    if name == 'connect' and e.get('ctor'):
                        eng = Engine('/opt/engines/engine%d' % i)
                        return None
                    if name == 'setoption':
                        return eng.setoption(op['name'], op['value'], listener=lst())
                    if name == 'position':
                        kw = {}
                        if op['sfen']:
                            kw['sfen'] = op['sfen']
                        return eng.position(op['moves'], listener=lst(), **kw)
                    if name == 'go':
                        return eng.go(listener=lst(), **op['args'])
                    if name == 'go_mate':
                        return eng.go_mate(byoyomi=op['byoyomi'], listener=lst())
                    if name == 'gameover':
                        return eng.gameover(op['result'], listener=lst())
                    return getattr(eng, name)(listener=lst())
                if name == 'go' and op['args'].get('ponder'):
                    # another thread waits for the reply, as a match does
                    done = Signal()
                    st = {'done': False}

                    def waiter(call=call, r=r, st=st, done=done):
                        try:
                            r['ret'] = call()
                        except Exception as ex:
                            r['exc'] = ex
                        r['t1'] = sim.now
                        st['done'] = True
                        done.notify_all()
                    r['t0'] = sim.now
                    sim.spawn('ponder%d' % i, waiter, group='client')
                    proc = procs and [p for j, p in procs if j == i][-1]
                    # the engine must have seen go ponder first
                    while proc is not None and proc.engine.brain.n <= k and not st['done']:
                        sim.sleep(1 * MS)
                    pend = (r, st, done)
                    continue
                if name in ('ponderhit', 'stop') and op.get('wait'):
                    sim.sleep(op['wait'])
                r['t0'] = sim.now
                try:
                    r['ret'] = call()
                except Exception as ex:
                    r['exc'] = ex
                r['t1'] = sim.now
                if name == 'connect':
                    r['name'] = eng.name
                if name == 'quit':
                    r['gone'] = [p for j, p in procs if j == i][-1].returncode is not None
                r['heard'] = heard[r['heard0']:]
                if name in ('ponderhit', 'stop') and pend:
                    pr, st, done = pend
                    while not st['done']:
                        done.wait('ponder-reply')
                    pr['heard'] = None
                    r['heard'] = None
                    pend = None
                if name == 'go' and 'exc' not in r:
                    try:
                        if e['listener'] == 'info':
                            l = aux['l']
                            r['info'] = [l.bestmove, l.score, l.pv, l.info]
                        elif e['listener'] == 'multi':
                            r['info'] = aux['l'].info
                    except Exception as ex:
                        r['infoexc'] = ex
                if 'exc' in r and name == 'connect':
                    return
            return True
        tasks = [sim.spawn('driver%d' % i, lambda i=i: driver(i), group='client') for i in range(len(plan['engines']))]
        why = sim.run(lambda: all(t.state == 'done' for t in tasks))
        if why == 'until':
            sim.run()           # let what is still on its way to the engines arrive
            why = 'until'
        for i, e in enumerate(plan['engines']):
            self.judge(sim, plan, e, recs[i], [p for j, p in procs if j == i], tasks[i], why)
        out.sig = sim.digest()
        out.trivial = all(len(e['wire']) < 3 for e in plan['engines'])

    # -- oracle ---------------------------------------------------------------------------------
    def judge(self, sim, plan, e, rec, procs, task, why):
        if task.state != 'done':
            last = rec[-1]['op']['op'] if rec else '?'
            spins = procs[-1].stdout.eof_reads if procs and hasattr(procs[-1].stdout, 'eof_reads') else 0
            raise Violation('call-never-returns', '%s: %s did not return (blocked on %s; engine alive: %s; reads at end of file: %d)'
                            % (why, last, task.wait, procs[-1].engine.alive if procs else None, spins))
        if isinstance(task.exc, Violation):
            raise task.exc
        if task.exc is not None:
            raise Violation('harness', raised(task))
        check(len(procs) == 1, 'process-count', '%d processes were started by one connect' % len(procs))
        proc = procs[0]
        got = [l.decode('utf-8', 'replace') for _, _, l, _ in proc.engine.recv]
        f = e.get('fault')
        dead_at = f['cmd'] if f else None
        for r in rec:
            op, k = r['op'], r['k']
            name = op['op']
            exc = r.get('exc')
            # the reply to a ponder search only comes with the next command
            answered_at = k + 1 if name == 'go' and op['args'].get('ponder') else k
            failed_wire = dead_at is not None and answered_at >= dead_at
            if failed_wire:
                # the engine died in (or before) this command
                if exc is not None:
                    check(isinstance(exc, (EOFError, OSError)), 'wrong-error',
                          lambda: '%s after the engine died raised %r' % (name, exc))
                    check(name != 'quit', 'quit-fails', lambda: 'quit of a dead engine raised %r' % (exc,))
                    continue
                if name == 'quit':
                    check(r['gone'], 'quit-too-early', 'quit returned before the engine had exited')
                if name in REPLYING:
                    full = self.reply_complete(proc, e, k)
                    check(full, 'made-up-reply', lambda: '%s returned %r though the engine had died before completing its reply'
                          % (name, r.get('ret')))
                    if name == 'go':
                        check(list(r['ret']) == op['ret'], 'wrong-reply', lambda: 'go returned %r, engine said %r' % (r['ret'], op['ret']))
                continue
            if exc is not None:
                raise Violation('unexpected-error', '%s raised %r on a healthy engine' % (name, exc))
            check('ret' in r, 'call-never-returns', '%s never returned' % name)
            want = cmd_of(op)
            check(k < len(got) and got[k] == want, 'wrong-command',
                  lambda: 'command %d: engine received %r, expected %r' % (k, got[k] if k < len(got) else None, want))
            if name == 'go':
                check(list(r['ret']) == op['ret'], 'wrong-reply', lambda: 'go returned %r, engine said %r' % (r['ret'], op['lines'][-1]))
            elif name == 'go_mate':
                check(r['ret'] == op['ret'], 'wrong-reply', lambda: 'go_mate returned %r, engine said %r' % (r['ret'], op['lines'][-1]))
            elif name == 'usi':
                check(r['ret'] == op['lines'][:-1], 'wrong-reply', lambda: 'usi returned %r, engine said %r' % (r['ret'], op['lines']))
            elif name == 'connect':
                check(r['name'] == op['name'], 'engine-name', lambda: 'the name is %r, engine said %r' % (r['name'], op['lines']))
            elif name == 'quit':
                check(r['gone'], 'quit-too-early', 'quit returned before the engine had exited')
                sim.probe('clean-quit')
            if name == 'go' and e['listener'] in ('info', 'multi') and r.get('heard') is not None:
                self.judge_info(e, op, r)
            if e['listener'] != 'none' and r.get('heard') is not None and not (name == 'connect' and e.get('ctor')):
                if name == 'connect':
                    # what is said while connecting is not passed on, but for the name
                    check(r['heard'][-1:] == [op['name']], 'listener', lambda: 'connect: listener heard %r, the engine is called %r' % (r['heard'], op['name']))
                    continue
                exp = [want] + list(op.get('lines', []))
                check(r['heard'] == exp, 'listener', lambda: '%s: listener heard %r, expected %r' % (name, r['heard'], exp))
        n_expected = len(rec)
        if dead_at is None:
            check(len(got) == n_expected, 'extra-command', lambda: 'engine received %d lines for %d calls: %r' % (len(got), n_expected, got))

    def reply_complete(self, proc, e, k):
        """Did the engine get the terminating line of command k out, whole, before dying?"""
        term = {'connect': b'usiok', 'usi': b'usiok', 'isready': b'readyok', 'go': b'bestmove', 'go_mate': b'checkmate'}[e['wire'][k]['op']]
        stream = b''.join(x[3] for x in proc.sim.log if x[1] == 'stdout' and x[2] == proc.pid)
        n = 0
        want = sum(1 for op in e['wire'][:k + 1] if op['op'] in REPLYING and
                   {'connect': b'usiok', 'usi': b'usiok', 'isready': b'readyok', 'go': b'bestmove', 'go_mate': b'checkmate'}[op['op']] == term)
        for line in stream.split(b'\n')[:-1]:
            if line.strip() == term or (term in (b'bestmove', b'checkmate') and line.startswith(term)):
                n += 1
        return n >= want

    def judge_info(self, e, op, r):
        if 'infoexc' in r:
            raise Violation('listener-info', 'listener raised %r on %r' % (r['infoexc'], op['lines']))
        infos = [l for l in op['lines'] if l.startswith('info ') and ' pv ' in l]
        if e['listener'] == 'info':
            best = op['ret'][0]
            mine = [l for l in infos if l.split(' pv ')[1].split()[0] == best]
            want = [best, None, None, None]
            if mine:
                want[1], want[2] = score_of(mine[-1]), mine[-1].split(' pv ')[1].split()
                want[3] = info_of(mine[-1])
            check(r['info'] == want, 'listener-info', lambda: 'info listener says %r, engine said %r' % (r['info'], op['lines']))
        else:
            last = {}
            for l in infos:
                if ' multipv ' in l:
                    last[int(l.split(' multipv ')[1].split()[0])] = l
            want = [info_of(last[k]) for k in sorted(last)]
            check(r['info'] == want, 'listener-info', lambda: 'multipv listener says %r, engine said %r' % (r['info'], op['lines']))


def score_of(line, mate=100000):
    t = line.split()
    if 'score' not in t:
        return None
    i = t.index('score')
    if t[i + 1] == 'cp':
        return int(t[i + 2])
    v = t[i + 2]
    return -mate if v.startswith('-') or v == '0' else mate


def info_of(line):
    head, pv = line.split(' pv ')
    t = head.split()[1:]
    d = {}
    while t:
        k = t.pop(0)
        if k in ('lowerbound', 'upperbound'):
            d[k] = True
            continue
        if k == 'score':
            k = t.pop(0)
            d['score'] = k
        v = t.pop(0)
        d[k] = int(v) if v.lstrip('+-').isdigit() else v
    d['pv'] = pv.split()
    return d


class ClientHealthy(ClientWorld):
    faulty = False


class ClientFaulty(ClientWorld):
    faulty = True
