"""Matches and replays in the browser (cshogi.web.app.run), with simulated browsers, network, processes and engines.

Real code: cshogi.web.app (server, match process, human player), Flask, the Jinja template, cshogi.usi.Engine, Board, KIF and CSA.
Simulated: the multiprocessing manager (every proxy call is a remote call that may be delayed and interleaved), the match
process, wsgiref's one-request-at-a-time server loop, the browsers and the network between them, the engines, the clocks.
"""
import copy
import json
import math
import os
import random
import re
import runpy
import sys
import warnings
from multiprocessing import managers
from urllib.parse import urlencode

from . import kernel, seams, shogi
from .kernel import MS, SEC, Signal, current_task, current_sim
from .proc import SimProc
from .positions import random_pos
from .w_files import HANDICAP
from .world import World, Violation, Skip, check, focused, raised
from .w_match import MatchBrain, LINES, choose_move, illegal_text, parse_csa, score_of, comment_of, raise_if, pos_fast, parse_go, HALF

SYM = {1: '▲', -1: '△'}
KPIECE = {shogi.P: '歩', shogi.L: '香', shogi.N: '桂', shogi.S: '銀', shogi.B: '角', shogi.R: '飛', shogi.G: '金', shogi.K: '玉',
          shogi.PP: 'と', shogi.PL: '杏', shogi.PN: '圭', shogi.PS: '全', shogi.HO: '馬', shogi.DR: '龍'}


def kif_move(p, m, last=None):
    """How a move is written on the page."""
    fr, to, x = m
    dst = '１２３４５６７８９'[to // 9] + '一二三四五六七八九'[to % 9]
    if last is not None and last[1] == to:
        dst = '同　'
    if fr is None:
        return dst + KPIECE[x] + '打'
    return dst + KPIECE[abs(p.b[fr])] + ('成' if x else '') + '(%d%d)' % (fr // 9 + 1, fr % 9 + 1)


def pv_text(p, line, last):
    """The variation shown for a search reported with `line`."""
    m = re.match(r'^.*score (cp|mate) ([+\-0-9]+).*pv (.*)$', line)
    if m is None:
        return ''
    q, out = p.copy(), []
    for u in m[3].split(' '):
        x = q.legal_usi(u)
        if x is None:
            break
        out.append(SYM[q.turn] + kif_move(q, x, last))
        q.push(x)
        last = x
    return ' '.join(out)


def pickled(v):
    """A value after a trip between processes."""
    k = type(v)
    if k in (int, str, float, bool, type(None), bytes):
        return v
    if k is dict or k is _Dict:
        return {a: pickled(b) for a, b in dict.items(v)}
    if k is list:
        return [pickled(x) for x in v]
    if k is tuple:
        return tuple(pickled(x) for x in v)
    return copy.deepcopy(v)


# -- multiprocessing ------------------------------------------------------------------------------
class Proxy:
    """A manager proxy: values travel by copy, every call is one atomic step of the manager with delays around it."""

    def __init__(self, mp, obj, name):
        self.__dict__.update(_mp=mp, _obj=obj, _oname=name)

    def _call(self, method, args=(), kw=None):
        mp = self._mp
        sim = mp.sim
        t = current_task()
        t0 = sim.now
        if t is not None:
            sim.yield_point('rpc')
            mp.delay(sim)
        args, kw = pickled(args), pickled(kw or {})
        mp.note(self._oname, method, args, kw)
        try:
            r = pickled(getattr(self._obj, method)(*args, **kw))
        finally:
            mp.watch(self._oname, self._obj)
        if t is not None:
            mp.delay(sim)
            sim.yield_point('rpc')
            if t.group == 'match':
                mp.rpc.append((t0, sim.now))
        return r

    def _callmethod(self, method, args=(), kwds={}):
        return self._call(method, args, kwds)

    def _getvalue(self):
        return self._call('copy')

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return repr(self._call('__repr__'))


def _proxy_type(name, base, exposed):
    d = {}
    for m in exposed:
        d[m] = (lambda m: lambda self, *a, **k: self._call(m, a, k))(m)
    return type(name, (Proxy,), d)


ListProxy = _proxy_type('ListProxy', list, managers.BaseListProxy._exposed_)
DictProxy = _proxy_type('DictProxy', dict, managers.DictProxy._exposed_)


class _Iter:
    pass


def _dict_iter(self):
    return iter(self._call('keys'))


def _iadd(self, other):
    self._call('extend', (other,))
    return self


ListProxy.__iadd__ = _iadd
DictProxy.__iter__ = _dict_iter
for _m in ('keys', 'values', 'items'):
    setattr(DictProxy, _m, (lambda m: lambda self: self._call('_' + m))(_m))


class _Dict(dict):
    def _keys(self):
        return list(dict.keys(self))

    def _values(self):
        return list(dict.values(self))

    def _items(self):
        return list(dict.items(self))

    def keys(self):
        return list(dict.keys(self))


class Namespace:
    def __init__(self, mp, name, kw):
        self.__dict__.update(_mp=mp, _p=DictProxy(mp, _Dict(kw), name))

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return self._p[k]

    def __setattr__(self, k, v):
        self._p[k] = v

    def __deepcopy__(self, memo):
        return self


class Value:
    def __init__(self, mp, name, v):
        self._p = DictProxy(mp, _Dict(v=v), name)

    def get(self):
        return self._p['v']

    def set(self, v):
        self._p['v'] = v
    value = property(get, set)

    def __deepcopy__(self, memo):
        return self


class MP:
    """Stand-ins for multiprocessing.Process and Manager."""

    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.objs = []
        self.rpc = []           # intervals of remote calls made by the match process
        self.lens = {}          # object -> [(time, log index, length)]
        self.procs = []
        self.rng = random.Random(plan['pyseed'])

    def delay(self, sim):
        d = self.plan.get('rpc')
        if d and sim.chance(self.plan.get('rpcp', .2)):
            sim.fault('manager-delay')
            sim.sleep(int(d * MS))

    def note(self, name, method, args, kw):
        if method not in ('__getitem__', '__len__'):
            self.sim.event('rpc', name, method, repr(args)[:120])

    def watch(self, name, obj):
        n = len(obj)
        l = self.lens.setdefault(name, [])
        if not l or l[-1][2] != n:
            l.append((self.sim.now, len(self.sim.log), n))

    def Manager(self, *a, **kw):
        return SimManager(self)

    def Process(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        p = SimProcess(self, target, args, kwargs)
        self.procs.append(p)
        return p


class SimManager:
    def __init__(self, mp):
        self.mp = mp

    def _new(self, kind):
        self.mp.objs.append(kind)
        return '%s%d' % (kind, len(self.mp.objs))

    def list(self, v=()):
        o = list(v)
        p = ListProxy(self.mp, o, self._new('list'))
        self.mp.objs[-1] = o
        return p

    def dict(self, *a, **kw):
        o = _Dict(*a, **kw)
        p = DictProxy(self.mp, o, self._new('dict'))
        self.mp.objs[-1] = o
        return p

    def Namespace(self, **kw):
        return Namespace(self.mp, self._new('ns'), kw)

    def Value(self, typecode, v, lock=True):
        return Value(self.mp, self._new('value'), v)

    def Lock(self):
        return _Plain(kernel.SimLock())

    def RLock(self):
        return _Plain(seams._RLock())

    def Queue(self, maxsize=0):
        import queue
        return _Plain(queue.Queue(maxsize))

    def Event(self):
        import threading
        return _Plain(threading.Event())

    def Condition(self, lock=None):
        import threading
        return _Plain(threading.Condition())

    def start(self, *a, **kw):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Plain:
    """Something shared by reference between the simulated processes."""

    def __init__(self, o):
        self.__dict__['o'] = o

    def __getattr__(self, n):
        return getattr(self.o, n)

    def __enter__(self):
        return self.o.__enter__()

    def __exit__(self, *a):
        return self.o.__exit__(*a)

    def __deepcopy__(self, memo):
        return self


class SimProcess:
    def __init__(self, mp, target, args, kwargs):
        self.mp, self.target, self.args, self.kwargs = mp, target, args, kwargs
        self.task = None
        self.daemon = None
        self.name = 'Process-1'
        self.sig = Signal()

    def start(self):
        a, k = copy.deepcopy((list(self.args), dict(self.kwargs)))
        self.mp.sim.event('process-start')
        self.task = self.mp.sim.spawn('match process', lambda: self.target(*a, **k), group='match')
        self.task.sentinels.append(self.sig.notify_all)
        self.mp.sim.yield_point('fork')

    def run(self):
        self.target(*self.args, **self.kwargs)

    @property
    def pid(self):
        return 4242

    @property
    def exitcode(self):
        if self.task is None or self.task.state != 'done':
            return None
        return 0 if self.task.exc is None else 1

    def is_alive(self):
        self.mp.sim.yield_point('is_alive')
        return self.task is not None and self.task.state != 'done'

    def join(self, timeout=None):
        while self.task.state != 'done':
            if self.sig.wait('join', None if timeout is None else int(timeout * SEC)) == 'timeout':
                return

    def terminate(self):
        pass

    kill = terminate

    def close(self):
        pass


# -- the server and its clients ---------------------------------------------------------------------
class SimServer:
    """wsgiref.simple_server: one request after the other."""

    def __init__(self, world, host, port, app):
        self.world, self.app = world, app
        self.queue = []
        self.sig = Signal()
        self.current = None
        world.server = self
        self.server_address = (host, port)

    def set_app(self, app):
        self.app = app

    def serve_forever(self, *a, **kw):
        self.world.sim.event('serving')
        self.world.serving = True
        for r in self.world.early:
            self.queue.append(r)
        while True:
            self.handle_request()

    def handle_request(self):
        while not self.queue:
            self.sig.wait('request')
        r = self.queue.pop(0)
        self.current = r
        self.world.handle(self.app, r)
        self.current = None

    def shutdown(self):
        pass

    def server_close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Browser:
    """Somebody looking at the page (and perhaps playing).  Driven by events."""

    def __init__(self, world, b, idx):
        self.w, self.b, self.idx = world, b, idx
        self.sim = world.sim
        self.rng = random.Random('%s/browser/%d' % (world.plan['pyseed'], idx))
        self.moves = None
        self.pending = None
        self.done = False
        self.token = 0
        self.sim.after(b['start'] * MS, self.open)
        self.errors = 0

    def send(self, path, args=None, raw=None, then=None):
        """One request over a network that may lose, delay, duplicate."""
        sim, b = self.sim, self.b
        lat = self.rng.choice(b['latency']) * MS
        self.token += 1
        tok = self.token
        r = {'id': self.w.new_id(), 'path': path, 'args': args, 'raw': raw, 'browser': self.idx}
        if sim.chance(b['lose']):
            sim.fault('request-lost')
        else:
            sim.after(lat, lambda: self.w.arrive(r, lambda resp: self.back(tok, resp, then)))
            if sim.chance(b['dup']):
                sim.fault('request-duplicated')
                r2 = dict(r, id=self.w.new_id(), dup=True)
                sim.after(lat + self.rng.choice([0, 1, 150, 700, 5000]) * MS, lambda: self.w.arrive(r2, None))
        sim.after(b['timeout'] * MS, lambda: self.timeout(tok))

    def back(self, tok, resp, then):
        sim = self.sim
        if sim.chance(self.b['loseresp']):
            sim.fault('response-lost')
            return
        lat = self.rng.choice(self.b['latency']) * MS

        def deliver():
            if tok == self.token and not self.done:
                self.token += 1
                then(resp)
        sim.after(lat, deliver)

    def timeout(self, tok):
        if tok == self.token and not self.done:
            self.token += 1
            self.sim.probe('browser-timeout')
            self.poll()

    def open(self):
        if self.b['kind'] == 'noise':
            return self.noise()
        if self.b['page']:
            self.send('/', None, then=self.page)
        else:
            self.poll()

    def page(self, resp):
        self.sim.after(1000 * MS, self.poll)

    def poll(self):
        if self.done:
            return
        self.send('/update', None, then=self.updated)

    def updated(self, resp):
        if self.done:
            return
        data = resp.get('json')
        if data is None:
            self.errors += 1
            if self.errors < 20:
                self.sim.after(1000 * MS, self.poll)
            else:
                self.done = True
            return
        moves = data['moves']
        if moves and moves[-1]['move'] == 0:
            self.done = True
            return
        n = len(moves)
        side = n % 2
        if data['human'] and side in self.b['sides'] and self.w.plan['players'][side] == 'human':
            think = self.rng.choice(self.b['think']) * MS
            self.sim.after(think, lambda: self.play(moves))
        else:
            self.sim.after(self.b['poll'] * MS, self.poll)

    def play(self, moves):
        if self.done:
            return
        usi = self.w.usi_of(moves)
        if usi is None:
            self.done = True
            return
        p = pos_fast(usi)
        h = self.w.plan['humans'][len(moves) % 2]
        u = choose_move(dict(h, seed=h['seed'] + self.b['taste']), 1, usi, p)
        if u == 'resign':
            self.sim.after(1000 * MS, self.poll)
            return
        if self.rng.random() < self.b['slip']:
            u = self.slip(p)
            self.sim.probe('human-sends-nonsense')
        self.send('/move', {'number': len(moves) + 1, 'move': u}, then=self.updated)

    def slip(self, p):
        return text_slip(self.rng, p)

    def noise(self):
        for t, kind in self.b['acts']:
            self.sim.after(t * MS, lambda kind=kind: self.act(kind))

    def act(self, kind):
        """A request out of place: sent by a stale tab, a script, a crawler."""
        w, rng = self.w, self.rng
        seen = w.known()
        n = len(seen)
        if kind == 'replay' and w.history:
            r = rng.choice(w.history)
            self.once(r['path'], r['args'])
        elif kind == 'future':
            self.once('/move', {'number': n + rng.choice([2, 3, 4, 20]), 'move': rng.choice(['7g7f', '3c3d', '2g2f', '8c8d', '5i5h'])})
        elif kind == 'stale':
            self.once('/move', {'number': max(0, n - rng.choice([0, 1, 2, 5])), 'move': rng.choice(['7g7f', '3c3d', '2g2f', '8c8d'])})
        elif kind == 'wrongturn':
            # a move that could be played now, sent for another turn
            legal = pos_fast(w.usi_of(seen) or []).legal_moves()
            if legal:
                self.once('/move', {'number': max(0, n + 1 + rng.choice([-4, -2, -1, 1, 2, 4])), 'move': shogi.usi(rng.choice(legal))})
        elif kind == 'nonsense':
            usi = w.usi_of(seen)
            self.once('/move', {'number': n + 1, 'move': text_slip(rng, pos_fast(usi or []))})
        elif kind == 'badnumber':
            self.once('/move', {'number': rng.choice(['abc', '', '1.5', '-1', '99999999999999999999', 'None', '0x1', '１']), 'move': '7g7f'})
        elif kind == 'nonumber':
            self.once('/move', {'move': '7g7f'})
        elif kind == 'nomove':
            self.once('/move', {'number': n + 1})
        elif kind == 'elsewhere':
            self.once(rng.choice(['/nowhere', '/static/board.js', '/favicon.ico', '/move/', '/update?x=1']), None)
        elif kind == 'page':
            self.once('/', None)
        elif kind == 'update':
            self.once('/update', None)

    def once(self, path, args):
        r = {'id': self.w.new_id(), 'path': path, 'args': args, 'raw': None, 'browser': self.idx}
        self.sim.fault('out-of-place-request')
        self.sim.after(self.rng.choice(self.b['latency']) * MS, lambda: self.w.arrive(r, None))


def text_slip(rng, p):
    k = rng.choice(['garbage', 'opponent', 'nohand', 'selfcheck', 'promote', 'wild', 'odd', 'drop', 'empty'])
    if k == 'odd':
        return rng.choice(['７六歩', '\x00', '7g7f\nquit', 'resign', 'win', '7g7f+x', '7g7f ', ' 7g7f', 'P*5e\nquit', 'a' * 500, 'ａｂｃｄ', '7g7f\x00'])
    if k == 'empty':
        return ''
    if k == 'drop':
        # a legal drop, with something glued to it
        d = [m for m in p.legal_moves() if m[0] is None]
        return (shogi.usi(rng.choice(d)) if d else 'P*5e') + rng.choice(['\nquit', 'x', '+', '\n', ' '])
    return illegal_text(k, p, rng)


class WebBrain(MatchBrain):
    pass


class WebMatch(World):
    max_steps = 300_000
    replay = False

    # ---------------------------------------------------------------- plan
    def gen_player(self, rng, scripts):
        return {'name': rng.choice(['Alpha', 'dl-shogi 3', 'X', 'Engine<b>']), 'seed': rng.randrange(1 << 30),
                'style': rng.choice(['random', 'random', 'greedy', 'shuffle']), 'scripts': scripts, 'ends': [],
                'latency': rng.choice([0, 0, 3]), 'crlf': rng.random() < .3, 'chunk': 0, 'boot': rng.choice([0, 0, 1500]), 'linger': rng.choice([0, 0, 500]),
                'stopdelay': 0, 'ponder': rng.choice([0, 0, .5]), 'hit': .5, 'think': rng.choice([[0], [0, 1, 7], [40, 900, 2500], [300, 4000]]),
                'infos': rng.choice([[0], [0, 1, 2], [1], [3]]), 'scores': [0, 10, -10, 300, -2000], 'options': {}}

    themes = ('plain', 'tabs', 'tabs', 'repetition', 'perpetual', 'mate', 'clock', 'ends')

    def gen(self, rng, tier):
        theme = rng.choice(self.themes)
        plan = {'theme': theme, 'pyseed': rng.randrange(1 << 30), 'switch': rng.choice([.3, .5, .9]),
                'preempt': rng.choice([0, 0, .02, .1]), 'draw': rng.choice([4, 8, 12, 20, 30]),
                'players': rng.choice([['human', 'engine'], ['engine', 'human'], ['human', 'engine'], ['engine', 'human'], ['human', 'human'], ['engine', 'engine']]),
                'byoyomi': rng.choice([None, None, 1000]), 'time': None, 'inc': None, 'csa': rng.random() < .4,
                'names': rng.choice([[None, None], [None, None], ['A', 'B'], [None, 'Human'], ['<i>x"y', None]]),
                'rpc': rng.choice([0, 0, 1, 5]), 'max_steps': self.max_steps}
        scripts = []
        if theme == 'mate':
            scripts = [rng.choice(LINES['mates'])]
            plan['draw'] = 256
        elif theme == 'perpetual':
            pre, cyc = rng.choice(LINES['perps'] if rng.random() < .6 else LINES['cycles'])
            scripts = [pre + cyc * 4]
            plan['draw'] = 256
        if theme == 'clock' or rng.random() < .25:
            plan['time'] = rng.choice([2000, 10000, 5000, 0, 60000]) if theme == 'clock' else 3600000
            if rng.random() < .5:
                plan['inc'] = rng.choice([0, 1000, 250])
            if rng.random() < .6:
                plan['byoyomi'] = None
        if theme == 'repetition':
            plan['draw'] = rng.choice([13, 16, 30, 40])
        plan['engines'] = [self.gen_player(rng, scripts) for _ in range(2)]
        plan['humans'] = [self.gen_player(rng, scripts) for _ in range(2)]
        for e in plan['engines']:
            if theme in ('ends', 'plain') and rng.random() < .4:
                e['ends'].append({'g': 1, 'ply': rng.choice([0, 1, 3, 8, 15]), 'text': rng.choice(
                    ['resign', 'win', '!garbage', '!opponent', '!nohand', '!selfcheck', '!promote', '!wild'])})
            if theme == 'clock':
                e['think'] = rng.choice([[0, 3, 'edge'], [1, 100, 100, 'edge'], [900, 2500, 7000], [10, 200]])
            elif plan['time'] is not None:
                e['think'] = [0, 1, 900]
            if rng.random() < .3:
                e['options'] = dict(rng.sample([('Threads', 4), ('USI_Hash', '256'), ('EvalDir', 'C:/Eval Dir:x'), ('BookFile', '/データ/定跡.db'), ('USI_OwnBook', 'True')], rng.choice([1, 1, 2, 3])))
        if theme == 'repetition':
            for e in plan['engines'] + plan['humans']:
                e['style'] = 'shuffle'
        plan['opts'] = [dict(e['options']) if k == 'engine' or rng.random() < .5 else {} for k, e in zip(plan['players'], plan['engines'])]
        if rng.random() < .12 and not any(',' in str(v) or ',' in k or ':' in k for o in plan['opts'] for k, v in o.items()):
            plan['cmdline'] = True
        if self.n_players(plan) and theme in ('mate', 'perpetual') and rng.random() < .5:
            plan['players'] = rng.choice([['human', 'engine'], ['engine', 'human']])
        # browsers
        bs = []
        sides = [i for i in (0, 1) if plan['players'][i] == 'human']
        clean = rng.random() < .3
        base = lambda: {'kind': 'player', 'start': rng.choice([0, 10, 2000]), 'latency': rng.choice([[0], [1, 20, 60], [5, 300, 1500]]),
                        'lose': 0 if clean else rng.choice([0, .05, .2]), 'loseresp': 0 if clean else rng.choice([0, .05, .2]),
                        'dup': 0 if clean else rng.choice([0, .1, .3]), 'timeout': rng.choice([4000, 9000]), 'sides': sides,
                        'think': rng.choice([[0], [10, 400], [100, 1500, 3000]]), 'poll': rng.choice([1000, 200, 50]),
                        'page': rng.random() < .4, 'slip': 0 if clean else rng.choice([0, .1, .3]), 'taste': 0}
        if theme in ('mate', 'perpetual', 'repetition'):
            base0 = base
            base = lambda: dict(base0(), think=[10, 50], latency=[1, 5], poll=100)
        if len(sides) == 2 and rng.random() < .6:
            for s in sides:
                bs.append(dict(base(), sides=[s]))
        elif sides:
            bs.append(base())
        if not clean:
            for _ in range(rng.choice([0, 0, 1, 2])):
                bs.append(dict(base(), taste=rng.randrange(1, 99), sides=rng.choice([sides, []])))
            for _ in range(rng.choice([0, 1, 2])):
                kinds = rng.choice([['replay'], ['wrongturn'], ['future', 'stale'], ['nonsense'], ['badnumber', 'nonumber', 'nomove', 'elsewhere'],
                                    ['replay', 'future', 'stale', 'nonsense', 'badnumber', 'nonumber', 'nomove', 'elsewhere', 'page', 'update', 'wrongturn']])
                top = 60000 if rng.random() < .5 else 8000
                bs.append(dict(base(), kind='noise', acts=sorted((rng.randrange(top), rng.choice(kinds)) for _ in range(rng.choice([1, 4, 12])))))
        if not bs:
            bs.append(dict(base(), sides=[]))
        plan['browsers'] = bs
        if theme == 'tabs' and sides:
            plan['rpc'] = rng.choice([5, 30, 60])
            plan['draw'] = rng.choice([12, 20])
            plan['rpcp'] = .5
            for e in plan['engines']:
                e['think'] = [0, 7]
            bs[:] = [b for b in bs if b['kind'] == 'player'][:2]
            for b in bs:
                b.update(think=[300, 800, 1500], latency=[1, 20], poll=200, lose=0, loseresp=0, slip=0)
            bs.append(dict(base(), kind='noise', latency=[1, 20], acts=sorted((rng.randrange(30000), 'wrongturn') for _ in range(60))))
        self.gen_faults(rng, plan)
        return plan

    def n_players(self, plan):
        return plan['players'].count('human')

    def gen_faults(self, rng, plan):
        pass

    def shrinks(self, plan):
        for i in range(len(plan['browsers'])):
            if len(plan['browsers']) > 1:
                q = copy.deepcopy(plan)
                del q['browsers'][i]
                yield q
            b = plan['browsers'][i]
            for k in range(len(b.get('acts') or ())):
                q = copy.deepcopy(plan)
                del q['browsers'][i]['acts'][k]
                yield q
            for k, v in (('lose', 0), ('loseresp', 0), ('dup', 0), ('slip', 0), ('page', False), ('latency', [0]), ('think', [0]), ('start', 0)):
                if b[k] != v:
                    q = copy.deepcopy(plan)
                    q['browsers'][i][k] = v
                    yield q
        for k, v in (('preempt', 0), ('rpc', 0), ('csa', False), ('time', None), ('inc', None), ('byoyomi', None), ('names', [None, None]), ('death', None)):
            if plan.get(k) != v:
                q = copy.deepcopy(plan)
                q[k] = v
                yield q
        for d in (2, 4, 8, 13, 20):
            if plan['draw'] > d:
                q = copy.deepcopy(plan)
                q['draw'] = d
                yield q
        for who in ('engines', 'humans'):
            for i, e in enumerate(plan[who]):
                for k, v in (('latency', 0), ('crlf', False), ('boot', 0), ('linger', 0), ('ends', []), ('infos', [0]), ('scripts', []), ('think', [0]),
                             ('style', 'random'), ('ponder', 0)):
                    if e[k] != v:
                        q = copy.deepcopy(plan)
                        q[who][i][k] = v
                        yield q

    def opponent_plan(self, plan, idx):
        return plan['engines'][1 - idx]

    def inc_of(self, plan, idx):
        return plan['inc']

    # ---------------------------------------------------------------- execution
    def body(self, plan, sim, out):
        from cshogi.web import app
        self.sim, self.plan = sim, plan
        root = self.scratch_dir()
        self.fs = seams.SimFS(sim, root, plan.get('disk'))
        seams.hooks.fs = self.fs
        self.shared = {'games': [0, 0], 'launch': [0, 0], 'cmds': [0, 0]}
        self.procs = []
        seams.hooks.popen = lambda a, kw: self.popen(sim, plan, a, kw)
        self.mp = MP(sim, plan)
        seams.hooks.process = self.mp
        seams.hooks.make_server = lambda host, port, app, *a, **kw: SimServer(self, host, port, app)
        self.server = None
        self.serving = False
        self.early, self.history, self.reqs, self.n_id = [], [], [], 0
        self.cb = {}
        self.path = os.path.join(root, 'game.csa')
        self.main = sim.spawn('server', lambda: self.start(app, plan), group='server')
        self.browsers = [self.browser(b, i) for i, b in enumerate(plan['browsers'])]
        self.scenario(sim, plan)
        out.trivial = not any(r['path'] == '/move' for r in self.reqs) and self.n_players(plan) > 0

    def browser(self, b, i):
        return Browser(self, b, i)

    def start(self, app, plan):
        e = ['human' if k == 'human' else '/opt/engines/engine%d' % i for i, k in enumerate(plan['players'])]
        if plan.get('cmdline'):
            # as from the shell: python -m cshogi.web.app engine1 engine2 ...
            args = e[:]
            for i in (0, 1):
                if plan['opts'][i]:
                    args.append('--options%d=%s' % (i + 1, ','.join('%s:%s' % kv for kv in plan['opts'][i].items())))
                if plan['names'][i] is not None:
                    args.append('--name%d=%s' % (i + 1, plan['names'][i]))
            args += ['--%s=%d' % (k, plan[k]) for k in ('byoyomi', 'time', 'inc', 'draw') if plan[k] is not None]
            if plan['csa']:
                args.append('--csa=' + self.path)
            old, sys.argv = sys.argv, ['app.py'] + args
            self.sim.probe('started-from-the-command-line')
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return runpy.run_module('cshogi.web.app', run_name='__main__', alter_sys=True)
            finally:
                sys.argv = old
        return app.run(engine1=e[0], engine2=e[1], options1=plan['opts'][0], options2=plan['opts'][1], name1=plan['names'][0], name2=plan['names'][1],
                       byoyomi=plan['byoyomi'], time=plan['time'], inc=plan['inc'], draw=plan['draw'], csa=self.path if plan['csa'] else None)

    def popen(self, sim, plan, a, kw):
        path = a[0][0] if a else kw['args'][0]
        i = int(path.rsplit('engine', 1)[1])
        f = plan.get('death')
        if f and f.get('errno') and f['engine'] == i:
            sim.fault('engine-not-started')
            self.shared['died'], self.shared['died_at'] = True, sim.now
            raise OSError(f['errno'], os.strerror(f['errno']), path)
        b = WebBrain(sim, self, i, plan, self.shared)
        p = SimProc(sim, len(self.procs), b, kw)
        self.procs.append((i, b, p))
        return p

    def new_id(self):
        self.n_id += 1
        return self.n_id

    def arrive(self, r, cb):
        self.cb[r['id']] = cb
        self.sim.event('arrive', r['id'], r['path'], repr(r['args']))
        if r['path'] == '/move' and r['args'] and isinstance(r['args'].get('number'), int):
            self.history.append(r)
        if self.server is None or not self.serving:
            self.early.append(r)
            return
        self.server.queue.append(r)
        self.server.sig.notify_all()

    def handle(self, app, r):
        from werkzeug.test import create_environ
        import io
        sim = self.sim
        path = r['path']
        qs = ''
        if '?' in path:
            path, qs = path.split('?', 1)
        if r['args']:
            qs = urlencode(r['args'])
        env = create_environ(path, 'http://localhost:8000', query_string=qs, errors_stream=io.StringIO())
        r['t0'], r['i0'] = sim.now, len(sim.log)
        sim.event('request', r['id'], path, qs)
        got = {}

        def start_response(status, headers, exc_info=None):
            got['status'], got['headers'] = status, headers
            return lambda b: None
        try:
            body = app(env, start_response)
            data = b''.join(body)
            if hasattr(body, 'close'):
                body.close()
        except Exception as e:
            # wsgiref logs it and answers 500
            got['status'], got['headers'] = '500 x', []
            data = b''
            r['raised'] = repr(e)
        r['t1'], r['i1'] = sim.now, len(sim.log)
        r['status'] = int(got['status'].split()[0])
        r['json'] = None
        if r['status'] == 200:
            if dict(got['headers']).get('Content-Type', '').startswith('application/json'):
                r['json'] = json.loads(data)
            else:
                r['text'] = data.decode('utf-8', 'replace')
        sim.event('response', r['id'], r['status'], repr(r['json'])[:4000])
        self.reqs.append(r)
        cb = self.cb.pop(r['id'], None)
        if cb:
            cb(r)

    def known(self):
        best = []
        for r in self.reqs:
            if r.get('json') and len(r['json']['moves']) > len(best):
                best = r['json']['moves']
        return [m for m in best if m['move']]

    def usi_of(self, moves):
        from cshogi import move_to_usi
        out, p = [], shogi.Pos()
        for m in moves:
            if not m['move']:
                continue
            u = move_to_usi(m['move'])
            x = p.legal_usi(u)
            if x is None:
                return None
            p.push(x)
            out.append(u)
        return out

    # ---------------------------------------------------------------- the run
    def match_task(self):
        return self.mp.procs[0].task if self.mp.procs else None

    def over(self):
        t = self.match_task()
        return t is not None and t.state == 'done'

    def scenario(self, sim, plan):
        limit = sim.now + 3600 * SEC
        last = [len(sim.log), sim.now]
        why = sim.run(lambda: self.over() or self.main.state == 'done' or sim.now > limit or self.idle(sim))
        if self.main.state == 'done' and self.main.exc is not None:
            raise Violation('web:server-died', raised(self.main))
        if why == 'step-limit':
            # a long game with many browsers is left undecided; one that has come to a standstill is not
            news, n = 1000 * SEC, -1
            for r in self.reqs:
                if 't1' in r and r['json'] and len(r['json'].get('moves', ())) > n:
                    n = len(r['json']['moves'])
                    news = r['t1']
            if news - 1000 * SEC > (sim.now - 1000 * SEC) / 2:
                sim.probe('too-long')
                raise Skip('a long game')
        over = self.over()
        # let the network empty, then look at the page once more
        end = sim.now + 30 * SEC
        if over:
            sim.max_steps += 100_000
            sim.run(lambda: sim.now > end or not self.busy())
            sim.max_steps += 100_000
            sim.stop_reason = None
        final = self.ask(sim, '/update')
        page = self.ask(sim, '/')
        if self.main.state == 'done':
            raise Violation('web:server-died', raised(self.main))
        self.judge(sim, plan, over, why, final, page)

    def idle(self, sim):
        """Nothing but the match process polling, and everybody has gone."""
        return False

    def busy(self):
        return self.server is None or bool(self.server.queue) or self.server.current is not None or any(not b.done for b in self.browsers if b.b['kind'] != 'noise')

    def ask(self, sim, path):
        r = {'id': self.new_id(), 'path': path, 'args': None, 'raw': None, 'browser': -1}
        self.arrive(r, None)
        lim = sim.now + 60 * SEC
        sim.run(lambda: 't1' in r or sim.now > lim)
        check('t1' in r, 'web:server-stuck', lambda: 'a request for %s was not answered within 60 s' % path)
        return r

    # ---------------------------------------------------------------- judging
    def judge(self, sim, plan, over, why, final, page):
        t = self.match_task()
        self.page_final = page
        check(t is not None, 'web:no-match', 'no match was started')
        dead = plan.get('death') and self.shared.get('died')
        if t.state == 'done' and t.exc is not None:
            if not dead:
                raise Violation('web:match-died', raised(t))
        check(final['status'] == 200, 'web:update-fails', lambda: '/update answers %s' % final['status'])
        moves = final['json']['moves']
        played = self.usi_of(moves)
        if played is None:
            raise Violation('web:illegal-published', 'the published moves are not a game: %r' % [m['kif_move'] for m in moves])
        self.check_responses(plan, moves, final, page)
        self.check_humans(plan, played, moves, over)
        if not dead:
            check(over, 'webm:match-never-ends' if not focused('web:') else 'web:match-never-ends', lambda: 'after %.0f s the match has not ended (%s): %d moves; waiting: %s' % (
                (sim.now - 1000 * SEC) / SEC, why, len(played), ', '.join('%s: %s' % (t.name, t.wait) for t in sim.tasks if t.state == 'blocked')))
        else:
            check(over, 'web:match-outlives-engine', lambda: 'an engine died, but the match process is still waiting: %s' % ', '.join(
                '%s: %s' % (t.name, t.wait) for t in sim.tasks if t.state == 'blocked'))
            if over:
                m = re.search(r'let autoupdate = (\w+);', page.get('text') or '')
                check(m is None or m[1] == 'false', 'web:polls-forever', lambda: 'the page still polls although the match process is gone')
        j = WebJudge(self, sim, plan, played, moves, over and not dead)
        j.run()

    def expected_names(self):
        plan = self.plan
        return [plan['names'][i] or ('Human' if plan['players'][i] == 'human' else plan['engines'][i]['name']) for i in (0, 1)]

    def check_responses(self, plan, moves, final, page):
        """Every answer shows a prefix of the one game, answers never go back, and the side to move fits the moves shown."""
        best = 0
        names = self.expected_names()
        for r in self.reqs:
            if r['path'] in ('/', '/update'):
                check(r['status'] == 200, 'web:request-fails', lambda: '%s answered with status %d' % (r['path'], r['status']))
            if r['path'] == '/move' and r['args'] and isinstance(r['args'].get('number'), int):
                check(r['status'] == 200, 'web:request-fails', lambda: '/move %r answered with status %d' % (r['args'], r['status']))
            if r.get('json') is not None:
                ms, human = r['json']['moves'], r['json']['human']
                for a, b in zip(r['json']['names'], names):
                    check(a in (None, b), 'web:names', lambda: 'names %r, players are %r' % (r['json']['names'], names))
            elif r['path'] == '/' and r['status'] == 200:
                ms, human = self.parse_page(r['text'])
                if ms is None:
                    continue
            else:
                continue
            check(ms == moves[:len(ms)], 'web:not-a-prefix', lambda: 'an answer showed %r, the game is %r' % (
                [m['kif_move'] for m in ms], [m['kif_move'] for m in moves]))
            check(len(ms) >= best, 'web:goes-back', lambda: 'an answer with %d entries after one with %d' % (len(ms), best))
            best = max(best, len(ms))
            if not (ms and ms[-1]['move'] == 0):
                if r['json'] is None and human == '' and self.over():
                    continue
                exp = ''
                if plan['players'][len(ms) % 2] == 'human':
                    exp = 'black' if len(ms) % 2 == 0 else 'white'
                if r['json'] is None and human == '' and exp and r['t1'] >= self.done_at():
                    continue
                check(human == exp, 'web:wrong-turn', lambda: '%s with %d moves says the side to move by hand is %r, should be %r' % (r['path'], len(ms), human, exp))
        if self.over() and moves and not (plan.get('death') and self.shared.get('died')):
            check(final['json']['names'] == names, 'web:names', lambda: 'names %r, players are %r' % (final['json']['names'], names))

    def done_at(self):
        return self.sim.now if self.over() else 1 << 62

    def parse_page(self, text):
        """The game written into the page: a list of objects in JavaScript or JSON."""
        import html
        m = re.search(r'\b(?:let|var|const) moves\s*=\s*(\[.*?\])\s*;?[ \t]*\r?\n', text, re.S)
        h = re.search(r'\b(?:let|var|const) human\s*=\s*["\'](.*?)["\'];', text)
        if m is None or h is None:
            return None, None
        word = r'("(?:[^"\\]|\\.)*"|-?\d+|null)'
        entry = re.compile(r'\{\s*((?:["\']?\w+["\']?\s*:\s*%s\s*,?\s*)*)\}\s*,?\s*' % word)
        field = re.compile(r'["\']?(\w+)["\']?\s*:\s*%s\s*,?\s*' % word)
        if entry.sub('', m[1]).replace(' ', '') != '[]':
            return None, None
        out = []
        for x in entry.finditer(m[1]):
            d = {}
            for f in field.finditer(x[1]):
                v = f[2]
                if v[0] == '"':
                    try:
                        v = json.loads(v)
                    except ValueError:
                        return None, None
                    if '&' in f[2]:
                        v = html.unescape(v)
                else:
                    v = 'null' if v == 'null' else int(v)
                d[f[1]] = v
            out.append(d)
        if any(set(d) != {'number', 'kif_move', 'time', 'move', 'eval', 'pv'} for d in out):
            return None, None
        return out, h[1]

    # -- human moves -------------------------------------------------------------------------
    def check_humans(self, plan, played, moves, over):
        reqs = [r for r in self.reqs if r['path'] == '/move']
        if self.server.current is not None and self.server.current['path'] == '/move':
            reqs = reqs + [self.server.current]
        pub = self.published()
        for n in range(1, len(played) + 1):
            if plan['players'][(n - 1) % 2] != 'human':
                continue
            # (a) what was played is what a browser asked for, for this very turn
            ok = [r for r in reqs if self.num(r) == n and (r['args'] or {}).get('move') == played[n - 1] and r['t0'] <= pub[n - 1]]
            check(ok, 'web:invented-move', lambda: 'move %d %s was played for the human, but no browser had asked for it; asked for: %r' % (
                n, played[n - 1], [(r['args'], r['t0']) for r in reqs][-6:]))
            if ok:
                self.sim.probe('human-move-played')
        # (b) a legal move sent for the current turn is played
        ready = self.ready_times(plan, played)
        verdict = bool(moves) and moves[-1]['move'] == 0
        for k, r in enumerate(reqs):
            n = self.num(r)
            if n is None or n < 1 or n > len(played) + 1 or plan['players'][(n - 1) % 2] != 'human':
                continue
            if n == len(played) + 1 and verdict:
                continue
            u = (r['args'] or {}).get('move')
            if not isinstance(u, str):
                continue
            p = pos_fast(played[:n - 1])
            if p.legal_usi(u) is None:
                continue
            t = max(r['t0'], ready[n - 1]) + SEC
            nxt = min([q['t0'] for q in reqs if q['i0'] > r['i0']] or [1 << 62])
            if nxt < t or t > self.sim.now or t > self.died_at():
                continue
            done = pub[n - 1] if n - 1 < len(pub) else None
            self.sim.probe('human-move-due')
            check(done is not None and done <= t, 'web:move-lost', lambda: 'the browser sent the legal move %s for move %d at %.3f s, it was this player\'s '
                  'turn at %.3f s, but one second later it had not been played (%s)' % (u, n, r['t0'] / SEC - 1000, ready[n - 1] / SEC - 1000,
                                                                                      'never' if done is None else 'played at %.3f' % (done / SEC - 1000)))

    def died_at(self):
        return 1 << 62

    def num(self, r):
        try:
            return int((r['args'] or {}).get('number', 0))
        except (ValueError, TypeError):
            return None

    def published(self):
        """Time of publication of entry 1, 2, ..."""
        best = []
        for k, o in enumerate(self.mp.objs):
            if isinstance(o, list) and o and isinstance(o[0], dict):
                seen = self.mp.lens['list%d' % (k + 1)]
                n = 0
                for t, i, l in seen:
                    while n < l:
                        best.append(t)
                        n += 1
                return best
        return best

    def ready_times(self, plan, played):
        """When it was each human turn at the latest."""
        pub = self.published()
        t0 = 1000 * SEC
        for i, b, p in self.procs:
            for t, _, line, _ in p.engine.recv:
                if line in (b'usinewgame',):
                    t0 = max(t0, t)
        for i, k in enumerate(plan['players']):
            if k == 'engine' and not any(b.newgame for j, b, p in self.procs if j == i):
                t0 = 1 << 62
        return [t0] + [max(t, t0) for t in pub]


class WebJudge:
    """The reference of one game in the browser, run along the history."""

    def __init__(self, world, sim, plan, played, moves, complete):
        self.w, self.sim, self.plan, self.played, self.moves, self.complete = world, sim, plan, played, moves, complete
        self.cmds = {}
        stdin, read = {}, {}
        for ev in sim.log:
            if ev[1] == 'stdin':
                stdin.setdefault(ev[2], []).append((ev[0], ev[3]))
            elif ev[1] == 'line' and ev[3] == 'stdout' and ev[4].startswith(b'bestmove') and ev[4].endswith(b'\n'):
                read.setdefault(ev[2], []).append(ev[0])
        self.count = {}
        for i, b, p in world.procs:
            self.count[i] = self.count.get(i, 0) + 1
            buf, out, k = b'', [], 0
            for t, d in stdin.get(p.pid, ()):
                buf += d
                while b'\n' in buf:
                    l, buf = buf.split(b'\n', 1)
                    l = l.decode('utf-8', 'replace')
                    s = None
                    if l.split()[:1] == ['go']:
                        s = b.searches[k] if k < len(b.searches) else None
                        r = read.get(p.pid, [])
                        if s is not None:
                            s['t_read'] = r[k] if k < len(r) else None
                        k += 1
                    out.append((t, l, s))
            self.cmds.setdefault(i, [])
            self.cmds[i] += out

    def want(self, i, line):
        c = self.cmds.get(i) or []
        if not c:
            if not self.complete:
                raise Skip('history ends')
            raise_if('webm:command', 'engine %d was sent nothing, expected %r' % (i, line))
            return None
        t, l, s = c.pop(0)
        if l != line:
            raise_if('webm:command', 'engine %d was sent %r, expected %r' % (i, l, line))
        return t

    def rpc_ns(self, a, b):
        return sum(min(y, b) - max(x, a) for x, y in self.w.mp.rpc if y > a and x < b)

    def run(self):
        plan, sim, w = self.plan, self.sim, self.w
        eng = [k == 'engine' for k in plan['players']]
        for i in (0, 1):
            if eng[i]:
                check(self.count.get(i, 0) <= 1, 'webm:command', lambda: 'engine %d was started %d times' % (i, self.count[i]))
                self.want(i, 'usi')
                for k, v in plan['opts'][i].items():
                    self.want(i, 'setoption name %s value %s' % (k, v))
                self.want(i, 'isready')
                self.want(i, 'usinewgame')
        pub = w.published()
        game = shogi.Game()
        remain = [(plan['time'], plan['time'])] * 2 if plan['time'] is not None else [None, None]
        inc = plan['inc']
        last = None
        end = None
        csa, times, comments = [], [], []
        n = 0
        while True:
            side = len(game.usi) % 2
            p = game.pos
            if len(game.usi) + 1 > plan['draw']:
                end = ['持将棋']
                sim.probe('end-move-limit')
                break
            entry = self.moves[n] if n < len(self.moves) else None
            if entry is None and not self.complete:
                raise Skip('history ends')
            if entry is None:
                raise_if('webm:no-verdict', 'the published game stops after %d moves without a verdict' % n)
            if eng[side]:
                self.want(side, 'position startpos' + (' moves ' + ' '.join(game.usi) if game.usi else ''))
                c = self.cmds.get(side) or []
                if not c:
                    if not self.complete:
                        raise Skip('history ends')
                    raise_if('webm:command', 'engine %d was not told to go' % side)
                t0, l, s = c.pop(0)
                self.check_go(side, l, remain)
                if s is None or s.get('t_read') is None:
                    if not self.complete:
                        raise Skip('history ends')
                    raise_if('webm:command', 'the reply of engine %d was not read' % side)
                lo = hi = s['t_read'] - t0
                best = s['best']
                info = s['infos'][-1] if s['infos'] else ''
            else:
                # the human's time runs from the previous move to this one
                t0 = pub[n - 1] if n else w.ready_times(plan, self.played)[0]
                timeout = entry['move'] == 0
                tend = pub[n] if n < len(pub) else sim.now
                hi = tend - t0 + MS
                lo = max(0, tend - t0 - self.rpc_ns(t0 - SEC, tend + SEC) - MS - (15 * MS if n == 0 else 0))
                if n == 0:
                    hi = tend - 1000 * SEC + MS
                if timeout:
                    # only the clock can end the game in a human's turn; the published time is that of the verdict,
                    # after the engines were told to quit
                    hi = max(hi, lo)
                    lo = max(0, lo - 3 * SEC)
                    best = None
                else:
                    best = self.played[n]
                info = ''
            if remain[side] is not None:
                a, b = remain[side]
                a, b = a + (inc or 0) - -(-hi // MS), b + (inc or 0) - -(-lo // MS)
                must = b <= -1000
                may = a <= -1000
                is_up = entry['move'] == 0 and '切れ負け' in entry['kif_move']
                if is_up and not may:
                    raise_if('webm:time-up', 'move %d of %s ended by time although between %d and %d ms were left' % (n + 1, plan['players'][side], a, b))
                if must and not is_up:
                    raise_if('webm:time-up', 'at move %d the %s had overdrawn the clock by %d ms, but the page says %r' % (n + 1, plan['players'][side], -b, entry['kif_move']))
                if is_up:
                    end = ['%sの切れ負け' % ('先手' if side == 0 else '後手')]
                    sim.probe('end-time-up')
                    break
                if best is None:
                    raise_if('webm:verdict', 'the game ended in the turn of a human: %r' % entry['kif_move'])
                if a < 0:
                    sim.probe('grace-second')
                remain[side] = (max(a, 0) if a > -1000 or b >= 0 else 0, max(b, 0))
            elif best is None:
                raise_if('webm:verdict', 'the game ended in the turn of a human: %r after %r' % (entry['kif_move'], game.usi[-4:]))
            if best == 'resign':
                end = [SYM[p.turn] + '投了']
                sim.probe('end-resign')
                break
            if best == 'win':
                end = [SYM[p.turn] + '入玉宣言']
                sim.probe('end-declaration')
                break
            m = p.legal_usi(best)
            if m is None:
                end = ['%sの反則負け' % ('先手' if side == 0 else '後手')]
                sim.probe('end-illegal-move')
                break
            sc = score_of(info)
            if entry['move'] == 0 or n >= len(self.played) or self.played[n] != best:
                raise_if('webm:published', 'entry %d is %r, but %s was played' % (n + 1, entry['kif_move'], best))
            exp = {'number': n + 1, 'kif_move': SYM[p.turn] + kif_move(p, m, last), 'move': entry['move'],
                   'eval': 'null' if sc is None else sc * p.turn, 'pv': pv_text(p, info, last)}
            got = {k: entry.get(k) for k in exp}
            check(got == exp, 'webm:published', lambda: 'entry %d is %r, should be %r' % (n + 1, got, exp))
            check(-(-lo // SEC) <= entry['time'] <= -(-hi // SEC), 'webm:published-time',
                  lambda: 'entry %d says %r s, taken %.3f to %.3f s' % (n + 1, entry['time'], lo / SEC, hi / SEC))
            csa.append('+-'[p.turn < 0] + p.csa(m))
            times.append((lo // SEC, hi // SEC))
            comments.append(comment_of(p, info))
            game.push_usi(best)
            last = m
            n += 1
            me = -game.pos.turn
            mate = not game.pos.has_legal()
            occ = game.occurrences()
            if len(occ) >= 4:
                end = self.repetition(game, occ, me)
                if len(game.usi) + 1 > plan['draw'] and not mate:
                    end.append('持将棋')
                break
            if mate:
                end = [SYM[game.pos.turn] + '投了']
                sim.probe('end-checkmate')
                break
        # the verdict
        v = self.moves[n] if n < len(self.moves) else None
        if v is None and not self.complete:
            raise Skip('history ends')
        if v is None or v['move'] != 0:
            raise_if('webm:verdict', 'the game is over (%s) after %r, but the page shows %r' % (end, game.usi[-4:], v and v['kif_move']))
        check(v['kif_move'] in end, 'webm:verdict', lambda: 'the page says %r, should be one of %r; last moves %r' % (v['kif_move'], end, game.usi[-6:]))
        check(v['number'] == n + 1 and v['time'] == 0 and v['eval'] == 'null' and v['pv'] == '', 'webm:verdict', lambda: 'final entry %r' % v)
        check(len(self.moves) == n + 1, 'webm:verdict', lambda: 'entries after the verdict: %r' % [m['kif_move'] for m in self.moves[n + 1:]])
        for i in (0, 1):
            if eng[i]:
                self.want(i, 'quit')
                c = self.cmds.get(i)
                check(not c, 'webm:command', lambda: 'engine %d was sent %r after quit' % (i, c[0][1]))
        for i, b, p in w.procs:
            check(not b.errors, 'webm:command', lambda: 'engine %d: %s' % (i, b.errors[:3]))
        if plan['csa']:
            self.record(csa, times, comments, v['kif_move'])

    def check_go(self, side, l, remain):
        plan = self.plan
        got, isp = parse_go(l)
        if got is None:
            raise_if('webm:command', 'engine %d was sent %r, expected go' % (side, l))
        check(not isp, 'webm:command', lambda: 'engine %d was sent %r' % (side, l))
        exp = set()
        for k, r, i in (('btime', remain[0], 0), ('wtime', remain[1], 1)):
            if r is not None:
                exp.add(k)
                v = got.get(k)
                check(v is not None and r[0] <= v <= r[1], 'webm:clock', lambda: 'engine %d was sent %r, %s should be between %d and %d' % (side, l, k, r[0], r[1]))
                if v is not None:
                    remain[i] = (v, v)
        if plan['byoyomi'] is not None:
            exp.add('byoyomi')
            check(got.get('byoyomi') == plan['byoyomi'], 'webm:clock', lambda: 'engine %d was sent %r' % (side, l))
        elif plan['inc'] is not None:
            exp |= {'binc', 'winc'}
            check(got.get('binc') == plan['inc'] == got.get('winc'), 'webm:clock', lambda: 'engine %d was sent %r' % (side, l))
        check(set(got) == exp, 'webm:clock', lambda: 'engine %d was sent %r, expected parameters %s' % (side, l, sorted(exp)))

    def repetition(self, game, occ, me):
        v1, v4 = game.perpetual(occ[-2]), game.perpetual(occ[0])
        out = []
        for v in {v1, v4}:
            if v == 0:
                out.append('千日手')
            elif v == me:
                out.append('%sの反則勝ち' % ('先手' if me < 0 else '後手'))
            else:
                out.append('%sの反則負け' % ('先手' if me < 0 else '後手'))
        if v1 or v4:
            self.sim.probe('end-perpetual-check')
            last = game.keys[-1]
            if any(k[0] == last[0] and k[3] == last[3] and k != last for k in game.keys[occ[-2]:]):
                out.append('千日手')
        else:
            self.sim.probe('end-repetition')
        return out

    def record(self, csa, times, comments, verdict):
        text = seams.real['open'](self.w.path, encoding='utf-8').read()
        names, moves, ts, cs, end = parse_csa(text)
        check(names == self.w.expected_names(), 'webm:record', lambda: 'record names %r' % names)
        check(moves == csa, 'webm:record', lambda: 'record has moves %r, played %r' % (moves, csa))
        check(len(ts) == len(times) and all(t is not None and a <= t <= b for t, (a, b) in zip(ts, times)), 'webm:record',
              lambda: 'record has times %r, taken %r' % (ts, times))
        check(cs == comments, 'webm:record', lambda: 'record has comments %r, should be %r' % (cs, comments))
        if verdict == '持将棋':
            ok = ['%JISHOGI']
        elif verdict == '千日手':
            ok = ['%SENNICHITE']
        elif '入玉' in verdict:
            ok = ['%KACHI']
        elif '反則負け' in verdict:
            ok = ['%ILLEGAL_MOVE']
        elif '反則勝ち' in verdict:
            ok = ['%+ILLEGAL_ACTION' if verdict.startswith('後手') else '%-ILLEGAL_ACTION']
        elif '切れ負け' in verdict:
            ok = ['%TIME_UP']
        else:
            ok = ['%TORYO']
        check(end in ok, 'webm:record', lambda: 'record ends with %r for %r' % (end, verdict))


class WebDeath(WebMatch):
    """An engine process dies in the middle of a match: the page goes on showing what was played."""
    themes = ('plain', 'ends', 'repetition')

    def gen_faults(self, rng, plan):
        if plan['players'] == ['human', 'human']:
            plan['players'] = ['human', 'engine']
            for b in plan['browsers']:
                b['sides'] = [0]
        i = rng.choice([k for k in (0, 1) if plan['players'][k] == 'engine'])
        search = rng.random() < .7
        plan['death'] = {'engine': i, 'cmd': rng.choice([1, 1, 2, 3, 5]) if search else rng.randrange(1, 14), 'at': rng.random(),
                         'torn': rng.choice([0, rng.random()]), 'code': rng.choice([0, 1, -9, -11]), 'search': search}
        if rng.random() < .1:
            plan['death']['errno'] = rng.choice([2, 12, 13, 24])
        plan['opts'] = [o if k == 'engine' else {} for o, k in zip(plan['opts'], plan['players'])]


def csa_position(p):
    o = []
    for r in range(9):
        o.append('P%d' % (r + 1) + ''.join(' * ' if not p.b[f * 9 + r] else '-+'[p.b[f * 9 + r] > 0] + shogi.CSA_PIECE[abs(p.b[f * 9 + r])] for f in range(8, -1, -1)))
    for c in (1, -1):
        x = ''.join(('00' + shogi.CSA_PIECE[t]) * p.hand[c][t] for t in range(1, 8))
        if x:
            o.append('P' + '-+'[c > 0] + x)
    return o + ['-+'[p.turn > 0]]


class WebReplay(World):
    """A recorded game shown in the browser; the record may be unfinished or cut off by a crash of whoever wrote it."""
    traced = False

    def gen(self, rng, tier):
        plan = {'pyseed': rng.randrange(1 << 30), 'switch': .5, 'preempt': 0}
        line = list(rng.choice(LINES['mates'] + LINES['long'] + [x[0] + x[1] for x in LINES['perps']]))
        k = rng.random()
        plan['moves'] = line[:rng.randrange(len(line) + 1)] if k < .8 else line if k < .95 else []
        plan['start'] = None
        if rng.random() < .3:
            p = shogi.Pos(HANDICAP[rng.choice(sorted(HANDICAP))]) if rng.random() < .6 else random_pos(rng)
            plan['start'] = p.sfen()
            plan['moves'] = []
            for _ in range(rng.choice([0, 1, 5, 30])):
                lm = p.legal_moves()
                if not lm:
                    break
                m = rng.choice([x for x in lm if p.b[x[1]]] or lm) if rng.random() < .4 else rng.choice(lm)
                plan['moves'].append(shogi.usi(m))
                p.push(m)
        plan['end'] = rng.choice([None, '%TORYO', '%TORYO', '%CHUDAN', '%SENNICHITE', '%TIME_UP', '%ILLEGAL_MOVE', '%JISHOGI', '%KACHI', '%+ILLEGAL_ACTION',
                                  '%-ILLEGAL_ACTION'])
        plan['names'] = rng.choice([['A', 'B'], ['', 'x y'], ['dl<b>', '"q"'], ["back\\slash", "it's &amp; <i>"], None])
        plan['times'] = [rng.choice([0, 1, 7, 65, 4000]) if rng.random() < .9 else None for _ in plan['moves']]
        plan['evals'] = [rng.choice([None, 0, -35, 99, 100000, -30000]) for _ in plan['moves']]
        plan['pvs'] = [rng.choice([0, 1, 3, 3, 6, 15]) if rng.random() < .7 else -1 for _ in plan['moves']]
        plan['odd'] = [rng.choice(['+9919OU', '-5555FU', '+1111HI', '<b>bold</b>', '"quoted"', 'back\\slash', "it's", '&amp;lt;']) if rng.random() < .1 else '' for _ in plan['moves']]
        plan['cut'] = rng.random() if rng.random() < .4 else None
        plan['crlf'] = rng.random() < .15
        plan['inline'] = rng.random() < .2          # time and comment on the line of the move
        plan['words'] = [rng.choice(["'** good move", "'** -", "'** 12a 34", "'*注", "'", "'a plain comment, with T5", "'** "]) if rng.random() < .15 else None for _ in plan['moves']]
        plan['second'] = rng.random() < .2
        plan['version'] = rng.random() < .7
        plan['asks'] = rng.choice([1, 2, 3])
        return plan

    def shrinks(self, plan):
        for n in (0, 1, 2, 5, 10, 20, len(plan['moves']) - 1):
            if n < len(plan['moves']) and n >= 0:
                q = copy.deepcopy(plan)
                for k in ('moves', 'times', 'evals', 'pvs', 'odd', 'words'):
                    q[k] = q[k][:n]
                yield q
        for k, v in (('cut', None), ('crlf', False), ('inline', False), ('words', [None] * len(plan['moves'])), ('second', False), ('version', True), ('asks', 1), ('names', ['A', 'B']), ('odd', [''] * len(plan['moves']))):
            if plan[k] != v:
                q = copy.deepcopy(plan)
                q[k] = v
                yield q

    def record(self, plan):
        """(text, entries the page should show, offset at which each move's line ends)"""
        rng = random.Random(plan['pyseed'])
        t = []
        if plan['version']:
            t.append('V2')
        if plan['names']:
            t += ['N+' + plan['names'][0], 'N-' + plan['names'][1]]
        p, last = shogi.Pos(plan['start'] or shogi.START), None
        t += ['PI', '+'] if not plan['start'] else csa_position(p)
        show, ends = [], []
        for n, u in enumerate(plan['moves']):
            m = p.parse_usi(u)
            c = p.turn
            kif = SYM[c] + kif_move(p, m, last)
            mine = ['+-'[c < 0] + p.csa(m)]
            if plan['times'][n] is not None:
                mine.append('T%d' % plan['times'][n])
            p.push(m)
            last = m
            pv, ev = '', 'null'
            if plan['evals'][n] is not None:
                ev = plan['evals'][n]
                q, a, b = p.copy(), [], []
                for _ in range(max(0, plan['pvs'][n])):
                    lm = q.legal_moves()
                    if not lm:
                        break
                    x = rng.choice(lm)
                    a.append('+-'[q.turn < 0] + q.csa(x))
                    b.append(SYM[q.turn] + kif_move(q, x))
                    q.push(x)
                if plan['odd'][n]:
                    a.append(plan['odd'][n])
                    b = a
                mine.append("'** " + ' '.join([str(ev)] + a))
                pv = ' '.join(b)
            elif plan['words'][n]:
                mine.append(plan['words'][n])
            t += [','.join(mine)] if plan['inline'] else mine[:1]
            at = len(t)
            if not plan['inline']:
                t += mine[1:]
            show.append({'number': n + 1, 'kif_move': kif, 'time': plan['times'][n] or 0, 'usi': u, 'eval': ev, 'pv': pv})
            ends.append((at, len(t)))
        if plan['end']:
            t.append(plan['end'])
        return t, show, ends

    END = {'%TORYO': '投了', '%CHUDAN': '中断', '%SENNICHITE': '千日手', '%TIME_UP': '切れ負け', '%ILLEGAL_MOVE': '反則負け', '%JISHOGI': '持将棋',
           '%KACHI': '入玉宣言', '%+ILLEGAL_ACTION': None, '%-ILLEGAL_ACTION': None, None: None}

    def body(self, plan, sim, out):
        from cshogi.web import app
        self.sim, self.plan = sim, plan
        root = self.scratch_dir()
        lines, show, ends = self.record(plan)
        text = '\n'.join(lines) + '\n'
        data = text.replace('\n', '\r\n').encode() if plan['crlf'] else text.encode()
        whole = len(data)
        cut = None
        if plan['cut'] is not None:
            sim.fault('record-cut-off')
            cut = int(plan['cut'] * whole)
            data = data[:cut]
        elif plan['second']:
            data += b"/\nV2\nN+C\nN-D\nPI\n+\n+2726FU\n%CHUDAN\n"
        sim.event('record', data)
        path = os.path.join(root, 'game.csa')
        with seams.real['open'](path, 'wb') as f:
            f.write(data)
        self.server = None
        self.serving, self.early, self.reqs, self.cb, self.n_id, self.history = False, [], [], {}, 0, []
        self.mp = MP(sim, plan)
        seams.hooks.process = self.mp
        seams.hooks.make_server = lambda host, port, app, *a, **kw: SimServer(self, host, port, app)
        self.main = sim.spawn('server', lambda: app.run(csa=path), group='server')
        pages = []
        for _ in range(plan['asks']):
            r = {'id': 1, 'path': '/', 'args': None, 'raw': None, 'browser': 0}
            self.arrive(r, None)
            sim.run(lambda: 't1' in r or self.main.state == 'done')
            if self.main.state == 'done':
                # a damaged record may be refused, an intact one may not
                check(cut is not None, 'replay:refused', lambda: 'the record could not be shown: %s' % raised(self.main))
                sim.probe('damaged-record-refused')
                return
            pages.append(r)
        n_sure = len(show)
        if cut is not None:
            left = data.decode('utf-8', 'ignore').split('\n')
            full = len(left) - 1                  # lines that are whole
            n_sure = sum(1 for a, b in ends if a <= full)
            sim.probe('damaged-record-shown')
        for r in pages:
            check(r['status'] == 200, 'replay:page', lambda: 'the page answers with status %d' % r['status'])
            ms, human = WebMatch.parse_page(self, r['text'])
            if ms is None:
                continue
            self.compare(plan, ms, show, ends, n_sure, cut, data)
            self.look(plan, r['text'], show)
        out.trivial = not plan['moves']

    arrive, handle = WebMatch.arrive, WebMatch.handle

    def look(self, plan, text, show):
        pass

    def compare(self, plan, ms, show, ends, n_sure, cut, data):
        from cshogi import move_to_usi
        check(ms and ms[-1]['move'] == 0, 'replay:end', lambda: 'no final entry: %r' % ms[-1:])
        body = ms[:-1]
        check(len(body) == n_sure or (cut is not None and len(body) == n_sure + 1 and len(show) > n_sure), 'replay:moves',
              lambda: '%d moves shown, the record holds %d' % (len(body), n_sure))
        for k, (g, e) in enumerate(zip(body, show)):
            last = cut is not None and k == len(body) - 1
            got = (g['number'], g['kif_move'], move_to_usi(g['move']))
            exp = (e['number'], e['kif_move'], e['usi'])
            check(got == exp, 'replay:moves', lambda: 'entry %d is %r, should be %r' % (k + 1, got, exp))
            if not last:
                got = (g['time'], g['eval'], g['pv'])
                exp = (e['time'], e['eval'], e['pv'])
                check(got == exp, 'replay:details', lambda: 'entry %d has time, evaluation, variation %r, should be %r' % (k + 1, got, exp))
        if cut is None:
            word = self.END[plan['end']]
            v = ms[-1]
            check(v['number'] == len(show) + 1, 'replay:end', lambda: 'final entry %r' % v)
            if word:
                check(v['kif_move'] == ('▲△', '△▲')[(plan['start'] or ' b').split(' ')[1] == 'w'][len(show) % 2] + word, 'replay:end', lambda: 'the page ends with %r for %r' % (v['kif_move'], plan['end']))
