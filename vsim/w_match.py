"""Engine matches (cshogi.cli.main) between simulated engines, judged against an executable reference of the match.

The real code plays: cshogi.cli, cshogi.usi.Engine, Board, CSA/PGN exporters, ThreadPoolExecutor.  The engines, the
clock, the disk's failures and the scheduler are simulated.  The oracle replays the history each engine saw (commands in,
replies out, with times) through MatchModel and compares every command, every clock, the result, the tallies, the
printed report and the record files.
"""
import json
import math
import os
import random
import re

from . import kernel, seams, shogi
from .kernel import MS, SEC
from .proc import SimProc
from .world import World, Violation, Skip, check, focused, raised

LINES = json.load(open(os.path.join(os.path.dirname(__file__), 'lines.json')))
HALF = MS // 2

VAL = {0: 0, shogi.P: 1, shogi.L: 3, shogi.N: 3, shogi.S: 5, shogi.G: 6, shogi.B: 8, shogi.R: 10, shogi.K: 0, shogi.PP: 6,
       shogi.PL: 6, shogi.PN: 6, shogi.PS: 6, shogi.HO: 12, shogi.DR: 13}


def pos_after(moves):
    """Position after a list of USI moves, or None if one of them is not legal."""
    p = shogi.Pos()
    for m in moves:
        x = p.legal_usi(m)
        if x is None:
            return None
        p.push(x)
    return p


def pos_fast(moves):
    p = shogi.Pos()
    for m in moves:
        p.push(p.parse_usi(m))
    return p


def choose_move(e, g, moves, p):
    """The move engine plan e plays in game g: a pure function, so that an opponent can predict it."""
    for s in e['scripts']:
        if len(moves) < len(s) and s[:len(moves)] == moves:
            return s[len(moves)]
    rng = random.Random('%s/%d/%d/%s' % (e['seed'], g, len(moves), ' '.join(moves[-4:])))
    legal = p.legal_moves()
    if not legal:
        return 'resign'
    style = e['style']
    if style == 'shuffle' and rng.random() < .95:
        # undo the last own move if that is possible, otherwise some quiet piece move
        if len(moves) >= 2:
            m = p.parse_usi(moves[-2])
            if m and m[0] is not None and not m[2]:
                back = (m[1], m[0], False)
                if back in legal and not p.b[back[1]]:
                    return shogi.usi(back)
        quiet = [m for m in legal if m[0] is not None and not p.b[m[1]] and not m[2] and abs(p.b[m[0]]) != shogi.P]
        if quiet:
            return shogi.usi(rng.choice(quiet))
    if style == 'greedy':
        best = None
        for m in rng.sample(legal, min(len(legal), 40)):
            c = p.gives_check(m)
            if c:
                p.push(m)
                mate = not p.has_legal()
                p.pop()
                if mate:
                    return shogi.usi(m)
            s = rng.random() * 4 + (VAL[abs(p.b[m[1]])] if m[0] is not None else 0) + (3 if c else 0) \
                + (2 if m[0] is not None and m[2] is True else 0)
            if best is None or s > best[0]:
                best = (s, m)
        return shogi.usi(best[1])
    return shogi.usi(rng.choice(legal))


def illegal_text(kind, p, rng):
    """Something that is not a legal move in p."""
    legal = set(p.legal_moves())
    if kind == 'garbage':
        return rng.choice(['foo', 'pass', '0a0b', '7g7', 'none', '7g7f7f', 'Z*5e', '7z7f', 'resigned', '10a1b', 'P*0a', '7g7j'])
    pool = []
    if kind == 'dropjunk':
        # a drop that would be legal, with something glued to it
        d = [m for m in legal if m[0] is None]
        return shogi.usi(sorted(d)[rng.randrange(len(d))]) + rng.choice(['x', '+', '5e', ',']) if d else 'P*5ex'
    if kind == 'opponent':
        p.turn = -p.turn
        pool = [m for m in p.pseudo() if m[0] is not None]
        p.turn = -p.turn
    elif kind == 'nohand':
        pool = [(None, q, t) for t in (shogi.P, shogi.L, shogi.N, shogi.S, shogi.G, shogi.B, shogi.R) for q in range(81) if not p.b[q]]
    elif kind == 'selfcheck':
        pool = p.pseudo()
    elif kind == 'promote':
        pool = [(m[0], m[1], not m[2]) for m in p.pseudo() if m[0] is not None]
    elif kind == 'nifu':
        pool = [(None, q, shogi.P) for q in range(81) if not p.b[q]]
    elif kind == 'wild':
        pool = [(a, b, x) for a in range(81) if p.b[a] * p.turn > 0 for b in range(81) for x in (False, True)]
    pool = [m for m in pool if m not in legal and not p.is_legal(m)]
    return shogi.usi(rng.choice(pool)) if pool else 'foo'


class MatchBrain:
    def __init__(self, sim, world, idx, plan, shared):
        self.sim, self.world, self.idx, self.plan, self.shared = sim, world, idx, plan, shared
        self.e = plan['engines'][idx]
        self.opp = None
        self.state = 'boot'
        self.moves = None
        self.newgame = False
        self.cur = None
        self.errors = []
        self.searches = []
        self.ncmd = 0
        self.launch = shared['launch'][idx]
        shared['launch'][idx] += 1

    def attach(self, side):
        self.side = side

    def input_latency(self):
        return self.e['latency'] * MS

    def text(self, s, whole=False):
        data = s.encode('ascii') + (b'\r\n' if self.e['crlf'] else b'\n')
        n = 0 if whole else self.e['chunk']
        if n and len(data) > n:
            k = len(data) // 2
            return [('out', data[:k]), ('delay', n * MS), ('out', data[k:])]
        return [('out', data)]

    def game(self):
        return self.shared['games'][self.idx]

    def err(self, line, why):
        self.errors.append('%s in state %s: %s' % (line, self.state, why))

    def on_line(self, line):
        self.ncmd += 1
        acts = self.reply(line)
        f = self.plan.get('death')
        if f and f['engine'] == self.idx and not self.shared.get('died') and (
                not f.get('search') or line.split()[:1] in (['go'], ['ponderhit'], ['stop'])):
            self.shared['cmds'][self.idx] += 1
            if self.shared['cmds'][self.idx] == f['cmd']:
                self.shared['died'] = True
                rep = acts and acts[0] == 'replace'
                acts = list(acts[1]) if rep else list(acts)
                cut = min(len(acts), int(f['at'] * (len(acts) + 1)))
                tail = acts[cut:cut + 1]
                acts = acts[:cut]
                if f['torn'] and tail and tail[0][0] == 'out' and len(tail[0][1]) > 1:
                    b = tail[0][1]
                    acts.append(('out', b[:1 + int(f['torn'] * (len(b) - 1))]))
                acts.append(('call', self.death))
                if rep:
                    acts = ('replace', acts)
        return acts

    def death(self):
        f = self.plan['death']
        self.sim.fault('engine-death-' + self.state)
        self.shared['owing'] = self.state in ('searching', 'pondering', 'loading')
        self.shared['died_at'] = len(self.sim.log)
        return [('exit', f['code'])]

    def reply(self, line):
        e, sim = self.e, self.sim
        w = line.split()
        cmd = w[0] if w else ''
        st = self.state
        if st in ('searching', 'pondering') and cmd not in ('stop', 'ponderhit', 'quit'):
            self.err(line, 'a search is under way')
        if cmd == 'usi':
            if st != 'boot':
                self.err(line, 'already initialised')
            self.state = 'idle'
            return [('delay', e['boot'] * MS)] + self.text('id name ' + e['name']) + self.text('id author sim') + self.text('usiok')
        if cmd == 'isready':
            self.state = 'loading'

            def ready():
                self.state = 'idle'
                return self.text('readyok')
            return [('delay', e['boot'] * MS), ('call', ready)]
        if cmd == 'setoption':
            return []
        if cmd == 'usinewgame':
            self.shared['games'][self.idx] += 1
            self.newgame = True
            self.moves = None
            return []
        if cmd == 'position':
            if w[1:2] == ['startpos'] and (len(w) == 2 or w[2] == 'moves'):
                self.moves = w[3:]
            else:
                self.err(line, 'not a position of this match')
                self.moves = []
            return []
        if cmd == 'go':
            if not self.newgame:
                self.err(line, 'before usinewgame')
            if self.moves is None:
                self.err(line, 'before position')
                self.moves = []
            ponder = 'ponder' in w
            s = self.think(w, ponder)
            self.searches.append(s)
            self.cur = s
            if ponder:
                self.state = 'pondering'
                sim.probe('ponder-search')
                acts = []
                for t in s['early']:
                    acts += [('delay', MS)] + self.text(t, True)     # a stop may come in between
                return acts
            self.state = 'searching'
            return [('delay', s['think'])] + [a for t in s['infos'] for a in self.text(t)] + self.finish(s)
        if cmd == 'ponderhit':
            if st != 'pondering':
                self.err(line, 'not pondering')
                return []
            self.state = 'searching'
            sim.probe('ponderhit')
            s = self.cur
            s['hit'] = True
            return ('replace', [('delay', s['think'])] + [a for t in s['infos'] for a in self.text(t)] + self.finish(s))
        if cmd == 'stop':
            if st not in ('pondering', 'searching'):
                self.err(line, 'no search to stop')
                return []
            sim.probe('ponder-stopped')
            s = self.cur
            s['stopped'] = True
            s['stopping'] = True
            return ('replace', [('delay', e['stopdelay'] * MS)] + self.finish(s))
        if cmd == 'gameover':
            self.newgame = False
            return []
        if cmd == 'quit':
            return [('delay', e['linger'] * MS), ('exit', 0)]
        self.err(line, 'unknown command')
        return []

    def finish(self, s):
        txt = 'bestmove ' + s['best'] + (' ponder ' + s['ponder'] if s['ponder'] else '')
        acts = self.text(txt)

        def done():
            self.state = 'idle'
            s['t_said'] = self.sim.now
        # the state changes with the last byte of the line
        return acts[:-1] + [('call', lambda: (done(), [acts[-1]])[1])]

    # -- what it plays --------------------------------------------------------------------
    def think(self, w, ponder):
        e, g = self.e, self.game()
        opp = self.world.opponent_plan(self.plan, self.idx)
        moves = list(self.moves)
        rng = random.Random('%s/t/%d/%d/%s/%d' % (e['seed'], g, len(moves), ' '.join(moves[-2:]), ponder))
        s = {'moves': moves, 'ponder': None, 'early': [], 'infos': [], 'isponder': ponder, 'hit': False, 'stopped': False,
             'think': HALF, 'best': 'resign', 'cmd': ' '.join(w)}
        p = pos_after(moves)
        if p is None:
            return s
        best = None
        for end in e['ends']:
            if end['g'] == g and len(moves) >= end['ply']:
                t = end['text']
                best = illegal_text(t[1:], p, rng) if t.startswith('!') else t
                break
        if best is None:
            best = choose_move(e, g, moves, p)
        s['best'] = best
        m = p.legal_usi(best)
        if m is not None and e['ponder'] and rng.random() < e['ponder']:
            p.push(m)
            r = choose_move(opp, g, moves + [best], p) if rng.random() < e['hit'] else None
            if r is None or r == 'resign':
                lm = p.legal_moves()
                r = shogi.usi(rng.choice(lm)) if lm else None
            p.pop()
            s['ponder'] = r
        # thinking time, in whole milliseconds and a half
        k = rng.choice(e['think'])
        if k == 'edge':
            d = {}
            for i in range(len(w) - 1):
                if w[i] in ('btime', 'wtime', 'binc', 'winc', 'byoyomi'):
                    d[w[i]] = int(w[i + 1])
            c = 'b' if len(moves) % 2 == 0 else 'w'
            inc = self.world.inc_of(self.plan, self.idx)
            if c + 'time' in d:
                k = max(0, d[c + 'time'] + (inc or 0) - rng.choice([1, 0, -1, -2, -500, -999, -1000, -1001, -1002]) - 1)
            else:
                k = 3
        s['think'] = k * MS + HALF - self.delays(0)
        if s['think'] < 0:
            s['think'] = HALF
        # what it reports
        infos = []
        for _ in range(rng.choice(e['infos'])):
            infos.append(self.info(rng, p, best, m))
        s['infos'] = infos
        if ponder and infos:
            s['early'] = [self.info(rng, p, best, m) for _ in range(rng.choice([0, 1, 2]))]
        return s

    def delays(self, _):
        return 0

    def info(self, rng, p, best, m):
        k = rng.random()
        if k < .15:
            return rng.choice(['info string thinking', 'info depth 3', 'info string score cp', 'info nodes 5 time 7'])
        e = self.e
        sc = rng.choice(['cp %d' % rng.choice(e['scores'])] * 4 + ['mate %s' % rng.choice(['3', '+5', '-4', '1', '+', '-'])])
        pv = []
        if m is not None:
            pv = [best]
            q = p.copy()
            q.push(m)
            for _ in range(rng.choice([0, 0, 1, 2])):
                lm = q.legal_moves()
                if not lm:
                    break
                x = rng.choice(lm)
                pv.append(shogi.usi(x))
                q.push(x)
            if rng.random() < .15:
                pv.append(rng.choice(['9i9a', 'foo', '5e5d+']))
                lm = q.legal_moves()
                if lm and rng.random() < .5:
                    pv.append(shogi.usi(rng.choice(lm)))
        else:
            pv = ['7g7f']
        return 'info depth %d score %s nodes %d pv %s' % (rng.randrange(1, 30), sc, rng.randrange(10 ** 6), ' '.join(pv))


def score_of(line):
    m = re.match(r'^.*score (cp|mate) ([+\-0-9]+).*pv (.*)$', line)
    if not m:
        return None
    if m[1] == 'cp':
        return int(m[2])
    return -100000 if m[2][0] == '-' else 100000


def comment_of(p, line):
    """The comment a record carries for a move reported with `line` in position p."""
    sc = score_of(line)
    if sc is None:
        return None
    pv = re.match(r'^.*score (cp|mate) ([+\-0-9]+).*pv (.*)$', line)[3].split(' ')
    q = p.copy()
    out = []
    for u in pv:
        m = q.legal_usi(u)
        if m is None:
            break
        out.append('+-'[q.turn < 0] + q.csa(m))
        q.push(m)
    return ' '.join(['**', str(sc * p.turn)] + out[1:])


class GameRecord:
    """What the reference says about one game."""

    def __init__(self):
        self.moves = []         # usi
        self.csa = []
        self.times = []         # whole seconds, None for opening moves
        self.comments = []
        self.verdicts = []      # allowed (winner: +1/-1/0, csa end)
        self.names = None
        self.n_open = 0


class MatchWorld(World):
    max_steps = 400_000
    config = 'healthy'
    droppable = ()

    # ---------------------------------------------------------------- plan
    def gen_engine(self, rng, i, plan, scripts):
        e = {'name': rng.choice(['Alpha', 'Engine', 'Apery_v2', 'dl-shogi 3', 'X']) + str(i),
             'seed': rng.randrange(1 << 30),
             'style': rng.choice(['random', 'random', 'shuffle', 'greedy', 'random']),
             'scripts': scripts if rng.random() < .9 else [],
             'ends': [], 'latency': rng.choice([0, 0, 0, 3]), 'crlf': rng.random() < .3, 'chunk': rng.choice([0, 0, 0, 2]),
             'boot': rng.choice([0, 0, 2000]), 'linger': rng.choice([0, 0, 500]), 'stopdelay': rng.choice([0, 1, 700]),
             'ponder': rng.choice([0, .5, 1]) if plan['ponder'] else rng.choice([0, 0, .5]),
             'hit': rng.choice([0, .5, .9]),
             'think': rng.choice([[0], [0, 1, 7], [3, 40, 900, 2500], [0, 500, 4000]]),
             'infos': rng.choice([[0], [0, 1, 2], [1], [3]]),
             'scores': rng.choice([[0, 10, -10, 300], [0, 100, -2000, -1999, -2001, 2000], [50, -30000], [50, 99999, 31111, -99999]]),
             'options': {}}
        if plan['time'] is not None and rng.random() < .6:
            e['think'] = rng.choice([[0, 3, 'edge'], [1, 100, 100, 100, 'edge'], ['edge'], [900, 2500, 7000], [10, 200]])
        for _ in range(rng.choice([0, 0, 1, 2])):
            e['options'][rng.choice(['Threads', 'USI_Hash', 'Book', 'EvalDir'])] = rng.choice([4, 'true', 'a/b', '256', 'C:/eval:x', '/データ/Eval Dir'])
        for g in range(1, plan['games'] + 1):
            if rng.random() < .3:
                e['ends'].append({'g': g, 'ply': rng.choice([0, 1, 3, 8, 15, 30, 60]), 'text': rng.choice(
                    ['resign', 'resign', 'win', '!garbage', '!opponent', '!nohand', '!selfcheck', '!promote', '!nifu', '!wild', '!wild', '!dropjunk'])})
        return e

    themes = ('plain', 'plain', 'plain', 'clock', 'ponder', 'repetition', 'perpetual', 'mate', 'ends')

    def gen(self, rng, tier):
        theme = rng.choice(self.themes)
        plan = {'games': rng.choice([1, 1, 2, 2, 3, 4, 6]), 'no_swap': rng.random() < .2, 'keep': rng.random() < .4,
                'draw': rng.choice([3, 12, 16, 20, 30, 45, 64, 100]), 'resign': rng.choice([None, None, None, None, 2000, 2000, 100, 100, 0]),
                'mate_win': rng.random() < .3, 'ponder': rng.random() < .5,
                'byoyomi': rng.choice([None, None, 1000, 1000, [1000, 500], [1000, 500], [700], [700], 0, [0, 500]]), 'time': None, 'inc': None,
                'opening': None, 'csa': rng.choice([None, 'multi', 'dir']), 'pgn': rng.random() < .5,
                'no_pgn_moves': rng.random() < .2, 'names': rng.choice([None, None, ['A', 'B'], [None, 'Bee'], ['Ay', None]]),
                'callback': rng.choice([None, 'all', 'all', 1, 2]), 'debug': rng.random() < .15, 'summary': rng.random() < .8,
                'display': rng.random() < .1, 'switch': rng.choice([.3, .5, .9]), 'preempt': 0, 'theme': theme}
        self.gen_options(rng, plan)
        if rng.random() < (1 if theme == 'clock' else .3 if theme in ('repetition', 'perpetual', 'mate') else .55):
            plan['time'] = rng.choice([2000, 10000, [5000, 1000], 0, [3000], 60000])
            if theme in ('repetition', 'perpetual', 'mate'):
                plan['time'] = 600000
            if rng.random() < .5:
                plan['inc'] = rng.choice([0, 1000, [100, 2000], [500]])
                plan['byoyomi'] = None
            elif rng.random() < .5:
                plan['byoyomi'] = None
        if theme == 'ponder':
            plan['ponder'] = True
        if theme in ('repetition', 'perpetual', 'mate'):
            plan['resign'] = plan['mate_win'] = None
        scripts = []
        k = {'mate': .1, 'perpetual': .4, 'repetition': .99}.get(theme, rng.random())
        cycle = 0
        if k < .3:
            scripts.append(rng.choice(LINES['mates']))
        elif k < .55:
            pre, cyc = rng.choice(LINES['perps'] if rng.random() < .5 else LINES['cycles'])
            scripts.append(pre + cyc * 4)
            cycle = len(cyc)
        elif k < .65:
            # the beginning of the same line only
            pre, cyc = rng.choice(LINES['perps'])
            scripts.append(pre[:rng.randrange(len(pre))])
        if scripts and rng.random() < (1 if theme in ('perpetual', 'mate') else .8):
            plan['draw'] = 256
            if rng.random() < .1:       # the move limit exactly where the game ends
                plan['draw'] = max(3, len(scripts[0]) - rng.choice([0, 0, 1, 2]) - (max(0, cycle * 4 - 4) if rng.random() < .5 else 0))
        if theme == 'repetition':
            plan['draw'] = rng.choice([12, 13, 14, 40, 64, 100])
        if rng.random() < .5:
            pool = [rng.choice(LINES['mates'] + [x[0] for x in LINES['perps']] + LINES['long']) for _ in range(rng.choice([1, 2, 4]))]
            if scripts and rng.random() < .7:
                pool.insert(rng.randrange(len(pool) + 1), scripts[0])
            lines = []
            for l in pool:
                n = rng.choice([0, 1, 5, 12, 20])
                if l is scripts[0] if scripts else False:
                    n = rng.choice([n, len(l) - rng.choice([1, 2, 5, 10]) if k < .3 else len(l) - 16 - rng.choice([0, 1, 4])])
                l = l[:max(0, min(n, len(l) - 1))]
                if theme == 'repetition' and rng.random() < .6:
                    # an opening that comes back to the starting position (once or twice)
                    l = ['2h1h', '8b9b', '1h2h', '9b8b'] * rng.choice([1, 2])
                lines.append(l)
            plan['opening'] = {'lines': lines, 'moves': rng.choice([1, 4, 24, 24, 100]), 'seed': rng.choice([0, 7, 12345]),
                               'index': rng.choice([None, None, rng.randrange(len(lines))])}
        if rng.random() < .3:
            plan['jumps'] = sorted((rng.randrange(0, 60000) * MS, rng.choice([-3600, -5, -1, 1, 3600, 86400]) * SEC) for _ in range(rng.choice([1, 3])))
        if rng.random() < .4:
            plan['preempt'] = rng.choice([.01, .05])
        plan['engines'] = []
        for i in range(self.n_engines):
            e = self.gen_engine(rng, i, plan, scripts)
            if theme in ('repetition', 'perpetual', 'mate'):
                if rng.random() < .9:
                    e['ends'] = []
                e['scripts'] = scripts
                if plan['time'] is not None:
                    e['think'] = [0, 1, 900]
            if theme == 'repetition':
                e['style'] = 'shuffle'
            if theme == 'ponder':
                e['ponder'] = rng.choice([.5, 1, 1])
                e['hit'] = rng.choice([.5, .9, 1])
            plan['engines'].append(e)
        if rng.random() < .1:
            plan['engines'][1]['name'] = plan['engines'][0]['name']
        if self.max_draw:
            plan['draw'] = min(plan['draw'], 80 if theme == 'perpetual' else self.max_draw)
        self.gen_faults(rng, plan)
        return plan

    max_draw = None

    def gen_options(self, rng, plan):
        pass

    n_engines = 2

    def gen_faults(self, rng, plan):
        pass

    def opponent_plan(self, plan, idx):
        return plan['engines'][1 - idx]

    def inc_of(self, plan, idx):
        return pair(plan['inc'])[idx]

    def shrinks(self, plan):
        import copy
        for k, v in (('games', 1), ('jumps', None), ('opening', None), ('csa', None), ('pgn', False), ('ponder', False), ('debug', False),
                     ('display', False), ('keep', False), ('names', None), ('time', None), ('inc', None), ('byoyomi', None),
                     ('resign', None), ('mate_win', False), ('preempt', 0), ('callback', 'all'), ('no_swap', False)):
            if plan.get(k) != v and not (k == 'games' and plan.get(k, 0) <= 1):
                q = copy.deepcopy(plan)
                q[k] = v
                yield q
        if plan['games'] > 2:
            q = copy.deepcopy(plan)
            q['games'] = 2
            yield q
        for d in (3, 12, 20, 40):
            if plan['draw'] > d:
                q = copy.deepcopy(plan)
                q['draw'] = d
                yield q
        for i, e in enumerate(plan['engines']):
            for k, v in (('latency', 0), ('crlf', False), ('chunk', 0), ('boot', 0), ('linger', 0), ('stopdelay', 0), ('ends', []),
                         ('infos', [0]), ('options', {}), ('scripts', []), ('think', [0]), ('style', 'random'), ('ponder', 0)):
                if e[k] != v:
                    q = copy.deepcopy(plan)
                    q['engines'][i][k] = v
                    yield q

    # ---------------------------------------------------------------- execution
    def body(self, plan, sim, out):
        from cshogi import cli
        root = self.scratch_dir()
        fs = seams.SimFS(sim, root, plan.get('disk'))
        seams.hooks.fs = fs
        self.shared = {'games': [0] * len(plan['engines']), 'launch': [0] * len(plan['engines']), 'cmds': [0] * len(plan['engines'])}
        self.procs = []
        self.npid = -1
        seams.hooks.popen = lambda a, kw: self.popen(sim, plan, a, kw)
        for t, d in plan.get('jumps') or ():
            sim.at(sim.now + t, lambda d=d: self.jump(sim, d))
        paths = self.files(plan, root)
        stats = []
        task = sim.spawn('match', lambda: self.play(cli, plan, paths, stats), group='client')
        why = self.drive(sim, plan, task, fs)
        self.verdict(sim, plan, task, why, paths, stats, fs)
        out.trivial = not any(b.searches for _, b, _ in self.procs)

    def drive(self, sim, plan, task, fs):
        return sim.run(lambda: task.state == 'done')

    def jump(self, sim, d):
        sim.wall_offset += d
        sim.fault('wall-clock-jump')
        sim.event('jump', d)

    def popen(self, sim, plan, a, kw):
        path = a[0][0] if a else kw['args'][0]
        i = int(path.rsplit('engine', 1)[1])
        f = plan.get('nospawn')
        if f and f['engine'] == i and f['n'] == sum(j == i for j, _, _ in self.procs):
            sim.fault('engine-not-started')
            self.shared['died_at'], self.shared['owing'] = sim.now, True
            raise OSError(f['errno'], os.strerror(f['errno']), path)
        b = MatchBrain(sim, self, i, plan, self.shared)
        self.npid += 1
        p = SimProc(sim, self.npid, b, kw)
        self.procs.append((i, b, p))
        return p

    def files(self, plan, root):
        d = {'root': root}
        if plan['csa'] == 'multi':
            d['csa'] = os.path.join(root, 'games.csa')
        elif plan['csa'] == 'dir':
            d['csa'] = os.path.join(root, 'csa')
            os.makedirs(d['csa'])
        if plan['pgn']:
            d['pgn'] = os.path.join(root, 'games.pgn')
        if plan['opening']:
            d['opening'] = os.path.join(root, 'opening.sfen')
            with seams.real['open'](d['opening'], 'w') as f:
                for l in plan['opening']['lines']:
                    f.write('startpos moves ' + ' '.join(l) + '\n' if l else 'startpos\n')
        return d

    def kwargs(self, plan, paths, stats):
        e = plan['engines']
        o = plan['opening']
        cb = None
        if plan['callback'] is not None:
            def cb(st):
                kernel.current_sim().event('callback', st['total'])
                stats.append(dict(st))
                return plan['callback'] == 'all' or len(stats) < plan['callback']
        return dict(options1=e[0]['options'], options2=e[1]['options'], names=plan['names'], games=plan['games'], resign=plan['resign'],
                    mate_win=plan['mate_win'], byoyomi=plan['byoyomi'], time=plan['time'], inc=plan['inc'], draw=plan['draw'],
                    ponder=plan['ponder'], no_swap=plan['no_swap'], opening=paths.get('opening'),
                    opening_moves=o['moves'] if o else 24, opening_seed=o['seed'] if o else None,
                    opening_index=o['index'] if o else None, keep_process=plan['keep'], csa=paths.get('csa'),
                    multi_csa=plan['csa'] == 'multi', pgn=paths.get('pgn'), no_pgn_moves=plan['no_pgn_moves'],
                    is_display=plan['display'], debug=plan['debug'], print_summary=plan['summary'], callback=cb)

    def play(self, cli, plan, paths, stats):
        return cli.main('/opt/engines/engine0', '/opt/engines/engine1', **self.kwargs(plan, paths, stats))

    # ---------------------------------------------------------------- judging
    def verdict(self, sim, plan, task, why, paths, stats, fs):
        if task.state != 'done':
            raise Violation('term:match-never-ends', 'the match made no progress (%s); it waits for %s' % (why, self.waiting(sim))) \
                if focused('term:') else Violation('match-never-ends', '%s; %s' % (why, self.waiting(sim)))
        if task.exc is not None:
            raise Violation('match-raised', raised(task))
        sim.run()
        w = Wire(sim, self.procs, len(plan['engines']))
        games = Judge(self, sim, plan, w).match(range(2), 0)
        self.check_protocol(plan)
        self.check_report(sim, plan, games, task.result, stats)
        self.check_files(sim, plan, games, paths)

    def waiting(self, sim):
        return ', '.join('%s: %s' % (t.name, t.wait) for t in sim.tasks if t.state == 'blocked')

    def check_protocol(self, plan):
        for i, b, p in self.procs:
            check(not b.errors, 'proto:wrong-state', lambda: 'engine %d: %s' % (i, b.errors[:3]))
            check(p.returncode is not None, 'proto:not-quit', lambda: 'engine %d was left running' % i)

    def check_report(self, sim, plan, games, result, stats):
        tally = Tally(plan['names'], plan['engines'], plan['no_swap'])
        exp = []
        for n, g in enumerate(games):
            exp.append(tally.add(n, g))
        if plan['callback'] is not None:
            check(len(stats) == len(games), 'tally:callback', lambda: 'callback called %d times for %d games' % (len(stats), len(games)))
            for n, (st, ok) in enumerate(zip(stats, exp)):
                check(st == ok, 'tally:callback', lambda: 'after game %d the callback was told %r, should be %r' % (n + 1, st, ok))
        check(result == exp[-1], 'tally:result', lambda: 'match result %r, should be %r' % (result, exp[-1]))
        if plan['summary']:
            self.check_summaries(sim, plan, games, Tally(plan['names'], plan['engines'], plan['no_swap']))

    def check_summaries(self, sim, plan, games, tally):
        """The report printed after every game."""
        text = self.cap.text()
        blocks, at = [], 0
        for n in range(len(games)):
            l = '%d of %d games finished.' % (n + 1, plan['games'])
            i = text.find(l, at)
            check(i >= 0, 'tally:summary', lambda: 'no line %r in the report %r' % (l, text[-800:]))
            if n:
                blocks.append(text[at:i])
            at = i + len(l)
        blocks.append(text[at:])
        for n, (g, block) in enumerate(zip(games, blocks)):
            t = tally.add(n, g)
            rows = block.split('\n')
            want = ['%s vs %s: %s' % (t['engine1_name'], t['engine2_name'], share(t['engine1_won'], t['engine2_won'], t['draw'])),
                    'Black vs White: ' + share(t['black_won'], t['white_won'], t['draw'])] + tally.sides()
            for l in want:
                check(l in rows, 'tally:summary', lambda: 'no line %r in the report after game %d: %r' % (l, n + 1, block[:800]))
            elo = [l for l in rows if l.startswith('Elo difference')]
            if t['engine1_won'] and t['engine2_won']:
                why = wrong_elo(elo, t['engine1_won'], t['engine2_won'], t['draw'])
                check(why is None, 'tally:elo', lambda: 'after game %d, %d-%d-%d: %s' % (n + 1, t['engine1_won'], t['engine2_won'], t['draw'], why))
                sim.probe('elo-reported')

    # -- files -------------------------------------------------------------------------
    def check_files(self, sim, plan, games, paths):
        if plan['csa']:
            self.check_csa(plan, games, paths)
        if plan['pgn']:
            text = seams.real['open'](paths['pgn'], encoding='utf-8').read()
            self.check_pgn(plan, games, text)

    def csa_texts(self, plan, paths):
        if plan['csa'] == 'multi':
            return split_csa(seams.real['open'](paths['csa'], encoding='utf-8').read())
        out = []
        for f in os.listdir(paths['csa']):
            out.append(seams.real['open'](os.path.join(paths['csa'], f), encoding='utf-8').read())
        return out

    def check_csa(self, plan, games, paths):
        texts = self.csa_texts(plan, paths)
        check(len(texts) == len(games), 'record:csa-count', lambda: '%d CSA records for %d games' % (len(texts), len(games)))
        if plan['csa'] == 'dir':
            # file names carry times the wall clock may have turned back: match them by content
            texts = sorted(texts)
            games = sorted(games, key=lambda g: expected_csa(g)[0])
            order = []
            left = list(texts)
            for g in games:
                m = [t for t in left if same_csa(g, t) is None]
                if m:
                    left.remove(m[0])
                    order.append(m[0])
                else:
                    order.append(None)
            for i, t in enumerate(order):
                if t is None and left:
                    order[i] = left.pop(0)
            texts = order
        for n, (t, g) in enumerate(zip(texts, games)):
            why = same_csa(g, t) if t is not None else 'no record'
            check(why is None, 'record:csa', lambda: 'record of game %d: %s\n%s' % (n + 1, why, (t or '')[:1500]))
            self.read_back(g, t)

    def read_back(self, g, text):
        """The package's own parser must give the game back."""
        from cshogi import CSA
        from cshogi import move_to_usi
        r = CSA.Parser.parse_str(text)
        check(len(r) == 1, 'record:read-back', lambda: '%d games in one record' % len(r))
        r = r[0]
        moves = [move_to_usi(m) for m in r.moves]
        check(moves == g.moves, 'record:read-back', lambda: 'parser gives moves %r, played %r' % (moves, g.moves))
        check(list(r.names) == g.names, 'record:read-back', lambda: 'parser gives names %r, players %r' % (r.names, g.names))
        wins = {1: 1, -1: 2, 0: 0}
        ok = [v for v in g.verdicts if v[1] == r.endgame]
        check(ok, 'record:read-back', lambda: 'parser gives end %r, expected %r' % (r.endgame, g.verdicts))
        check(not ok or any(wins[v[0]] == r.win for v in ok), 'record:read-back',
              lambda: 'parser gives winner %r for %r' % (r.win, g.verdicts))

    def check_pgn(self, plan, games, text):
        recs = parse_pgn(text)
        check(len(recs) == len(games), 'record:pgn-count', lambda: '%d PGN games for %d games' % (len(recs), len(games)))
        for n, (r, g) in enumerate(zip(recs, games)):
            why = same_pgn(plan, g, r, n + 1)
            check(why is None, 'record:pgn', lambda: 'PGN of game %d: %s\n%r' % (n + 1, why, r))


def pair(v):
    if isinstance(v, (list, tuple)):
        return list(v) if len(v) >= 2 else [v[0], v[0]]
    return [v, v]


# -- histories ---------------------------------------------------------------------------------
class Wire:
    """Per engine: the commands it was sent (with the time of sending), and its searches with the time the reply was read."""

    def __init__(self, sim, procs, n):
        self.cmds = [[] for _ in range(n)]
        stdin, read = {}, {}
        for ev in sim.log:
            if ev[1] == 'stdin':
                stdin.setdefault(ev[2], []).append((ev[0], ev[3]))
            elif ev[1] == 'line' and ev[3] == 'stdout' and ev[4].startswith(b'bestmove') and ev[4].endswith(b'\n'):
                read.setdefault(ev[2], []).append(ev[0])
        for i, b, p in procs:
            buf, out = b'', []
            for t, d in stdin.get(p.pid, ()):
                buf += d
                while b'\n' in buf:
                    l, buf = buf.split(b'\n', 1)
                    out.append((t, l.decode('utf-8', 'replace')))
            r = read.get(p.pid, [])
            k = 0
            for t, l in out:
                s = None
                if l.split()[:1] == ['go']:
                    s = b.searches[k] if k < len(b.searches) else None
                    if s is not None:
                        s['t_read'] = r[k] if k < len(r) else None
                    k += 1
                self.cmds[i].append((t, l, s, p))
        self.at = [0] * n

    def peek(self, i):
        c = self.cmds[i]
        return c[self.at[i]] if self.at[i] < len(c) else (None, None, None, None)

    def take(self, i):
        x = self.peek(i)
        self.at[i] += 1
        return x


class EndOfHistory(Exception):
    pass


class Judge:
    """Runs the reference of a match along the history."""

    def __init__(self, world, sim, plan, wire, partial=False):
        self.world, self.sim, self.plan, self.w, self.partial = world, sim, plan, wire, partial
        self.connected = [False] * len(plan['engines'])
        self.offset = 0
        self.printed = [m for m in re.finditer(r'まで(\d+)手で(.*)', world.cap.text())]
        self.nprint = 0

    def want(self, i, line, tag='proto'):
        if line == 'quit' and self.world.shared.get('died_at') is not None and self.w.peek(i)[1] != 'quit':
            return None, None, None         # it had died before
        t, l, s, p = self.w.take(i)
        if l is None and self.partial:
            raise EndOfHistory()
        if l != line:
            raise_if(tag + ':command', 'engine %d was sent %r, expected %r' % (i, l, line))
        return t, s, p

    def match(self, ids, base, plan=None, n_games=None, opening=None):
        """Judge one call of main between engines ids[0] and ids[1]."""
        plan = plan or self.plan
        games = []
        try:
            for n in range(n_games or plan['games']):
                g = self.game(plan, ids, n)
                games.append(g)
                if isinstance(plan['callback'], int) and len(games) >= plan['callback']:
                    break
            if plan['keep']:
                for i in self.order(plan, ids, n):
                    self.want(i, 'quit')
                    self.connected[i] = False
            if not self.partial and opening is None:
                for i in range(len(self.plan['engines'])):
                    t, l, s, p = self.w.peek(i)
                    check(l is None, 'proto:command', lambda: 'engine %d was sent %r after the match' % (i, l))
        except EndOfHistory:
            pass
        return games

    def order(self, plan, ids, n):
        return list(ids) if plan['no_swap'] or n % 2 == 0 else [ids[1], ids[0]]

    def opening_of(self, plan, n):
        o = plan['opening']
        if not o:
            return []
        lines = [list(l) for l in o['lines']]
        if o['index'] is not None:
            lines = [lines[o['index']]]
        else:
            random.Random(o['seed']).shuffle(lines)
        l = lines[n // 2 % len(lines)]
        return l[:max(1, o['moves'])]

    def game(self, plan, ids, n):
        sim = self.sim
        order = self.order(plan, ids, n)
        pos = {ids[0]: 0, ids[1]: 1}
        for i in order:
            if not self.connected[i]:
                self.want(i, 'usi')
                self.connected[i] = True
            if plan['ponder']:
                self.want(i, 'setoption name USI_Ponder value true')
            for k, v in plan['engines'][i]['options'].items():
                self.want(i, 'setoption name %s value %s' % (k, v))
            self.want(i, 'isready')
        rec = GameRecord()
        names = plan['names'] or [None, None]
        rec.names = [names[pos[i]] or plan['engines'][i]['name'] for i in order]
        game = shogi.Game()
        for m in self.opening_of(plan, n):
            self.note(rec, game, m, None, None)
        rec.n_open = len(rec.moves)
        for i in order:
            self.want(i, 'usinewgame')
        tm, inc, byo = pair(plan['time']), pair(plan['inc']), pair(plan['byoyomi'])
        remain = [tm[pos[i]] for i in order]
        incs = [inc[pos[i]] for i in order]
        ponder = [None, None]       # search record while pondering
        draw = plan['draw']
        last = None
        end = None
        while end is None:
            side = len(game.usi) % 2
            i = order[side]
            if len(game.usi) + 1 > draw:
                end = [(0, '%JISHOGI')]
                sim.probe('end-move-limit')
                break
            clock = {}
            if remain[0] is not None:
                clock['btime'] = remain[0]
            if remain[1] is not None:
                clock['wtime'] = remain[1]
            b = byo[pos[i]]
            if b is not None:
                clock['byoyomi'] = b
            else:
                if incs[0] is not None:
                    clock['binc'] = incs[0]
                if incs[1] is not None:
                    clock['winc'] = incs[1]
            s = ponder[side]
            hit = False
            if s is not None:
                ponder[side] = None
                hit = s['moves'][-1] == last
                self.expect_going(i, side, 'ponderhit' if hit else 'stop', game)
                t0, _, _ = self.want(i, 'ponderhit' if hit else 'stop')
            if not hit:
                self.expect_going(i, side, 'position', game)
                self.want(i, 'position startpos' + (' moves ' + ' '.join(game.usi) if game.usi else ''))
                s, t0 = self.go(i, clock, False)
            if s is None or s.get('t_read') is None:
                if self.partial:
                    raise EndOfHistory()
                raise Violation('proto:no-reply-read', 'the reply of engine %d was never read' % i)
            ns = s['t_read'] - t0
            ms = -(-ns // MS)
            best = s['best']
            pd = s['ponder']
            info = s['infos'][-1] if s['infos'] else ''
            sc = score_of(info)
            if remain[side] is not None:
                if incs[side] is not None:
                    remain[side] += incs[side]
                remain[side] -= ms
                if remain[side] < 0:
                    if remain[side] > -1000:
                        remain[side] = 0
                        sim.probe('saved-by-grace-second')
                    else:
                        end = [(-1 if side == 0 else 1, '%TIME_UP')]
                        sim.probe('end-time-up')
                        break
                elif remain[side] == 0:
                    sim.probe('clock-exactly-zero')
            p = game.pos
            m = p.legal_usi(best)
            me = 1 if side == 0 else -1
            # the ponder search that goes with this reply
            started = None
            if plan['ponder'] and pd:
                t, l, _, _ = self.w.peek(i)
                if l is not None and l.startswith('position') and l.split()[3:] == game.usi + [best, pd]:
                    self.w.take(i)
                    clock2 = dict(clock)
                    for k, v in (('btime', remain[0]), ('wtime', remain[1])):
                        if v is not None:
                            clock2[k] = v
                    started, _ = self.go(i, clock2, True)
                    ponder[side] = started
            sec = ns // SEC
            if plan['resign'] is not None and sc is not None and sc <= -plan['resign']:
                end = [(-me, '%TORYO')]
                sim.probe('end-resign-threshold')
                break
            if plan['mate_win'] and sc == 100000 and m is not None:
                self.note(rec, game, best, sec, comment_of(p, info))
                end = [(me, '%TORYO')]
                if len(game.usi) + 1 > draw and game.pos.has_legal():
                    end.append((0, '%JISHOGI'))
                sim.probe('end-mate-win')
                break
            if best == 'resign':
                end = [(-me, '%TORYO')]
                sim.probe('end-resign')
                break
            if best == 'win':
                end = [(me, '%KACHI')]
                sim.probe('end-declaration')
                break
            if m is None:
                end = [(-me, '%ILLEGAL_MOVE')]
                sim.probe('end-illegal-move')
                break
            self.note(rec, game, best, sec, comment_of(p, info))
            last = best
            p = game.pos
            mate = not p.has_legal()
            occ = game.occurrences()
            if len(occ) >= 4:
                end = self.repetition(game, occ, me)
                if len(game.usi) + 1 > draw and not mate:
                    end.append((0, '%JISHOGI'))
                break
            if mate:
                end = [(me, '%TORYO')]
                sim.probe('end-checkmate')
                break
            if plan['ponder'] and pd and started is None:
                if self.partial and self.w.peek(i)[1] is None:
                    raise EndOfHistory()
                raise_if('proto:no-ponder', 'engine %d offered ponder %s but was not told to ponder' % (i, pd))
        # the end of the game
        for side, i in enumerate(order):
            t, l, _, _ = self.w.peek(i)
            if ponder[side] is not None:
                if l is not None and l.split()[0] in ('position', 'go', 'ponderhit'):
                    raise_if('verdict:goes-on', 'game %d should be over (%s) after %s, but engine %d was sent %r' % (n + 1, end, game.usi[-6:], i, l))
                self.want(i, 'stop')
                if l is not None:
                    sim.probe('game-ended-while-pondering')
        for i in order:
            t, l, _, _ = self.w.peek(i)
            if l == 'stop':
                raise_if('proto:stop', 'engine %d was sent stop at the end of game %d without a search to stop' % (i, n + 1))
            if l is not None and l.split()[0] in ('position', 'go', 'ponderhit'):
                raise_if('verdict:goes-on', 'game %d should be over (%s) after %s, but engine %d was sent %r' % (n + 1, end, game.usi[-6:], i, l))
            self.want(i, 'gameover')
        if not plan['keep']:
            for i in order:
                self.want(i, 'quit')
                self.connected[i] = False
        rec.verdicts = end
        self.printed_result(n, rec, game)
        return rec

    def go(self, i, clock, ponder):
        t, l, s, _ = self.w.take(i)
        if l is None and self.partial:
            raise EndOfHistory()
        got, isp = parse_go(l)
        if got is None:
            raise_if('proto:command', 'engine %d was sent %r, expected go' % (i, l))
        check(isp == ponder, 'proto:ponder-flag', lambda: 'engine %d was sent %r' % (i, l))
        check(got == clock, 'clock:go', lambda: 'engine %d was sent clocks %r, should be %r' % (i, got, clock))
        return s, t

    def expect_going(self, i, side, cmd, game):
        t, l, _, _ = self.w.peek(i)
        if l is None and self.partial:
            raise EndOfHistory()
        if l is None or l.split()[0] == 'gameover' or (l == 'stop' and cmd != 'stop'):
            raise_if('verdict:ended-early', 'the game ended after %d moves (%s) although nothing ended it: engine %d was sent %r, expected %s'
                     % (len(game.usi), game.usi[-6:], i, l, cmd))

    def note(self, rec, game, best, sec, comment):
        p = game.pos
        m = p.parse_usi(best)
        rec.csa.append('+-'[p.turn < 0] + p.csa(m))
        game.push_usi(best)
        rec.moves.append(best)
        rec.times.append(sec)
        rec.comments.append(comment)

    def repetition(self, game, occ, me):
        """The fourth occurrence was just reached by a move of `me`."""
        v1 = game.perpetual(occ[-2])
        v4 = game.perpetual(occ[0])
        out = []
        for v in {v1, v4}:
            if v == 0:
                out.append((0, '%SENNICHITE'))
            elif v == me:
                # the mover kept giving check: it loses by its action
                out.append((-me, '%' + ('+' if me > 0 else '-') + 'ILLEGAL_ACTION'))
            else:
                out.append((me, '%ILLEGAL_MOVE'))       # the side to move did
        if any(v for v in (v1, v4)):
            self.sim.probe('end-perpetual-check')
            last = game.keys[-1]
            if any(k[0] == last[0] and k[3] == last[3] and k != last for k in game.keys[occ[-2]:]):
                out.append((0, '%SENNICHITE'))
        else:
            self.sim.probe('end-repetition')
        return out

    def printed_result(self, n, rec, game):
        k = self.nprint
        self.nprint += 1
        if k >= len(self.printed):
            if self.partial:
                raise EndOfHistory()
            raise_if('verdict:report', 'no result line for game %d' % (n + 1))
            return
        m = self.printed[k]
        got = (int(m[1]), m[2].strip())
        ok = []
        for w, e in rec.verdicts:
            t = {'%JISHOGI': '持将棋', '%SENNICHITE': '千日手', '%KACHI': '入玉宣言', '%TORYO': '%sの勝ち' % side_name(w),
                 '%ILLEGAL_MOVE': '%sの反則負け' % side_name(-w), '%TIME_UP': '%sの切れ負け' % side_name(-w)}.get(e, '%sの反則勝ち' % side_name(w))
            ok.append((len(game.usi), t))
        check(got in ok, 'verdict:report', lambda: 'game %d is reported as %r, should be one of %r; last moves %s' % (n + 1, got, ok, game.usi[-6:]))
        rec.verdicts = [v for v, o in zip(rec.verdicts, ok) if o == got] or rec.verdicts


def side_name(w):
    return '先手' if w > 0 else '後手'


def raise_if(cls, msg):
    """A mismatch after which the reference cannot follow: only its own property reports it."""
    if focused(cls):
        raise Violation(cls, msg)
    raise Skip(cls)


def parse_go(l):
    if l is None:
        return None, None
    w = l.split()
    if w[:1] != ['go']:
        return None, None
    d, isp, k = {}, False, 1
    while k < len(w):
        if w[k] == 'ponder':
            isp = True
            k += 1
        else:
            try:
                d[w[k]] = int(w[k + 1])
            except (IndexError, ValueError):
                d[w[k]] = None
            k += 2
    return d, isp


class Tally:
    def __init__(self, names, engines, no_swap, ids=(0, 1)):
        names = names or [None, None]
        self.n1, self.n2 = [names[k] or engines[ids[k]]['name'] for k in (0, 1)]
        self.c = {}
        self.no_swap = no_swap

    def add(self, n, g):
        first1 = self.no_swap or n % 2 == 0
        w = g.verdicts[0][0]
        for who, black in ((1, first1), (2, not first1)):
            side = 1 if black else -1
            r = 'd' if w == 0 else 'w' if w == side else 'l'
            k = (who, side, r)
            self.c[k] = self.c.get(k, 0) + 1
        return self.dict()

    def get(self, who=None, side=None, r=None):
        return sum(v for (a, b, c), v in self.c.items() if (who is None or a == who) and (side is None or b == side) and c == r)

    def dict(self):
        w1, w2, d = self.get(1, None, 'w'), self.get(2, None, 'w'), self.get(1, None, 'd')
        return {'engine1_name': self.n1, 'engine2_name': self.n2, 'engine1_won': w1, 'engine2_won': w2,
                'black_won': self.get(None, 1, 'w'), 'white_won': self.get(None, -1, 'w'), 'draw': d, 'total': w1 + w2 + d}

    def sides(self):
        out = []
        for who, name in ((1, self.n1), (2, self.n2)):
            for side, s in ((1, 'Black'), (-1, 'White')):
                out.append('{} playing {}: {}'.format(name, s, share(self.get(who, side, 'w'), self.get(who, side, 'l'), self.get(who, side, 'd'))))
        return out


def share(w, l, d):
    """Wins, losses, draws and the share of the points."""
    return '%d-%d-%d (%.1f%%)' % (w, l, d, (w + d / 2) / (w + l + d) * 100 if w + l + d else 0)


def wrong_elo(rows, w, l, d):
    """What is wrong with the rating estimate, or None."""
    if len(rows) != 1:
        return '%d rating lines' % len(rows)
    m = re.match(r'Elo difference: (\S+) \+/- (\S+), LOS: (\S+) %, DrawRatio: (\S+) %$', rows[0])
    if not m:
        return 'cannot read %r' % rows[0]
    diff, margin, los, ratio = map(float, m.groups())
    n = w + l + d
    mu = (w + d / 2) / n
    rating = lambda p: -400 * math.log10(1 / p - 1)
    sd = math.sqrt((w * (1 - mu) ** 2 + l * mu ** 2 + d * (.5 - mu) ** 2) / n / n)
    lo, hi = mu - 1.959964 * sd, mu + 1.959964 * sd
    if abs(diff - rating(mu)) > .06:
        return 'difference %s, should be %.2f' % (diff, rating(mu))
    if lo > .001 and hi < .999:
        ok = (rating(hi) - rating(lo)) / 2
        if not abs(margin - ok) <= .06 + .02 * ok:
            return 'margin %s, should be about %.1f' % (margin, ok)
    if abs(los - 50 * (1 + math.erf((w - l) / math.sqrt(2 * (w + l))))) > .06:
        return 'likelihood of superiority %s' % los
    if abs(ratio - 100 * d / n) > .06:
        return 'draw ratio %s %%, should be %.1f %%' % (ratio, 100 * d / n)
    return None


# -- record files --------------------------------------------------------------------------------
def split_csa(text):
    out, cur = [], []
    for l in text.split('\n'):
        if l == '/':
            out.append('\n'.join(cur) + '\n')
            cur = []
        else:
            cur.append(l)
    if cur != [''] and cur:
        t = '\n'.join(cur)
        out.append(t)
    return [t for t in out if t.strip()]


def parse_csa(text):
    """(names, moves, times, comments, end) by the format's own rules."""
    names, moves, times, comments, end = [None, None], [], [], [], None
    for l in text.split('\n'):
        if l.startswith('N+'):
            names[0] = l[2:]
        elif l.startswith('N-'):
            names[1] = l[2:]
        elif re.match(r'^[+-]\d{4}[A-Z]{2}$', l):
            moves.append(l)
            times.append(None)
            comments.append(None)
        elif re.match(r'^T\d+$', l) and moves:
            times[-1] = int(l[1:])
        elif l.startswith("'") and moves:
            comments[-1] = l[1:]
        elif l.startswith('%'):
            end = l
    return names, moves, times, comments, end


def expected_csa(g):
    return (g.names, g.csa, g.times, g.comments)


def same_csa(g, text):
    names, moves, times, comments, end = parse_csa(text)
    if names != g.names:
        return 'players %r, should be %r' % (names, g.names)
    if moves != g.csa:
        return 'moves %r, played %r' % (moves, g.csa)
    if times != g.times:
        return 'times %r, taken %r' % (times, g.times)
    if comments != g.comments:
        bad = [(a, b) for a, b in zip(comments, g.comments) if a != b]
        return 'comment %r, should be %r' % bad[0]
    if end not in [v[1] for v in g.verdicts]:
        return 'end %r, should be %r' % (end, g.verdicts)
    if 'PI\n+\n' not in text:
        return 'no starting position'
    return None


def parse_pgn(text):
    out = []
    cur = None
    for l in text.split('\n'):
        m = re.match(r'^\[(\w+) "(.*)"\]$', l)
        if m:
            if m[1] == 'Event':
                cur = {'tags': {}, 'text': []}
                out.append(cur)
            if cur is not None:
                cur['tags'][m[1]] = m[2]
        elif l.strip() and cur is not None:
            cur['text'].append(l)
        elif l.strip():
            out.append({'tags': {}, 'text': [l]})
    return out


def san(p, m):
    sq = lambda q: 'ihgfedcba'[8 - q // 9] + str(9 - q % 9)
    sq = lambda q: 'ihgfedcba'[q // 9] + str(9 - q % 9)
    fr, to, x = m
    if fr is None:
        return shogi.LETTER[x] + '@' + sq(to)
    t = abs(p.b[fr])
    s = '+' + shogi.LETTER[shogi.UNPROMOTE[t]] if t in shogi.UNPROMOTE else shogi.LETTER[t]
    return s + sq(fr) + sq(to) + ('+' if x else '')


def same_pgn(plan, g, r, rnd):
    res = {1: '1-0', -1: '0-1', 0: '1/2-1/2'}
    ok = [res[v[0]] for v in g.verdicts]
    t = r['tags']
    if [t.get('White'), t.get('Black')] != g.names:
        return 'players %r, should be %r' % ([t.get('White'), t.get('Black')], g.names)
    if t.get('Result') not in ok:
        return 'result %r, should be %r' % (t.get('Result'), ok)
    if t.get('Round') != str(rnd):
        return 'round %r, should be %d' % (t.get('Round'), rnd)
    if plan['no_pgn_moves']:
        return None if not r['text'] else 'moves though none were asked for'
    words = ' '.join(r['text']).split()
    exp = []
    p = shogi.Pos()
    for k, u in enumerate(g.moves):
        if k % 2 == 0:
            exp.append('%d.' % (k // 2 + 1))
        m = p.parse_usi(u)
        exp.append(san(p, m))
        p.push(m)
    if g.moves:
        exp.append(t['Result'])
    if words != exp:
        return 'moves %r, played %r' % (words, exp)
    return None


class MatchHealthy(MatchWorld):
    pass


class MatchEnds(MatchWorld):
    themes = ('repetition', 'perpetual', 'mate', 'ends', 'plain')

    def gen_options(self, rng, plan):
        plan['games'] = rng.choice([1, 2, 2, 3])
        if plan['theme'] == 'ends':
            plan['draw'] = rng.choice([30, 64, 100])


class MatchClock(MatchWorld):
    themes = ('clock',)

    def gen_options(self, rng, plan):
        plan['games'] = rng.choice([1, 2, 2, 3])
        plan['draw'] = rng.choice([12, 20, 30, 45])
        plan['ponder'] = rng.random() < .4


class MatchPonder(MatchWorld):
    themes = ('ponder', 'ponder', 'plain')

    def gen_options(self, rng, plan):
        plan['games'] = rng.choice([1, 2, 2, 3])


class MatchTally(MatchWorld):
    """Many short games: side swaps, names, openings, early stop by the callback."""
    themes = ('ends', 'plain', 'clock', 'mate', 'ends', 'plain', 'clock', 'mate', 'perpetual')
    max_draw = 40

    def gen_options(self, rng, plan):
        plan['games'] = rng.choice([2, 3, 4, 5, 6, 8] if plan['theme'] != 'perpetual' else [2, 3])
        plan['draw'] = rng.choice([3, 6, 12, 20])
        plan['summary'] = True
        plan['callback'] = rng.choice([None, 'all', 'all', 'all', 1, 2, 3])


class MatchRecord(MatchWorld):
    def gen_options(self, rng, plan):
        plan['csa'] = rng.choice([None, 'multi', 'dir', 'dir'])
        plan['pgn'] = plan['csa'] is None or rng.random() < .5


def untorn(plan, g, r):
    """The text of a PGN record without the beginning of a torn '[Event' line that may follow it."""
    t = [l for l in r['text']]
    while t and (t[-1].startswith('[') and '[Event "?"]'.startswith(t[-1])):
        t.pop()
    return t


def left_over(sim):
    """Threads that keep the process from exiting: not daemons, and waiting for something that never comes."""
    import threading
    out = []
    for th in threading.enumerate():
        for t in sim.tasks:
            if t.state == 'blocked' and th.ident == 0x7000 + t.seqno and (not th.daemon or 'ThreadPoolExecutor' in th.name) and t.name == 'thread':
                out.append('%s waits for %s' % (th.name, t.wait))
    return out


class MatchFault(MatchWorld):
    """Shared by the scenarios in which the match does not reach its end."""

    def durable(self, sim, stats):
        """How many games the program has reported as over and moved on from."""
        starts = len(re.findall(r' vs .* start\.', self.cap.text()))
        return max(len(stats), starts - 1)

    def prefix_files(self, plan, games, k, paths, more=()):
        """games: as far as the reference could follow.  The first k are durable, then comes at most one damaged or
        whole record of game k+1, then all of `more`."""
        check(len(games) >= k, 'record:reported', lambda: 'the program went on after %d games, the reference saw %d end' % (k, len(games)))
        if plan['csa'] == 'multi':
            path = paths['csa']
            texts = split_csa(seams.real['open'](path, encoding='utf-8').read()) if os.path.exists(path) else []
            self.prefix_csa(games[:k], texts, more, 1)
        elif plan['csa'] == 'dir':
            texts = self.csa_texts(plan, paths)
            left = list(texts)
            for n, g in enumerate(list(games[:k]) + list(more)):
                m = [t for t in left if same_csa(g, t) is None]
                check(m, 'record:csa', lambda: 'no intact record of game %d of %d; files: %r' % (n + 1, k, [t[-300:] for t in left][:4]))
                if m:
                    left.remove(m[0])
            check(len(left) <= 1, 'record:csa-count', lambda: '%d files for %d games, one unfinished' % (len(texts), k))
        if plan['pgn']:
            path = paths['pgn']
            recs = parse_pgn(seams.real['open'](path, encoding='utf-8').read()) if os.path.exists(path) else []
            for n, g in enumerate(games[:k]):
                if n < len(recs) and n == k - 1:
                    recs[n]['text'] = untorn(plan, g, recs[n])
                why = same_pgn(plan, g, recs[n], n + 1) if n < len(recs) else 'missing'
                check(why is None, 'record:pgn', lambda: 'PGN of game %d of %d reported: %s' % (n + 1, k, why))
            tail = recs[k:]
            for n, g in enumerate(more):
                r = tail[len(tail) - len(more) + n] if len(tail) >= len(more) else None
                why = same_pgn(plan, g, r, n + 1) if r is not None else 'missing'
                check(why is None, 'record:pgn', lambda: 'PGN of game %d after the restart: %s; the file has %r' % (n + 1, why, recs[-3:]))

    def prefix_csa(self, games, texts, more, slack):
        k = len(games)
        for n, g in enumerate(games):
            why = same_csa(g, texts[n]) if n < len(texts) else 'missing'
            check(why is None, 'record:csa', lambda: 'record of game %d of %d reported: %s\n%s' % (n + 1, k, why, (texts + ['?'] * k)[n][-800:]))
        check(len(texts) <= k + slack + len(more), 'record:csa-count', lambda: '%d records for %d games' % (len(texts), k + len(more)))
        for n, g in enumerate(more):
            j = len(texts) - len(more) + n
            why = same_csa(g, texts[j]) if j >= k else 'missing'
            check(why is None, 'record:csa', lambda: 'record of game %d after the restart: %s\n%s' % (n + 1, why, texts[j][-800:] if j >= 0 else ''))


class MatchDeath(MatchFault):
    """One engine dies at a random point of the match."""
    themes = ('plain', 'plain', 'ponder', 'ponder', 'clock', 'ends')

    def gen_options(self, rng, plan):
        plan['draw'] = rng.choice([8, 12, 20, 30])
        plan['games'] = rng.choice([1, 2, 3])

    def gen_faults(self, rng, plan):
        se = rng.random() < .6
        plan['death'] = {'engine': rng.randrange(2), 'search': se, 'cmd': rng.choice([1, 2, 3, rng.randrange(1, 10), rng.randrange(1, 30)]) if se else rng.choice([1, 2, 3, rng.randrange(4, 12), rng.randrange(4, 30), rng.randrange(4, 90)]),
                         'at': rng.random(), 'torn': rng.choice([0, 0, rng.random()]), 'code': rng.choice([0, 1, -11, -9])}
        if rng.random() < .12:
            del plan['death']
            plan['nospawn'] = {'engine': rng.randrange(2), 'n': rng.choice([0, 1, 1, 2]), 'errno': rng.choice([2, 12, 13, 24])}

    def verdict(self, sim, plan, task, why, paths, stats, fs):
        died = self.shared.get('died_at') is not None
        if task.state != 'done':
            raise Violation('term:never-ends', 'engine died: %s; the match hangs (%s) waiting for %s' % (died, why, self.waiting(sim)))
        sim.run()
        if died and task.exc is None and self.shared['owing']:
            raise Violation('term:death-unnoticed', 'an engine died owing a reply, yet the match returned %r' % (task.result,))
        w = Wire(sim, self.procs, len(plan['engines']))
        if task.exc is None:
            sim.probe('match-outlived-death' if died else 'death-not-reached')
            games = Judge(self, sim, plan, w).match(range(2), 0)
            self.check_report(sim, plan, games, task.result, stats)
            self.check_files(sim, plan, games, paths)
            return
        check(died, 'match-raised', lambda: raised(task))
        check(isinstance(task.exc, (EOFError, OSError)), 'term:death-error', lambda: 'an engine died and the match failed with\n' + raised(task))
        bad = left_over(sim)
        check(not bad, 'term:cannot-exit', lambda: 'the match failed (%r) but its threads keep the process alive: %s' % (task.exc, bad))
        games = Judge(self, sim, plan, w, partial=True).match(range(2), 0)
        self.prefix_files(plan, games, self.durable(sim, stats), paths)


class MatchCrash(MatchFault):
    """The match program is killed at a random point, then started again with the same record files."""

    def gen_options(self, rng, plan):
        plan['csa'] = rng.choice(['multi', 'multi', 'dir', None])
        plan['pgn'] = plan['csa'] is None or rng.random() < .5
        plan['games'] = rng.choice([1, 2, 3, 4])
        plan['draw'] = rng.choice([3, 8, 12, 20])
        plan['callback'] = rng.choice([None, 'all', 'all'])
        plan['bufsize'] = rng.choice([1, 16, 64, 300, None])
        plan['games2'] = rng.choice([1, 2])

    def gen_faults(self, rng, plan):
        plan['crash'] = rng.random()
        plan['crash_after'] = rng.choice(['event', 'write', 'write'])
        if plan['theme'] in ('repetition', 'perpetual', 'mate'):
            plan['draw'] = 40

    def drive(self, sim, plan, task, fs):
        fs.bufsize = plan['bufsize']
        fs.yields = True
        k = plan['crash']
        sim.exact = True
        if plan['crash_after'] == 'event':
            n = int(k * k * 600 * plan['games'])
            return sim.run(lambda: task.state == 'done' or len(sim.log) >= n)
        n = int(k * 3 * plan['games'] * (1 if plan['bufsize'] is None else 12 if plan['bufsize'] < 100 else 3))
        return sim.run(lambda: task.state == 'done' or fs.nwrites >= n)

    def verdict(self, sim, plan, task, why, paths, stats, fs):
        if task.state == 'done':
            sim.probe('crash-not-reached')
            if task.exc is not None:
                raise Violation('match-raised', raised(task))
            sim.run()
            games = Judge(self, sim, plan, Wire(sim, self.procs, 2)).match(range(2), 0)
            self.check_files(sim, plan, games, paths)
            return
        check(why == 'until', 'match-never-ends', lambda: why)
        k = self.durable(sim, stats)
        sim.fault('client-crash')
        sim.event('crash', fs.nwrites)
        fs.crash()
        if not sim.kill('client'):
            raise RuntimeError('cannot kill the client')
        for _, _, p in self.procs:
            p.engine.die(0)
        sim.stop_reason = None
        sim.run()
        games = Judge(self, sim, plan, Wire(sim, self.procs, 2), partial=True).match(range(2), 0)
        if k:
            sim.probe('crash-after-%d-games' % k)
        self.prefix_files(plan, games, k, paths)
        if plan['csa'] == 'multi' and os.path.exists(paths['csa']):
            t = seams.real['open'](paths['csa'], encoding='utf-8').read()
            if t and not t.endswith('\n'):
                sim.probe('torn-last-line')
        # start again
        self.procs = []
        self.cap.parts.clear()
        plan2 = dict(plan, games=plan['games2'], callback='all')
        stats2 = []
        from cshogi import cli
        task2 = sim.spawn('match2', lambda: self.play(cli, plan2, paths, stats2), group='client2')
        sim.stop_reason = None
        log0 = len(sim.log)
        why = sim.run(lambda: task2.state == 'done')
        if task2.state != 'done':
            raise Violation('match-never-ends', '%s; %s' % (why, self.waiting(sim)))
        if task2.exc is not None:
            raise Violation('record:restart', 'after a crash the match cannot be started again:\n' + raised(task2))
        sim.probe('restarted')
        more = Judge(self, sim, plan2, Wire(sim, self.procs, 2)).match(range(2), 0)
        self.prefix_files(plan, games, k, paths, more)
        self.parse_whole(plan, games[:k], more, paths)

    def parse_whole(self, plan, games, more, paths):
        """The package's own reader on the file that survived: it may refuse the torn record, but never make games up."""
        if plan['csa'] != 'multi':
            return
        from cshogi import CSA, move_to_usi
        try:
            recs = CSA.Parser.parse_file(paths['csa'])
        except (ValueError, RuntimeError):
            return
        got = [[move_to_usi(m) for m in r.moves] for r in recs]
        for n, g in enumerate(games):
            check(n < len(got) and got[n] == g.moves and recs[n].endgame in [v[1] for v in g.verdicts], 'record:read-back',
                  lambda: 'the reader gives game %d of the surviving file as %r' % (n + 1, got[n] if n < len(got) else None))
        for n, g in enumerate(more):
            j = len(got) - len(more) + n
            check(j >= len(games) and got[j] == g.moves, 'record:read-back', lambda: 'the reader loses or changes game %d written after the restart' % (n + 1))


class MatchDisk(MatchFault):
    """The disk fills up, fails or writes short while the records are written."""

    def gen_options(self, rng, plan):
        plan['csa'] = rng.choice(['multi', 'multi', 'dir', None])
        plan['pgn'] = plan['csa'] is None or rng.random() < .6
        plan['games'] = rng.choice([1, 2, 3])
        plan['draw'] = rng.choice([3, 8, 12, 20])
        plan['callback'] = rng.choice([None, 'all', 'all'])
        plan['bufsize'] = rng.choice([16, 64, 300, None, None])

    def gen_faults(self, rng, plan):
        if plan['theme'] in ('repetition', 'perpetual', 'mate'):
            plan['draw'] = 40
        kind = rng.choice(['enospc', 'enospc', 'eio', 'short', 'open'])
        if kind == 'open':
            plan['disk'] = {'open_error': rng.choice([1, 1, 2, 3])}
        else:
            hi = 3 * plan['games'] * (1 if plan['bufsize'] is None else 12 if plan['bufsize'] < 100 else 3)
            plan['disk'] = {'writes': [{'n': rng.randrange(1, hi + 1), 'kind': kind, 'frac': rng.random(), 'sticky': rng.random() < .6}]}
            if kind == 'short':
                plan['disk']['writes'] = [{'n': n, 'kind': kind, 'frac': rng.random()} for n in rng.sample(range(1, hi + 4), 3)]

    def drive(self, sim, plan, task, fs):
        fs.bufsize = plan['bufsize']
        return sim.run(lambda: task.state == 'done')

    def verdict(self, sim, plan, task, why, paths, stats, fs):
        if task.state != 'done':
            raise Violation('disk:never-ends', '%s; %s' % (why, self.waiting(sim)))
        k = self.durable(sim, stats)
        failed = any(n in ('disk-enospc', 'disk-eio', 'disk-open-error') for n in sim.faults)
        sim.run()
        if not failed:
            if task.exc is not None:
                raise Violation('match-raised', raised(task))
            games = Judge(self, sim, plan, Wire(sim, self.procs, 2)).match(range(2), 0)
            self.check_report(sim, plan, games, task.result, stats)
            self.check_files(sim, plan, games, paths)
            return
        check(task.exc is not None, 'disk:error-swallowed', lambda: 'writing a record failed (%r), yet the match returned %r' % (sim.faults, task.result))
        check(isinstance(task.exc, OSError), 'disk:error', lambda: 'writing a record failed, and the match ended with\n' + raised(task))
        bad = left_over(sim)
        check(not bad, 'disk:cannot-exit', lambda: 'the match failed (%r) but its threads keep the process alive: %s' % (task.exc, bad))
        games = Judge(self, sim, plan, Wire(sim, self.procs, 2), partial=True).match(range(2), 0)
        self.prefix_files(plan, games, k, paths)
        if k:
            sim.probe('disk-failed-after-%d-games' % k)


class League(MatchWorld):
    """python -m cshogi.cli with three engines (or two): the command line, and who meets whom."""
    themes = ('plain', 'ends', 'clock', 'mate')
    n_engines = 3
    max_draw = 40

    def gen_options(self, rng, plan):
        plan['games'] = rng.choice([1, 2, 2, 3, 4])
        plan['draw'] = rng.choice([3, 6, 12, 20])
        plan['callback'] = None
        plan['summary'] = True
        plan['cli2'] = rng.random() < .25

    def gen_faults(self, rng, plan):
        n = 2 if plan['cli2'] else 3
        plan['names'] = [rng.choice([None, 'N%d' % i]) for i in range(n)]
        for k, vals in (('time', [2000, 10000, 500, 60000]), ('inc', [0, 1000, 100]), ('byoyomi', [1000, 500, 0])):
            if plan[k] is not None:
                plan[k] = [rng.choice(vals) for _ in range(rng.choice([1, n]))]
        for e in plan['engines']:
            e['options'] = {k: str(v) for k, v in e['options'].items()}
        for e in plan['engines']:
            # 'ends' are counted per engine in launches of its own games
            for d in e['ends']:
                d['g'] = rng.randrange(1, plan['games'] * 2 + 1)

    def opponent_plan(self, plan, idx):
        return plan['engines'][(idx + 1) % len(plan['engines'])]

    def per_engine(self, plan, k):
        n = 2 if plan['cli2'] else 3
        v = plan[k]
        if v is None:
            return [None] * n
        return list(v) if len(v) == n else [v[0]] * n

    def inc_of(self, plan, idx):
        return self.per_engine(plan, 'inc')[idx]

    def shrinks(self, plan):
        for q in MatchWorld.shrinks(self, plan):
            if q['names'] is not None and q['callback'] is None:
                yield q

    def argv(self, plan, paths):
        n = 2 if plan['cli2'] else 3
        a = ['/opt/engines/engine%d' % i for i in range(n)]
        for i in range(n):
            o = plan['engines'][i]['options']
            if o:
                a += ['--options%d' % (i + 1), ','.join('%s:%s' % kv for kv in o.items())]
            if plan['names'][i]:
                a += ['--name%d' % (i + 1), plan['names'][i]]
        a += ['--games', str(plan['games']), '--draw', str(plan['draw'])]
        for k in ('resign',):
            if plan[k] is not None:
                a += ['--' + k, str(plan[k])]
        for k in ('byoyomi', 'time', 'inc'):
            if plan[k] is not None:
                a += ['--' + k] + [str(x) for x in plan[k]]
        for k, f in (('mate_win', '--mate-win'), ('ponder', '--ponder'), ('no_swap', '--no-swap'), ('keep', '--keep-process'),
                     ('no_pgn_moves', '--no-pgn-moves'), ('display', '--display'), ('debug', '--debug')):
            if plan[k]:
                a.append(f)
        o = plan['opening']
        if o:
            a += ['--opening', paths['opening'], '--opening-moves', str(o['moves']), '--opening-seed', str(o['seed'])]
            if o['index'] is not None:
                a += ['--opening-index', str(o['index'])]
        if paths.get('csa'):
            a += ['--csa', paths['csa']]
            if plan['csa'] == 'multi':
                a.append('--multi-csa')
        if paths.get('pgn'):
            a += ['--pgn', paths['pgn']]
        return a

    def play(self, cli, plan, paths, stats):
        import runpy
        import sys
        old = sys.argv
        sys.argv = ['cshogi.cli'] + self.argv(plan, paths)
        try:
            runpy.run_module('cshogi.cli', run_name='__main__')
        finally:
            sys.argv = old

    def verdict(self, sim, plan, task, why, paths, stats, fs):
        if task.state != 'done':
            raise Violation('match-never-ends', '%s; %s' % (why, self.waiting(sim)))
        if task.exc is not None:
            raise Violation('match-raised', raised(task))
        sim.run()
        j = Judge(self, sim, plan, Wire(sim, self.procs, len(plan['engines'])))
        text = self.cap.text()
        if plan['cli2']:
            games = j.match((0, 1), 0)
            self.check_summaries(sim, plan, games, Tally(plan['names'], plan['engines'], plan['no_swap']))
            self.check_protocol(plan)
            self.check_files(sim, plan, games, paths)
            sim.probe('cli-match')
            return
        order = None
        if plan['opening']:
            o = plan['opening']
            order = [o['index']] if o['index'] is not None else list(range(len(o['lines'])))
            if o['index'] is None:
                random.Random(o['seed']).shuffle(order)
        total = {}
        games = []
        lines = []
        for n in range(0, plan['games'], 2):
            for a, b in ((0, 1), (0, 2), (1, 2)):
                pl = dict(plan, games=2, no_swap=False, names=[plan['names'][a], plan['names'][b]])
                for k in ('time', 'inc', 'byoyomi'):
                    v = self.per_engine(plan, k)
                    pl[k] = [v[a], v[b]]
                if order:
                    pl['opening'] = dict(plan['opening'], index=order[n // 2 % len(order)])
                gs = j.match((a, b), 0, pl, 2, opening=True)
                games += gs
                tally = Tally(pl['names'], plan['engines'], False, (a, b))
                for i, g in enumerate(gs):
                    r = tally.add(i, g)
                t = total.setdefault((a, b), [0, 0, 0])
                for i, k in enumerate(('engine1_won', 'engine2_won', 'draw')):
                    t[i] += r[k]
                names = (r['engine1_name'], r['engine2_name'])
                lines.append('{} vs {}: {}'.format(*names, share(*t)))
        for i in range(3):
            l = j.w.peek(i)[1]
            check(l is None, 'proto:command', lambda: 'engine %d was sent %r after the league' % (i, l))
        got = [l for l in text.split('\n') if re.match(r'.* vs .*: \d+-\d+-\d+ ', l)]
        ok = len(got) == len(lines) and all(a == b for a, b in zip(got, lines))
        check(ok, 'tally:league', lambda: 'standings %r, should be %r' % (got, lines))
        sim.probe('league')
        self.check_protocol(plan)
        self.check_files(sim, plan, games, paths)

    def check_pgn(self, plan, games, text):
        recs = parse_pgn(text)
        check(len(recs) == len(games), 'record:pgn-count', lambda: '%d PGN games for %d games' % (len(recs), len(games)))
        for n, (r, g) in enumerate(zip(recs, games)):
            why = same_pgn(plan, g, r, (n % 2 if not plan['cli2'] else n) + 1)
            check(why is None, 'record:pgn', lambda: 'PGN of game %d: %s\n%r' % (n + 1, why, r))
