"""The page itself: the scripts of board.html and board.js in simulated browsers, fed by the real server.

Real code: the page's scripts (run by node), the template, the server and match process, engines' client, boards.
Stand-ins: DOM and jQuery (page.js), the people in front of the screens, network, timers, engines, clocks.
"""
import copy
import json
import os
import random
import re
import select
import subprocess

from . import seams, shogi, world
from .kernel import MS, SEC
from .w_match import choose_move, pos_fast
from .w_web import Browser, WebMatch, WebReplay
from .world import Skip, Violation, check, raised

HREF = {shogi.P: 'pawn', shogi.L: 'lance', shogi.N: 'knight', shogi.S: 'silver', shogi.B: 'bishop', shogi.R: 'rook', shogi.G: 'gold', shogi.K: 'king',
        shogi.PP: 'pro-pawn', shogi.PL: 'pro-lance', shogi.PN: 'pro-knight', shogi.PS: 'pro-silver', shogi.HO: 'horse', shogi.DR: 'dragon'}
NUM = ['', '一', '二', '三', '四', '五', '六', '七', '八', '九', '十']
HANDS = [(shogi.P, '歩', 'P'), (shogi.L, '香', 'L'), (shogi.N, '桂', 'N'), (shogi.S, '銀', 'S'), (shogi.G, '金', 'G'), (shogi.B, '角', 'B'), (shogi.R, '飛', 'R')]


class Node:
    """The process that runs the page's scripts: answers one request after the other, does nothing on its own."""
    proc = None

    @classmethod
    def ask(cls, q):
        p = cls.proc
        if p is None or p.poll() is not None:
            p = cls.proc = seams.real['Popen'](['node', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'page.js')],
                                               stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        p.stdin.write(json.dumps(q).encode() + b'\n')
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError('node ended')
        return json.loads(line)


_static = {}


def static_files():
    d = os.path.join(world.PKG, 'cshogi', 'web', 'static')
    if d not in _static:
        out = {}
        for f in sorted(os.listdir(d)):
            if f.endswith('.js'):
                out[f] = seams.real['open'](os.path.join(d, f), encoding='utf-8').read()
        _static[d] = out
    return _static[d]


def sq_name(sq):
    return str(sq // 9 + 1) + 'abcdefghi'[sq % 9]


def xy(sq):
    return (20.5 + (8 - sq // 9) * 20, 10.5 + sq % 9 * 20)


class Screen:
    """What the page must show, and what it shows."""

    def __init__(self, start=shogi.START):
        self.start = start
        self.moves = []
        self.usi = []
        self.number = 0
        self.field = None
        self.names = None
        self._pos = {}

    def told(self, moves, usi):
        self.moves, self.usi = moves, usi

    def select(self, n):
        if self.moves and 0 <= n <= len(self.moves):
            self.number = n
            self.field = str(n)
            return True

    def plies(self):
        n = self.number
        if self.moves and n == len(self.moves) and self.moves[-1]['move'] == 0:
            n -= 1
        return n

    def pos(self, n):
        p, last = shogi.Pos(self.start), None
        for u in self.usi[:n]:
            last = p.parse_usi(u)
            p.push(last)
        return p, last

    def compare(self, v):
        n = self.plies()
        p, last = self.pos(n)
        want = {sq_name(s): ('#%s-%s' % ('black' if x > 0 else 'white', HREF[abs(x)]),) + xy(s) for s, x in enumerate(p.b) if x}
        got = {i: (h, float(x), float(y)) for i, h, x, y in v['use']}
        check(got == want and len(v['use']) == len(want), 'page:board', lambda: 'after %d moves (%s) the page shows %s' % (
            n, ' '.join(self.usi[:n][-4:]), sorted(set(got.items()) ^ set(want.items()))[:6]))
        free = sorted(sq_name(s) for s, x in enumerate(p.b) if not x)
        check(sorted(v['free']) == free, 'page:board', lambda: 'empty squares that can be clicked: %s, should be %s' % (sorted(v['free']), free))
        lit = [] if last is None else [xy(last[1])] + ([] if last[0] is None else [xy(last[0])])
        check(sorted((float(x), float(y)) for x, y in v['rects']) == sorted(lit), 'page:board', lambda: 'marked squares %r, last move %s' % (v['rects'], self.usi[n - 1:n]))
        for c, col in ((1, 'black'), (-1, 'white')):
            seq = sorted((-y, t, i) for i, t, y, tr in v['texts'] if ('180' in tr) == (c < 0))
            exp = []
            for t, k, l in HANDS:
                m = p.hand[c][t]
                if m >= 11:
                    exp += [(NUM[m % 10], None), ('十', None)]
                elif m >= 2:
                    exp.append((NUM[m], None))
                if m:
                    exp.append((k, col + '-' + l))
            seq = [(t, i) for _, t, i in seq]
            check(seq[:-3] == exp and ''.join(t for t, _ in seq[-3:]) == ('手先☗' if c > 0 else '手後☖'), 'page:hand',
                  lambda: 'after %d moves the hand of %s is shown as %r, should be %r' % (n, col, seq, exp))
        rows = [[str(m['number']), m['kif_move'], '%s秒' % m['time']] for m in self.moves]
        check(v['rows'] == rows, 'page:rows', lambda: 'moves listed: %r, should be %r' % (v['rows'][-4:], rows[-4:]))
        act = [self.number - 1] if self.number > 0 and self.moves else []
        check(v['active'] == act, 'page:rows', lambda: 'marked rows %r of %d, move %d is shown' % (v['active'], len(rows), self.number))
        if self.field is not None and self.moves:
            check(v['number'] == self.field, 'page:number', lambda: 'the page says it shows move %r, should be %r' % (v['number'], self.field))
        # evaluation and variation of the last move of either side
        exp = []
        for i in (n - 1, n - 2):
            if i < 0:
                exp.append(['', ''])
            else:
                m = self.moves[i]
                exp.append(['' if m['eval'] in (None, 'null') else str(m['eval']), m['pv']])
        side = ('white', 'black') if self.mover(n) else ('black', 'white')
        for k in (0, 1):
            g = v[side[k]]
            check(g[0] == exp[k], 'page:comment', lambda: 'after %d moves the page shows evaluation and variation %r for %s, should be %r' % (n, g[0], side[k], exp[k]))
            check(g[1] == (k == 0), 'page:comment', lambda: 'after %d moves the wrong side\'s variation is emphasised' % n)
        if self.names:
            check(v['names'] == self.names, 'page:names', lambda: 'the page names the players %r, should be %r' % (v['names'], self.names))

    def mover(self, n):
        """Was the last move shown White's?"""
        return (n % 2 == 0) == (self.start.split(' ')[1] == 'b')


class PageBrowser(Browser):
    """A browser with the real page and somebody in front of it."""

    def __init__(self, world_, b, idx):
        self.scr = Screen()
        self.loaded = False
        self.sel = None             # what the player has picked up, and what the page had been told by then
        self.version = 0
        self.human = ''
        self.auto = None
        self.over_at, self.was_over = None, False
        self.due = None             # since when the page ought to be polling
        self.timers = {}
        self.late = b.get('after', 0)
        self.gen = 0
        self.waiting = None         # what the next request for a move must be
        self.dialog = None
        Browser.__init__(self, world_, b, idx)

    # -- network -----------------------------------------------------------------------
    def open(self):
        self.token += 1
        tok, g = self.token, self.gen

        def got(resp):
            if self.gen != g or self.done:
                return
            self.token += 1
            if resp.get('text') is None:
                self.sim.after(2000 * MS, lambda: self.gen == g and self.open())
                return
            self.load(resp['text'])
        self.net('/', None, got)
        self.sim.after(self.b['timeout'] * MS, lambda: self.gen == g and tok == self.token and self.open())

    def net(self, path, args, cb):
        sim, b = self.sim, self.b
        r = {'id': self.w.new_id(), 'path': path, 'args': args, 'raw': None, 'browser': self.idx}

        def back(resp):
            if sim.chance(b['loseresp']):
                sim.fault('response-lost')
                return
            sim.after(self.rng.choice(b['latency']) * MS, lambda: cb(resp))
        lat = self.rng.choice(b['latency']) * MS
        if sim.chance(b['lose']):
            sim.fault('request-lost')
            return
        sim.after(lat, lambda: self.w.arrive(r, back))
        if sim.chance(b['dup']):
            sim.fault('request-duplicated')
            r2 = dict(r, id=self.w.new_id(), dup=True)
            sim.after(lat + self.rng.choice([0, 1, 150, 700, 5000]) * MS, lambda: self.w.arrive(r2, None))

    # -- the page ----------------------------------------------------------------------
    def load(self, text):
        told, human = WebMatch.parse_page(self, text)
        m = re.search(r'let autoupdate = (\w+);', text)
        if told is None or m is None:
            raise Skip('the page is written in another way')
        self.gen += 1
        self.timers = {}
        self.sel = self.dialog = self.waiting = None
        self.loaded = True
        self.human = human
        self.auto = m[1] == 'true'
        self.scr.number, self.scr.field, self.scr.names = 0, None, None
        self.tell(told)
        self.over_at, self.was_over = None, False
        self.due = None
        self.do({'op': 'load', 'html': text, 'scripts': static_files()}, 'opened the page')
        self.sim.probe('page-opened')
        self.user()

    def tell(self, moves):
        usi = self.w.usi_of(moves)
        if usi is None:
            raise Skip('the server tells no game')
        self.version += 1
        self.scr.told(moves, usi)
        if not self.scr.select(len(moves)):
            self.scr.number = 0
        if not self.is_over():
            self.over_at = None

    def is_over(self):
        return bool(self.scr.moves) and self.scr.moves[-1]['move'] == 0

    def do(self, q, what):
        """One event for the page; then what it did and what it shows."""
        if not self.loaded or self.done:
            return None
        r = Node.ask(dict(q, page=self.idx, now=self.sim.now // MS))
        self.sim.event('page', self.idx, what)
        if 'unsupported' in r:
            self.sim.probe('page-beyond-the-stand-in')
            raise Skip('the page uses ' + r['unsupported'])
        check('error' not in r, 'page:script-error', lambda: '%s: %s' % (what, r['error']))
        if r.get('missing'):
            return r
        asked = False
        for fx in r['fx']:
            k = fx[0]
            if k == 'timer':
                self.timers[fx[1]] = (fx[2], fx[3])
                self.sim.after(max(1, int(fx[2])) * MS, lambda i=fx[1], g=self.gen: self.tick(i, g))
            elif k == 'clear':
                self.timers.pop(fx[1], None)
            elif k == 'request':
                asked = True
                self.request(fx[1], fx[2], fx[3], what)
            elif k == 'dialog':
                check(self.waiting and self.waiting[0] == 'ask', 'page:dialog', lambda: 'the page asks whether to promote after: %s' % what)
                self.dialog = self.waiting
                self.waiting = None
        if self.waiting:
            w, self.waiting = self.waiting, None
            check(False, 'page:move-not-sent', lambda: 'after %s the page did nothing, should %s' % (what, 'ask' if w[0] == 'ask' else 'send %r' % (w[1],)))
        if self.auto is not None and self.is_over() and self.over_at is None:
            self.over_at = self.sim.now
            self.was_over = True
        self.scr.compare(r['view'])
        v = r['view']
        if self.is_over():
            if self.auto and self.sim.now > self.over_at + 1100 * MS:
                check(not v['auto'], 'page:polls-forever', lambda: 'the game is over, but the page still means to ask for more')
        elif self.auto is not None and not self.was_over:      # an answer overtaken by the final one may arrive after it
            check(v['auto'] == self.auto, 'page:autoupdate', lambda: 'automatic update is shown as %r, should be %r' % (v['auto'], self.auto))
        self.mind(v)
        return r

    def mind(self, v):
        """Is the page expected to keep asking?"""
        want = self.auto and not self.is_over() and self.human == '' and v['auto']
        if not want:
            self.due = None
        elif self.due is None:
            self.due = self.sim.now
            self.watch()

    def watch(self):
        t, g = self.due, self.gen
        self.sim.after(1300 * MS, lambda: self.gen == g and not self.done and self.due == t and self.overdue(t))

    def overdue(self, t):
        check(False, 'page:stops-polling', lambda: 'the other side is to move, but the page has not asked for news for %.1f s' % ((self.sim.now - t) / SEC))

    def tick(self, i, g):
        if self.gen != g or self.done or i not in self.timers:
            return
        ms, again = self.timers[i]
        if again:
            self.sim.after(max(1, int(ms)) * MS, lambda: self.tick(i, g))
        else:
            del self.timers[i]
        self.do({'op': 'timer', 'id': i}, 'its timer')

    def request(self, rid, path, args, what):
        g = self.gen
        self.sim.event('page-request', self.idx, path, repr(sorted(args.items())))
        if path == '/update':
            check(self.human == '', 'page:asks-in-vain', lambda: 'the page asks for news although it is %s\'s turn to move by hand' % self.human)
            if self.over_at is not None:
                check(what != 'its timer' or self.sim.now <= self.over_at + 1100 * MS, 'page:polls-forever', lambda: 'the game is over, but the page asks for news %.1f s later' % (
                    (self.sim.now - self.over_at) / SEC))
            if self.due is not None:
                self.due = self.sim.now
                self.watch()
        elif path == '/move':
            exp = self.waiting
            check(exp is not None and exp[0] == 'send', 'page:sends-on-its-own', lambda: 'the page sends %r after: %s' % (args, what))
            self.waiting = None
            if exp is not None:
                num = str(len(self.scr.moves) + 1)
                check(args.get('number') == num, 'page:wrong-number', lambda: 'the page sends %r for move %s' % (args, num))
                if exp[1] is not None:
                    check(args.get('move') == exp[1], 'page:wrong-move', lambda: 'the player made the move %s, the page sends %r' % (exp[1], args))
                    self.sim.probe('page-move-sent')
        else:
            raise Skip('the page asks for ' + path)

        def got(resp):
            if self.gen != g or self.done:
                return
            data = resp.get('json')
            if data is None:
                self.do({'op': 'answer', 'id': rid, 'ok': False, 'status': resp['status']}, 'a failed request')
                return
            older = len(data['moves']) < len(self.scr.moves)
            if older:
                self.sim.probe('older-answer-arrives-later')
            self.human = data['human']
            self.scr.names = None
            if None not in data['names'] and data['names'][0] != 'None':
                self.scr.names = '▲%s △%s' % tuple(data['names'])
            if self.sel:
                self.sim.probe('answer-while-a-piece-is-picked-up')
            self.tell(data['moves'])
            self.do({'op': 'answer', 'id': rid, 'ok': True, 'data': data}, 'the answer to %s' % path)
        self.net(path, {k: int(v) if k == 'number' and v.lstrip('-').isdigit() else v for k, v in args.items()} or None, got)

    # -- the person --------------------------------------------------------------------
    def user(self):
        g = self.gen
        self.sim.after(self.rng.choice(self.b['think']) * MS + MS, lambda: self.gen == g and self.act_user())

    def act_user(self):
        if self.done:
            return
        rng = self.rng
        if self.dialog:                 # nothing else can be clicked while the page asks
            self.answer(rng.random() < .5)
            return self.user()
        if self.is_over():
            if self.late <= 0:
                self.done = True
                return
            self.late -= 1
            self.navigate()
            return self.user()
        n = len(self.scr.moves)
        side = n % 2
        k = rng.random()
        if k < self.b['fidget']:
            self.fidget()
        elif self.human and side in self.b['sides'] and self.human == ('black', 'white')[side]:
            if self.scr.number != n:
                self.click('#btn-last', n)
            else:
                self.play_page()
                return
        elif k < self.b['fidget'] * 2:
            self.navigate()
        elif self.human and rng.random() < .1:
            # somebody else's turn: this page does not ask for news by itself
            self.open()
        self.user()

    def click(self, sel, to=None, **kw):
        if to is not None:
            self.scr.select(to)
        self.do(dict({'op': 'click', 'sel': sel}, **kw), 'a click on %s' % sel)

    def navigate(self):
        rng, s = self.rng, self.scr
        n = len(s.moves)
        k = rng.choice(['first', 'back', 'next', 'last', 'number', 'row', 'next', 'back'])
        self.sim.probe('page-navigation')
        if k == 'first':
            self.click('#btn-first', 0)
        elif k == 'back':
            self.click('#btn-back', s.number - 1)
        elif k == 'next':
            self.click('#btn-next', s.number + 1)
        elif k == 'last':
            self.click('#btn-last', n)
        elif n:
            x = rng.randrange(n + 1) if k == 'number' else rng.randrange(1, n + 1)
            s.select(x)
            if k == 'number':
                self.do({'op': 'type', 'sel': '#move-number', 'text': str(x)}, 'the number %d typed' % x)
            else:
                self.do({'op': 'click', 'row': x - 1}, 'a click on row %d' % x)

    def fidget(self):
        rng, s = self.rng, self.scr
        k = rng.choice(['wrong-piece', 'wrong-hand', 'right-button', 'update', 'toggle', 'reload', 'pick-and-drop', 'pick-and-drop', 'pick-and-drop'])
        if k == 'wrong-piece' and self.sel is None:
            self.mouse(rng.choice(['5a', '5i', '5e', '1c', '9g']))
            if self.sel is not None:
                self.mouse(self.sel[1])
                if self.dialog:
                    self.answer(False)
        elif k == 'wrong-hand' and self.sel is None and self.human:
            p, _ = s.pos(s.plies())
            c = -1 if self.human == 'black' else 1
            other = [('black-' if c > 0 else 'white-') + l for t, _, l in HANDS if p.hand[c][t]]
            free = [q for q in range(81) if not p.b[q]]
            if other:
                self.mouse(rng.choice(other))
                self.mouse(sq_name(rng.choice(free)))
        elif k == 'right-button' and self.sel is None:
            self.do({'op': 'mouse', 'id': '7g', 'button': 2}, 'a right click')
        elif k == 'update':
            self.click('#btn-update')
        elif k == 'toggle' and self.b.get('toggles') and not self.is_over():
            self.auto = not self.auto
            self.click('#autoupdate')
            g = self.gen

            def again():
                if self.gen == g and not self.done and not self.is_over() and not self.auto:
                    self.auto = True
                    self.click('#autoupdate')
            if not self.auto:
                self.sim.after(rng.choice([200, 2500]) * MS, again)
        elif k == 'reload' and rng.random() < .3:
            self.sim.probe('page-reloaded')
            self.open()
        elif k == 'pick-and-drop' and self.human and self.sel is None and s.number == len(s.moves):
            p, _ = s.pos(s.plies())
            own = [sq_name(q) for q, x in enumerate(p.b) if x and (x > 0) == (self.human == 'black')]
            deep = [x for x in own if x[1] in ('abc' if self.human == 'black' else 'ghi')]
            own += [self.human + '-' + l for t, k, l in HANDS if p.hand[1 if self.human == 'black' else -1][t]]
            self.mouse(rng.choice(deep if deep and rng.random() < .5 else own))
            if rng.random() < .25:
                # lets go beside the board or on a piece in hand, which is no move, and perhaps picks up another piece
                hands = [x for x in own if '-' in x]
                self.mouse(rng.choice(hands) if hands and rng.random() < .5 else None, rng.random() < .1)
                if rng.random() < .5:
                    return
                self.mouse(rng.choice(own))
            self.mouse(sq_name(rng.randrange(81)), rng.random() < .1)
            if self.dialog:
                self.answer(rng.random() < .5)

    def mouse(self, el, shift=False):
        """A click on a square ('7g'), on a piece in hand ('black-P') or beside them (None)."""
        s = self.scr
        if el is None:
            self.sel = None
            return self.do({'op': 'mouse', 'sel': '#board svg', 'shift': shift}, 'a click beside the squares')
        p, _ = s.pos(s.plies())
        what = 'a click on %s%s' % (el, ' with shift' if shift else '')
        hand = '-' in el
        pc = 0 if hand else p.b[(int(el[0]) - 1) * 9 + 'abcdefghi'.index(el[1])]
        if self.sel is None:
            col = el[:5] if hand else 'black' if pc > 0 else 'white' if pc < 0 else None
            if col == self.human and s.field == str(len(s.moves)) or (col == self.human and not s.moves):
                self.sel = (col, el, None if hand else HREF[abs(pc)], self.version)
        else:
            col, fr, kind, ver = self.sel
            self.sel = None
            if not hand:
                if ver != self.version:
                    # the page was told something else in between; whatever it sends, it must be for the turn it now shows
                    self.waiting = ('either', None)
                    return self.maybe(el, shift, what)
                u = (fr[-1] + '*' if '-' in fr else fr) + el
                if shift:
                    self.waiting = ('send', u + '+')
                elif '-' in fr:
                    self.waiting = ('send', u)
                else:
                    zone = 'abc' if col == 'black' else 'ihg'
                    can = kind in ('pawn', 'lance', 'knight', 'silver', 'bishop', 'rook')
                    must = can and (el[1] == zone[0] and kind in ('pawn', 'lance', 'knight') or el[1] == zone[1] and kind == 'knight')
                    if must:
                        self.waiting = ('send', u + '+')
                    elif can and (el[1] in zone or fr[1] in zone):
                        self.waiting = ('ask', u)
                    else:
                        self.waiting = ('send', u)
        self.do({'op': 'mouse', 'id': el, 'shift': shift}, what)

    def maybe(self, el, shift, what):
        """The second click after the page was told something new: what is sent is not judged, only when."""
        old_req, old_do = self.request, self.do
        self.waiting = None
        r = Node.ask({'op': 'mouse', 'id': el, 'shift': shift, 'page': self.idx, 'now': self.sim.now // MS})
        self.sim.event('page', self.idx, what)
        if 'unsupported' in r:
            raise Skip('the page uses ' + r['unsupported'])
        check('error' not in r, 'page:script-error', lambda: '%s: %s' % (what, r['error']))
        for fx in r.get('fx', ()):
            if fx[0] == 'request':
                self.waiting = ('send', None)
                self.request(fx[1], fx[2], fx[3], what)
            elif fx[0] == 'dialog':
                self.dialog = ('ask', None)

    def answer(self, yes):
        d, self.dialog = self.dialog, None
        self.waiting = ('send', None if d[1] is None else d[1] + ('+' if yes else ''))
        if d[1] is not None and d[2:] and d[2] != self.version:
            self.waiting = ('send', None)
        self.sim.probe('promotion-asked')
        self.do({'op': 'dialog', 'which': 0 if yes else 1}, 'the answer %s' % ('yes' if yes else 'no'))

    def play_page(self):
        s, g = self.scr, self.gen
        rng = self.rng
        p = pos_fast(s.usi)
        h = self.w.plan['humans'][len(s.moves) % 2]
        u = choose_move(dict(h, seed=h['seed'] + self.b['taste']), 1, s.usi, p)
        if u == 'resign':
            return self.user()
        fr = self.human + '-' + u[0] if u[1] == '*' else u[:2]
        to, prom = u[2:4], u.endswith('+')
        shift = False
        if prom:
            shift = rng.random() < .3
        if self.sel is not None:
            self.mouse(self.sel[1])       # puts back what was picked up
            if self.dialog:
                self.answer(False)
            return self.user()
        self.mouse(fr)

        def second():
            if self.gen != g or self.done:
                return
            if self.sel is None:
                return self.user()
            self.mouse(to, shift)
            if self.dialog:
                d = self.dialog
                self.dialog = (d[0], d[1], self.version)
                self.sim.after(rng.choice([0, 200, 2500]) * MS, third)
            else:
                self.user()

        def third():
            if self.gen != g or self.done:
                return
            if self.dialog:
                self.answer(prom)
            self.user()
        self.sim.after(rng.choice([0, 30, 400, 1500]) * MS, second)

    def timeout(self, tok):
        pass


class PageMatch(WebMatch):
    """A match in the browser, with the page's own scripts at the players' screens."""

    def gen(self, rng, tier):
        plan = WebMatch.gen(self, rng, tier)
        for b in plan['browsers']:
            if b['kind'] == 'player':
                b['kind'] = 'page'
                b['fidget'] = rng.choice([0, .1, .3])
                b['after'] = rng.choice([0, 3, 12])
                b['toggles'] = rng.random() < .3
                b['think'] = rng.choice([[100, 400], [300, 1500], [50, 2500]])
                b['slip'] = 0
        if plan['rpc'] > 5:
            plan['rpc'] = 5
        for k in ('engines', 'humans'):
            for e in plan[k]:
                if e['style'] == 'random' and rng.random() < .6:
                    e['style'] = 'greedy'
        plan['draw'] = min(plan['draw'], rng.choice([8, 20, 40, 80]))
        return plan

    def browser(self, b, i):
        return PageBrowser(self, b, i) if b['kind'] == 'page' else Browser(self, b, i)

    def body(self, plan, sim, out):
        Node.ask({'op': 'reset'})
        WebMatch.body(self, plan, sim, out)


class PageReplay(WebReplay):
    """A recorded game, looked at move by move on the page."""

    def gen(self, rng, tier):
        plan = WebReplay.gen(self, rng, tier)
        plan['cut'], plan['asks'] = None, 1
        plan['looks'] = rng.choice([3, 10, 30])
        return plan

    def body(self, plan, sim, out):
        Node.ask({'op': 'reset'})
        WebReplay.body(self, plan, sim, out)

    def compare(self, plan, ms, show, ends, n_sure, cut, data):
        pass

    def look(self, plan, text, show):
        rng = random.Random('%s/look' % plan['pyseed'])
        scr = Screen(plan['start'] or shogi.START)
        b = PageBrowser.__new__(PageBrowser)
        told, _ = WebMatch.parse_page(self, text)
        if told is None:
            raise Skip('the page is written in another way')
        b.w, b.sim, b.rng, b.idx, b.scr, b.b, b.done, b.loaded = self, self.sim, rng, 0, scr, {}, False, True
        b.human, b.auto, b.over_at, b.due, b.gen, b.timers, b.sel, b.dialog, b.waiting, b.version, b.was_over = '', None, None, None, 0, {}, None, None, None, 0, False
        if plan['names'] and all(plan['names']):
            scr.names = '▲%s △%s' % tuple(plan['names'])
        last = dict(told[-1]) if told else None
        moves = [dict(number=e['number'], kif_move=e['kif_move'], time=e['time'], eval=e['eval'], pv=e['pv'], move=1) for e in show] + ([last] if last else [])
        scr.told(moves, [e['usi'] for e in show])
        b.do({'op': 'load', 'html': text, 'scripts': static_files()}, 'opened the page')
        for _ in range(plan['looks']):
            b.navigate()
        if rng.random() < .5:
            b.mouse('7g')
            b.mouse('7f')
