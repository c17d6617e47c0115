"""Record files: games written with the library's exporters and read back with its parsers.

Several record keepers write games (CSA, KIF, KI2, PGN) to files of their own while readers look at the growing files; the scheduler
decides the order down to single lines of the exporters and single writes.  In the damaged world the process dies or the disk fails at a
random point, and what reached the disk is read by a new process.
"""
import copy
import datetime
import math
import os
import random
import re
import zlib

from . import seams
from .positions import crowded_pos, random_pos
from .shogi import Pos, START, usi, P, L, N, S, B, R, G, K, PP, PL, PN, PS, HO, DR, PROMOTE, CSA_PIECE
from .w_match import parse_pgn, san
from .world import World, Violation, check, raised

RAND = 1 << 30
NAMES = ['A', 'Bonanza 6.0', '藤井 聡太', 'engine(v1.2)', '先手太郎', 'x' * 40, 'a/b', 'N+', "it's", '%TORYO', '名人：後手', '']
HANDICAP = {
    '平手': START,
    '香落ち': 'lnsgkgsn1/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '右香落ち': '1nsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '角落ち': 'lnsgkgsnl/1r7/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '飛車落ち': 'lnsgkgsnl/7b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '飛香落ち': 'lnsgkgsn1/7b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '二枚落ち': 'lnsgkgsnl/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '三枚落ち': 'lnsgkgsn1/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '四枚落ち': '1nsgkgsn1/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '五枚落ち': '2sgkgsn1/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '左五枚落ち': '1nsgkgs2/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '六枚落ち': '2sgkgs2/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '八枚落ち': '3gkg3/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '十枚落ち': '4k4/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
}
CSA_ENDS = ['%TORYO', '%KACHI', '%SENNICHITE', '%JISHOGI', '%TIME_UP', '%ILLEGAL_MOVE', '%+ILLEGAL_ACTION', '%-ILLEGAL_ACTION', '%CHUDAN', None]
KIF_ENDS = {'resign': '%TORYO', 'win': '%KACHI', 'draw': '%JISHOGI', 'sennichite': '%SENNICHITE', 'illegal_lose': '%ILLEGAL_MOVE', 'illegal_win': 'foul'}
KI2_ENDS = ['%TORYO', '%KACHI', '%SENNICHITE', '%JISHOGI', '%ILLEGAL_MOVE', '%+ILLEGAL_ACTION', '%-ILLEGAL_ACTION']
REFUSAL = (ValueError, RuntimeError, KeyError, IndexError, OSError, AssertionError)      # UnicodeDecodeError is a ValueError


def play(rng, sfen, n):
    """A random game: legal moves with many captures, promotions, drops and moves several pieces could make."""
    p = Pos(sfen)
    out = []
    for _ in range(n):
        cand = list(p.pseudo())
        rng.shuffle(cand)
        k = rng.random()
        if k < 0.5:
            last = out and Pos.parse_usi(p, out[-1])[1]

            def want(m):
                return m[0] is None or m[2] or p.b[m[1]] or m[1] == last
            cand.sort(key=lambda m: not want(m))
        elif k < 0.75:
            tos = {}
            for m in cand:
                if m[0] is not None:
                    tos.setdefault((m[1], p.b[m[0]]), set()).add(m[0])
            cand.sort(key=lambda m: 0 if m[0] is None else -min(len(tos[m[1], p.b[m[0]]]), 3))
        for m in cand:
            if p.is_legal(m):
                break
        else:
            break
        out.append(usi(m))
        p.push(m)
    return out


def base(sfen):
    return ' '.join(Pos(sfen).sfen().split()[:3])


def any_pos(rng):
    return crowded_pos(rng) if rng.random() < 0.3 else random_pos(rng)


class Files(World):
    traced = True
    preempt = 0.01
    max_steps = 60_000
    faulty = False

    def gen(self, rng, tier):
        writers = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            fmt = rng.choice(('csa', 'csa', 'kif', 'kif', 'kifu', 'ki2', 'ki2', 'pgn'))
            n = rng.choice((1, 2, 3)) if fmt in ('csa', 'pgn') else 1
            w = {'fmt': fmt, 'games': [self.gen_game(rng, fmt, tier) for _ in range(n)],
                 'reopen': rng.random() < 0.4,          # a new exporter for every game, appending
                 'old': fmt not in ('csa', 'pgn') and rng.random() < 0.3}
            writers.append(w)
        plan = {'writers': writers, 'readers': rng.choice((0, 1, 2)), 'reads': rng.randint(1, 6), 'switch': rng.choice((0.2, 0.6, 0.9)),
                'preempt': rng.choice((0.0, 0.01, 0.05)), 'bufsize': rng.choice((16, 64, 300, 4096, 8192)), 'pyseed': rng.randrange(RAND)}
        if self.faulty:
            plan['bufsize'] = rng.choice((16, 16, 64, 64, 300, 4096))
            if rng.random() < 0.65:
                plan[rng.choice(('crash', 'crashw'))] = rng.choice((rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 250)))
            else:
                kind = rng.choice(('enospc', 'eio', 'short'))
                plan['disk'] = {'writes': [{'n': rng.choice((1, 2, rng.randrange(1, 40), rng.randrange(1, 200))), 'kind': kind, 'frac': rng.random(), 'posix': True,
                                            'sticky': kind != 'short' and rng.random() < 0.7}]}
            if rng.random() < 0.3:
                plan['again'] = [self.gen_game(rng, 'csa', tier) for _ in range(len(writers))]
        return plan

    def gen_game(self, rng, fmt, tier):
        g = {'names': [rng.choice(NAMES), rng.choice(NAMES)], 'start': START, 'via': 'none'}
        if fmt == 'csa':
            g['via'] = rng.choice(('none', 'sfen', 'board', 'sfen', 'board'))
            if g['via'] != 'none' and rng.random() < 0.8:
                g['start'] = any_pos(rng).sfen()
            g['version'] = rng.choice((None, 'V2', 'V2.2'))
            g['var'] = {k: rng.choice(('wdoor+floodgate-300-10F+A+B+20240101', '2024/01/01 10:00:00', 'a:b', '')) for k in
                        rng.sample(['EVENT', 'START_TIME', 'SITE', 'TIME_LIMIT', 'OPENING'], rng.choice((0, 1, 2)))}
            g['comment'] = rng.choice((None, 'a comment', "'quoted", "'one\n'two\n", "'black_rate:a:1234.5\n'white_rate:b:-7\n", '/', 'PI', "'** 100"))
            g['sep'] = rng.choice(('\n', '\n', ','))
            g['end'] = rng.choice(CSA_ENDS)
            if rng.random() < 0.2:
                g['names'] = None
        elif fmt in ('kif', 'kifu'):
            g['via'] = rng.choice(('none', 'name', 'name', 'board', 'sfen'))
            if g['via'] == 'name':
                g['handicap'] = rng.choice(sorted(HANDICAP))
                g['start'] = HANDICAP[g['handicap']]
            elif g['via'] != 'none' and rng.random() < 0.8:
                g['start'] = any_pos(rng).sfen()
            g['end'] = rng.choice(sorted(KIF_ENDS) + [None])
            g['date'] = [2024, rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        elif fmt == 'ki2':
            if rng.random() < 0.5:
                g['crowd'] = crowded_pos(rng).sfen()
            g['end'] = rng.choice(KI2_ENDS + [None])
            g['date'] = [2024, rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        else:
            g['result'] = rng.choice((0, 1, 2))
            g['round'] = rng.randint(1, 30)
            g['date'] = [2024, rng.randint(1, 12), rng.randint(1, 28), 0, 0, 0]
        n = rng.choice((0, 1, 5, 20, 40) if tier == 'quick' else (0, 5, 30, 80, 200))
        g['moves'] = play(rng, g['start'], n)
        g['extra'] = []
        for i in range(len(g['moves'])):
            e = {}
            if fmt == 'csa':
                if rng.random() < 0.6:
                    e['t'] = rng.choice((0, 1, 9, 10, 123, 3600))
                if rng.random() < 0.4:
                    e['c'] = rng.choice(('** %d' % rng.choice((rng.randint(-3000, 3000), rng.choice((-1, 1)) * rng.choice((30000, 32768, 65536, 100000, 1000000)))),
                                         '** %d +7776FU -3334FU' % rng.randint(-3000, 3000), '** 12,T5', '** ', '** 7 好手'))
                    if g['sep'] == ',' and rng.random() < 0.3:
                        e['c'] = rng.choice(('plain', 'with, comma', "T5", '好手'))
            elif fmt in ('kif', 'kifu'):
                e['t'] = rng.choice((0, 0.2, 1, 59, 59.5, 60, 61, 3599.1, 3600, 6001) + ((90000,) if rng.random() < 0.1 else ()))
                if rng.random() < 0.4:
                    e['info'] = [rng.choice(('cp', 'mate')), rng.randint(-3000, 3000), rng.randint(1, 40), rng.random() < 0.5]
                    if rng.random() < 0.2:
                        e['second'] = True
            elif fmt == 'ki2' and rng.random() < 0.3:
                e['c'] = rng.choice(('good', '好手', 'a：b', '** x', 'まで1手で千日手'))
            g['extra'].append(e)
        return g

    def shrinks(self, plan):
        for i in range(len(plan['writers'])):
            if len(plan['writers']) > 1:
                q = copy.deepcopy(plan)
                del q['writers'][i]
                yield q
        for i, w in enumerate(plan['writers']):
            for k, g in enumerate(w['games']):
                if len(w['games']) > 1:
                    q = copy.deepcopy(plan)
                    del q['writers'][i]['games'][k]
                    yield q
                n = len(g['moves'])
                for m in (0, n // 2, n - 1):
                    if 0 <= m < n:
                        q = copy.deepcopy(plan)
                        q['writers'][i]['games'][k]['moves'] = g['moves'][:m]
                        q['writers'][i]['games'][k]['extra'] = g['extra'][:m]
                        yield q
                if any(g['extra']):
                    q = copy.deepcopy(plan)
                    q['writers'][i]['games'][k]['extra'] = [{k2: v for k2, v in e.items() if k2 == 't'} for e in g['extra']]
                    if q != plan:
                        yield q
        for k, v in (('readers', 0), ('again', None), ('preempt', 0.0), ('bufsize', 8192)):
            if plan.get(k) not in (v, None):
                q = copy.deepcopy(plan)
                q[k] = v
                yield q

    # -- writing -----------------------------------------------------------------------------------------------------------------
    def tick(self):
        """One call made by a record keeper."""
        self.calls += 1
        self.sim.yield_point('call')

    def write(self, w, path, st):
        """Writes all games of w.  st['done'] counts games that are on disk as a whole, st['began'] those begun."""
        cs = self.cs
        x = None
        try:
            for k, g in enumerate(w['games']):
                st['began'] = k + 1
                if x is None or w['reopen']:
                    if x is not None:
                        x.close()
                        st['done'] = k
                        self.tick()
                    x = self.exporter(w['fmt'], path, append=k > 0 or st.get('append', False))
                    self.tick()
                getattr(self, 'write_' + w['fmt'])(x, g)
                if w['fmt'] in ('csa', 'pgn') and (w['fmt'] == 'pgn' or g['end']):
                    st['done'] = k + 1          # endgame() and movetext() push the record out
            x.close()
            st['done'] = len(w['games'])
            st['closed'] = True
        except OSError as e:
            # the keeper gives up
            self.sim.event('gave up', os.path.basename(path), e.errno)
            st['error'] = True
            try:
                x and x.close()
            except (OSError, AttributeError):
                pass

    def exporter(self, fmt, path, append):
        cs = self.cs
        if fmt == 'csa':
            return self.CSA.Exporter(path, append=append, encoding='utf-8')
        if fmt == 'pgn':
            return self.PGN.Exporter(path, append=append)
        if fmt == 'ki2':
            return self.KI2.Exporter(path)
        return self.KIF.Exporter(path)

    def moves(self, g):
        b = self.cs.Board(g['start'])
        for u, e in zip(g['moves'], g['extra']):
            m = b.move_from_usi(u)
            yield m, e
            b.push(m)

    def write_csa(self, x, g):
        init = {'none': None, 'sfen': g['start'], 'board': self.cs.Board(g['start'])}[g['via']]
        x.info(init, names=g['names'], var_info=g['var'] or None, comment=g['comment'], version=g['version'])
        self.tick()
        for m, e in self.moves(g):
            x.move(m, time=e.get('t'), comment=e.get('c'), sep=g['sep'])
            self.tick()
        if g['end']:
            x.endgame(g['end'], time=len(g['moves']) % 7 if len(g['moves']) % 3 else None)
            self.tick()

    def write_kif(self, x, g):
        h = {'none': None, 'name': g.get('handicap'), 'sfen': 'sfen ' + g['start'], 'board': self.cs.Board(g['start'])}[g['via']]
        x.header(g['names'], starttime=datetime.datetime(*g['date']), handicap=h)
        self.tick()
        total = [0, 0]
        for i, (m, e) in enumerate(self.moves(g)):
            total[i % 2] += e['t']
            x.move(m, e['t'], total[i % 2])
            self.tick()
            if 'info' in e:
                kind, v, d, plus = e['info']
                x.info('info depth %d seldepth 9 time 1500 score %s %s nodes 100 pv %s' % (
                    d, kind, v if kind == 'cp' or v < 0 or not plus else '+%d' % v, g['moves'][i]))
                if e.get('second'):
                    x.info('info depth %d score cp 5' % (d + 1))
                self.tick()
        if g['end']:
            x.end(g['end'], 3, 100)
            self.tick()

    write_kifu = write_kif

    def write_ki2(self, x, g):
        x.header(g['names'], starttime=datetime.datetime(*g['date']))
        self.tick()
        for m, e in self.moves(g):
            x.move(m, comment=e.get('c'))
            self.tick()
        if g['end']:
            x.end(g['end'])
            self.tick()

    def write_pgn(self, x, g):
        x.tag_pair(g['names'], [self.cs.DRAW, self.cs.BLACK_WIN, self.cs.WHITE_WIN][g['result']], event='e', site='s', starttime=datetime.datetime(*g['date']), round=g['round'])
        self.tick()
        x.movetext([m for m, e in self.moves(g)])
        self.tick()

    def told_apart(self, sfen):
        """In KI2 words, every legal move of a position can be told from every other."""
        board, p = self.cs.Board(sfen), Pos(sfen)
        for m in board.legal_moves:
            word = self.KI2.move_to_ki2(m, board)
            try:
                got = [self.cs.move_to_usi(x) for x in self.KI2.Parser.parse_move_str(word, board.copy())]
            except REFUSAL as e:
                got = repr(e)
            check(got == [self.cs.move_to_usi(m)], 'file:ki2-word', lambda: '%s written as %s is read as %s in %s' % (self.cs.move_to_usi(m), word, got, sfen))
            if not self.cs.move_is_drop(m):
                one = {usi(q) for q in ki2_read(p, word, None)}
                check(self.cs.move_to_usi(m) in one, 'file:ki2-word', lambda: '%s written as %s, which stands for %s in %s' % (self.cs.move_to_usi(m), word, sorted(one), sfen))
        self.sim.probe('ki2-words-told-apart')

    # -- reading -----------------------------------------------------------------------------------------------------------------
    def content(self, path):
        try:
            with seams.real['open'](path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return b''

    def read(self, w, path, st, whole):
        """Reads a file and judges it.  whole: everything was written and closed."""
        fmt = w['fmt']
        if fmt == 'pgn':
            return self.read_pgn(w, path, st, whole)
        if fmt == 'csa':
            return self.read_csa(w, path, st, whole)
        data = self.content(path)
        g = w['games'][0]
        mod = self.KI2 if fmt == 'ki2' else self.KIF
        try:
            p = mod.Parser.parse_file(path)
        except REFUSAL + (self.KIF.ParserException,) as e:
            if whole:
                raise Violation('file:unreadable', '%s record written without any fault cannot be read: %r\n%s' % (fmt, e, self.show(fmt, data)))
            self.sim.probe('damaged-record-refused')
            return
        if self.content(path) != data and not whole:
            return                              # it grew while being read: the next look at it judges
        self.judge(fmt, g, p, whole, data)

    def show(self, fmt, data):
        return data.decode('utf-8' if fmt in ('csa', 'kifu', 'pgn') else 'cp932', 'replace')[-1500:]

    def judge(self, fmt, g, p, whole, data):
        tag = 'file' if whole else 'torn'

        def ensure(cond, cls, msg):
            if not cond:
                check(False, tag + ':' + cls, lambda: '%s: %s\nwritten: start %s moves %s end %s\n%s' % (
                    fmt, msg() if callable(msg) else msg, g['start'], ' '.join(g['moves']), g.get('end'), self.show(fmt, data)))
        mv = [self.cs.move_to_usi(m) for m in p.moves]
        n = len(mv)
        ensure(mv == g['moves'][:n], 'moves', lambda: 'the moves read are %s' % mv)
        text = self.show_all(fmt, data)
        lines = text.split('\n')[:-1]
        pat = {'csa': r'[+-]\d{4}[A-Z]{2}', 'ki2': r'[▲△]'}.get(fmt, r' *\d+ .*(\(\d\d\)|打)')
        there = len([l for l in lines if re.match(pat, l)])
        if whole:
            self.spelled(fmt, g, lines, ensure)
        ensure(n >= (len(g['moves']) if whole else there), 'moves-lost', lambda: '%d moves read, %d whole move lines in the file' % (n, there))
        if n or whole:
            ensure(base(p.sfen) == base(g['start']), 'start', lambda: 'the position read is %s' % p.sfen)
        start = Pos(g['start'])
        turn = start.turn * (1 if len(g['moves']) % 2 == 0 else -1)
        end = g['end']
        if fmt in ('kif', 'kifu'):
            end = KIF_ENDS.get(end)
            if end == 'foul':           # of the side that moved last
                end = '%-ILLEGAL_ACTION' if turn > 0 else '%+ILLEGAL_ACTION'
        win = {'%TORYO': -turn, '%TIME_UP': -turn, '%ILLEGAL_MOVE': -turn, '%KACHI': turn, '%+ILLEGAL_ACTION': -1, '%-ILLEGAL_ACTION': 1}.get(end, 0)
        code = {1: self.cs.BLACK_WIN, -1: self.cs.WHITE_WIN, 0: self.cs.DRAW}
        got = p.endgame or None
        if whole:
            ensure(got == end, 'end', lambda: 'the end read is %r, written %r' % (got, end))
        if got in CSA_ENDS and got is not None:
            ensure(got == end, 'end', lambda: 'the end read is %r, the game ended %r' % (got, end))
            if n == len(g['moves']):
                ensure(p.win == code[win], 'win', lambda: 'the result read is %r, it was %+d' % (p.win, win))
            ensure(n == len(g['moves']), 'end', lambda: 'an end was read after %d of %d moves' % (n, len(g['moves'])))
        if n or whole:
            names = g['names'] or ['', '']
            ensure([x or '' for x in p.names] == names, 'names', lambda: 'the names read are %r, written %r' % (p.names, names))
        # times and comments of moves that are certainly whole: all but the last one read
        sure = n if whole else n - 1
        if fmt == 'csa':
            for i in range(max(sure, 0)):
                e = g['extra'][i]
                ensure(p.times[i] == e.get('t', 0), 'times', lambda: 'time of move %d read as %r, written %r' % (i + 1, p.times[i], e.get('t')))
                c = e.get('c')
                want = [c or ''] + ([c[3:]] if c and c.startswith('** ') else [])
                ensure(p.comments[i] in want, 'comments', lambda: 'comment of move %d read as %r, written %r' % (i + 1, p.comments[i], c))
                if c and c.startswith('** ') and g['sep'] == '\n':
                    m = re.match(r'\*\* (-?\d+)', c)
                    ensure(p.scores[i] == (int(m[1]) if m else 0), 'scores', lambda: 'score of move %d read as %r from %r' % (i + 1, p.scores[i], c))
        elif fmt == 'ki2':
            for i in range(max(sure, 0)):
                c = g['extra'][i].get('c')
                r = p.comments[i] if i < len(p.comments) else None
                ensure(r == c, 'comments', lambda: 'comment of move %d read as %r, written %r' % (i + 1, r, c))
        else:
            for i in range(max(sure, 0)):
                e = g['extra'][i]
                ensure(i < len(p.times) and p.times[i] == math.ceil(e['t']), 'times', lambda: 'time of move %d read as %r, written %r' % (i + 1, p.times[i:i + 1], e['t']))
                r = p.comments[i] if i < len(p.comments) else None
                ensure((r is not None) == ('info' in e), 'comments', lambda: 'comment of move %d read as %r, written %r' % (i + 1, r, e.get('info')))
                if r is not None:
                    kind, v, d, plus = e['info']
                    mover = start.turn * (1 if i % 2 == 0 else -1)
                    if kind == 'cp':
                        want = ' 評価値 %d ' % (v * mover)
                    else:
                        want = ' %s詰%d ' % ('+' if (v >= 0) == (mover > 0) else '-', abs(v))
                    ensure(want in r.split('\n')[0] + ' ' and ' 深さ %d ' % d in r + ' ', 'comments', lambda: 'the comment of move %d is %r, it should say %r' % (i + 1, r, want))
        if fmt != 'csa':
            if n or whole:
                ensure(p.starttime == datetime.datetime(*g['date']), 'date', lambda: 'the date read is %r, written %r' % (p.starttime, g['date']))
            m = re.search(r'^まで(\d+)手で', text, re.M)
            if m and got:
                ensure(int(m[1]) == len(g['moves']), 'count', lambda: 'the record says %s moves, there are %d' % (m[1], len(g['moves'])))
        else:
            if n or whole:
                ensure(p.version == (g['version'] or ''), 'version', lambda: 'version %r, written %r' % (p.version, g['version']))
                ensure(p.var_info == g['var'], 'info', lambda: 'information %r, written %r' % (p.var_info, g['var']))
                c = g['comment']
                if c and 'rate' in c:
                    ensure([round(r, 3) for r in p.ratings] == [1234.5, -7], 'ratings', lambda: 'ratings %r from %r' % (p.ratings, c))
                elif c:
                    c = c if c[0] == "'" else "'" + c
                    said = p.comment.rstrip('\n')
                    cut = text.split('\n')[-1]
                    if not whole and cut.startswith("'") and said == c.rstrip('\n') + '\n' + cut:
                        said = c.rstrip('\n')          # a comment on a move cut off within its mark
                    ensure(said == c.rstrip('\n'), 'comment', lambda: 'comment %r, written %r' % (p.comment, c))
        self.sim.probe('record-judged-whole' if whole else 'record-judged-part')
        if end and got:
            self.sim.probe('end-' + end)

    def spelled(self, fmt, g, lines, ensure):
        """The moves as any other program would read them."""
        p, last, tot = Pos(g['start']), None, [0, 0]
        if fmt == 'ki2':
            rows = [l for l in lines if l[:1] in ('▲', '△')]
        elif fmt == 'csa':
            rows = [l for l in lines if re.match(r'[+-]\d{4}[A-Z]{2}', l)]
        else:
            rows = [l for l in lines if re.match(r' *[0-9]+ +(同|[１-９])', l)]
        ensure(len(rows) == len(g['moves']), 'spelling', lambda: '%d moves in the file, %d made' % (len(rows), len(g['moves'])))
        for i, (row, u, e) in enumerate(zip(rows, g['moves'], g['extra'])):
            m = p.parse_usi(u)
            frm, to, prom = m
            t = prom if frm is None else abs(p.b[frm])
            if fmt == 'csa':
                t = PROMOTE[t] if prom and frm is not None else t
                want = '%s%s%d%d%s' % ('+' if p.turn > 0 else '-', '00' if frm is None else '%d%d' % xy(frm), xy(to)[0], xy(to)[1], CSA_PIECE[t])
                ensure(row.split(',')[0] == want, 'spelling', lambda: 'move %d is %s, written as %r' % (i + 1, want, row))
            elif fmt == 'ki2':
                r = ki2_read(p, row, last)
                ensure(r == {m}, 'spelling', lambda: 'move %d is %s, its text %r says %s' % (i + 1, u, row, [usi(x) for x in r]))
            else:
                tot[i % 2] += e['t']
                s, a = math.ceil(e['t']), math.ceil(tot[i % 2])
                r = re.match(r' *(\d+) +(同|[１-９][一二三四五六七八九])　*(成?[^成打(（]+)(打|成?\((\d)(\d)\)) *\( *(\d+):(\d\d)/ *(\d+):(\d\d):(\d\d)\)\+?$', row)
                where = ZEN[xy(to)[0]] + KAN[xy(to)[1]]
                ok = r and int(r[1]) == i + 1 and r[2] in ((where, '同') if last == to else (where,)) and r[3] in (KJ[t], KJ_ALT.get(t))
                if ok:
                    ok = r[4] == '打' if frm is None else r[4] == ('成' if prom else '') + '(%d%d)' % xy(frm)
                ensure(ok, 'spelling', lambda: 'move %d is %s, written as %r' % (i + 1, u, row))
                ensure((int(r[7]) * 60 + int(r[8]), int(r[9]) * 3600 + int(r[10]) * 60 + int(r[11])) == (s, a), 'times',
                       lambda: 'move %d took %s s, %s s in all, written as %r' % (i + 1, s, a, row))
            last = to
            p.push(m)

    def show_all(self, fmt, data):
        return data.decode('utf-8' if fmt in ('csa', 'kifu', 'pgn') else 'cp932', 'ignore')

    def read_csa(self, w, path, st, whole):
        data = self.content(path)
        if whole:
            try:
                ps = self.CSA.Parser.parse_file(path, encoding='utf-8')
            except REFUSAL as e:
                raise Violation('file:unreadable', 'a CSA file written without any fault cannot be read: %r\n%s' % (e, self.show('csa', data)))
            check(len(ps) == len(w['games']), 'file:count', lambda: '%d records read, %d written\n%s' % (len(ps), len(w['games']), self.show('csa', data)))
            parts = data.split(b'\n/\n')
            for p, g, d in zip(ps, w['games'], parts):
                self.judge('csa', g, p, True, d if d.endswith(b'\n') else d + b'\n')
            return
        self.split_csa(w['games'], data, st['done'])

    def split_csa(self, games, data, done):
        """A file that need not be whole: every record by itself."""
        parts = (data + b'\n' if data.endswith(b'\n/') else data).split(b'\n/\n')
        check(len([x for x in parts if x.strip()]) <= len(games), 'torn:count', lambda: '%d records, %d begun\n%s' % (len(parts), len(games), self.show('csa', data)))
        check(len(parts) >= done, 'torn:lost', lambda: '%d records in the file, %d had been finished' % (len(parts), done))
        for i, (g, d) in enumerate(zip(games, parts)):
            last = i + 1 == len(parts)
            d += b'' if last else b'\n'
            try:
                text = d.decode('utf-8')
                p, = self.CSA.Parser.parse_str(text)
            except REFUSAL as e:
                # only a line cut off may be refused
                check(i >= done and not d.endswith(b'\n'), 'torn:refused', lambda: 'record %d cannot be read: %r\n%s' % (i + 1, e, self.show('csa', d)))
                self.sim.probe('damaged-record-refused')
                continue
            self.judge('csa', g, p, i < done, d)

    def read_pgn(self, w, path, st, whole):
        data = self.content(path)
        text = data.decode('utf-8', 'ignore')
        recs = parse_pgn(text)
        n = len(recs)
        check(n <= len(w['games']) and n >= st['done'], 'file:count' if whole else 'torn:count',
              lambda: '%d PGN records, %d written, %d finished\n%s' % (n, len(w['games']), st['done'], text[-1500:]))
        for i, (g, r) in enumerate(zip(w['games'], recs)):
            full = i < st['done'] or i + 1 < n
            res = ['1/2-1/2', '1-0', '0-1'][g['result']]
            exp, p = [], Pos(g['start'])
            for k, u in enumerate(g['moves']):
                if k % 2 == 0:
                    exp.append('%d.' % (k // 2 + 1))
                m = p.parse_usi(u)
                exp.append(san(p, m))
                p.push(m)
            if g['moves']:
                exp.append(res)
            got = ' '.join(r['text']).split()
            if full:
                check(got == exp, 'file:pgn', lambda: 'PGN moves %r, written %r' % (got, exp))
                t = r['tags']
                want = {'White': g['names'][0], 'Black': g['names'][1], 'Result': res, 'Round': str(g['round']), 'Date': '%04d.%02d.%02d' % tuple(g['date'][:3])}
                check({k: t.get(k) for k in want} == want, 'file:pgn', lambda: 'PGN tags %r, written %r' % (t, want))
            else:
                s = ' '.join(got)
                check(' '.join(exp).startswith(s) or (not text.endswith('\n') and got and r['text'][-1].startswith('[')), 'torn:pgn',
                      lambda: 'PGN moves %r are no beginning of %r' % (got, exp))
        self.sim.probe('record-judged-whole' if whole else 'record-judged-part')

    # -- one run -----------------------------------------------------------------------------------------------------------------
    def body(self, plan, sim, out):
        import cshogi
        from cshogi import CSA, KIF, KI2, PGN
        self.cs, self.sim, self.plan = cshogi, sim, plan
        self.CSA, self.KIF, self.KI2, self.PGN = CSA, KIF, KI2, PGN
        root = self.scratch_dir()
        self.fs = fs = seams.SimFS(sim, root, plan.get('disk'))
        seams.hooks.fs = fs
        fs.bufsize = plan['bufsize']
        fs.yields = True
        self.calls, self.dead, self.parser = 0, False, None
        ws = plan['writers']
        ext = {'csa': 'csa', 'pgn': 'pgn', 'kif': 'kif', 'kifu': 'kifu', 'ki2': 'ki2'}
        paths = [os.path.join(root, 'r%d.%s' % (i, ext[w['fmt']])) for i, w in enumerate(ws)]
        sts = [{'done': 0, 'began': 0} for _ in ws]
        for w, path in zip(ws, paths):
            if w.get('old'):
                # an older, longer file stands where the new one goes
                with seams.real['open'](path, 'wb') as f:
                    f.write(('   1 ２六歩(27)   ( 0:01/00:00:01)\n' * 400).encode('cp932'))
        ts = [sim.spawn('keeper%d' % i, lambda w=w, p=p, s=s: self.write(w, p, s), group='process') for i, (w, p, s) in enumerate(zip(ws, paths, sts))]

        def reader(k):
            def run():
                rng = random.Random(plan['pyseed'] + k)
                for _ in range(plan['reads']):
                    for _ in range(rng.randrange(1, 8)):
                        sim.yield_point('wait')
                    if self.dead:
                        return
                    i = rng.randrange(len(ws))
                    # the look is judged against what had been finished when it began
                    st = dict(sts[i])
                    if not st['began'] or not os.path.exists(paths[i]):
                        continue
                    if ws[i].get('old') and not fs.writes:
                        continue
                    sim.probe('looked-at-a-growing-file')
                    self.read(ws[i], paths[i], st, bool(st.get('closed')))
            return run
        ts += [sim.spawn('reader%d' % k, reader(k), group='other') for k in range(plan['readers'])]

        def over():
            return all(t.state == 'done' for t in ts) or self.calls >= plan.get('crash', 1 << 60) or fs.nwrites >= plan.get('crashw', 1 << 60)
        sim.exact = True
        sim.run(over)
        if not all(t.state == 'done' for t in ts):
            self.dead = True
            sim.fault('process-crash')
            sim.event('crash')
            fs.crash()
            if not sim.kill('process'):
                raise RuntimeError('cannot kill the keepers')
            sim.stop_reason = None
            ts = [t for t in ts if t.group != 'process']
            sim.run(lambda: all(t.state == 'done' for t in ts))
        sim.exact = False
        self.raise_from(ts)
        # a new process reads what is there
        fs.plan = {}
        fs.broken = fs.pending = None
        fs.yields = False

        def inspect():
            for w in ws:
                for g in w['games']:
                    if g.get('crowd'):
                        self.told_apart(g['crowd'])
            for w, path, st in zip(ws, paths, sts):
                if st['began'] and os.path.exists(path):
                    self.read(w, path, st, bool(st.get('closed')))
            again = plan.get('again')
            if again:
                self.dead = False
                for w, path, st, g in zip(ws, paths, sts, again):
                    if w['fmt'] != 'csa':
                        continue
                    before = self.content(path)
                    s2 = {'done': 0, 'began': 0, 'append': True}
                    self.write({'fmt': 'csa', 'games': [g], 'reopen': False, 'old': False}, path, s2)
                    data = self.content(path)
                    check(data.startswith(before), 'torn:overwritten', 'appending a record changed what the file held')
                    check(s2.get('closed'), 'torn:append', 'appending a record failed')
                    sim.probe('appended-after-damage')
                    head, _, tail = data.rpartition(b'\n/\n')
                    if not before:
                        tail = data
                    try:
                        p, = self.CSA.Parser.parse_str(tail.decode('utf-8'))
                    except REFUSAL as e:
                        raise Violation('torn:append', 'a record appended after the damage cannot be read: %r\n%s' % (e, self.show('csa', tail)))
                    self.judge('csa', g, p, True, tail)
        t = sim.spawn('inspector', inspect, group='later')
        sim.run(lambda: t.state == 'done')
        self.raise_from([t])
        out.trivial = not any(st['began'] for st in sts)

    def raise_from(self, ts):
        for t in ts:
            if isinstance(t.exc, Violation):
                raise t.exc
            if t.exc is not None:
                raise Violation('file:exception-' + type(t.exc).__name__, raised(t))
            check(t.state == 'done', 'file:stuck', 'a task did not finish')


class FilesDamaged(Files):
    faulty = True


# -- records by other programs ----------------------------------------------------------------------------------------------------------
ZEN = '０１２３４５６７８９'
KAN = '〇一二三四五六七八九'
KJ = {P: '歩', L: '香', N: '桂', S: '銀', B: '角', R: '飛', G: '金', K: '玉', PP: 'と', PL: '杏', PN: '圭', PS: '全', HO: '馬', DR: '龍'}
KJ_ALT = {K: '王', PL: '成香', PN: '成桂', PS: '成銀', DR: '竜'}
GOLDLIKE = (G, S, PP, PL, PN, PS)


def xy(sq):
    return sq // 9 + 1, sq % 9 + 1


def ki2_text(p, m, last, rng):
    """The move in the notation of the Japan Shogi Association."""
    frm, to, prom = m
    us = p.turn
    t = m[2] if frm is None else abs(p.b[frm])
    s = '▲' if us > 0 else '△'
    if last == to:
        s += rng.choice(('同', '同　'))
    else:
        s += ZEN[xy(to)[0]] + KAN[xy(to)[1]]
    s += KJ_ALT.get(t, KJ[t]) if rng.random() < 0.5 else KJ[t]
    froms = sorted({q[0] for q in p.pseudo() if q[1] == to and q[0] is not None and abs(p.b[q[0]]) == t})
    if frm is None:
        return s + ('打' if froms or rng.random() < 0.3 else '')

    def motion(f):
        d = (xy(f)[1] - xy(to)[1]) * us
        return '上' if d > 0 else '寄' if d == 0 else '引'

    def side(f):
        d = (xy(f)[0] - xy(to)[0]) * us
        if d == 0 and t in GOLDLIKE and motion(f) == '上':
            return '直'
        if t not in GOLDLIKE and len(froms) == 2:
            o = froms[0] if froms[1] == f else froms[1]
            d = (xy(f)[0] - xy(o)[0]) * us
        return '左' if d > 0 else '右' if d < 0 else ''
    if len(froms) > 1:
        mo = [motion(f) for f in froms]
        si = [side(f) for f in froms]
        if mo.count(motion(frm)) == 1 and t not in (N, L):
            s += motion(frm)
        elif si.count(side(frm)) == 1 and side(frm):
            s += side(frm)
        else:
            s += side(frm) + motion(frm)
    if prom:
        s += '成'
    elif any(q[0] == frm and q[1] == to and q[2] for q in p.pseudo()):
        s += '不成'
    return s


def ki2_read(p, s, last):
    """The moves that the text may stand for, by the rules of the Japan Shogi Association."""
    us = p.turn
    r = re.match(r'([▲△])(同|([１-９])([一二三四五六七八九]))　*(成[銀桂香]|[^成左右直上寄引打不])([左右直]?)([上寄引]?)(打?)(成|不成)?\s*$', s)
    if not r or (r[1] == '▲') != (us > 0):
        return set()
    to = last if r[2] == '同' else (ZEN.index(r[3]) - 1) * 9 + KAN.index(r[4]) - 1
    if to is None:
        return set()
    t = [k for k in KJ if r[5] in (KJ[k], KJ_ALT.get(k))]
    if len(t) != 1:
        return set()
    t = t[0]
    ms = [q for q in p.pseudo() if q[1] == to and (q[2] if q[0] is None else abs(p.b[q[0]])) == t]
    on = [q for q in ms if q[0] is not None]
    if r[8] or not on:
        return {q for q in ms if q[0] is None}
    froms = sorted({q[0] for q in on})

    def fits(f):
        dy, dx = (xy(f)[1] - xy(to)[1]) * us, (xy(f)[0] - xy(to)[0]) * us
        if r[7] and r[7] != ('上' if dy > 0 else '寄' if dy == 0 else '引'):
            return False
        if r[6] == '直':
            return dx == 0 and dy > 0
        if r[6] and dx == 0 and t not in GOLDLIKE and len(froms) > 1:
            dx = min(((xy(f)[0] - xy(o)[0]) * us for o in froms if o != f), key=abs)
        return not r[6] or (dx > 0) == (r[6] == '左') and dx != 0
    return {q for q in on if fits(q[0]) and bool(q[2]) == (r[9] == '成')}


class Foreign(Files):
    """Records as other programs write them, byte by byte, into files this library reads."""
    preempt = 0.0

    def gen(self, rng, tier):
        ws = []
        for _ in range(rng.choice((1, 1, 2))):
            fmt = rng.choice(('csa', 'csa', 'kif', 'kif', 'kifu', 'ki2', 'ki2'))
            n = rng.choice((1, 1, 2, 3)) if fmt == 'csa' else 1
            games = []
            for _ in range(n):
                g = self.gen_game(rng, fmt, tier)
                self.dialect(rng, fmt, g)
                games.append(g)
            w = {'fmt': fmt, 'games': games, 'crlf': rng.random() < 0.4, 'chunk': rng.choice((7, 40, 200, 5000)), 'final': rng.random() < 0.8, 'textseed': rng.randrange(RAND)}
            if rng.random() < 0.4:
                w['cut'] = rng.random()
            ws.append(w)
        return {'writers': ws, 'readers': rng.choice((0, 1, 2)), 'reads': rng.randint(1, 6), 'switch': rng.choice((0.2, 0.6, 0.9)), 'preempt': 0.0,
                'bufsize': 8192, 'pyseed': rng.randrange(RAND), 'reuse': rng.random() < 0.6}

    def dialect(self, rng, fmt, g):
        g['names'] = [rng.choice([n for n in NAMES if n]), rng.choice([n for n in NAMES if n])]
        if fmt == 'csa':
            g['pos'] = rng.choice(('PI', 'PIminus', 'rows', 'rows', 'pieces'))
            if g['pos'] == 'PI':
                g['start'] = START
            elif g['pos'] == 'PIminus':
                g['start'] = HANDICAP[rng.choice(sorted(HANDICAP))]
            else:
                g['start'] = any_pos(rng).sfen()
            if g['pos'] in ('PI', 'PIminus') and rng.random() < 0.2:
                g['start'] = g['start'].replace(' b ', ' w ') if rng.random() < 0.5 else g['start'].replace(' w ', ' b ')
            g['comment'] = rng.choice((None, 'rates', 'plain'))
            g['sep'] = rng.choice(('\n', '\n', ',', 'none'))
            g['summary'] = rng.choice((None, None, 'toryo', 'illegal move', 'max_moves', 'abnormal', 'time up'))
            if g['summary']:
                g['end'] = {'toryo': '%TORYO', 'illegal move': rng.choice(('%ILLEGAL_MOVE', None)), 'max_moves': rng.choice(('%JISHOGI', None)), 'abnormal': None, 'time up': '%TIME_UP'}[g['summary']]
            g['endt'] = rng.random() < 0.4
        else:
            h = rng.choice(('none', 'name', 'name', 'bod', 'bod'))
            g['via'], g['start'] = h, START
            g['uwate'] = False
            if h == 'name':
                g['handicap'] = rng.choice(sorted(HANDICAP))
                g['start'] = HANDICAP[g['handicap']]
                g['uwate'] = g['handicap'] != '平手' and rng.random() < 0.7
            elif h == 'bod':
                g['uwate'] = rng.random() < 0.3
                g['start'] = any_pos(rng).sfen()
            g['end'] = rng.choice(('win', 'win', 'kachi', 'sennichite', 'jishogi', 'chudan', 'foul', 'foulwin', None))
            g['times'] = rng.random() < 0.7
            g['comma'] = rng.random() < 0.3
            g['hours'] = rng.random() < 0.2
            g['vari'] = rng.random() < 0.3
        n = len(g['moves']) or rng.choice((0, 1, 12, 40))
        g['moves'] = play(rng, g['start'], min(n, 60))
        g['extra'] = []
        for _ in g['moves']:
            e = {'t': rng.choice((0, 1, 9, 59, 60, 61, 3600, 5999))}
            if rng.random() < 0.3:
                e['c'] = rng.choice(('good', '好手', 'x y') + (('one\ntwo', 'a\n\nb') if fmt != 'csa' else ()))
                if fmt == 'csa' and g['sep'] == '\n':
                    e['c'] = rng.choice(('** %d' % rng.randint(-3000, 3000), '** %d +7776FU -3334FU' % rng.randint(-3000, 3000)))
            if fmt == 'csa' and g['sep'] == 'none':
                e['t'] = 0
            g['extra'].append(e)

    # text ------------------------------------------------------------------------------------------------------------------------
    def text(self, w):
        rng = random.Random(w['textseed'])
        t = '/\n'.join(getattr(self, 'text_' + w['fmt'])(g, rng) for g in w['games'])
        if not w['final']:
            t = t[:-1]
        if w['crlf']:
            t = t.replace('\n', '\r\n')
        return t.encode('utf-8' if w['fmt'] in ('csa', 'kifu') else 'cp932')

    def text_csa(self, g, rng):
        o = []
        if g['version']:
            o.append(g['version'])
        o += ['N+' + g['names'][0], 'N-' + g['names'][1]]
        if g['comment'] == 'plain':
            o.append("'a comment")
        o += ['$%s:%s' % kv for kv in g['var'].items()]
        p = Pos(g['start'])
        if g['pos'].startswith('PI'):
            full = Pos(START)
            o.append('PI' + ''.join('%d%d%s' % (xy(s) + (CSA_PIECE[abs(full.b[s])],)) for s in sorted(range(81), key=lambda s: rng.random()) if full.b[s] and not p.b[s]))
        else:
            if g['pos'] == 'rows':
                for r in range(9):
                    o.append('P%d' % (r + 1) + ''.join(' * ' if not p.b[f * 9 + r] else '-+'[p.b[f * 9 + r] > 0] + CSA_PIECE[abs(p.b[f * 9 + r])] for f in range(8, -1, -1)))
            items = {1: [], -1: []}
            if g['pos'] == 'pieces':
                for s in range(81):
                    if p.b[s]:
                        items[1 if p.b[s] > 0 else -1].append('%d%d%s' % (xy(s) + (CSA_PIECE[abs(p.b[s])],)))
            for c in (1, -1):
                for t in range(1, 8):
                    items[c] += ['00' + CSA_PIECE[t]] * p.hand[c][t]
                rng.shuffle(items[c])
                while items[c]:
                    k = rng.choice((1, 3, 40))
                    o.append('P' + ('+' if c > 0 else '-') + ''.join(items[c][:k]))
                    items[c] = items[c][k:]
        o.append('+' if p.turn > 0 else '-')
        if g['comment'] == 'rates':
            o += ["'rating:a+123:b+456", "'black_rate:a+123:1234.5", "'white_rate:b+456:-7.0"]
        for u, e in zip(g['moves'], g['extra']):
            m = p.parse_usi(u)
            frm, to, prom = m
            t = prom if frm is None else PROMOTE[abs(p.b[frm])] if prom else abs(p.b[frm])
            s = '%s%s%d%d%s' % ('+' if p.turn > 0 else '-', '00' if frm is None else '%d%d' % xy(frm), xy(to)[0], xy(to)[1], CSA_PIECE[t])
            c = ["'" + e['c']] if 'c' in e else []
            if g['sep'] == ',':
                o.append(','.join([s, 'T%d' % e['t']] + c))
            elif g['sep'] == 'none':
                o += [s] + ([] if not c or c[0][1] != '*' else c)
            else:
                x = ['T%d' % e['t']]
                o += [s] + (c + x if rng.random() < 0.5 else x + c)
            p.push(m)
        if g['end']:
            if g['endt'] and rng.random() < 0.5:
                o.append(g['end'] + ',T5')
            else:
                o.append(g['end'])
                if g['endt']:
                    o.append('T5')
        if g['summary']:
            o.append("'summary:%s:%s lose:%s win" % (g['summary'], g['names'][0], g['names'][1]))
            o.append("'$END_TIME:2024/01/01 12:00:00")
        return '\n'.join(o) + '\n'

    def result(self, g):
        turn = Pos(g['start']).turn * (1 if len(g['moves']) % 2 == 0 else -1)
        b, w = ('下手', '上手') if g['uwate'] else ('先手', '後手')
        n = len(g['moves'])
        c = '、' if g.get('comma') else ''
        return {'win': 'まで%s%d手で%sの勝ち' % (c, n, b if turn < 0 else w), 'kachi': 'まで%s%d手で%sの入玉勝ち' % (c, n, b if turn > 0 else w),
                'sennichite': 'まで%s%d手で千日手' % (c, n), 'jishogi': 'まで%s%d手で持将棋' % (c, n), 'chudan': 'まで%s%d手で中断' % (c, n),
                'foul': 'まで%s%d手で%sの反則負け' % (c, n, b if turn > 0 else w),
                'foulwin': 'まで%s%d手で%sの反則勝ち' % (c, n, b if turn > 0 else w)}.get(g['end'])

    def head(self, g, rng):
        d = g['date']
        if rng.random() < 0.3:
            d[5] = 0
            o = ['開始日時：%d/%02d/%02d %02d:%02d' % tuple(d[:5])]
        else:
            o = ['開始日時：%d/%02d/%02d %02d:%02d:%02d' % tuple(d)]
        if rng.random() < 0.5:
            o += ['終了日時：2024/12/31 23:59:59', '棋戦：練習将棋']
        if rng.random() < 0.3:
            o.append('*棋譜のコメント')
        return o

    def diagram(self, p, b, w, rng):
        def hand(c):
            h = p.hand[c]
            num = ['', ''] + ['二', '三', '四', '五', '六', '七', '八', '九', '十', '十一', '十二', '十三', '十四', '十五', '十六', '十七', '十八']
            s = '　'.join(KJ[t] + num[h[t]] for t in (R, B, G, S, N, L, P) if h[t])
            return (s + rng.choice(('', '　'))) if s else 'なし'
        o = [w + 'の持駒：' + hand(-1), '  ９ ８ ７ ６ ５ ４ ３ ２ １', '+---------------------------+']
        for r in range(9):
            row = '|'
            for f in range(8, -1, -1):
                v = p.b[f * 9 + r]
                one = {K: '王', DR: '竜'}
                row += ' ・' if not v else ' v'[v < 0] + (one.get(abs(v), KJ[abs(v)]) if rng.random() < 0.5 else KJ[abs(v)])
            o.append(row + '|' + KAN[r + 1])
        o += ['+---------------------------+', b + 'の持駒：' + hand(1)]
        if p.turn < 0:
            o.append(w + '番')
        return o

    def text_kif(self, g, rng):
        o = [rng.choice(('# ---- Kifu for Windows V7 V7.50 棋譜ファイル ----', '#KIF version=2.0'))] if rng.random() < 0.7 else []
        o += self.head(g, rng)
        p = Pos(g['start'])
        b, w = ('下手', '上手') if g['uwate'] else ('先手', '後手')
        if g['via'] == 'bod':
            o += self.diagram(p, b, w, rng)
        elif g['via'] == 'name':
            o.append('手合割：' + g['handicap'] + rng.choice(('', '　　')))
        o += [b + '：' + g['names'][0], w + '：' + g['names'][1]]
        if rng.random() < 0.8:
            o.append('手数----指手---------消費時間--')
        last, tot = None, [0, 0]
        vari = rng.randrange(1, len(g['moves']) + 1) if g['vari'] and g['moves'] else None
        at = None
        for i, (u, e) in enumerate(zip(g['moves'], g['extra'])):
            m = p.parse_usi(u)
            frm, to, prom = m
            if i + 1 == vari:
                at = p.copy(), last
            t = m[2] if frm is None else abs(p.b[frm])
            s = '同　' if last == to else ZEN[xy(to)[0]] + KAN[xy(to)[1]]
            s += KJ_ALT.get(t, KJ[t]) if rng.random() < 0.5 else KJ[t]
            s += '打' if frm is None else ('成' if prom else '') + '(%d%d)' % xy(frm)
            line = '%4d %s' % (i + 1, s)
            tot[i % 2] += e['t']
            if g['times']:
                if g['hours']:
                    line += '   (%d:%02d:%02d/%02d:%02d:%02d)' % (e['t'] // 3600, e['t'] // 60 % 60, e['t'] % 60, tot[i % 2] // 3600, tot[i % 2] // 60 % 60, tot[i % 2] % 60)
                else:
                    line += '   (%2d:%02d/%02d:%02d:%02d)' % (e['t'] // 60, e['t'] % 60, tot[i % 2] // 3600, tot[i % 2] // 60 % 60, tot[i % 2] % 60)
            if i + 1 == vari:
                line += '+'
            o.append(line)
            if 'c' in e:
                o += ['*' + c for c in e['c'].split('\n')]
            last = to
            p.push(m)
        if g['end']:
            w = {'win': '投了', 'kachi': '入玉勝ち', 'sennichite': '千日手', 'jishogi': '持将棋', 'chudan': '中断', 'foul': '反則負け', 'foulwin': '反則勝ち'}[g['end']]
            o.append('%4d %s' % (len(g['moves']) + 1, w) + ('         ( 0:03/00:00:03)' if g['times'] else ''))
            o.append(self.result(g))
        if at:
            q, last = at
            o += ['', '変化：%d手' % vari]
            for k, u in enumerate(play(rng, q.sfen(), 3)):
                m = q.parse_usi(u)
                t = m[2] if m[0] is None else abs(q.b[m[0]])
                s = ('同　' if last == m[1] else ZEN[xy(m[1])[0]] + KAN[xy(m[1])[1]]) + KJ[t] + ('打' if m[0] is None else ('成' if m[2] else '') + '(%d%d)' % xy(m[0]))
                o.append('%4d %s' % (vari + k, s))
                last = m[1]
                q.push(m)
        return '\n'.join(o) + '\n'

    text_kifu = text_kif

    def text_ki2(self, g, rng):
        o = self.head(g, rng)
        b, w = ('下手', '上手') if g['uwate'] else ('先手', '後手')
        if g['via'] == 'bod':
            o += self.diagram(Pos(g['start']), b, w, rng)
        elif g['via'] == 'name':
            o.append('手合割：' + g['handicap'] + rng.choice(('', '　　')))
        o += [b + '：' + g['names'][0], w + '：' + g['names'][1], '']
        p, last, line = Pos(g['start']), None, ''
        per = rng.choice((1, 2, 6))
        k, at = 0, None
        for u, e in zip(g['moves'], g['extra']):
            m = p.parse_usi(u)
            s = ki2_text(p, m, last, rng)
            line += s
            k += 1
            if g['vari'] and rng.random() < 0.1:
                at = p.copy(), last
            if k == per or 'c' in e:
                o.append(line)
                line, k = '', 0
            else:
                line += rng.choice((' ', '    ', '　', ''))
            if 'c' in e:
                o += ['*' + c for c in e['c'].split('\n')]
            last = m[1]
            p.push(m)
        if line:
            o.append(line.rstrip(' 　'))
        if g['end']:
            g = dict(g, comma=False)
            o.append(self.result(g))
        if at:
            q, last = at
            o += ['', '変化：%d手' % (len(g['moves']) - len(p.undo) + len(q.undo) + 1)]
            for u in play(rng, q.sfen(), 3):
                m = q.parse_usi(u)
                o.append(ki2_text(q, m, last, rng))
                last = m[1]
                q.push(m)
        return '\n'.join(o) + '\n'

    # running ---------------------------------------------------------------------------------------------------------------------
    def write(self, w, path, st):
        data = self.text(w)
        end = len(data)
        if 'cut' in w:
            end = int(len(data) * w['cut'])
            self.sim.fault('writer-killed')
        st['began'] = len(w['games'])
        self.sim.event('writes', os.path.basename(path), zlib.crc32(data), end)
        rng = random.Random(w['textseed'])
        with seams.real['open'](path, 'wb', buffering=0) as f:
            i = 0
            while i < end:
                k = rng.randint(1, w['chunk'])
                f.write(data[i:min(i + k, end)])
                i += k
                self.tick()
        st['closed'] = end == len(data)
        st['done'] = len(w['games']) if st['closed'] else 0

    def read(self, w, path, st, whole):
        if w['fmt'] == 'csa':
            return self.read_csa(w, path, st, whole)
        return super().read(w, path, st, whole)

    def csa(self, text):
        """Reads one record with a parser that may have been used before."""
        if not self.plan['reuse']:
            return self.CSA.Parser.parse_str(text)
        if self.parser is None:
            self.parser = self.cs.Parser()
        self.parser.parse_csa_str(text)
        return [self.parser]

    def read_csa(self, w, path, st, whole):
        data = self.content(path).replace(b'\r\n', b'\n')
        if whole:
            try:
                ps = self.CSA.Parser.parse_file(path, encoding='utf-8')
            except REFUSAL as e:
                raise Violation('other:unreadable', 'a CSA file by another program cannot be read: %r\n%s' % (e, self.show('csa', data)))
            check(len(ps) == len(w['games']), 'other:count', lambda: '%d records read, %d written\n%s' % (len(ps), len(w['games']), self.show('csa', data)))
            parts = data.split(b'\n/\n')
            for p, g, d in zip(ps, w['games'], parts):
                d = d if d.endswith(b'\n') else d + b'\n'
                self.judge('csa', g, p, True, d)
                self.judge('csa', g, self.csa(d.decode('utf-8'))[0], True, d)
            if w['crlf']:
                # as text, with the line ends it has
                ps = self.CSA.Parser.parse_str(self.content(path).decode('utf-8'))
                check(len(ps) == len(w['games']), 'other:count', lambda: '%d records read from text, %d written\n%s' % (len(ps), len(w['games']), self.show('csa', data)))
                for p, g, d in zip(ps, w['games'], parts):
                    self.judge('csa', g, p, True, d)
            if len(w['games']) == 1:
                # one record, read by its path
                one = self.parser if self.parser is not None and self.plan['reuse'] else self.cs.Parser()
                one.parse_csa_file(path)
                self.judge('csa', w['games'][0], one, True, data)
            return
        parts = (data + b'\n' if data.endswith(b'\n/') else data).split(b'\n/\n')
        for i, (g, d) in enumerate(zip(w['games'], parts)):
            last = i + 1 == len(parts)
            d += b'' if last else b'\n'
            try:
                p = self.csa(d.decode('utf-8'))[0]
            except REFUSAL as e:
                check(last and not d.endswith(b'\n'), 'other:refused', lambda: 'record %d cannot be read: %r\n%s' % (i + 1, e, self.show('csa', d)))
                self.sim.probe('damaged-record-refused')
                continue
            self.judge('csa', g, p, not last, d)

    def judge(self, fmt, g, p, whole, data):
        def ensure(cond, cls, msg):
            if not cond:
                check(False, 'other:' + cls, lambda: '%s: %s\nthe game: start %s moves %s end %s\n%s' % (
                    fmt, msg() if callable(msg) else msg, g['start'], ' '.join(g['moves']), g.get('end'), self.show(fmt, data)))
        mv = [self.cs.move_to_usi(m) for m in p.moves]
        n = len(mv)
        text = self.show_all(fmt, data).replace('\r\n', '\n')
        if not whole and fmt == 'ki2' and not text.endswith('\n'):
            # the last word of a line cut off may be the beginning of another move
            words = sum(len(re.findall('[▲△]', l)) for l in text.split('\n変化：')[0].split('\n') if l[:1] and l[0] in '▲△')
            if n == words and '\n変化：' not in text and text.split('\n')[-1][:1] in ('▲', '△'):
                n = max(n - 1, 0)
                mv = mv[:n]
        ensure(mv == g['moves'][:n], 'moves', lambda: 'the moves read are %s' % mv)
        lines = text.split('\n変化：')[0].split('\n')
        if '\n変化：' not in text:
            lines = lines[:-1]
        if fmt == 'ki2':
            there = sum(len(re.findall('[▲△]', l)) for l in lines if l[:1] and l[0] in '▲△')
        else:
            there = len([l for l in lines if re.match({'csa': r'[+-]\d{4}[A-Z]{2}'}.get(fmt, r' *\d+ .*(\(\d\d\)|打)'), l)])
        ensure(n >= (len(g['moves']) if whole else min(there, len(g['moves']))), 'moves-lost', lambda: '%d moves read, %d whole move lines in the file' % (n, there))
        if fmt == 'csa' and whole:
            said, moved = [], False
            for l in text.split('\n'):
                moved = moved or re.match(r'[+-][0-9]{4}[A-Z]{2}', l) is not None
                if l[:1] == "'" and not re.match("'(black|white)_rate:", l) and not (moved and l.startswith("'** ")):
                    said.append(l[1:])
            ensure(p.comment.rstrip('\n').replace("\n'", '\n').lstrip("'") == '\n'.join(said).lstrip("'").rstrip('\n'), 'comment', lambda: 'the comment read is %r, written %r' % (p.comment, said))
        if n or whole:
            ensure(base(p.sfen) == base(g['start']), 'start', lambda: 'the position read is %s' % p.sfen)
            ensure([x or '' for x in p.names] == g['names'], 'names', lambda: 'the names read are %r, written %r' % (p.names, g['names']))
        turn = Pos(g['start']).turn * (1 if len(g['moves']) % 2 == 0 else -1)
        end, got = g['end'], p.endgame or None
        if fmt == 'csa' and g['summary'] in ('illegal move', 'max_moves', 'abnormal') and (whole or end or "'summary:%s:" % g['summary'] in text):
            end = {'illegal move': '%ILLEGAL_MOVE', 'max_moves': '%JISHOGI', 'abnormal': '%ERROR'}[g['summary']]
        if fmt != 'csa':
            end = {'win': '%TORYO', 'kachi': '%KACHI', 'sennichite': '%SENNICHITE', 'jishogi': '%JISHOGI', 'chudan': '%CHUDAN', 'foul': '%ILLEGAL_MOVE',
                   'foulwin': '%-ILLEGAL_ACTION' if turn > 0 else '%+ILLEGAL_ACTION'}.get(end)
        win = {'%TORYO': -turn, '%TIME_UP': -turn, '%ILLEGAL_MOVE': -turn, '%KACHI': turn, '%+ILLEGAL_ACTION': -1, '%-ILLEGAL_ACTION': 1}.get(end, 0)
        code = {1: self.cs.BLACK_WIN, -1: self.cs.WHITE_WIN, 0: self.cs.DRAW}[win]
        if end is None or end == '%CHUDAN':
            code = p.win if p.win in (None, self.cs.DRAW) else self.cs.DRAW
        if whole:
            ensure(got == end, 'end', lambda: 'the end read is %r, the game ended %r' % (got, end))
            ensure(p.win == code, 'win', lambda: 'the result read is %r, it was %+d' % (p.win, win))
        elif got in CSA_ENDS and got is not None:
            if fmt != 'csa' or text.endswith('\n'):
                ensure(n == len(g['moves']), 'end', lambda: 'an end was read after %d of %d moves' % (n, len(g['moves'])))
                ensure(got == end or (fmt == 'csa' and got == g['end']), 'end', lambda: 'the end read is %r, the game ended %r' % (got, end))
        sure = n if whole else n - 1
        for i in range(max(sure, 0)):
            e = g['extra'][i]
            c = e.get('c')
            if fmt == 'csa':
                ensure(p.times[i] == e['t'], 'times', lambda: 'time of move %d read as %r, written %r' % (i + 1, p.times[i], e['t']))
                if g['sep'] == 'none' and c and c[0] != '*':
                    c = None
                want = [c or ''] + ([c[3:]] if c and c.startswith('** ') else [])
                ensure(p.comments[i] in want, 'comments', lambda: 'comment of move %d read as %r, written %r' % (i + 1, p.comments[i], c))
                if c and c.startswith('** ') and g['sep'] != ',':
                    ensure(p.scores[i] == int(c.split()[1]), 'scores', lambda: 'score of move %d read as %r from %r' % (i + 1, p.scores[i], c))
                elif not c:
                    ensure(p.scores[i] == 0, 'scores', lambda: 'score of move %d read as %r from nothing' % (i + 1, p.scores[i]))
                continue
            r = p.comments[i] if i < len(p.comments) else None
            ensure(r == c, 'comments', lambda: 'comment of move %d read as %r, written %r' % (i + 1, r, c))
            if fmt != 'ki2' and g['times']:
                ensure(i < len(p.times) and p.times[i] == e['t'], 'times', lambda: 'time of move %d read as %r, written %r' % (i + 1, p.times[i:i + 1], e['t']))
        if (n or whole) and fmt == 'csa':
            ensure(p.version == (g['version'] or ''), 'version', lambda: 'version %r, written %r' % (p.version, g['version']))
            ensure(p.var_info == g['var'], 'info', lambda: 'information %r, written %r' % (p.var_info, g['var']))
            want = [1234.5, -7] if g['comment'] == 'rates' else [0, 0]
            ensure([round(r, 3) for r in p.ratings] == want, 'ratings', lambda: 'ratings %r' % (p.ratings,))
        elif n or whole:
            d = g['date']
            m = re.search('開始日時：(.*)', text)[1]
            ensure(p.starttime == datetime.datetime(*(d if m.count(':') == 2 else d[:5])), 'date', lambda: 'the date read is %r, written %r' % (p.starttime, d))
        self.sim.probe('record-judged-whole' if whole else 'record-judged-part')
        if end and got:
            self.sim.probe('end-' + end)
