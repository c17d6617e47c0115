"""Boards: several tasks sharing a pool of boards, against the reference rules.

Every task makes calls on boards other tasks also use; the scheduler decides the order.  Between the calls of one task anything may
happen to the board it holds: moves, take-backs, a new position, a copy, a rejected position.  After every call the board it went to, and
one other board, must show exactly what the reference shows for the calls made on *it*.
"""
import copy
import random
import re
import xml.etree.ElementTree as ET

from . import kernel
from .positions import (random_pos, encode, decode, BadRecord, OneKing, move16, move_psv, FULL, empty_pos)
from .shogi import (Pos, START, usi, P, L, N, S, B, R, G, K, PP, PL, PN, PS, HO, DR, PROMOTE, UNPROMOTE, LETTER, SQ_NAME, CSA_PIECE)
from .world import World, Violation, check, raised

RAND = 1 << 30


class Ref:
    """What one board must show: a position and the calls that led there."""

    def __init__(self, sfen=START):
        self.load(Pos(sfen))

    def load(self, pos):
        self.pos = pos
        pos.undo = []
        self.stack = []                                 # ('m', move) or ('p',)
        self.hist = [(pos.key(), pos.in_check())]       # one entry per position, passes included
        self.nulls = [0]                                # index of the first position after the last pass, per entry of stack

    def copy(self):
        o = Ref.__new__(Ref)
        o.pos = self.pos.copy()
        o.stack, o.hist, o.nulls = list(self.stack), list(self.hist), list(self.nulls)
        return o

    def push(self, m):
        self.pos.push(m)
        self.stack.append(('m', m))
        self.hist.append((self.pos.key(), self.pos.in_check()))
        self.nulls.append(self.nulls[-1])

    def pop(self):
        self.pos.pop()
        self.hist.pop()
        self.nulls.pop()
        return self.stack.pop()[1]

    def push_pass(self):
        self.pos.turn = -self.pos.turn
        self.stack.append(('p',))
        self.hist.append((self.pos.key(), self.pos.in_check()))
        self.nulls.append(len(self.hist) - 1)

    def pop_pass(self):
        self.pos.turn = -self.pos.turn
        self.stack.pop()
        self.hist.pop()
        self.nulls.pop()

    def top(self):
        return self.stack[-1][0] if self.stack else None

    @staticmethod
    def verdict(hist, first, turn, limit, hands=True):
        """Repetition of the last position of hist, which starts a new count at index first; for the side to move there."""
        n = len(hist) - 1
        key = hist[n][0]
        for d in range(4, min(n - first, limit) + 1, 2):
            k = hist[n - d][0]
            if k == key:
                if all(hist[i][1] for i in range(n - 1, n - d, -2)):
                    return 'lose'
                if all(hist[i][1] for i in range(n, n - d, -2)):
                    return 'win'
                return 'draw'
            if hands and k[0] == key[0]:
                a, b = key[1 if turn > 0 else 2], k[1 if turn > 0 else 2]
                if all(x >= y for x, y in zip(a, b)):
                    return 'superior'
                if all(x <= y for x, y in zip(a, b)):
                    return 'inferior'
        return 'none'

    def repetition(self, limit):
        return self.verdict(self.hist, self.nulls[-1], self.pos.turn, limit)

    def move_repetition(self, m, limit):
        self.pos.push(m)
        h = self.hist + [(self.pos.key(), self.pos.in_check())]
        t = self.pos.turn
        self.pos.pop()
        return self.verdict(h, self.nulls[-1], t, limit, hands=False)


LEGAL = {}


def legal(pos):
    """Legal moves of the reference, sorted by their text; remembered."""
    k = pos.key()
    r = LEGAL.get(k)
    if r is None:
        if len(LEGAL) > 20000:
            LEGAL.clear()
        r = LEGAL[k] = sorted(pos.legal_moves(), key=usi)
    return r


def is_mate(pos):
    return pos.in_check() and not legal(pos)


REPS = ['none', 'draw', 'win', 'lose', 'superior', 'inferior']
TEXT = ('7g7f', '', '0000', 'resign', 'win', '7g7f ', '7g7f+ ', '7g7f++', 'P*', 'K*5e', '5e*P', '*5e5d', '9j9i', '0a1b', '1a1a', 'P*0e', '7G7F', '１a1b'[1:],
        '7776FU', '+7776FU', '0055FU', '0055OU', '5500FU', '7776XX', '77', '99999999', '777', 'null', 'pass', '4i5j', 'a1b2')


def bad_sfen(rng, sfen):
    """An SFEN that names no position, made from a good one the way a broken sender or a torn line would."""
    brd, turn, hand, ply = sfen.split()
    k = rng.choice(['char', 'rank-long', 'rank-short', 'ranks', 'ranks10', 'promo-king', 'promo-gold', 'turn', 'hand-char', 'hand-king', 'hand-many', 'cut', 'empty',
                    'plus'])
    rows = brd.split('/')
    i = rng.randrange(9)
    if k == 'char':
        rows[i] = rng.choice('xq?0*Zc') + rows[i][1:]
    elif k == 'rank-long':
        rows[i] += rng.choice('1Pp9')
    elif k == 'rank-short':
        rows[i] = rng.choice(['8', '7P', '1p5', 'P', ''])
    elif k == 'ranks':
        del rows[i]
    elif k == 'ranks10':
        rows.insert(i, '9')
    elif k == 'promo-king':
        rows = [r.replace('k', '+k').replace('K', '+K') for r in rows]
    elif k == 'promo-gold':
        rows[i] = rng.choice(['+G8', '8+g', '4+g4'])
    elif k == 'turn':
        turn = rng.choice(['x', 'B', 'W', '-', '1'])
    elif k == 'hand-char':
        hand = rng.choice(['x', 'P?', '2', '+P', 'PX', 'P2'])
    elif k == 'hand-king':
        hand = rng.choice(['K', 'k', '2K', 'Pk'])
    elif k == 'hand-many':
        hand = rng.choice(['19P', '5L', '3B', '3r', '99p', '64P', '8g', '5s', '32n', '4294967296P', '18446744073709551617R'])
    elif k == 'plus':
        rows[i] = rng.choice(['++P8', '9+', 'P+8', '+', '8+1', '1+1P6'])
    elif k == 'cut':
        s = ' '.join((brd, turn, hand))
        return k, s[:rng.randrange(1, len(brd) + 2)]
    elif k == 'empty':
        return k, rng.choice([' ', 'sfen', 'startpos', '/', '///////// b - 1'])
    return k, ' '.join(('/'.join(rows), turn, hand, ply))


class Boards(World):
    traced = False
    preempt = 0
    max_steps = 20_000
    droppable = ()
    theme = None
    weights = dict(push=30, line=6, pop=10, bad=6, pass_=3, pop_pass=4, copy=6, load=4, reject=0, iter=4, next=6, query=5, view=3, turn=1, ply=1, rep=0)

    def gen(self, rng, tier):
        nb = rng.choice((1, 2, 2, 3, 4))
        nt = rng.choice((1, 2, 2, 3, 4))
        names = [k for k in self.weights]
        ws = [self.weights[k] * rng.choice((0.3, 1, 1, 2)) for k in names]
        n = rng.choice((12, 25, 40, 60) if tier == 'quick' else (25, 60, 120, 250))
        plan = {'boards': [self.start(rng) for _ in range(nb)], 'tasks': []}
        for _ in range(nt):
            ops = []
            for _ in range(max(3, n // nt)):
                op = rng.choices(names, ws)[0]
                ops.append([op, rng.randrange(nb), rng.randrange(RAND)])
            plan['tasks'].append(ops)
        plan['switch'] = rng.choice((0.0, 0.3, 0.7))
        plan['bias'] = rng.choice(('any', 'any', 'forcing', 'shuttle'))
        return plan

    def start(self, rng):
        k = rng.random()
        if k < 0.3:
            return START
        return random_pos(rng).sfen()

    def shrinks(self, plan):
        for t in range(len(plan['tasks'])):
            n = len(plan['tasks'][t])
            k = n
            while k >= 1:
                for i in range(0, n, k):
                    q = copy.deepcopy(plan)
                    del q['tasks'][t][i:i + k]
                    if not q['tasks'][t] and len(q['tasks']) > 1:
                        del q['tasks'][t]
                    yield q
                k //= 2
        for i, s in enumerate(plan['boards']):
            if s != START:
                q = copy.deepcopy(plan)
                q['boards'][i] = START
                yield q

    # -- one run ----------------------------------------------------------------------------------------------------
    def body(self, plan, sim, out):
        import cshogi
        import numpy
        self.cs, self.np, self.sim, self.plan = cshogi, numpy, sim, plan
        self.bs = [cshogi.Board(s) for s in plan['boards']]
        self.rs = [Ref(s) for s in plan['boards']]
        self.iters = {}
        self.old = {}
        self.hashes = {}
        self.keys = {}
        self.steps_done = 0
        for i in range(len(self.bs)):
            self.compare(i, 'after construction')

        def task(ops, t):
            def run():
                for j, op in enumerate(ops):
                    sim.yield_point('op')
                    self.do(op, t)
            return run
        ts = [sim.spawn('user%d' % i, task(ops, i)) for i, ops in enumerate(plan['tasks'])]
        sim.run(lambda: all(t.state == 'done' for t in ts))
        for t in ts:
            if isinstance(t.exc, Violation):
                raise t.exc
            if t.exc is not None:
                raise Violation('board:exception-' + type(t.exc).__name__, raised(t))
            check(t.state == 'done', 'board:stuck', 'a task did not finish')
        for i in range(len(self.bs)):
            self.compare(i, 'at the end')
        out.trivial = self.steps_done < 5

    def do(self, op, t):
        kind, i, r = op
        rng = random.Random(r)
        i %= len(self.bs)
        self.sim.event('op', t, kind, i)
        getattr(self, 'op_' + kind.rstrip('_'))(i, rng, t)
        self.steps_done += 1
        self.compare(i, 'after ' + kind)
        j = rng.randrange(len(self.bs))
        if j != i:
            self.brief(j, 'after %s on another board' % kind)

    def ensure(self, cond, cls, i, msg):
        if not cond:
            check(False, cls, 'board %d: %s\n  reference: %s, history %s' % (
                i, msg() if callable(msg) else msg, self.rs[i].pos.sfen(), ' '.join('pass' if s[0] == 'p' else usi(s[1]) for s in self.rs[i].stack)))

    def pick(self, ref, rng):
        ms = legal(ref.pos)
        if not ms:
            return None
        bias = self.plan.get('bias', 'any')
        if self.theme == 'rep' or bias == 'shuttle':
            if rng.random() < 0.75:
                # towards a position (or a board) seen before
                seen, boards = {h[0] for h in ref.hist}, {(h[0][0], h[0][3]) for h in ref.hist}
                best = []
                for m in ms:
                    ref.pos.push(m)
                    k = ref.pos.key()
                    best.append((k in seen) * 2 + ((k[0], k[3]) in boards))
                    ref.pos.pop()
                w = rng.random()
                top = [m for m, b in zip(ms, best) if (b >= 2 if w < 0.8 else b >= 1)]
                if top:
                    return rng.choice(top)
                # take the last own move back, or give check so as to be able to keep doing it
                own = ref.stack[-2] if len(ref.stack) >= 2 else None
                if own and own[0] == 'm' and own[1][0] is not None:
                    back = (own[1][1], own[1][0], False)
                    if back in ms and rng.random() < 0.7:
                        return back
            ch = [m for m in ms if m[0] is not None and ref.pos.gives_check(m)]
            if ch and rng.random() < 0.6:
                return rng.choice(ch)
            quiet = [m for m in ms if m[0] is not None and not ref.pos.b[m[1]] and not m[2]]
            return rng.choice(quiet or ms)
        if bias == 'forcing' and rng.random() < 0.6:
            f = [m for m in ms if (m[0] is not None and ref.pos.b[m[1]]) or ref.pos.gives_check(m)]
            if f:
                return rng.choice(f)
        if rng.random() < 0.3:
            f = [m for m in ms if m[0] is None or m[2] or ref.pos.b[m[1]] or abs(ref.pos.b[m[0]]) == K]
            if f:
                return rng.choice(f)
        return rng.choice(ms)

    # -- calls that move ---------------------------------------------------------------------------------------------
    def op_push(self, i, rng, t):
        b, ref = self.bs[i], self.rs[i]
        m = self.pick(ref, rng)
        if m is not None:
            self.push_move(i, m, rng)

    def push_move(self, i, m, rng):
        b, ref = self.bs[i], self.rs[i]
        u, how = usi(m), rng.randrange(7)
        if how == 0:
            mv = [x for x in b.legal_moves if self.cs.move_to_usi(x) == u]
            self.ensure(len(mv) == 1, 'legal:moves', i, lambda: 'legal move %s occurs %d times among legal_moves' % (u, len(mv)))
            mv = mv[0]
            b.push(mv)
        elif how == 1:
            mv = b.push_usi(u)
        elif how == 2:
            mv = b.push_csa(ref.pos.csa(m))
        elif how == 3:
            mv = b.push_move16(move16(m))
        elif how == 4:
            mv = b.push_psv(move_psv(m))
        elif how == 5:
            mv = b.drop_move(m[1], m[2]) if m[0] is None else b.move(m[0], m[1], m[2])
            self.ensure(b.is_legal(mv), 'legal:is-legal', i, lambda: 'is_legal denies %s' % u)
            b.push(mv)
        else:
            mv = rng.choice([lambda: b.move_from_usi(u), lambda: b.move_from_csa(ref.pos.csa(m)), lambda: b.move_from_move16(move16(m)),
                             lambda: b.move_from_psv(move_psv(m))])()
            b.push(mv)
        self.ensure(mv, 'legal:refused', i, lambda: 'legal move %s (%s) was refused, way %d' % (u, ref.pos.csa(m), how))
        self.decode_move(i, mv, ref.pos, m)
        if ref.pos.in_check():
            self.sim.probe('moved-out-of-check')
        ref.push(m)

    def decode_move(self, i, mv, pos, m):
        cs = self.cs
        fr, to, x = m
        got = (cs.move_to(mv), cs.move_is_drop(mv), cs.move_is_promotion(mv), cs.move_to_usi(mv), cs.move_to_csa(mv), cs.move16(mv))
        want = (to, fr is None, bool(fr is not None and x), usi(m), pos.csa(m), move16(m))
        if fr is None:
            got += (cs.hand_piece_to_piece_type(cs.move_drop_hand_piece(mv)),)
            want += (x,)
        else:
            cap = abs(pos.b[to])
            got += (cs.move_from(mv), cs.move_from_piece_type(mv), cs.move_cap(mv))
            want += (fr, abs(pos.b[fr]), cap)
        got += (cs.move16_to_psv(cs.move16(mv)), cs.move16_from_psv(move_psv(m)), cs.to_usi(mv), cs.to_csa(mv))
        want += (move_psv(m), move16(m), usi(m).encode(), pos.csa(m).encode())
        got += (cs.make_file(to), cs.make_rank(to), cs.SQUARE_NAMES[to], cs.opponent(cs.BLACK if pos.turn > 0 else cs.WHITE))
        want += (to // 9, to % 9, usi((None, to, P))[2:], cs.WHITE if pos.turn > 0 else cs.BLACK)
        self.ensure(got == want, 'board:move-value', i, lambda: 'move %s reads back as %r, expected %r' % (usi(m), got, want))

    def op_line(self, i, rng, t):
        for _ in range(rng.choice((2, 4, 8, 12))):
            self.op_push(i, rng, t)

    def op_rep(self, i, rng, t):
        for _ in range(rng.choice((4, 8))):
            self.op_push(i, rng, t)
            self.repetition(i)

    def op_sac(self, i, rng, t):
        """Six moves after which the board is the same and one side is poorer by a dropped piece."""
        ref = self.rs[i]
        pos = ref.pos.copy()
        pos.undo = []
        first = pos.turn
        for _ in range(30):
            dropper = rng.choice((1, -1))
            sqs = [q for q in range(81) if pos.b[q] * -dropper > 0 and abs(pos.b[q]) not in (P, L, N, S)]
            hand = [x for x in (P, L, N, S, G, B, R) if pos.hand[dropper][x]]
            if not sqs or not hand:
                continue
            a = rng.choice(sqs)
            near = [q for q in range(81) if not pos.b[q] and max(abs(q // 9 - a // 9), abs(q % 9 - a % 9)) <= 3]
            if len(near) < 2:
                continue
            s_, c = rng.sample(near, 2)
            own = [q for q in range(81) if pos.b[q] * dropper > 0 and abs(pos.b[q]) not in (P, L, N)]
            x = rng.choice(own)
            y = rng.choice([q for q in range(81) if max(abs(q // 9 - x // 9), abs(q % 9 - x % 9)) == 1])
            d = [(None, s_, rng.choice(hand)), (x, y, False), (y, x, False)]
            k = [(a, s_, False), (s_, c, False), (c, a, False)] if dropper == first else [(a, c, False), (c, s_, False), (s_, a, False)]
            line = [m for pair in (zip(d, k) if dropper == first else zip(k, d)) for m in pair]
            done = 0
            for m in line:
                if m not in legal(pos):
                    break
                pos.push(m)
                done += 1
            for _ in range(done):
                pos.pop()
            if done == 6:
                for m in line:
                    self.push_move(i, m, rng)
                self.sim.probe('piece-given-away')
                self.repetition(i)
                return

    def op_pop(self, i, rng, t):
        b, ref = self.bs[i], self.rs[i]
        for _ in range(rng.choice((1, 1, 2, 4, 30))):
            if ref.top() != 'm':
                break
            mv = b.pop()
            m = ref.pop()
            self.ensure(mv and self.cs.move_to_usi(mv) == usi(m), 'board:pop', i, lambda: 'pop() returned %s, the last move was %s' % (self.cs.move_to_usi(mv), usi(m)))
        if not ref.stack and rng.random() < 0.3:
            for f in (b.pop, b.pop_pass):
                try:
                    f()
                except IndexError:
                    self.sim.fault('take-back-with-nothing-to-take-back')
                else:
                    self.ensure(False, 'load:empty-pop', i, 'a take-back on a board without moves did not raise IndexError')

    def op_pass(self, i, rng, t):
        b, ref = self.bs[i], self.rs[i]
        if ref.pos.in_check():
            try:
                b.push_pass()
            except AssertionError:
                self.sim.fault('pass-while-in-check')
            else:
                self.ensure(False, 'board:pass-in-check', i, 'push_pass() was accepted while in check')
            return
        b.push_pass()
        ref.push_pass()
        self.sim.probe('pass')
        if rng.random() < 0.5:
            self.repetition(i)
            self.op_push(i, rng, t)

    def op_pop_pass(self, i, rng, t):
        if self.rs[i].top() == 'p':
            self.bs[i].pop_pass()
            self.rs[i].pop_pass()
            self.sim.probe('pass-taken-back')

    def op_bad(self, i, rng, t):
        """Something that is no legal move: refused, and nothing happens."""
        b, ref = self.bs[i], self.rs[i]
        ok = {usi(m) for m in legal(ref.pos)}
        cand = []
        k = rng.randrange(5)
        if k == 4:
            return self.op_garbled(i, rng, ok)
        if k == 0:
            cand = [rng.choice(TEXT)]
        elif k == 1:
            cand = [u for m in ref.pos.pseudo() for u in [usi(m)] if u not in ok]
        elif k == 2:
            c = ref.pos.turn
            cand = [SQ_NAME[a] + SQ_NAME[d] + x for a in range(81) if ref.pos.b[a] for d in rng.sample(range(81), 8) for x in ('', '+')]
            cand += [LETTER[x] + '*' + SQ_NAME[d] for x in (P, L, N, S, G, B, R, K) for d in rng.sample(range(81), 8)]
        else:
            cand = [u + '+' for u in ok if len(u) == 4 and u[1] != '*'] + [u[:4] for u in ok if len(u) == 5]
        cand = [u for u in cand if u not in ok]
        if not cand:
            return
        u = rng.choice(cand)
        csa = rng.random() < 0.4
        if csa:
            m = ref.pos.parse_usi(u)
            if m is not None:
                t_ = m[2] if m[0] is None else abs(ref.pos.b[m[0]])
                t_ = PROMOTE.get(t_, t_) if m[0] is not None and m[2] else (t_ or P)
                if m[0] is not None and m[2] and abs(ref.pos.b[m[0]]) not in PROMOTE:
                    return
                q = lambda s: str(s // 9 + 1) + str(s % 9 + 1)
                u = ('00' if m[0] is None else q(m[0])) + q(m[1]) + CSA_PIECE[t_]
            if u in {ref.pos.csa(m) for m in legal(ref.pos)}:
                return
        else:
            m = ref.pos.parse_usi(u)
        self.sim.fault('illegal-or-unreadable-move')
        try:
            got = [b.move_from_csa(u) if csa else b.move_from_usi(u), b.push_csa(u) if csa else b.push_usi(u)]
        except UnicodeEncodeError:
            return
        self.ensure(got == [0, 0], 'legal:accepted', i, lambda: '%r is no legal move, but was accepted: %r' % (u, got))
        if m is not None and m[0] is not None and ref.pos.b[m[0]] and not (m[2] and abs(ref.pos.b[m[0]]) not in PROMOTE):
            self.ensure(not b.is_legal(b.move(m[0], m[1], m[2])), 'legal:is-legal', i, lambda: 'is_legal accepts %r' % u)

    def op_garbled(self, i, rng, ok):
        """The text of a legal move with one character wrong, missing or added."""
        b, ref = self.bs[i], self.rs[i]
        csa = rng.random() < .5
        ok = sorted({ref.pos.csa(m) for m in legal(ref.pos)}) if csa else sorted(ok)
        if not ok:
            return
        self.sim.fault('garbled-move')
        for _ in range(6):
            u = rng.choice(ok)
            k = rng.randrange(len(u) + 1)
            x = rng.choice('0123456789abcdefghi*+=-PLNSGBRKplnsgbrkFUOTxX ')
            how = rng.randrange(4)
            v = u[:k] + x + u[k:] if how == 0 else u[:k] + u[k + 1:] if how == 1 else u[:k] + x + u[k + 1:]
            if how == 3:
                # one of the characters that mean something at this place
                k = rng.choice([0, 1, 4 if len(u) > 4 else 1])
                v = u[:k] + rng.choice('0=+*- 19ai') + u[k + 1:]
                if len(u) == 4 and rng.random() < .5:
                    v = u + rng.choice('=-*+ x')
            if v in ok or v[:1].upper() + v[1:] in ok:     # a drop may be written with a small letter
                continue
            got = [b.move_from_csa(v), b.push_csa(v)] if csa else [b.move_from_usi(v), b.push_usi(v)]
            self.ensure(got == [0, 0], 'legal:accepted', i, lambda: '%r is no legal move, but was accepted: %r' % (v, got))

    def op_copy(self, i, rng, t):
        j = rng.randrange(len(self.bs))
        how = rng.randrange(3)
        b = self.bs[i]
        c = b.copy() if how == 0 else copy.copy(b) if how == 1 else self.cs.Board(board=b)
        if j == i and len(self.bs) < 5:
            self.bs.append(c)
            self.rs.append(self.rs[i].copy())
            j = len(self.bs) - 1
        else:
            self.bs[j], self.rs[j] = c, self.rs[i].copy()
        self.sim.probe('copied')
        del b, c
        self.compare(j, 'as a copy')

    def op_turn(self, i, rng, t):
        b, ref = self.bs[i], self.rs[i]
        if ref.stack:
            return
        p = ref.pos.copy()
        p.turn = -p.turn
        if p.in_check(-p.turn):
            return
        b.turn = 0 if p.turn > 0 else 1
        ref.load(p)

    def op_ply(self, i, rng, t):
        n = rng.choice((1, 2, 100, 9999)) + len(self.rs[i].stack)
        self.bs[i].move_number = n
        d = n - self.rs[i].pos.ply
        pos = self.rs[i].pos
        pos.ply = n
        pos.undo = [(m, p, c, ply + d) for m, p, c, ply in pos.undo]

    # -- loads ---------------------------------------------------------------------------------------------------------
    def op_load(self, i, rng, t):
        b, ref, np = self.bs[i], self.rs[i], self.np
        how = rng.randrange(8)
        p = Pos(START) if rng.random() < 0.2 else random_pos(rng)
        if rng.random() < 0.15:
            p = ref.pos.copy()
            p.undo = []
        if how == 0:
            b.set_sfen(p.sfen())
        elif how == 1:
            b.reset()
            p = Pos(START)
        elif how == 2:
            # the hand in another order, with counts split
            brd, tn, hand, ply = p.sfen().split()
            if hand != '-':
                parts = [LETTER[x] if c > 0 else LETTER[x].lower() for c in (1, -1) for x in (P, L, N, S, B, R, G) if p.hand[c][x]]
                rng.shuffle(parts)
                hand = ''.join((str(n) if n > 1 else '') + ch for ch in parts
                               for n in [p.hand[1 if ch.isupper() else -1][{v: k for k, v in LETTER.items()}[ch.upper()]]])
            b.set_sfen(' '.join((brd, tn, hand, ply)))
        elif how in (3, 4):
            start = rng.random() < 0.4
            if start:
                p = Pos(START)
            s = 'startpos' if start else 'sfen ' + p.sfen()
            r2 = Ref(p.sfen())
            ms = []
            for _ in range(rng.choice((0, 0, 1, 3, 8, 20))):
                m = self.pick(r2, rng)
                if m is None:
                    break
                r2.push(m)
                ms.append(usi(m))
            if ms or rng.random() < 0.3:
                s += ' moves' + ''.join(' ' + m for m in ms)
            b.set_position(s)
            self.rs[i] = r2
            return
        elif how == 5:
            b.set_pieces([0 if not x else x if x > 0 else 16 - x for x in p.b],
                         tuple([p.hand[c][x] for x in (P, L, N, S, G, B, R)] for c in (1, -1)))
            p.turn, p.ply = ref.pos.turn, ref.pos.ply
            if p.in_check(-p.turn):
                # the other side's king could be taken: load something playable at once
                p = Pos(START)
                b.reset()
        else:
            kind = 'hcp' if how == 6 else 'psfen'
            a = np.frombuffer(encode(p, kind), np.uint8).copy()
            (b.set_hcp if how == 6 else b.set_psfen)(a)
            p.ply = 1
        ref.load(p)

    def op_reject(self, i, rng, t):
        """A position that cannot be read: an exception, and the board stays what it was."""
        b, ref, np = self.bs[i], self.rs[i], self.np
        how = rng.randrange(6)
        p = Pos(START) if rng.random() < 0.3 else random_pos(rng)
        why = ''
        try:
            if how in (0, 1):
                why, s = bad_sfen(rng, p.sfen())
                self.sim.fault('unreadable-sfen:' + why)
                if how == 0:
                    b.set_sfen(s)
                else:
                    self.cs.Board(s)
            elif how == 2:
                why, s = bad_sfen(rng, p.sfen())
                self.sim.fault('unreadable-position:' + why)
                b.set_position('sfen ' + s)
            elif how == 3:
                r2 = Ref(p.sfen())
                ms = []
                for _ in range(rng.choice((0, 1, 5))):
                    m = self.pick(r2, rng)
                    if m is None:
                        break
                    r2.push(m)
                    ms.append(usi(m))
                ok = {usi(m) for m in legal(r2.pos)}
                bad = rng.choice([x for x in ('resign', 'P*', '7g7', 'K*5e', '1a1a', '9i1a', '5a5i+', 'win', '0a0b', '2h2i7') if x not in ok])
                ms.append(bad)
                if rng.random() < 0.5:
                    ms.append('3c3d')
                why, s = 'move', 'sfen %s moves %s' % (p.sfen(), ' '.join(ms))
                self.sim.fault('unreadable-position:move')
                b.set_position(s)
            elif how == 4:
                why, s = 'word', rng.choice(['', 'start', 'position startpos', 'fen ' + p.sfen(), p.sfen(), 'moves 7g7f', 'startposmoves'])
                self.sim.fault('unreadable-position:word')
                b.set_position(s)
            else:
                kind = rng.choice(('hcp', 'psfen'))
                a = bytearray(encode(p, kind))
                for _ in range(40):
                    d = bytearray(a)
                    k = rng.random()
                    if k < 0.3:
                        for _ in range(rng.randint(1, 3)):
                            d[rng.randrange(32)] ^= 1 << rng.randrange(8)
                    elif k < 0.5:
                        c = rng.randrange(1, 32)
                        d[c:] = bytes(32 - c)
                    elif k < 0.7:
                        c = rng.randrange(32)
                        d[c:c + 8] = b'\xff' * len(d[c:c + 8])
                    elif k < 0.85:
                        d = bytearray(rng.randrange(256) for _ in range(32))
                    else:
                        c = rng.randrange(1, 4)
                        d = d[c:] + d[:c]
                    try:
                        decode(bytes(d), kind)
                    except BadRecord:
                        break
                    except OneKing:
                        continue
                else:
                    return
                why, s = kind, bytes(d).hex()
                self.sim.fault('unreadable-record:' + kind)
                (b.set_hcp if kind == 'hcp' else b.set_psfen)(np.frombuffer(bytes(d), np.uint8).copy())
        except (RuntimeError, ValueError) as e:
            self.sim.event('rejected', why)
        else:
            self.ensure(False, 'load:accepted', i, lambda: 'a position that cannot be read (%s) was accepted: %r; the board is now %s' % (why, s, b.sfen()))

    # -- looking -------------------------------------------------------------------------------------------------------
    def op_iter(self, i, rng, t):
        b = self.bs[i]
        it = b.legal_moves if rng.random() < 0.8 else None
        if it is None:
            return
        want = [usi(m) for m in legal(self.rs[i].pos)]
        self.ensure(len(it) == len(want), 'legal:moves', i, lambda: 'len(legal_moves) is %d, there are %d legal moves' % (len(it), len(want)))
        got = []
        for _ in range(rng.choice((0, 1, 5, 40))):
            x = next(it, None)
            if x is None:
                break
            got.append(self.cs.move_to_usi(x))
        self.iters[t] = (i, it, got, want)

    def op_next(self, i, rng, t):
        """Go on with an iteration that began before the board changed: still the moves of the position it was made from."""
        if t not in self.iters:
            return
        bi, it, got, want = self.iters.pop(t)
        for x in it:
            got.append(self.cs.move_to_usi(x))
        if sorted(got) != want:
            check(False, 'legal:iterator', 'an iteration over legal_moves gave %s, the position had %s' % (sorted(got), want))
        self.sim.probe('iteration-finished-later')

    def op_query(self, i, rng, t):
        b, ref, cs = self.bs[i], self.rs[i], self.cs
        pos = ref.pos
        ms = legal(pos)
        self.ensure(b.is_nyugyoku() == pos.declaration_ok(), 'legal:declaration', i, lambda: 'is_nyugyoku() is %r' % b.is_nyugyoku())
        if pos.declaration_ok():
            self.sim.probe('declaration-possible')
        ps = list(b.pseudo_legal_moves)
        lg = sorted(cs.move_to_usi(m) for m in ps if b.pseudo_legal_move_is_legal(m))
        self.ensure(lg == [usi(m) for m in ms], 'legal:pseudo', i, lambda: 'pseudo_legal_moves filtered by pseudo_legal_move_is_legal differ from the legal moves: %s'
                    % (set(lg) ^ set(usi(m) for m in ms)))
        # moves by the way pieces go, and moves that were legal a while ago: pseudo-legal and not leaving the king in check = legal
        now = {usi(m) for m in ms}
        cand = pos.pseudo()
        cand = [(usi(m), b.drop_move(m[1], m[2]) if m[0] is None else b.move(m[0], m[1], bool(m[2]))) for m in rng.sample(cand, min(len(cand), 25))]
        old = self.old.setdefault((i, pos.turn), [])
        for u, mv in cand + rng.sample(old, min(len(old), 15)):
            got = bool(b.is_pseudo_legal(mv) and b.pseudo_legal_move_is_legal(mv))
            if (u, mv) in old and u in now and b.move_from_usi(u) != mv:
                continue                    # the same move, but of another piece or taking another one
            self.ensure(got == (u in now), 'legal:pseudo', i, lambda: 'is_pseudo_legal and pseudo_legal_move_is_legal of %s say %r' % (u, got))
        old += rng.sample(cand, min(len(cand), 5))
        mv = b.mate_move_in_1ply()
        if mv:
            u = cs.move_to_usi(mv)
            m = pos.legal_usi(u)
            ok = m is not None
            if ok:
                pos.push(m)
                ok = is_mate(pos)
                pos.pop()
            self.ensure(ok, 'legal:mate1', i, lambda: 'mate_move_in_1ply() answers %s, which does not mate' % u)
            self.sim.probe('mate-in-1')
        # book keys: a function of the position, and book_key_after agrees with making the move
        k = b.book_key()
        if ms:
            m = rng.choice(ms)
            mv = b.move_from_usi(usi(m))
            ka = b.book_key_after(k, mv)
            h = b.zobrist_hash()
            b.push(mv)
            k2 = b.book_key()
            self.ensure(k2 == ka, 'board:book-key', i, lambda: 'book_key_after(%s) is %d, book_key() after the move is %d' % (usi(m), ka, k2))
            b.pop()
            self.ensure(b.book_key() == k and b.zobrist_hash() == h, 'board:book-key', i, 'making and taking back a move changed the key')
        self.repetition(i)

    def repetition(self, i):
        b, ref, cs = self.bs[i], self.rs[i], self.cs
        consts = [cs.NOT_REPETITION, cs.REPETITION_DRAW, cs.REPETITION_WIN, cs.REPETITION_LOSE, cs.REPETITION_SUPERIOR, cs.REPETITION_INFERIOR]
        for limit in (None, 4, 6, 9, 12):
            want = ref.repetition(limit or 1 << 30)
            got = b.is_draw(limit) if limit else b.is_draw()
            self.ensure(got == consts[REPS.index(want)], 'rep:is-draw', i, lambda: 'is_draw(%s) is %s, by the rules it is %s' % (limit, REPS[got], want))
            if limit is None and want != 'none':
                self.sim.probe('repetition-' + want)
        ms = legal(ref.pos)
        if len(ref.hist) > 3 and ms:
            last = ref.hist[-4][0] if len(ref.hist) >= 4 else None
            todo = []
            seen = {h[0] for h in ref.hist}
            for m in ms:
                ref.pos.push(m)
                if ref.pos.key() in seen:
                    todo.append(m)
                ref.pos.pop()
            for m in todo + ms[:2]:
                mv = b.move_from_usi(usi(m))
                for limit in (None, 4, 7):
                    want = ref.move_repetition(m, limit or 1 << 30)
                    got = b.move_is_draw(mv, limit) if limit else b.move_is_draw(mv)
                    self.ensure(got == consts[REPS.index(want)], 'rep:move-is-draw', i, lambda: 'move_is_draw(%s, %s) is %s, by the rules it is %s'
                                % (usi(m), limit, REPS[got], want))
                    if want != 'none':
                        self.sim.probe('move-repetition-' + want)

    def op_view(self, i, rng, t):
        """Representations: right, and without effect on the board."""
        b, ref, cs = self.bs[i], self.rs[i], self.cs
        pos = ref.pos
        k = rng.randrange(5)
        if k == 0:
            want = ''.join('P%d' % (r + 1) + ''.join(' * ' if not pos.b[f * 9 + r] else ('+' if pos.b[f * 9 + r] > 0 else '-') + CSA_PIECE[abs(pos.b[f * 9 + r])]
                                                     for f in range(8, -1, -1)) + '\n' for r in range(9))
            for c in (1, -1):
                for x in (P, L, N, S, G, B, R):
                    if pos.hand[c][x]:
                        want += 'P' + ('+' if c > 0 else '-') + ('00' + CSA_PIECE[x]) * pos.hand[c][x] + '\n'
            want += ('+' if pos.turn > 0 else '-') + '\n'
            self.ensure(b.csa_pos() == want, 'board:csa-pos', i, lambda: 'csa_pos() is\n%s\nnot\n%s' % (b.csa_pos(), want))
        elif k == 1:
            for kind, f in (('hcp', b.to_hcp), ('psfen', b.to_psfen)):
                a = self.np.full(32, rng.randrange(256), self.np.uint8)
                f(a)
                self.ensure(bytes(a) == encode(pos, kind), 'board:packed', i, lambda: '%s is %s, expected %s' % (kind, bytes(a).hex(), encode(pos, kind).hex()))
        elif k == 2:
            s = cs.rotate_sfen(b.sfen())
            q = empty_pos()
            q.b = [-x for x in reversed(pos.b)]
            q.hand = {1: pos.hand[-1], -1: pos.hand[1]}
            q.turn, q.ply = -pos.turn, pos.ply
            self.ensure(s == q.sfen(), 'board:rotate', i, lambda: 'rotate_sfen gives %s, expected %s' % (s, q.sfen()))
        elif k == 3:
            self.picture(i)
        else:
            f = self.np.zeros((28, 81), self.np.float32)
            b.piece_planes(f)
            for c in (1, -1):
                for pt in range(1, 15):
                    want = [1.0 if x == c * pt else 0.0 for x in pos.b]
                    got = [float(x) for x in f[(pt - 1) + (14 if c < 0 else 0)]]
                    self.ensure(got == want, 'board:planes', i, lambda: 'piece_planes of %d*%d' % (c, pt))

    def picture(self, i):
        """The texts and the drawing made for people."""
        b, ref = self.bs[i], self.rs[i]
        pos = ref.pos
        rows = ['P%d' % (r + 1) + ''.join(' * ' if not pos.b[f * 9 + r] else ('+' if pos.b[f * 9 + r] > 0 else '-') + CSA_PIECE[abs(pos.b[f * 9 + r])]
                                          for f in range(8, -1, -1)) for r in range(9)]
        got = repr(b)
        self.ensure([l for l in got.split('\n') if re.match(r'P\d', l)] == rows, 'board:repr', i, lambda: 'printed as\n%s' % got)
        # board diagram
        name = dict(zip(range(1, 15), '歩香桂銀角飛金玉と杏圭全馬龍'))
        num = ['', '', '二', '三', '四', '五', '六', '七', '八', '九', '十', '十一', '十二', '十三', '十四', '十五', '十六', '十七', '十八']
        hand = {c: '　'.join(name[x] + num[pos.hand[c][x]] for x in (R, B, G, S, N, L, P) if pos.hand[c][x]) or 'なし' for c in (1, -1)}
        bod = ['後手の持駒：' + hand[-1], '  ９ ８ ７ ６ ５ ４ ３ ２ １', '+---------------------------+']
        for r in range(9):
            bod.append('|' + ''.join(' ・' if not pos.b[f * 9 + r] else (' ' if pos.b[f * 9 + r] > 0 else 'v') + name[abs(pos.b[f * 9 + r])] for f in range(8, -1, -1))
                       + '|' + '一二三四五六七八九'[r])
        bod += ['+---------------------------+', '先手の持駒：' + hand[1]] + (['後手番'] if pos.turn < 0 else [])
        got = b.to_bod().split('\n')
        self.ensure(got[:len(bod)] == bod, 'board:bod', i, lambda: 'to_bod() is\n%s\nnot\n%s' % ('\n'.join(got), '\n'.join(bod)))
        tail = got[len(bod):]
        last = ref.stack[-1] if ref.stack else None
        if last and last[0] == 'm':
            m = last[1]
            before = ref.stack[-2] if len(ref.stack) > 1 else None
            sq = '１２３４５６７８９'[m[1] // 9] + '一二三四五六七八九'[m[1] % 9]
            same = before and before[0] == 'm' and before[1][1] == m[1]
            x = abs(pos.b[m[1]])
            names = {PP: 'と', PL: '成香', PN: '成桂', PS: '成銀', HO: '馬', DR: '[竜龍]', K: '[玉王]'}
            t = UNPROMOTE[x] if m[0] is not None and m[2] else x
            pat = '手数＝%d　%s%s%s%s[左右上寄引直]*%s　まで' % (pos.ply - 1, '☗▲'[1] if pos.turn < 0 else '△', sq, '同　?' if same else '', names.get(t, name[t]),
                                                 '成' if m[0] is not None and m[2] else '打?' if m[0] is None else '(不成)?')
            if not before or before[0] == 'm':
                self.ensure(len(tail) == 1 and re.fullmatch(pat, tail[0]), 'board:bod', i, lambda: 'to_bod() names the last move %r, expected %s' % (tail, pat))
        else:
            self.ensure(not tail, 'board:bod', i, lambda: 'to_bod() adds %r' % tail)
        # drawing
        mv = b.peek()
        svg = ET.fromstring(b.to_svg(mv) if mv and last[0] == 'm' else b.to_svg())
        ns = '{http://www.w3.org/2000/svg}'
        ids = {1: 'pawn', 2: 'lance', 3: 'knight', 4: 'silver', 5: 'bishop', 6: 'rook', 7: 'gold', 8: 'king', 9: 'pro-pawn', 10: 'pro-lance', 11: 'pro-knight', 12: 'pro-silver',
               13: 'horse', 14: 'dragon'}
        at = {}
        for u in svg.findall(ns + 'use'):
            at[float(u.get('x')), float(u.get('y'))] = u.get('{http://www.w3.org/1999/xlink}href')
        want = {(20.5 + (8 - q // 9) * 20, 10.5 + q % 9 * 20): '#%s-%s' % ('black' if x > 0 else 'white', ids[abs(x)]) for q, x in enumerate(pos.b) if x}
        self.ensure(at == want, 'board:svg', i, lambda: 'to_svg() shows %r' % at)
        marks = {(float(u.get('x')), float(u.get('y'))) for u in svg.findall(ns + 'rect')}
        want = {(20.5 + (8 - q // 9) * 20, 10.5 + q % 9 * 20) for q in (last[1][:2] if last and last[0] == 'm' else ()) if q is not None}
        self.ensure(marks == want, 'board:svg', i, lambda: 'to_svg() marks %r, expected %r' % (marks, want))
        b._repr_svg_()

    # -- what a board must show --------------------------------------------------------------------------------------------
    def brief(self, i, when):
        b, ref, cs = self.bs[i], self.rs[i], self.cs
        s = b.sfen()
        self.ensure(s == ref.pos.sfen(), 'board:position', i, lambda: '%s the board shows %s' % (when, s))
        h = [cs.move_to_usi(m) if st[0] == 'm' else 'pass' for m, st in zip(b.history, ref.stack)]
        want = ['pass' if st[0] == 'p' else usi(st[1]) for st in ref.stack]
        self.ensure(h == want and len(b.history) == len(want), 'board:history', i, lambda: '%s the history is %s (%d entries)' % (when, h, len(b.history)))
        z = b.zobrist_hash()
        k = ref.pos.key()
        self.ensure(self.hashes.setdefault(k, z) == z, 'board:hash', i, lambda: '%s the hash is %d, the same position had %d before' % (when, z, self.hashes[k]))
        self.ensure(self.keys.setdefault(z, k) == k, 'board:hash', i, lambda: '%s the hash is that of another position' % when)

    def compare(self, i, when):
        b, ref, cs = self.bs[i], self.rs[i], self.cs
        self.brief(i, when)
        pos = ref.pos
        ps = [0 if not x else x if x > 0 else 16 - x for x in pos.b]
        self.ensure(list(b.pieces) == ps, 'board:pieces', i, lambda: '%s pieces is %s' % (when, b.pieces))
        self.ensure([b.piece(q) for q in range(81)] == ps, 'board:pieces', i, lambda: '%s piece(sq) differs from the position' % when)
        self.ensure([b.piece_type(q) for q in range(81)] == [abs(x) for x in pos.b], 'board:pieces', i, lambda: '%s piece_type(sq) differs from the position' % when)
        hands = tuple([pos.hand[c][x] for x in (P, L, N, S, G, B, R)] for c in (1, -1))
        self.ensure(tuple(map(list, b.pieces_in_hand)) == hands, 'board:hands', i, lambda: '%s pieces_in_hand is %s' % (when, b.pieces_in_hand))
        self.ensure(b.turn == (0 if pos.turn > 0 else 1) and b.move_number == pos.ply, 'board:turn', i,
                    lambda: '%s turn %d, move number %d' % (when, b.turn, b.move_number))
        self.ensure([b.king_square(0), b.king_square(1)] == [pos.kings[1], pos.kings[-1]], 'board:kings', i, lambda: '%s king squares' % when)
        last = ref.stack[-1] if ref.stack else None
        pk = b.peek()
        self.ensure(pk == 0 if last is None else last[0] == 'p' or cs.move_to_usi(pk) == usi(last[1]), 'board:history', i, lambda: '%s peek() is %d' % (when, pk))
        self.ensure(b.is_check() == pos.in_check(), 'legal:check', i, lambda: '%s is_check() is %r' % (when, b.is_check()))
        self.ensure(b.is_ok(), 'board:ok', i, lambda: '%s is_ok() is false' % when)
        want = [usi(m) for m in legal(pos)]
        ml = list(b.legal_moves)
        got = sorted(cs.move_to_usi(m) for m in ml)
        self.ensure(got == want, 'legal:moves', i, lambda: '%s legal_moves differs: missing %s, extra %s, %d in all' % (
            when, sorted(set(want) - set(got)), sorted(set(got) - set(want)), len(got)))
        self.ensure(b.is_game_over() == (not want), 'legal:over', i, lambda: '%s is_game_over() is %r' % (when, b.is_game_over()))
        if not want:
            self.sim.probe('no-legal-move')
        self.repetition_brief(i, when)

    def repetition_brief(self, i, when):
        ref = self.rs[i]
        want = ref.repetition(1 << 30)
        got = self.bs[i].is_draw()
        self.ensure(got == REPS.index(want), 'rep:is-draw', i, lambda: '%s is_draw() is %s, by the rules it is %s' % (when, REPS[got], want))


class BoardRep(Boards):
    """Histories that repeat positions."""
    theme = 'rep'
    weights = dict(push=6, line=12, rep=20, sac=12, pop=8, pass_=2, pop_pass=2, copy=6, load=2, query=2)

    def start(self, rng):
        k = rng.random()
        if k < 0.2:
            return START
        return random_pos(rng, rng.choice(('sparse', 'sparse', 'mating', 'hands', 'pins', 'scatter'))).sfen()


class BoardReject(Boards):
    """Positions and moves that cannot be read arrive all the time."""
    weights = dict(push=14, line=3, pop=8, bad=14, pass_=2, pop_pass=2, copy=3, load=3, reject=30, query=1)
