"""Mate searches: several tasks share boards and solvers; searches are cut short, stopped, limited and repeated.

The reference is a plain AND/OR search over the package's own move lists (judged by B02) on a board of its own.
"""
import ctypes

from .positions import random_pos, checkers
from .shogi import *            # noqa: F401,F403
from .w_board import Boards, legal, usi
from .world import check


class Over(Exception):
    """The reference ran out of budget, or the question depends on the history before the root: nothing is judged."""


class Prover:
    """Is there a mate within n plies?  Ignores what the history before the root says; meets it -> Over."""

    def __init__(self, cs, board, budget, avoid=()):
        self.cs, self.b, self.budget, self.avoid = cs, cs.Board(board.sfen()), budget, avoid
        self.memo = {}
        self.path = []

    def key(self):
        return self.b.sfen().rsplit(' ', 1)[0]

    def board(self):
        return ' '.join(self.b.sfen().split()[:2])

    def checks(self):
        b, out = self.b, []
        for m in b.legal_moves:
            b.push(m)
            if b.is_check():
                out.append(m)
            b.pop()
        return out

    def attack(self, n):
        """The side to move mates within n plies."""
        self.budget -= 1
        if self.budget < 0:
            raise Over()
        k = self.key()
        if (k, n) in self.memo:
            return self.memo[k, n]
        if self.path and self.board() in self.avoid or self.b.is_check() and k in self.path:
            raise Over()
        self.path.append(k)
        r = False
        for m in self.checks():
            self.b.push(m)
            r = self.defend(n - 1)
            self.b.pop()
            if r:
                break
        self.path.pop()
        self.memo[k, n] = r
        return r

    def defend(self, n):
        ms = list(self.b.legal_moves)
        if not ms:
            return True
        if n <= 0:
            return False
        if self.path and self.board() in self.avoid:
            raise Over()
        for m in ms:
            self.b.push(m)
            r = self.attack(n - 1)
            self.b.pop()
            if not r:
                return False
        return True

    # -- what the fixed-depth searches promise to find: the last move is one mate_move_in_1ply finds, and the last defence gives no check
    def simple_attack(self, n):
        self.budget -= 1
        if self.budget < 0:
            raise Over()
        k = (self.key(), -n)
        if k in self.memo:
            return self.memo[k]
        w = self.board()
        if self.path and w in self.avoid or w in self.path:
            raise Over()
        self.path.append(w)
        r = False
        for m in self.checks():
            self.b.push(m)
            r = self.simple_defend(n - 1)
            self.b.pop()
            if r:
                break
        self.path.pop()
        self.memo[k] = r
        return r

    def simple_defend(self, n):
        b = self.b
        ms = list(b.legal_moves)
        if not ms:
            return True
        if n <= 0:
            return False
        for m in ms:
            b.push(m)
            if n == 2:
                r = not b.is_check() and bool(b.mate_move_in_1ply())
            else:
                r = self.simple_attack(n - 1)
            b.pop()
            if not r:
                return False
        return True


def near_mate(cs, b):
    """A mate in one by a piece that itself gives check from next to the king or by a knight's jump."""
    if b.is_check():
        return None
    for m in b.legal_moves:
        b.push(m)
        hit = False
        if b.is_check() and b.is_game_over():
            k, to = b.king_square(b.turn), cs.move_to(m)
            dx, dy = abs(k // 9 - to // 9), abs(k % 9 - to % 9)
            if max(dx, dy) == 1 or (dx, dy) == (1, 2):
                # does the piece on `to` attack the king by itself?
                p = Pos(b.sfen())
                hit = to in checkers(p, p.turn)
        b.pop()
        if hit:
            return m
    return None


BIG = 50000


class Solvers(Boards):
    weights = dict(push=14, line=3, pop=8, load=14, copy=2, search=30, and_=8, fixed=14, stop=3, again=6, play=5, burst=5, press=6)

    def start(self, rng):
        return random_pos(rng, rng.choice(('mating', 'mating', 'mating', 'battery', 'battery', 'sparse', 'pins', 'scatter'))).sfen()

    def gen(self, rng, tier):
        plan = Boards.gen(self, rng, tier)
        plan['bias'] = rng.choice(('any', 'forcing', 'forcing'))
        plan['solvers'] = [rng.choice(('dfpn', 'dfpn', 'osl')) for _ in range(rng.choice((1, 2)))]
        return plan

    def body(self, plan, sim, out):
        import cshogi
        from cshogi import osl
        self.make = {'dfpn': cshogi.DfPn, 'osl': osl.DfPn}
        # the OSL solver asks how many positions its table may hold before it has to throw some away
        self.table, self.thrown = 0, 0

        def point(site):
            if site == 2:
                self.thrown += 1
            return self.table if site == 1 else 0
        lib = ctypes.CDLL(cshogi._cshogi.__file__)
        self.point = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int)(point)
        lib.cshogi_sim_set(self.point)
        try:
            self.run_solvers(plan, sim, out)
        finally:
            lib.cshogi_sim_set(None)

    def run_solvers(self, plan, sim, out):
        self.solvers = [dict(kind=k, s=self.make[k](31, 20000), depth=31, nodes=20000, draw=1 << 30, stopped=False) for k in plan['solvers']]
        Boards.body(self, plan, sim, out)

    def op_load(self, i, rng, t):
        sfen = self.start(rng)
        if rng.random() < 0.5:
            self.bs[i].set_sfen(sfen)
        else:
            self.bs[i].set_position('sfen ' + sfen)
        self.rs[i].load(Pos(sfen))

    # -- asking the solvers -------------------------------------------------------------------------------------------
    def state(self, i):
        b = self.bs[i]
        return b.sfen(), b.zobrist_hash(), tuple(b.history), b.is_draw(), b.is_check()

    def unchanged(self, i, before, what):
        after = self.state(i)
        self.ensure(before == after, 'mate:board', i, lambda: '%s changed the board: %r became %r' % (what, before, after))

    def avoid(self, i):
        """Positions of the history, the present one left out."""
        b2 = self.bs[i].copy()
        out = set()
        while b2.history:
            if self.cs.move_to_usi(b2.peek()) == 'null' or b2.peek() == 0:
                break
            b2.pop()
            out.add(' '.join(b2.sfen().split()[:2]))
        return out

    def limits(self, s, rng):
        """Set new limits on a solver: a search is interrupted wherever these run out."""
        k = rng.random()
        if k < 0.3:
            s['depth'] = rng.choice((1, 3, 5, 7, 31, 1600))
            s['s'].set_max_depth(s['depth'])
        if rng.random() < 0.5:
            s['nodes'] = rng.choice((1, 2, 3, 5, 10, 30, 100, 300, 1000, BIG, BIG))
            s['s'].set_max_search_node(s['nodes'])

    def op_search(self, i, rng, t):
        b = self.bs[i]
        s = self.solvers[rng.randrange(len(self.solvers))]
        self.limits(s, rng)
        draw = None
        if rng.random() < 0.15:
            draw = b.move_number + rng.choice((0, 1, 2, 3, 4, 6))
            s['s'].set_draw_ply(draw)
        elif s['draw'] != 1 << 30:
            s['s'].set_draw_ply(1 << 30)
        s['draw'] = draw if draw is not None else 1 << 30
        before = self.state(i)
        got = s['s'].search(b)
        used = s['s'].searched_node
        self.unchanged(i, before, 'search')
        self.sim.probe('search-%s-%s' % (s['kind'], 'mate' if got else 'none'))
        cut = used >= s['nodes'] or s['stopped'] and s['kind'] == 'dfpn'
        if cut:
            self.sim.fault('search-cut-short')
        # the same question to a solver without a past
        fresh = self.make[s['kind']](s['depth'], s['nodes'], s['draw'])
        if s['stopped'] and s['kind'] == 'dfpn':
            fresh.stop(True)
        want = fresh.search(b)
        self.ensure(got == want, 'mate:history', i, lambda: 'a used %s solver says %s where a new one says %s (depth %d, nodes %d, draw ply %s)' % (
            s['kind'], got, want, s['depth'], s['nodes'], s['draw']))
        if got:
            self.claimed(i, s, rng)
        elif not cut:
            self.denied(i, s, rng)

    def op_again(self, i, rng, t):
        """The same search twice."""
        b = self.bs[i]
        s = self.solvers[rng.randrange(len(self.solvers))]
        before = self.state(i)
        a = s['s'].search(b), s['s'].searched_node, list(s['s'].get_pv(b)) if s['s'].searched_node else None
        c = s['s'].search(b), s['s'].searched_node, list(s['s'].get_pv(b)) if s['s'].searched_node else None
        self.unchanged(i, before, 'search')
        self.ensure(a[0] == c[0], 'mate:again', i, lambda: 'the same search answered %s, then %s' % (a, c))

    def limit_plies(self, i, s):
        return min(s['depth'], s['draw'] + 1 - self.bs[i].move_number)

    def claimed(self, i, s, rng):
        """A mate was reported: there is one, and the moves shown lead to it."""
        b, cs, sol = self.bs[i], self.cs, s['s']
        before = self.state(i)
        mv = sol.get_move(b)
        pv = list(sol.get_pv(b))
        self.unchanged(i, before, 'get_move/get_pv')
        t = b.copy()
        what = lambda: '%s (depth %d, nodes %d): pv %s, move %s' % (s['kind'], s['depth'], s['nodes'], ' '.join(cs.move_to_usi(m) for m in pv), cs.move_to_usi(mv))
        legal_now = set(t.legal_moves)
        self.ensure(mv in legal_now, 'mate:move', i, lambda: 'a mate was reported, but its move is not legal: ' + what())
        t.push(mv)
        self.ensure(t.is_check(), 'mate:move', i, lambda: 'a mate was reported, but its move gives no check: ' + what())
        t.pop()
        n = self.limit_plies(i, s)
        for k, m in enumerate(pv):
            self.ensure(m in set(t.legal_moves), 'mate:pv', i, lambda: 'move %d of the line is not legal: %s' % (k + 1, what()))
            t.push(m)
            if k % 2 == 0:
                self.ensure(t.is_check(), 'mate:pv', i, lambda: 'move %d of the line gives no check: %s' % (k + 1, what()))
        self.ensure(len(pv) % 2 == 1 and t.is_game_over(), 'mate:pv', i, lambda: 'the line does not end in mate: ' + what())
        # how long the mate may be; both solvers look one pair of moves beyond their limits
        top = min(n + 2, max(len(pv) + 2, 5))
        try:
            av = self.avoid(i)
            p = Prover(cs, b, 3000, av)
            for d in (1, 3, 5, 7):
                if d > 1 and d > top + 1:
                    break
                if p.attack(d):
                    self.sim.probe('proved-%d' % d)
                    t = b.copy()
                    t.push(mv)
                    q = Prover(cs, t, 3000, av | {p.board()})
                    q.path = ['root']
                    if top <= 7:
                        self.ensure(q.defend(6), 'mate:move', i, lambda: 'there is a mate, but not within 7 plies after the move shown: ' + what())
                    return
            if top <= 7:
                self.ensure(False, 'mate:claim', i, lambda: 'a mate within %d plies was reported, there is none: %s' % (n, what()))
        except Over:
            self.sim.probe('undecided')

    def denied(self, i, s, rng):
        """No mate was reported although the search came to its end."""
        b, cs = self.bs[i], self.cs
        n = self.limit_plies(i, s)
        if s['kind'] == 'osl' and (s['depth'] < 1600 or s['draw'] != 1 << 30 or s['nodes'] < BIG):
            return              # gives up a branch when its depth runs out; promises nothing then
        try:
            p = Prover(cs, b, 1500, self.avoid(i))
            for d in (1, 3, 5):
                if d > n:
                    break
                self.ensure(not p.attack(d), 'mate:missed', i, lambda: '%s (depth %d, nodes %d, draw ply %s) says there is no mate; there is one within %d plies' % (
                    s['kind'], s['depth'], s['nodes'], s['draw'], d))
            self.sim.probe('no-mate-confirmed')
        except Over:
            self.sim.probe('undecided')

    def op_and(self, i, rng, t):
        """Is the side to move, in check, lost by force?"""
        b, cs = self.bs[i], self.cs
        if not b.is_check():
            ms = [m for m in legal(self.rs[i].pos) if self.rs[i].pos.gives_check(m)]
            if not ms:
                return
            self.push_move(i, rng.choice(ms), rng)
        s = self.solvers[rng.randrange(len(self.solvers))]
        self.limits(s, rng)
        if s['draw'] != 1 << 30:
            s['s'].set_draw_ply(1 << 30)
            s['draw'] = 1 << 30
        before = self.state(i)
        got = s['s'].search_andnode(b)
        used = s['s'].searched_node
        self.unchanged(i, before, 'search_andnode')
        self.sim.probe('andnode-%s-%s' % (s['kind'], 'mate' if got else 'none'))
        cut = used >= s['nodes'] or s['stopped'] and s['kind'] == 'dfpn'
        if cut:
            self.sim.fault('search-cut-short')
        n = self.limit_plies(i, s)
        try:
            p = Prover(cs, b, 3000, self.avoid(i))
            p.path = ['root']
            r = False
            for d in (0, 2, 4, 6):
                r = p.defend(d)
                if r:
                    break
            if got and n <= 3:
                self.ensure(r, 'mate:claim', i, lambda: 'search_andnode of %s (depth %d) reports a mate, there is none' % (s['kind'], s['depth']))
            if r and not got and not cut and d <= min(n, 4) and s['kind'] == 'dfpn':
                self.ensure(False, 'mate:missed', i, lambda: 'search_andnode of %s (depth %d, nodes %d) reports no mate, there is one within %d plies' % (
                    s['kind'], s['depth'], s['nodes'], d))
        except Over:
            self.sim.probe('undecided')

    def op_stop(self, i, rng, t):
        s = self.solvers[rng.randrange(len(self.solvers))]
        s['stopped'] = not s['stopped']
        s['s'].stop(s['stopped'])
        self.sim.fault('stop-flag')

    def op_fixed(self, i, rng, t):
        """mate_move and is_mate."""
        b, cs = self.bs[i], self.cs
        before = self.state(i)
        n = rng.choice((1, 3, 3, 5, 5, 7))
        mv = b.mate_move_in_1ply() if n == 1 else b.mate_move(n)
        self.unchanged(i, before, 'mate_move')
        try:
            av = self.avoid(i)
            p = Prover(cs, b, 2500, av)
            if mv:
                self.sim.probe('mate_move-%d' % n)
                t = b.copy()
                self.ensure(mv in set(t.legal_moves), 'mate:move', i, lambda: 'mate_move(%d) answers %s, which is not legal' % (n, cs.move_to_usi(mv)))
                t.push(mv)
                self.ensure(t.is_check(), 'mate:move', i, lambda: 'mate_move(%d) answers %s, which gives no check' % (n, cs.move_to_usi(mv)))
                q = Prover(cs, t, 2500, av)
                q.path = [p.key(), p.board()]
                self.ensure(q.defend(n - 1), 'mate:claim', i, lambda: 'mate_move(%d) answers %s, which does not mate within %d plies' % (n, cs.move_to_usi(mv), n))
            elif n == 1:
                m = near_mate(cs, p.b)
                self.ensure(m is None, 'mate:missed', i, lambda: 'mate_move_in_1ply() overlooks %s' % cs.move_to_usi(m))
            else:
                self.ensure(not p.simple_attack(n), 'mate:missed', i, lambda: 'mate_move(%d) finds nothing, there is a mate' % n)
                self.sim.probe('no-mate_move')
            if b.is_check():
                k = rng.choice((0, 2, 4))
                got = b.is_mate(k)
                self.unchanged(i, before, 'is_mate')
                q = Prover(cs, b, 2500, av)
                q.path = ['root']
                if got:
                    self.ensure(q.defend(k), 'mate:claim', i, lambda: 'is_mate(%d) is true, there is no mate' % k)
                    self.sim.probe('is_mate')
                else:
                    self.ensure(not q.simple_defend(k), 'mate:missed', i, lambda: 'is_mate(%d) is false, there is a mate' % k)
        except Over:
            self.sim.probe('undecided')

    def op_burst(self, i, rng, t):
        """Mate in one in many positions full of discovered checks and hemmed-in kings, all on one board."""
        b, cs = self.cs.Board(), self.cs
        for _ in range(40):
            sfen = random_pos(rng, rng.choice(('battery', 'battery', 'battery', 'mating', 'pins'))).sfen()
            b.set_sfen(sfen)
            mv = b.mate_move_in_1ply()
            if not mv:
                continue
            check(b.sfen() == sfen, 'mate:changed', 'mate_move_in_1ply() changes the board %s to %s' % (sfen, b.sfen()))
            check(mv in set(b.legal_moves), 'mate:move', '%s: mate_move_in_1ply() answers %s (%d), which is no legal move' % (sfen, cs.move_to_usi(mv), mv))
            b.push(mv)
            check(b.is_check() and not list(b.legal_moves), 'mate:claim', '%s: mate_move_in_1ply() answers %s, which does not mate' % (sfen, cs.move_to_usi(mv)))
            self.sim.probe('mate-in-one-of-a-burst')

    def op_press(self, i, rng, t):
        """A search whose table is too small for it: what it still reports has to be true."""
        cs = self.cs
        sfen = random_pos(rng, rng.choice(('mating', 'mating', 'pins', 'scatter', 'battery'))).sfen()
        b = cs.Board(sfen)
        self.table, self.thrown = rng.choice((1024, 1024, 1500, 3000)), 0
        try:
            s = self.make['osl'](1600, rng.choice((3000, 20000)))
            got = s.search(b)
            mv, pv = (s.get_move(b), list(s.get_pv(b))) if got else (0, [])
        finally:
            self.table = 0
        if not self.thrown:
            return
        self.sim.fault('solver-table-full')
        what = lambda: '%s: osl.DfPn with a table of %d reports %s, line %s' % (sfen, self.table, cs.move_to_usi(mv), ' '.join(cs.move_to_usi(m) for m in pv))
        check(b.sfen() == sfen and not b.history, 'mate:board', lambda: 'search changed the board %s to %s' % (sfen, b.sfen()))
        if not got:
            return
        self.sim.probe('mate-with-a-full-table')
        check(mv in set(b.legal_moves), 'mate:move', lambda: 'the move is not legal; ' + what())
        g = cs.Board(sfen)
        for k, m in enumerate(pv):
            check(m in set(g.legal_moves), 'mate:pv', lambda: 'move %d of the line is not legal; %s' % (k + 1, what()))
            g.push(m)
            check(k % 2 or g.is_check(), 'mate:pv', lambda: 'move %d of the line gives no check; %s' % (k + 1, what()))
        check(len(pv) % 2 and g.is_game_over(), 'mate:pv', lambda: 'the line does not end in mate; ' + what())
        # any defence after the move shown still loses
        b.push(mv)
        check(b.is_check(), 'mate:move', lambda: 'the move gives no check; ' + what())
        ms = sorted(b.legal_moves)
        for m in rng.sample(ms, min(3, len(ms))):
            b.push(m)
            f = self.make['osl'](1600, 4 * BIG)
            ok = f.search(b)
            check(ok or f.searched_node >= BIG, 'mate:claim', lambda: 'after %s %s there is no mate; %s' % (cs.move_to_usi(mv), cs.move_to_usi(m), what()))
            b.pop()

    def op_play(self, i, rng, t):
        """Play out a reported mate against an arbitrary defence: it must come to mate in a bounded number of moves."""
        b, cs = self.bs[i], self.cs
        kind = rng.choice(('dfpn', 'osl'))
        s = self.make[kind](1600, BIG)
        if not s.search(b):
            return
        g = cs.Board(b.sfen())
        if not s.search(g):
            return              # the history before was needed
        line, seen = [], 0
        for k in range(16):
            ok = s.search(g)
            if not ok and s.searched_node >= BIG // 2:
                self.sim.probe('undecided')
                return
            self.ensure(ok, 'mate:play', i, lambda: '%s: after %s the reported mate is gone' % (kind, ' '.join(line)))
            m = s.get_move(g)
            self.ensure(m in set(g.legal_moves), 'mate:play', i, lambda: '%s: after %s the mating move is not legal' % (kind, ' '.join(line)))
            line.append(cs.move_to_usi(m))
            g.push(m)
            ms = sorted(g.legal_moves)
            if not ms:
                self.sim.probe('played-to-mate')
                return
            m = rng.choice(ms)
            line.append(cs.move_to_usi(m))
            g.push(m)
        self.sim.probe('long-mate')
