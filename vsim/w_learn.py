"""What learning programs use: the gym environments (G01) and the input features and labels for networks (D01).

Several workers share environments, boards, buffers and the switch for the declaration features; the scheduler decides whose call comes
next.  Everything is judged against the reference rules.
"""
import copy
import random

from .positions import random_pos, empty_pos
from .shogi import (Pos, START, usi, P, L, N, S, B, R, G, K, LETTER, SQ_NAME, _STEP, _SLIDE, HO, DR, PP)
from .w_board import Boards, Ref, legal, bad_sfen, REPS, RAND
from .positions import encode, move16
from .world import World, Violation, check, raised


class EnvRef:
    """One environment: a board and how often each position occurred since the last reset."""

    def __init__(self):
        self.reset(Pos(START))

    def reset(self, pos):
        self.ref = Ref.__new__(Ref)
        self.ref.load(pos)
        self.moves = []
        self.seen = {pos.key(): 1}
        self.draw = None
        self.over = False

    def step(self, m):
        """reward, done, is_draw by the rules"""
        self.ref.push(m)
        self.moves.append(usi(m))
        k = self.ref.pos.key()
        self.seen[k] = self.seen.get(k, 0) + 1
        if self.seen[k] == 4:
            v = self.ref.repetition(1 << 30)
            self.draw = v
            self.over = True
            return {'win': -1.0, 'lose': 1.0}.get(v, 0.0), True, v
        done = not legal(self.ref.pos)
        self.over = done
        return (1.0 if done else 0.0), done, None


def cycle(pos, rng, checks):
    """Four moves from pos that lead back to it, or None; checks: None, or who gives check with every move ('me': the side to move)."""
    def quiet(m):
        return m[0] is not None and not m[2] and not pos.b[m[1]]

    def goes(m, who):
        return checks != who or pos.gives_check(m)
    ms = [m for m in legal(pos) if quiet(m) and goes(m, 'me')]
    rng.shuffle(ms)
    for m in ms[:40]:
        pos.push(m)
        rs = [r for r in legal(pos) if quiet(r) and goes(r, 'other')]
        rng.shuffle(rs)
        for r in rs[:12]:
            pos.push(r)
            back, again = (m[1], m[0], False), (r[1], r[0], False)
            ok = back in legal(pos) and goes(back, 'me')
            if ok:
                pos.push(back)
                ok = again in legal(pos) and goes(again, 'other')
                pos.pop()
            pos.pop()
            if ok:
                pos.pop()
                return [m, r, back, again]
        pos.pop()
    return None


def open_pos(rng):
    """A king in the open and a few long-range pieces that can check it again and again."""
    while True:
        p = empty_pos()
        p.turn = rng.choice((1, -1))
        a = rng.choice((1, -1))
        free = list(range(81))
        rng.shuffle(free)
        for x in [K * a, K * -a] + [rng.choice((R, DR, DR, B, HO, G)) * a for _ in range(rng.choice((1, 2, 3)))] + [rng.choice((G, R, B, PP)) * -a for _ in range(rng.choice((0, 1, 2)))]:
            p.b[free.pop()] = x
        p = Pos(p.sfen())
        if p.kings[1] is not None and p.kings[-1] is not None and not p.in_check(-p.turn) and legal(p):
            return p


class Gym(World):
    """Workers playing in shared environments, single and in batches."""
    traced = False
    preempt = 0
    max_steps = 20_000
    droppable = ()
    weights = dict(step=30, cycle=14, resign=2, illegal=5, reset=10, bad_reset=4, render=4, vec=25, vec_illegal=3)

    def gen(self, rng, tier):
        n = rng.choice((10, 25, 45) if tier == 'quick' else (25, 60, 150))
        plan = {'single': rng.choice((1, 2, 3)), 'vec': rng.choice((0, 1, 2, 4)), 'switch': rng.choice((0.0, 0.3, 0.7)), 'tasks': []}
        names = list(self.weights)
        ws = [self.weights[k] * rng.choice((0.3, 1, 1, 2)) for k in names]
        for _ in range(rng.choice((1, 2, 2, 3))):
            plan['tasks'].append([[rng.choices(names, ws)[0], rng.randrange(8), rng.randrange(RAND)] for _ in range(max(4, n // 2))])
        return plan

    def shrinks(self, plan):
        return Boards.shrinks(self, dict(plan, boards=[]))

    def body(self, plan, sim, out):
        import cshogi
        import numpy
        from cshogi.gym_shogi.envs import ShogiEnv, ShogiVecEnv
        self.cs, self.np, self.sim, self.plan = cshogi, numpy, sim, plan
        self.envs = [ShogiEnv() for _ in range(plan['single'])]
        self.vec = ShogiVecEnv(plan['vec']) if plan['vec'] else None
        if self.vec:
            self.envs += self.vec.envs
        self.refs = [EnvRef() for _ in self.envs]
        self.lines = {}
        self.count = 0

        def task(ops, t):
            def run():
                for op in ops:
                    sim.yield_point('op')
                    kind, i, r = op
                    sim.event('op', t, kind, i)
                    getattr(self, 'op_' + kind)(i % len(self.envs), random.Random(r))
                    self.count += 1
                    for j in range(len(self.envs)):
                        self.compare(j, kind)
            return run
        ts = [sim.spawn('worker%d' % i, task(ops, i)) for i, ops in enumerate(plan['tasks'])]
        sim.run(lambda: all(t.state == 'done' for t in ts))
        for t in ts:
            if isinstance(t.exc, Violation):
                raise t.exc
            if t.exc is not None:
                raise Violation('gym:exception-' + type(t.exc).__name__, raised(t))
            check(t.state == 'done', 'gym:stuck', 'a task did not finish')
        out.trivial = self.count < 4

    def ensure(self, cond, cls, i, msg):
        if not cond:
            r = self.refs[i]
            check(False, cls, lambda: 'environment %d: %s\n  reference: %s after %s' % (i, msg() if callable(msg) else msg, r.ref.pos.sfen(), ' '.join(r.moves)))

    def code(self, v):
        cs = self.cs
        return None if v is None else {'none': cs.NOT_REPETITION, 'draw': cs.REPETITION_DRAW, 'win': cs.REPETITION_WIN, 'lose': cs.REPETITION_LOSE,
                                       'superior': cs.REPETITION_SUPERIOR, 'inferior': cs.REPETITION_INFERIOR}[v]

    def compare(self, i, kind):
        e, r = self.envs[i], self.refs[i]
        self.ensure(e.board.sfen() == r.ref.pos.sfen(), 'gym:board', i, lambda: 'after %s the board is %s' % (kind, e.board.sfen()))
        got = [self.cs.move_to_usi(m) for m in e.moves]
        self.ensure(got == r.moves, 'gym:moves', i, lambda: 'after %s its moves are %s' % (kind, got))
        self.ensure(e.is_draw == self.code(r.draw), 'gym:is-draw', i, lambda: 'after %s is_draw is %r, by the rules %r' % (kind, e.is_draw, r.draw))

    def pick(self, i, rng):
        r = self.refs[i].ref
        line = self.lines.get(i)
        if line:
            m = line.pop(0)
            if m in legal(r.pos):
                return m
            self.lines.pop(i)
        ms = legal(r.pos)
        if rng.random() < 0.4:
            f = [m for m in ms if r.pos.gives_check(m) or (m[0] is not None and r.pos.b[m[1]])]
            if f:
                return rng.choice(f)
        return rng.choice(ms)

    def ready(self, i, rng):
        """A game that is over is reset before it goes on."""
        if self.refs[i].over or not legal(self.refs[i].ref.pos):
            self.op_reset(i, rng)
            if not legal(self.refs[i].ref.pos):
                self.envs[i].reset()
                self.refs[i].reset(Pos(START))

    def judge(self, i, got, want, m):
        w = (want[0], want[1], self.code(want[2]))
        self.ensure((float(got[0]), bool(got[1]), got[2]) == w, 'gym:step', i, lambda: 'step(%s) gave %r, by the rules it is %r' % (usi(m), got, want))
        if want[1]:
            self.sim.probe('game-over:' + (want[2] or 'no-moves'))

    def op_step(self, i, rng):
        self.ready(i, rng)
        e, r = self.envs[i], self.refs[i]
        m = self.pick(i, rng)
        mv = e.board.move_from_usi(usi(m))
        want = r.step(m)
        self.judge(i, e.step(mv), want, m)

    def op_cycle(self, i, rng):
        """Round and round until the fourth time."""
        self.ready(i, rng)
        r = self.refs[i]
        pos = r.ref.pos
        how = rng.choice(('me', 'other', None))
        line = cycle(pos, rng, how) or cycle(pos, rng, 'me')
        if not line and how and rng.random() < 0.7:
            # from a position in which one can
            for _ in range(12):
                p = open_pos(rng)
                line = cycle(p, rng, how)
                if line:
                    self.envs[i].reset(sfen=p.sfen())
                    r.reset(p)
                    break
        line = line or cycle(r.ref.pos, rng, None)
        if not line:
            return
        n = rng.choice((4, 8, 11, 12, 13, 16))
        for k in range(n):
            if r.over:
                break
            m = line[k % 4]
            e = self.envs[i]
            want = r.step(m)
            self.judge(i, e.step(e.board.move_from_usi(usi(m))), want, m)
            self.sim.yield_point('step') if rng.random() < 0.2 else None
            if r.ref.pos.key() != self.refs[i].ref.pos.key() or line[(k + 1) % 4] not in legal(r.ref.pos):
                break

    def op_resign(self, i, rng):
        self.ready(i, rng)
        got = self.envs[i].step(0)
        self.ensure((float(got[0]), bool(got[1]), got[2]) == (-1.0, True, None), 'gym:resign', i, lambda: 'a resignation gave %r' % (got,))
        self.refs[i].over = True

    def bad_move(self, i, rng):
        """A number that is no legal move here."""
        e, pos = self.envs[i], self.refs[i].ref.pos
        ok = set(e.board.legal_moves)
        k = rng.randrange(4)
        if k == 0:
            # legal elsewhere
            q = random_pos(rng)
            b = self.cs.Board(q.sfen())
            cand = [m for m in b.legal_moves if self.cs.move_to_usi(m) not in {usi(x) for x in legal(pos)}]
        elif k == 1:
            here = {usi(x) for x in legal(pos)}
            cand = [e.board.move(m[0], m[1], m[2]) if m[0] is not None else e.board.drop_move(m[1], m[2]) for m in pos.pseudo() if usi(m) not in here]
        elif k == 2:
            # the other side's pieces
            cand = [e.board.move(a, rng.randrange(81), False) for a in range(81) if pos.b[a] * pos.turn < 0]
        else:
            cand = [m ^ (1 << 14) for m in ok if not self.cs.move_is_drop(m)]
            here = {usi(x) for x in legal(pos)}
            cand = [m for m in cand if self.cs.move_to_usi(m) not in here]
        cand = [m for m in cand if m and m not in ok]
        return rng.choice(cand) if cand else None

    def op_illegal(self, i, rng):
        self.ready(i, rng)
        mv = self.bad_move(i, rng)
        if not mv:
            return
        self.sim.fault('illegal-action')
        try:
            got = self.envs[i].step(mv)
        except AssertionError:
            return
        self.ensure(False, 'gym:illegal', i, lambda: 'step(%d) (%s) was accepted though illegal: %r' % (mv, self.cs.move_to_usi(mv), got))

    def op_reset(self, i, rng):
        e, r = self.envs[i], self.refs[i]
        k = rng.randrange(4)
        self.lines.pop(i, None)
        p = Pos(START)
        if k == 0:
            b = e.reset()
        elif k == 3:
            p = random_pos(rng)
            b = e.reset(hcp=self.np.frombuffer(encode(p, 'hcp'), self.np.uint8).copy())
            p.ply = 1
        else:
            p = open_pos(rng) if rng.random() < 0.3 else random_pos(rng, rng.choice((None, 'sparse', 'mating', 'hands')))
            if rng.random() < 0.3:
                p = r.ref.pos.copy()                # the very position it stands in
            p.undo = []
            b = e.reset(sfen=p.sfen())
        r.reset(p)
        self.ensure(b is e.board, 'gym:reset', i, 'reset() does not return the board')

    def op_bad_reset(self, i, rng):
        e = self.envs[i]
        why, s = bad_sfen(rng, random_pos(rng).sfen())
        self.sim.fault('unreadable-reset')
        try:
            e.reset(sfen=s)
        except (RuntimeError, ValueError):
            return
        self.ensure(False, 'gym:bad-reset', i, lambda: 'reset(sfen=%r) was accepted' % s)

    def op_render(self, i, rng):
        e, r = self.envs[i], self.refs[i]
        pos = r.ref.pos
        self.ensure(e.render('sfen') == pos.sfen(), 'gym:render', i, 'render("sfen") shows another position')
        self.ensure(e.render() is e.board, 'gym:render', i, 'render() is not the board')
        self.ensure(e.render('ansi') == repr(e.board), 'gym:render', i, 'render("ansi") is not the text of the board')
        svg = str(e.render('svg'))
        want = str(e.board.to_svg(lastmove=e.moves[-1]) if r.moves else e.board.to_svg())
        self.ensure(svg == want, 'gym:render', i, 'render("svg") is not the picture of the board and its last move')
        if self.vec:
            n = len(self.vec.envs)
            self.ensure(self.vec.render() == [x.ref.pos.sfen() for x in self.refs[-n:]], 'gym:render', i, lambda: 'the batch shows %r' % self.vec.render())

    # -- batches ------------------------------------------------------------------------------------------------------
    def op_vec(self, i, rng):
        if not self.vec:
            return self.op_step(i, rng)
        n = len(self.vec.envs)
        base = len(self.envs) - n
        if rng.random() < 0.04:
            self.vec.reset()
            for j in range(n):
                self.refs[base + j].reset(Pos(START))
                self.lines.pop(base + j, None)
        if rng.random() < 0.35:
            j = base + rng.randrange(n)
            line = None
            self.ready(j, rng)
            line = cycle(self.refs[j].ref.pos, rng, rng.choice(('me', 'other', None)))
            if line:
                self.lines[j] = line * 4
        for _ in range(rng.choice((1, 1, 4, 14))):
            moves, want, ms = [], [], []
            for j in range(base, len(self.envs)):
                self.ready(j, rng)
                if rng.random() < 0.01:
                    moves.append(0)
                    ms.append(None)
                    continue
                m = self.pick(j, rng)
                ms.append(m)
                moves.append(self.envs[j].board.move_from_usi(usi(m)))
            rs, ds, dr = self.vec.step(moves)
            self.ensure(len(rs) == len(ds) == len(dr) == n, 'gym:vec', i, lambda: 'results of %d, %d and %d environments' % (len(rs), len(ds), len(dr)))
            for j, m in enumerate(ms):
                r = self.refs[base + j]
                got = (rs[j], ds[j], dr[j])
                if m is None:
                    self.ensure((float(got[0]), bool(got[1]), got[2]) == (-1.0, True, None), 'gym:resign', base + j, lambda: 'a resignation gave %r' % (got,))
                    r.reset(Pos(START))
                    continue
                want = r.step(m)
                self.judge(base + j, got, want, m)
                if want[1]:
                    self.sim.probe('batch-environment-reset')
                    r.reset(Pos(START))
                    self.lines.pop(base + j, None)
            for j in range(base, len(self.envs)):
                self.compare(j, 'batch step')

    def op_vec_illegal(self, i, rng):
        if not self.vec:
            return self.op_illegal(i, rng)
        n = len(self.vec.envs)
        base = len(self.envs) - n
        for j in range(base, len(self.envs)):
            self.ready(j, rng)
        k = rng.randrange(n)
        bad = self.bad_move(base + k, rng)
        if not bad:
            return
        moves = [self.envs[base + j].board.move_from_usi(usi(self.pick(base + j, rng))) for j in range(n)]
        moves[k] = bad
        self.sim.fault('illegal-action-in-batch')
        try:
            got = self.vec.step(moves)
        except AssertionError:
            pass
        else:
            self.ensure(False, 'gym:illegal', base + k, lambda: 'step(%d) was accepted though illegal: %r' % (bad, got))
        for j in range(k, n):
            self.compare(base + j, 'refused batch step')
        self.vec.reset()
        for j in range(n):
            self.refs[base + j].reset(Pos(START))
            self.lines.pop(base + j, None)


# -- features -----------------------------------------------------------------------------------------------------------------------
HANDS = ((P, 8), (L, 4), (N, 4), (S, 4), (G, 4), (B, 2), (R, 2))
DROP = (P, L, N, S, B, R, G)


def attacks(pos, q):
    """Squares the piece on q attacks."""
    x = pos.b[q]
    t, sg = abs(x), 1 if x > 0 else -1
    f, r = divmod(q, 9)
    out = []
    for df, dr in _STEP[t]:
        a, b = f + df * sg, r + dr * sg
        if 0 <= a < 9 and 0 <= b < 9:
            out.append(a * 9 + b)
    for df, dr in _SLIDE.get(t, ()):
        a, b = f + df * sg, r + dr * sg
        while 0 <= a < 9 and 0 <= b < 9:
            out.append(a * 9 + b)
            if pos.b[a * 9 + b]:
                break
            a, b = a + df * sg, b + dr * sg
    return out


def features(np, pos, nyugyoku):
    """features1 (62, 81), features2 (57 or 119, 81) and which planes of features2 are judged."""
    f1 = np.zeros((2, 31, 81), np.float32)
    count = np.zeros((2, 81), int)
    at = np.arange(81) if pos.turn > 0 else np.arange(80, -1, -1)
    for q, x in enumerate(pos.b):
        if x:
            c = 0 if x * pos.turn > 0 else 1
            t = abs(x)
            f1[c, t - 1, at[q]] = 1
            for a in attacks(pos, q):
                f1[c, 14 + t - 1, at[a]] = 1
                count[c, at[a]] += 1
    for k in range(3):
        f1[:, 28 + k][count > k] = 1
    f2 = np.zeros((119 if nyugyoku else 57, 81), np.float32)
    judged = np.ones(len(f2), bool)
    for c in (0, 1):
        s = pos.turn if c == 0 else -pos.turn
        o = 28 * c
        for t, n in HANDS:
            f2[o:o + min(n, pos.hand[s][t])] = 1
            o += n
        if nyugyoku:
            o = 57 + 31 * c
            zone = [q for q in range(81) if (q % 9 <= 2 if s > 0 else q % 9 >= 6) and pos.b[q] * s > 0]
            if any(abs(pos.b[q]) == K for q in zone):
                f2[o] = 1
            own = [abs(pos.b[q]) for q in zone if abs(pos.b[q]) != K]
            rest = 10 - len(own)
            if rest < 0:
                judged[o + 1:o + 11] = False        # more than enough: not specified, see DESIGN.md
            elif rest < 10:
                f2[o + 1 + rest] = 1
            big = (B, R, HO, DR)
            val = sum(5 if t in big else 1 for t in own) + sum((5 if t in big else 1) * n for t, n in ((t, pos.hand[s][t]) for t, _ in HANDS))
            rest = (28 if s > 0 else 27) - val
            if rest < 0:
                judged[o + 11:o + 31] = False
            elif rest < 20:
                f2[o + 11 + rest] = 1
    if pos.in_check():
        f2[56] = 1
    return f1.reshape(62, 81), f2, judged


def label(m, turn):
    """The class of a move from the mover's point of view."""
    fr, to, x = m
    if turn < 0:
        to = 80 - to
        fr = None if fr is None else 80 - fr
    if fr is None:
        return 81 * (20 + DROP.index(x)) + to
    df, dr = fr // 9 - to // 9, to % 9 - fr % 9         # to the right, down
    if dr == -2 and abs(df) == 1:
        d = 8 if df < 0 else 9
    elif dr < 0:
        d = 0 if df == 0 else 1 if df < 0 else 2
    elif dr == 0:
        d = 3 if df < 0 else 4
    else:
        d = 5 if df == 0 else 6 if df < 0 else 7
    return 81 * (d + (10 if x else 0)) + to


class Features(Boards):
    """Workers making network inputs from shared boards into buffers they use again and again."""
    weights = dict(push=12, line=6, pop=5, copy=2, load=5, pass_=1, pop_pass=1, feat=30, toggle=4, planes=8, labels=8)

    def start(self, rng):
        if rng.random() < 0.15:
            return START
        return random_pos(rng, rng.choice((None, None, 'hands', 'scatter'))).sfen()

    def body(self, plan, sim, out):
        import numpy as np
        from cshogi import dlshogi
        self.dl = dlshogi
        self.on = False
        dlshogi.use_nyugyoku_features(False)
        r = random.Random(plan['tasks'][0][0][2])
        self.bufs = [(np.full((64, 9, 9), r.choice((0, 1, 7)), np.float32), np.full((123, 9, 9), r.choice((0, 1, 7)), np.float32)) for _ in plan['tasks']]
        self.labels_of = {}
        try:
            Boards.body(self, plan, sim, out)
        finally:
            dlshogi.use_nyugyoku_features(False)

    def compare(self, i, when):
        self.brief(i, when)

    def op_toggle(self, i, rng, t):
        self.on = rng.random() < 0.6
        self.dl.use_nyugyoku_features(self.on)
        self.sim.event('declaration features', self.on)
        n = (self.dl.FEATURES1_NUM, self.dl.FEATURES2_NUM)
        self.ensure(n == (62, 119 if self.on else 57), 'feat:count', i, lambda: 'numbers of planes %r with declaration features %s' % (n, self.on))

    def op_feat(self, i, rng, t):
        np, pos = self.np, self.rs[i].pos
        f1, f2 = self.bufs[t]
        if rng.random() < 0.2:
            f2[57:] = rng.choice((0, 1, 5))         # whatever an earlier use left there
        old1, old2 = f1[62:].copy(), f2.reshape(123, 81).copy()
        self.dl.make_input_features(self.bs[i], f1, f2)
        w1, w2, judged = features(np, pos, self.on)
        g1, g2 = f1.reshape(64, 81), f2.reshape(123, 81)
        bad = [k for k in range(62) if not (g1[k] == w1[k]).all()]
        self.ensure(not bad, 'feat:features1', i, lambda: 'planes %s of features1 are wrong' % bad)
        bad = [k for k in range(len(w2)) if judged[k] and not (g2[k] == w2[k]).all()]
        self.ensure(not bad, 'feat:features2', i, lambda: 'planes %s of features2 are wrong (declaration features %s)' % (bad, self.on))
        self.ensure((f1[62:] == old1).all() and (g2[len(w2):] == old2[len(w2):]).all(), 'feat:overrun', i, 'planes behind the features were written')
        if self.on:
            self.sim.probe('declaration-features')
            if w2[57:].any():
                self.sim.probe('declaration-features-set')

    def op_planes(self, i, rng, t):
        np, pos, b = self.np, self.rs[i].pos, self.bs[i]
        for rot in (False, True):
            f = np.zeros((30, 9, 9), np.float32)
            (b.piece_planes_rotate if rot else b.piece_planes)(f)
            w = np.zeros((30, 81), np.float32)
            flip = rot and pos.turn < 0
            for q, x in enumerate(pos.b):
                if x:
                    first = (x < 0) == flip
                    w[(0 if first else 14) + abs(x) - 1, 80 - q if flip else q] = 1
            self.ensure((f.reshape(30, 81) == w).all(), 'feat:planes', i, lambda: 'piece_planes%s is wrong' % ('_rotate' if rot else ''))

    def op_labels(self, i, rng, t):
        pos, b, cs = self.rs[i].pos, self.bs[i], self.cs
        ms = legal(pos)
        seen = {}
        for m in rng.sample(ms, min(len(ms), 25)):
            mv = b.move_from_usi(usi(m))
            got = self.dl.make_move_label(mv, b.turn)
            want = label(m, pos.turn)
            self.ensure(got == want, 'feat:label', i, lambda: 'the label of %s is %d, expected %d' % (usi(m), got, want))
            # the same move seen from the other side
            rot = cs.move_rotate(mv)
            r = (None if m[0] is None else 80 - m[0], 80 - m[1], m[2])
            self.ensure(cs.move_to_usi(rot) == usi(r) and cs.move_rotate(rot) == mv, 'feat:rotate', i, lambda: 'move_rotate(%s) is %s' % (usi(m), cs.move_to_usi(rot)))
            self.ensure(self.dl.make_move_label(rot, 1 - b.turn) == want, 'feat:label', i, lambda: 'the label of %s turned round differs' % usi(m))
