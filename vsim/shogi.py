"""A small, independent reference model of the rules of shogi (the oracle of every check).

Written from the rules of the game, not from the code under test: a mailbox board, moves tried and
undone, no bitboards and no incremental state.  Squares are 0..80 with sq = (file-1)*9 + (rank-1);
pieces are +type for black (sente) and -type for white.
"""

P, L, N, S, B, R, G, K, PP, PL, PN, PS, HO, DR = range(1, 15)
LETTER = {P: 'P', L: 'L', N: 'N', S: 'S', B: 'B', R: 'R', G: 'G', K: 'K'}
TYPE_OF = {v: k for k, v in LETTER.items()}
PROMOTE = {P: PP, L: PL, N: PN, S: PS, B: HO, R: DR}
UNPROMOTE = {v: k for k, v in PROMOTE.items()}
HAND_ORDER_SFEN = (R, B, G, S, N, L, P)
START = 'lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1'
CSA_PIECE = {P: 'FU', L: 'KY', N: 'KE', S: 'GI', B: 'KA', R: 'HI', G: 'KI', K: 'OU',
             PP: 'TO', PL: 'NY', PN: 'NK', PS: 'NG', HO: 'UM', DR: 'RY'}

# directions as (file delta, rank delta) for black (black moves towards rank 0)
_GOLD = [(0, -1), (1, -1), (-1, -1), (1, 0), (-1, 0), (0, 1)]
_SILVER = [(0, -1), (1, -1), (-1, -1), (1, 1), (-1, 1)]
_DIAG = [(1, 1), (1, -1), (-1, 1), (-1, -1)]
_ORTH = [(1, 0), (-1, 0), (0, 1), (0, -1)]
_STEP = {P: [(0, -1)], L: [], N: [(1, -2), (-1, -2)], S: _SILVER, G: _GOLD, K: _DIAG + _ORTH,
         B: [], R: [], PP: _GOLD, PL: _GOLD, PN: _GOLD, PS: _GOLD, HO: _ORTH, DR: _DIAG}
_SLIDE = {L: [(0, -1)], B: _DIAG, HO: _DIAG, R: _ORTH, DR: _ORTH}


def _mk():
    steps, rays = {}, {}
    for sign in (1, -1):
        for t in range(1, 15):
            for sq in range(81):
                f, r = divmod(sq, 9)
                st = []
                for df, dr in _STEP[t]:
                    nf, nr = f + df, r + dr * sign
                    if 0 <= nf < 9 and 0 <= nr < 9:
                        st.append(nf * 9 + nr)
                steps[sign * t, sq] = st
                rs = []
                for df, dr in _SLIDE.get(t, ()):
                    ray, nf, nr = [], f + df, r + dr * sign
                    while 0 <= nf < 9 and 0 <= nr < 9:
                        ray.append(nf * 9 + nr)
                        nf += df
                        nr += dr * sign
                    if ray:
                        rs.append(ray)
                rays[sign * t, sq] = rs
    return steps, rays


STEPS, RAYS = _mk()
SQ_NAME = [str(sq // 9 + 1) + 'abcdefghi'[sq % 9] for sq in range(81)]
SQ_OF = {n: i for i, n in enumerate(SQ_NAME)}


def dead_end(t, sign, sq):
    """A pawn, lance or knight there could never move again."""
    r = sq % 9
    if sign < 0:
        r = 8 - r
    return (t in (P, L) and r == 0) or (t == N and r <= 1)


class Pos:
    __slots__ = ('b', 'hand', 'turn', 'ply', 'kings', 'undo')

    def __init__(self, sfen=START):
        self.set(sfen)

    def set(self, sfen):
        self.b = [0] * 81
        self.hand = {1: [0] * 8, -1: [0] * 8}
        self.kings = {1: None, -1: None}
        self.undo = []
        parts = sfen.split()
        for r, row in enumerate(parts[0].split('/')):
            f, promo = 8, False
            for ch in row:
                if ch.isdigit():
                    f -= int(ch)
                elif ch == '+':
                    promo = True
                else:
                    t = TYPE_OF[ch.upper()]
                    if promo:
                        t = PROMOTE[t]
                        promo = False
                    s = 1 if ch.isupper() else -1
                    self.b[f * 9 + r] = s * t
                    if t == K:
                        self.kings[s] = f * 9 + r
                    f -= 1
        self.turn = 1 if parts[1] == 'b' else -1
        if parts[2] != '-':
            n = 0
            for ch in parts[2]:
                if ch.isdigit():
                    n = n * 10 + int(ch)
                else:
                    self.hand[1 if ch.isupper() else -1][TYPE_OF[ch.upper()]] += n or 1
                    n = 0
        self.ply = int(parts[3]) if len(parts) > 3 else 1

    def copy(self):
        o = Pos.__new__(Pos)
        o.b = self.b[:]
        o.hand = {1: self.hand[1][:], -1: self.hand[-1][:]}
        o.kings = dict(self.kings)
        o.turn, o.ply, o.undo = self.turn, self.ply, list(self.undo)
        return o

    def board_sfen(self):
        rows = []
        for r in range(9):
            row, e = '', 0
            for f in range(8, -1, -1):
                p = self.b[f * 9 + r]
                if not p:
                    e += 1
                    continue
                if e:
                    row += str(e)
                    e = 0
                t = abs(p)
                s = '+' + LETTER[UNPROMOTE[t]] if t in UNPROMOTE else LETTER[t]
                row += s if p > 0 else s.lower()
            rows.append(row + (str(e) if e else ''))
        h = ''
        for s in (1, -1):
            for t in HAND_ORDER_SFEN:
                n = self.hand[s][t]
                if n:
                    c = LETTER[t] if s > 0 else LETTER[t].lower()
                    h += (str(n) if n > 1 else '') + c
        return '/'.join(rows) + (' b ' if self.turn > 0 else ' w ') + (h or '-')

    def sfen(self):
        return self.board_sfen() + ' ' + str(self.ply)

    def key(self):
        return (tuple(self.b), tuple(self.hand[1]), tuple(self.hand[-1]), self.turn)

    # -- attacks ------------------------------------------------------------------
    def attacked(self, sq, by):
        """Is sq attacked by colour `by`?  A piece of the other colour on sq looks outwards."""
        b = self.b
        me = -by
        for t in (P, N, S, G):
            for q in STEPS[me * t, sq]:
                p = b[q] * by
                if p > 0:
                    if p == t or (t == G and p in (PP, PL, PN, PS)):
                        return True
        for q in STEPS[me * K, sq]:
            p = b[q] * by
            if p == K:
                return True
            if p > 0:
                f1, f2 = q // 9, sq // 9
                straight = f1 == f2 or q % 9 == sq % 9
                if (p == HO and straight) or (p == DR and not straight):
                    return True
        for ray in RAYS[me * L, sq]:
            for q in ray:
                if b[q]:
                    if b[q] * by == L:
                        return True
                    break
        for t, pro in ((B, HO), (R, DR)):
            for ray in RAYS[me * t, sq]:
                for q in ray:
                    p = b[q]
                    if p:
                        if p * by == t or p * by == pro:
                            return True
                        break
        return False

    def in_check(self, c=None):
        c = c or self.turn
        k = self.kings[c]
        return k is not None and self.attacked(k, -c)

    # -- moves: (from, to, promote) or (None, to, type) ---------------------------------
    def push(self, m):
        fr, to, x = m
        c = self.turn
        if fr is None:
            self.b[to] = c * x
            self.hand[c][x] -= 1
            self.undo.append((m, 0, 0, self.ply))
        else:
            p, cap = self.b[fr], self.b[to]
            self.undo.append((m, p, cap, self.ply))
            self.b[fr] = 0
            self.b[to] = c * PROMOTE[abs(p)] if x else p
            if cap:
                t = abs(cap)
                self.hand[c][UNPROMOTE.get(t, t)] += 1
            if abs(p) == K:
                self.kings[c] = to
        self.turn = -c
        self.ply += 1

    def pop(self):
        m, p, cap, ply = self.undo.pop()
        fr, to, x = m
        self.turn = c = -self.turn
        self.ply = ply
        if fr is None:
            self.b[to] = 0
            self.hand[c][x] += 1
        else:
            self.b[fr] = p
            self.b[to] = cap
            if cap:
                t = abs(cap)
                self.hand[c][UNPROMOTE.get(t, t)] -= 1
            if abs(p) == K:
                self.kings[c] = fr
        return m

    def pseudo_from(self, sq):
        """(to, promote) pairs of the piece on sq."""
        b, c = self.b, self.turn
        p = b[sq]
        t = abs(p)
        dests = [q for q in STEPS[p, sq] if b[q] * c <= 0]
        for ray in RAYS[p, sq]:
            for q in ray:
                if b[q] * c > 0:
                    break
                dests.append(q)
                if b[q]:
                    break
        out = []
        for q in dests:
            if t in PROMOTE:
                zone = (q % 9 <= 2 or sq % 9 <= 2) if c > 0 else (q % 9 >= 6 or sq % 9 >= 6)
                if zone:
                    out.append((q, True))
                if not dead_end(t, c, q):
                    out.append((q, False))
            else:
                out.append((q, False))
        return out

    def nifu(self, f):
        return any(self.b[f * 9 + r] == self.turn * P for r in range(9))

    def drop_ok(self, t, to):
        return (not self.b[to] and self.hand[self.turn][t] > 0 and not dead_end(t, self.turn, to)
                and not (t == P and self.nifu(to // 9)))

    def pseudo(self):
        c, out = self.turn, []
        for sq in range(81):
            if self.b[sq] * c > 0:
                out += [(sq, q, pr) for q, pr in self.pseudo_from(sq)]
        h = self.hand[c]
        if any(h):
            empt = [q for q in range(81) if not self.b[q]]
            for t in (P, L, N, S, G, B, R):
                if h[t]:
                    out += [(None, q, t) for q in empt if self.drop_ok(t, q)]
        return out

    def _safe(self, m):
        """After pseudo-legal m: own king not attacked, and not mate by a dropped pawn."""
        c = self.turn
        self.push(m)
        ok = not self.in_check(c)
        if ok and m[0] is None and m[2] == P and self.in_check(-c):
            ok = self.has_legal()
        self.pop()
        return ok

    def is_legal(self, m):
        fr, to, x = m
        if fr is None:
            return self.drop_ok(x, to) and self._safe(m)
        if self.b[fr] * self.turn <= 0 or (to, x) not in self.pseudo_from(fr):
            return False
        return self._safe(m)

    def legal_moves(self):
        if self.in_check() or self.kings[self.turn] is None:
            return [m for m in self.pseudo() if self._safe(m)]
        # not in check: a drop cannot uncover the own king, and only a checking pawn drop can be forbidden
        k = self.kings[-self.turn]
        fwd = None if k is None else k + self.turn
        return [m for m in self.pseudo()
                if (m[0] is None and not (m[2] == P and m[1] == fwd and k // 9 == m[1] // 9)) or self._safe(m)]

    def has_legal(self):
        return any(self._safe(m) for m in self.pseudo())

    def gives_check(self, m):
        self.push(m)
        r = self.in_check()
        self.pop()
        return r

    # -- notation ------------------------------------------------------------------
    def parse_usi(self, s):
        """The move meant by s, or None if s is not move text at all."""
        try:
            if len(s) == 4 and s[1] == '*':
                if s[0] not in 'PLNSGBR':
                    return None
                return (None, SQ_OF[s[2:4]], TYPE_OF[s[0]])
            if len(s) in (4, 5) and (len(s) == 4 or s[4] == '+'):
                return (SQ_OF[s[0:2]], SQ_OF[s[2:4]], len(s) == 5)
        except KeyError:
            pass
        return None

    def legal_usi(self, s):
        m = self.parse_usi(s)
        if m is None or not self.is_legal(m):
            return None
        return m

    def csa(self, m):
        """CSA text of m, without the colour sign."""
        fr, to, x = m
        sq = lambda q: str(q // 9 + 1) + str(q % 9 + 1)
        if fr is None:
            return '00' + sq(to) + CSA_PIECE[x]
        t = abs(self.b[fr])
        return sq(fr) + sq(to) + CSA_PIECE[PROMOTE[t] if x else t]

    def declaration_ok(self):
        """The 27-point declaration rule for the side to move."""
        c = self.turn
        k = self.kings[c]
        rel = lambda sq: sq % 9 if c > 0 else 8 - sq % 9
        if k is None or rel(k) > 2 or self.in_check():
            return False
        n = pts = 0
        for sq in range(81):
            p = self.b[sq] * c
            if p > 0 and p != K and rel(sq) <= 2:
                n += 1
                pts += 5 if p in (B, R, HO, DR) else 1
        h = self.hand[c]
        pts += sum(h[t] * (5 if t in (B, R) else 1) for t in (P, L, N, S, G, B, R))
        return n >= 10 and pts >= (28 if c > 0 else 27)


def usi(m):
    fr, to, x = m
    if fr is None:
        return LETTER[x] + '*' + SQ_NAME[to]
    return SQ_NAME[fr] + SQ_NAME[to] + ('+' if x else '')


class Game:
    """A game from a starting position: repetition and perpetual check over the whole history."""

    def __init__(self, sfen=START):
        self.pos = Pos(sfen)
        self.start = sfen
        self.usi = []
        self.keys = [self.pos.key()]
        self.checks = [self.pos.in_check()]

    def push_usi(self, s):
        m = self.pos.parse_usi(s)
        self.pos.push(m)
        self.usi.append(s)
        self.keys.append(self.pos.key())
        self.checks.append(self.pos.in_check())

    def occurrences(self):
        k = self.keys[-1]
        return [i for i, x in enumerate(self.keys) if x == k]

    def perpetual(self, since):
        """Which side (+1/-1, or 0) gave check with every one of its moves after position `since`?"""
        n = len(self.keys) - 1
        turn = self.pos.turn
        # position i (i > since) is reached by a move of the side not to move there
        last_mover = [i for i in range(n, since, -2)]
        other = [i for i in range(n - 1, since, -2)]
        if last_mover and all(self.checks[i] for i in last_mover):
            return -turn
        if other and all(self.checks[i] for i in other):
            return turn
        return 0
