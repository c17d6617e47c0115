"""Random shogi positions and the binary position formats, written from the rules and the format descriptions."""
from .shogi import (P, L, N, S, B, R, G, K, PP, PL, PN, PS, HO, DR, PROMOTE, UNPROMOTE, Pos, START, STEPS, RAYS, dead_end, usi, LETTER)

FULL = {P: 18, L: 4, N: 4, S: 4, G: 4, B: 2, R: 2}


def put_ok(pos, t, c, sq):
    if pos.b[sq] or (t in (P, L, N) and dead_end(t, c, sq)):
        return False
    return t != P or not any(pos.b[(sq // 9) * 9 + r] == c * P for r in range(9))


def empty_pos():
    p = Pos()
    p.b = [0] * 81
    p.hand = {1: [0] * 8, -1: [0] * 8}
    p.kings = {1: None, -1: None}
    p.turn, p.ply = 1, 1
    return p


def checkers(pos, c):
    """Squares of the pieces attacking c's king."""
    k = pos.kings[c]
    out = []
    for sq in range(81):
        if pos.b[sq] * -c > 0:
            p = pos.b[sq]
            if k in STEPS[p, sq]:
                out.append(sq)
                continue
            for ray in RAYS[p, sq]:
                for q in ray:
                    if q == k:
                        out.append(sq)
                    if pos.b[q]:
                        break
    return out


def random_pos(rng, style=None):
    """A position that can stand on a board: both kings, no nifu, no piece without a move, the side not to move not in
    check, at most two checkers."""
    style = style or rng.choice(['scatter', 'scatter', 'sparse', 'mating', 'entering', 'hands', 'pins', 'declaring', 'hoard', 'battery'])
    if style == 'declaring':
        return declaring_pos(rng) or random_pos(rng, 'entering')
    if style == 'hoard':
        p = random_pos(rng, 'sparse')
        for t in rng.sample(sorted(FULL), rng.randint(1, 4)):
            # the rest of the set in one hand
            on = sum(UNPROMOTE.get(abs(x), abs(x)) == t for x in p.b)
            c = rng.choice((1, -1))
            p.hand[c][t], p.hand[-c][t] = FULL[t] - on, 0
        return p
    if style == 'battery':
        return battery_pos(rng) or random_pos(rng, 'mating')
    for _ in range(200):
        p = empty_pos()
        p.turn = rng.choice((1, -1))
        p.ply = rng.choice((1, 1, 2, 57, 256, 1000))
        if style == 'entering':
            c = rng.choice((1, -1))
            ks = {c: rng.randrange(9) * 9 + (rng.randrange(4) if c > 0 else 8 - rng.randrange(4)),
                  -c: rng.randrange(81)}
            p.turn = c
        elif style == 'mating':
            c = -p.turn
            ks = {c: rng.choice((0, 1, 8)) * 9 + rng.choice((0, 0, 1, 8)), -c: rng.randrange(81)}
        else:
            ks = {1: rng.randrange(81), -1: rng.randrange(81)}
        if ks[1] == ks[-1]:
            continue
        for c in (1, -1):
            p.b[ks[c]] = c * K
            p.kings[c] = ks[c]
        dens = {'scatter': rng.uniform(0.2, 1), 'sparse': 0.15, 'mating': 0.5, 'entering': 0.9, 'hands': 1, 'pins': 0.7}[style]
        hand = {'hands': 0.8, 'mating': 0.4, 'scatter': rng.uniform(0, 0.6), 'sparse': 0.3, 'entering': 0.2, 'pins': 0.2}[style]
        box = [t for t, n in FULL.items() for _ in range(n)]
        rng.shuffle(box)
        for t in box:
            if rng.random() >= dens:
                continue
            c = rng.choice((1, -1))
            if style == 'mating' and rng.random() < 0.7:
                c = p.turn
            if style == 'entering' and rng.random() < 0.6:
                c = p.turn
            if rng.random() < hand:
                p.hand[c][t] += 1
                continue
            for _try in range(6):
                if style == 'mating' and rng.random() < 0.6:
                    f, r = divmod(ks[-p.turn], 9)
                    f, r = f + rng.randint(-3, 3), r + rng.randint(-3, 3)
                    if not (0 <= f < 9 and 0 <= r < 9):
                        continue
                    sq = f * 9 + r
                elif style == 'pins' and rng.random() < 0.6:
                    kk = ks[rng.choice((1, -1))]
                    df, dr = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)])
                    n = rng.randint(1, 6)
                    f, r = kk // 9 + df * n, kk % 9 + dr * n
                    if not (0 <= f < 9 and 0 <= r < 9):
                        continue
                    sq = f * 9 + r
                elif style == 'entering' and c == p.turn and rng.random() < 0.8:
                    sq = rng.randrange(9) * 9 + (rng.randrange(3) if c > 0 else 8 - rng.randrange(3))
                else:
                    sq = rng.randrange(81)
                tt = PROMOTE[t] if t in PROMOTE and rng.random() < 0.35 else t
                if put_ok(p, tt, c, sq):
                    p.b[sq] = c * tt
                    break
        if p.in_check(-p.turn) or len(checkers(p, p.turn)) > 2:
            continue
        return p
    return Pos()


def battery_pos(rng):
    """A king hemmed in by its own men, faced by sliders behind a man that can step aside, by jumpers and by drops."""
    for _ in range(60):
        p = empty_pos()
        c = p.turn = rng.choice((1, -1))
        left = dict(FULL)
        f, r = rng.choice((0, 0, 8, 8, 1, 4, rng.randrange(9))), rng.choice((0, 0, 8, 1, 4, rng.randrange(9)))
        k = f * 9 + r
        p.b[k], p.kings[-c] = -c * K, k

        def put(t, who, sq):
            base = UNPROMOTE.get(t, t)
            if left[base] and put_ok(p, t, who, sq):
                left[base] -= 1
                p.b[sq] = who * t
                return True
            return False

        def at(df, dr, n):
            x, y = f + df * n, r + dr * n
            return x * 9 + y if 0 <= x < 9 and 0 <= y < 9 else None
        dirs = [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)]
        rng.shuffle(dirs)
        for df, dr in dirs[:rng.choice((1, 1, 2, 3))]:
            far = [n for n in range(2, 9) if at(df, dr, n) is not None]
            if not far:
                continue
            n = rng.choice(far)
            t = rng.choice((B, HO)) if df and dr else rng.choice((R, DR, R, L) if not df and dr * c > 0 else (R, DR))
            put(t, c, at(df, dr, n))
            put(rng.choice((P, N, S, S, S, G, B, R, HO, DR, PP, PN, L, N)), c, at(df, dr, rng.randrange(1, n)))
        near = [q for d in dirs for q in [at(d[0], d[1], 1)] if q is not None and not p.b[q]]
        for q in near:
            if rng.random() < 0.7:
                put(rng.choice((P, P, L, N, S, G, PP, PL)), -c, q)
        free = [q for q in range(81) if not p.b[q]]
        q = rng.choice(free)
        p.b[q], p.kings[c] = c * K, q
        for _k in range(rng.choice((0, 2, 4, 8, 14))):
            t = rng.choice((P, P, P, L, N, S, G, B, R))
            x, y = f + rng.randint(-3, 3), r + rng.randint(-3, 3)
            who = rng.choice((1, -1))
            if rng.random() < 0.3:
                if left[t]:
                    left[t] -= 1
                    p.hand[who][t] += 1
            elif 0 <= x < 9 and 0 <= y < 9:
                put(PROMOTE[t] if t in PROMOTE and rng.random() < 0.4 else t, who, x * 9 + y)
        if not p.in_check(-c) and len(checkers(p, c)) <= 2:
            return p
    return None


def crowded_pos(rng):
    """Several pieces of the same name stand around one square, so that a move there has to be told apart."""
    for _ in range(100):
        p = random_pos(rng, rng.choice(('sparse', 'scatter')))
        c = p.turn
        t = rng.choice((G, G, S, PP, PP, PS, PL, N, L, B, R, HO, DR))
        base = UNPROMOTE.get(t, t)
        mid = rng.randrange(81)
        n = rng.randint(2, min(6, FULL[base]))
        # take what is needed out of the other squares and the hands
        free = FULL[base] - sum(UNPROMOTE.get(abs(x), abs(x)) == base for x in p.b) - p.hand[1][base] - p.hand[-1][base]
        for sq in rng.sample(range(81), 81):
            if free >= n:
                break
            if UNPROMOTE.get(abs(p.b[sq]), abs(p.b[sq])) == base:
                p.b[sq] = 0
                free += 1
        for k in (1, -1):
            while free < n and p.hand[k][base]:
                p.hand[k][base] -= 1
                free += 1
        spots = [sq for sq in range(81) if put_ok(p, t, c, sq) and (mid in STEPS[c * t, sq] or any(mid in r for r in RAYS[c * t, sq]))]
        rng.shuffle(spots)
        for sq in spots[:n]:
            if put_ok(p, t, c, sq):
                p.b[sq] = c * t
        if not p.in_check(-c) and len(checkers(p, c)) <= 2:
            return p
    return random_pos(rng, 'sparse')


def declaring_pos(rng):
    """The side to move about to declare: king in the last three ranks, nine to eleven pieces there, points about the limit."""
    for _ in range(20):
        p = empty_pos()
        c = p.turn = rng.choice((1, -1))
        p.ply = rng.choice((2, 101, 300))
        zone = [f * 9 + (r if c > 0 else 8 - r) for f in range(9) for r in range(3)]
        rng.shuffle(zone)
        k = zone.pop()
        o = rng.choice([q for q in range(81) if q not in zone and q != k])
        p.b[k], p.b[o], p.kings = c * K, -c * K, {c: k, -c: o}
        left = dict(FULL)
        box = [t for t, n in FULL.items() for _ in range(n)]
        rng.shuffle(box)
        need, pts, goal = rng.choice((8, 9, 9, 10, 10, 11)), 0, rng.choice((26, 27, 27, 28, 28, 29))
        while need and zone and box:
            t, sq = box.pop(), zone.pop()
            tt = PROMOTE[t] if t in PROMOTE and rng.random() < .5 else t
            if put_ok(p, tt, c, sq):
                p.b[sq] = c * tt
                pts += 5 if t in (B, R) else 1
                need -= 1
        for t in box:
            v = 5 if t in (B, R) else 1
            if pts + v <= goal and rng.random() < .9:
                pts += v
                p.hand[c][t] += 1
            elif rng.random() < .3:
                sq = rng.randrange(81)
                if sq % 9 in ((3, 4, 5, 6, 7, 8) if c > 0 else (0, 1, 2, 3, 4, 5)) and put_ok(p, t, -c, sq):
                    p.b[sq] = -c * t
        if need or p.in_check(-c) or len(checkers(p, c)) > 2:
            continue
        return p


# -- binary formats -------------------------------------------------------------------------------------------------
# Both formats: one bit turn, 7 bits per king square (black, white), one code per square 1a 1b .. 9i (kings left out), one code per piece
# in hand (black, white; P L N S G B R), one code per piece in the box; 256 bits in all, every code least significant bit first.
# The codes below are written most significant bit first.
FORMATS = {
    'hcp': dict(
        board={P: '0001', L: '000011', N: '000111', S: '001011', B: '00011111', R: '00111111', G: '001111'},
        white={P: 4, L: 16, N: 16, S: 16, B: 64, R: 64, G: 32}, promoted={P: 8, L: 32, N: 32, S: 32, B: 128, R: 128},
        hand={P: '000', L: '00001', N: '00011', S: '00101', G: '00111', B: '0011111', R: '0111111'}, hwhite={P: 4, L: 16, N: 16, S: 16, G: 16, B: 64, R: 64},
        box={P: '010', L: '01001', N: '01011', S: '01101', G: '11101', B: '0001111', R: '0101111'}),
    'psfen': dict(
        board={P: '0001', L: '000011', N: '001011', S: '000111', B: '00011111', R: '00111111', G: '001111'},
        white={P: 8, L: 32, N: 32, S: 32, B: 128, R: 128, G: 32}, promoted={P: 4, L: 16, N: 16, S: 16, B: 64, R: 64},
        hand={P: '000', L: '00001', N: '00101', S: '00011', G: '00111', B: '0001111', R: '0011111'}, hwhite={P: 4, L: 16, N: 16, S: 16, G: 16, B: 64, R: 64},
        box={P: '010', L: '01001', N: '01101', S: '01011', G: '11011', B: '0101111', R: '0111111'}),
}
HAND_ORDER = (P, L, N, S, G, B, R)


def _expand(f):
    sq, hd, bx = {0: '0'}, {}, {}
    for t, code in f['board'].items():
        for c in (1, -1):
            for pro in (False, True):
                if pro and t not in PROMOTE:
                    continue
                v = int(code, 2) | (f['white'][t] if c < 0 else 0) | (f['promoted'][t] if pro else 0)
                sq[c * (PROMOTE[t] if pro else t)] = format(v, '0%db' % len(code))[::-1]
    for t, code in f['hand'].items():
        for c in (1, -1):
            hd[c * t] = format(int(code, 2) | (f['hwhite'][t] if c < 0 else 0), '0%db' % len(code))[::-1]
    for t, code in f['box'].items():
        bx[t] = code[::-1]
    return sq, hd, bx


CODES = {k: _expand(f) for k, f in FORMATS.items()}
for _sq, _hd, _bx in CODES.values():        # prefix-free, or the tables above are wrong
    _rest = list(_hd.values()) + list(_bx.values())
    for _l in (list(_sq.values()), _rest):
        assert len(set(_l)) == len(_l) and not any(a != b and b.startswith(a) for a in _l for b in _l)


def encode(pos, kind):
    sq, hd, bx = CODES[kind]
    bits = '0' if pos.turn > 0 else '1'
    for c in (1, -1):
        bits += format(pos.kings[c], '07b')[::-1]
    left = dict(FULL)
    for q in range(81):
        p = pos.b[q]
        if abs(p) != K:
            bits += sq[p]
            if p:
                left[UNPROMOTE.get(abs(p), abs(p))] -= 1
    for c in (1, -1):
        for t in HAND_ORDER:
            bits += hd[c * t] * pos.hand[c][t]
            left[t] -= pos.hand[c][t]
    for t in HAND_ORDER:
        bits += bx[t] * left[t]
    assert len(bits) == 256, len(bits)
    return bytes(int(bits[i:i + 8][::-1], 2) for i in range(0, 256, 8))


class BadRecord(Exception):
    pass


class OneKing(Exception):
    """A record of a mating problem: one king is not on the board.  Not judged here."""


def decode(data, kind):
    """The position in the record; BadRecord if there is none.  Second value: False if the position holds more pieces than a set has."""
    sq, hd, bx = CODES[kind]
    bits = ''.join(format(b, '08b')[::-1] for b in data)
    inv_sq = {v: k for k, v in sq.items()}
    inv_h = {v: k for k, v in hd.items()}
    inv_b = {v: k for k, v in bx.items()}
    p = empty_pos()
    p.turn = -1 if bits[0] == '1' else 1
    i = 1
    for c in (1, -1):
        k = int(bits[i:i + 7][::-1], 2)
        i += 7
        if k == 81 and int(bits[8:15][::-1], 2) <= 81:
            raise OneKing()
        if k >= 81 or p.b[k]:
            raise BadRecord('king square')
        p.b[k] = c * K
        p.kings[c] = k

    def code(tables):
        nonlocal i
        for n in range(1, 9):
            s = bits[i:i + n]
            if len(s) < n:
                break
            for t in tables:
                if s in t:
                    i += n
                    return t, t[s]
        raise BadRecord('code')
    left = dict(FULL)
    for q in range(81):
        if not p.b[q]:
            p.b[q] = code((inv_sq,))[1]
            if p.b[q]:
                t = abs(p.b[q])
                left[UNPROMOTE.get(t, t)] -= 1
    boxed = dict.fromkeys(FULL, 0)
    while i < 256:
        t, v = code((inv_h, inv_b))
        if t is inv_h:
            p.hand[1 if v > 0 else -1][abs(v)] += 1
            left[abs(v)] -= 1
        else:
            boxed[v] += 1
    return p, all(v >= 0 for v in left.values()) and boxed == left


def move16(m):
    fr, to, x = m
    return to | (((80 + x) << 7) if fr is None else (fr << 7) | ((1 << 14) if x else 0))


def move_psv(m):
    fr, to, x = m
    return to | ((x << 7) | (1 << 14) if fr is None else (fr << 7) | ((1 << 15) if x else 0))
