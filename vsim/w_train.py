"""Training data and opening books: packed records on disk (T01).

Several writers turn games into the library's record types (HuffmanCodedPos, HuffmanCodedPosAndEval, PackedSfen, PackedSfenValue, BookEntry)
and append them in batches, from arrays they reuse; readers load the growing files, restore the positions and moves and convert them to the
other type.  The scheduler decides the order down to single writes; in part of the runs the process dies or the disk fails at a random point.
What is on the disk is judged by a reader of its own that knows the formats bit by bit and the book keys from the generator they are defined by.
"""
import copy
import os
import random
import struct

from . import seams
from .positions import random_pos, encode, decode, move16, move_psv, BadRecord, OneKing
from .shogi import Pos, START, usi, K
from .w_files import play
from .world import World, Violation, check, raised

RAND = 1 << 30
M64 = (1 << 64) - 1


class MT64:
    """mt19937_64 with its standard seed, which the book format is defined by"""

    def __init__(self, seed=5489):
        self.s = [seed]
        for i in range(1, 312):
            x = self.s[-1]
            self.s.append((6364136223846793005 * (x ^ (x >> 62)) + i) & M64)
        self.i = 312

    def __call__(self):
        s = self.s
        if self.i == 312:
            for k in range(312):
                x = (s[k] & 0xFFFFFFFF80000000) | (s[(k + 1) % 312] & 0x7FFFFFFF)
                s[k] = s[(k + 156) % 312] ^ (x >> 1) ^ (0xB5026F5AA96619E9 if x & 1 else 0)
            self.i = 0
        x = s[self.i]
        self.i += 1
        x ^= (x >> 29) & 0x5555555555555555
        x ^= (x << 17) & 0x71D67FFFEDA60000
        x ^= (x << 37) & 0xFFF7EEE000000000
        return (x ^ (x >> 43)) & M64


_table = None


def book_key(pos):
    global _table
    if _table is None:
        r = MT64()
        pc = [[r() for _ in range(81)] for _ in range(31)]
        hd = [[r() for _ in range(19)] for _ in range(7)]
        _table = pc, hd, r()
    pc, hd, turn = _table
    k = 0
    for q, x in enumerate(pos.b):
        if x:
            k ^= pc[x if x > 0 else 16 - x][q]
    for i, t in enumerate((1, 2, 3, 4, 7, 5, 6)):       # pawn, lance, knight, silver, gold, bishop, rook
        k ^= hd[i][pos.hand[pos.turn][t]]
    return k ^ (turn if pos.turn < 0 else 0)


LAYOUT = {'hcp': '<32s', 'hcpe': '<32shhbB', 'psfen': '<32s', 'psv': '<32shHHbB', 'book': '<QHHi'}
OTHER = {'hcp': 'psfen', 'psfen': 'hcp'}


class Train(World):
    traced = False
    preempt = 0
    max_steps = 40_000

    def gen(self, rng, tier):
        ws = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            fmt = rng.choice(('hcp', 'hcpe', 'hcpe', 'psfen', 'psv', 'psv', 'book'))
            games = []
            for _ in range(rng.choice((1, 2, 3))):
                start = START if rng.random() < 0.4 else random_pos(rng).sfen()
                mv = play(rng, start, rng.choice((1, 5, 15, 30) if tier == 'quick' else (5, 30, 80, 160)))
                games.append({'start': start, 'moves': mv, 'result': rng.choice((0, 1, 2)),
                              'evals': [rng.choice((0, 1, -1, rng.randint(-3000, 3000), 30000, -30000, 32767, -32767)) for _ in mv]})
            ws.append({'fmt': fmt, 'games': games, 'batch': rng.choice((1, 2, 7, 64)), 'reuse': rng.random() < 0.6, 'alien': rng.random() < 0.3,
                       'flip': rng.choice((0, 0, 0.1, 0.5)), 'seed': rng.randrange(RAND), 'route': rng.choice(('push', 'sfen', 'copy', 'set'))})
        plan = {'writers': ws, 'readers': rng.choice((0, 1, 2)), 'reads': rng.randint(1, 4), 'switch': rng.choice((0.2, 0.6, 0.9)),
                'bufsize': rng.choice((16, 64, 300, 4096)), 'pyseed': rng.randrange(RAND)}
        k = rng.random()
        if k < 0.3:
            plan[rng.choice(('crash', 'crashw'))] = rng.choice((rng.randrange(1, 12), rng.randrange(1, 60)))
        elif k < 0.45:
            kind = rng.choice(('enospc', 'eio', 'short'))
            plan['disk'] = {'writes': [{'n': rng.choice((1, 2, rng.randrange(1, 40))), 'kind': kind, 'frac': rng.random(), 'posix': True,
                                        'sticky': kind != 'short' and rng.random() < 0.7}]}
        return plan

    def shrinks(self, plan):
        for i in range(len(plan['writers'])):
            if len(plan['writers']) > 1:
                q = copy.deepcopy(plan)
                del q['writers'][i]
                yield q
        for i, w in enumerate(plan['writers']):
            for k, g in enumerate(w['games']):
                if len(w['games']) > 1:
                    q = copy.deepcopy(plan)
                    del q['writers'][i]['games'][k]
                    yield q
                for m in (0, len(g['moves']) // 2, len(g['moves']) - 1):
                    if 0 <= m < len(g['moves']):
                        q = copy.deepcopy(plan)
                        q['writers'][i]['games'][k]['moves'] = g['moves'][:m]
                        q['writers'][i]['games'][k]['evals'] = g['evals'][:m]
                        yield q
            for k, v in (('alien', False), ('flip', 0), ('route', 'push'), ('batch', 1)):
                if w[k] != v:
                    q = copy.deepcopy(plan)
                    q['writers'][i][k] = v
                    yield q
        if plan['readers']:
            q = copy.deepcopy(plan)
            q['readers'] = 0
            yield q

    # -- what the records have to be -----------------------------------------------------------------------------------------------
    def expected(self, w):
        """(bytes of the fields that were set, position, move) for every record in order"""
        out = []
        for g in w['games']:
            p = Pos(g['start'])
            for u, e in zip(g['moves'], g['evals']):
                m, = [x for x in p.pseudo() if usi(x) == u]
                out.append((self.pack(w['fmt'], p, m, e, g['result']), p.copy(), m, e, g['result']))
                p.push(m)
        return out

    def pack(self, fmt, p, m, e, r):
        if fmt == 'hcp':
            return encode(p, 'hcp')
        if fmt == 'psfen':
            return encode(p, 'psfen')
        if fmt == 'hcpe':
            return struct.pack(LAYOUT[fmt], encode(p, 'hcp'), e, move16(m), r, 0)
        if fmt == 'psv':
            return struct.pack(LAYOUT[fmt], encode(p, 'psfen'), e, move_psv(m), p.ply & 0xFFFF, (0, 1, -1)[r], 0)
        return struct.pack(LAYOUT[fmt], book_key(p), move16(m), 1 + r, e * 3)

    def dtype(self, fmt):
        cs = self.cs
        return {'hcp': cs.HuffmanCodedPos, 'hcpe': cs.HuffmanCodedPosAndEval, 'psfen': cs.PackedSfen, 'psv': cs.PackedSfenValue, 'book': cs.BookEntry}[fmt]

    # -- writing --------------------------------------------------------------------------------------------------------------------
    def write(self, w, path, st):
        np, cs, sim = self.np, self.cs, self.sim
        fmt = w['fmt']
        rng = random.Random(w['seed'])
        dt = self.dtype(fmt)
        try:
            f = open(path, 'ab')
            if w['alien']:
                # another program made the file
                for rec, *_ in st['want']:
                    f.write(bytes(rec))
                    self.calls += 1
                    sim.yield_point('write')
                f.close()
                st['closed'] = True
                return
            n = w['batch']
            a = np.zeros(n, dt)
            k = 0
            made = 0
            for g in w['games']:
                b = cs.Board(g['start'])
                ref = Pos(g['start'])
                for u, e in zip(g['moves'], g['evals']):
                    sim.yield_point('call')
                    bb = b
                    if w['route'] == 'sfen':
                        bb = cs.Board(b.sfen())
                    elif w['route'] == 'copy':
                        bb = b.copy()
                    elif w['route'] == 'set':
                        bb = self.shared
                        bb.set_position('sfen %s moves %s' % (g['start'], ' '.join(g['moves'][:len(b.history)])))
                    mv = bb.move_from_usi(u)
                    x = a[k]
                    if fmt in ('hcp', 'hcpe'):
                        bb.to_hcp(x['hcp'])
                    elif fmt in ('psfen', 'psv'):
                        bb.to_psfen(x['sfen'])
                    if fmt == 'hcpe':
                        x['eval'], x['bestMove16'], x['gameResult'] = e, cs.move16(mv), (cs.DRAW, cs.BLACK_WIN, cs.WHITE_WIN)[g['result']]
                    elif fmt == 'psv':
                        x['score'], x['move'], x['gamePly'] = e, cs.move16_to_psv(cs.move16(mv)), bb.move_number & 0xFFFF
                        x['game_result'] = (0, 1, -1)[g['result']]
                    elif fmt == 'book':
                        x['key'], x['fromToPro'], x['count'], x['score'] = bb.book_key(), cs.move16(mv), 1 + g['result'], e * 3
                    b.push(mv)
                    k += 1
                    if k == n:
                        self.calls += 1
                        f.write(a.tobytes())
                        made += k
                        k = 0
                        if not w['reuse']:
                            a = np.zeros(n, dt)
                        if rng.random() < 0.3:
                            f.flush()
                            st['done'] = made
            f.write(a[:k].tobytes())
            f.close()
            st['closed'] = True
        except OSError as e:
            sim.event('gave up', os.path.basename(path), e.errno)
            st['error'] = True

    # -- reading --------------------------------------------------------------------------------------------------------------------
    def read(self, w, path, st, rng):
        np, cs = self.np, self.cs
        fmt, want = w['fmt'], st['want']
        dt, size = self.dtype(fmt), struct.calcsize(LAYOUT[fmt])
        with seams.real['open'](path, 'rb') as f:
            data = f.read()
        check(dt.itemsize == size, 'train:layout', lambda: 'a %s record has %d bytes, not %d' % (fmt, dt.itemsize, size))
        whole = len(data) // size
        check(whole <= len(want) and (not st.get('closed') or whole == len(want) and len(data) == whole * size) and whole >= st.get('done', 0), 'train:count',
              lambda: '%s: %d records (%d bytes), %d were written%s' % (fmt, whole, len(data), len(want), ' and the file was closed' if st.get('closed') else ''))
        flat = b''.join(bytes(x[0]) for x in want)
        for i in range(whole):
            x, y = data[i * size:(i + 1) * size], flat[i * size:(i + 1) * size]
            check(x == y, 'train:record', lambda: '%s record %d of %s is %r, should be %r' % (
                fmt, i, want[i][1].sfen() + ' ' + usi(want[i][2]), struct.unpack(LAYOUT[fmt], x), struct.unpack(LAYOUT[fmt], y)))
        if len(data) % size:
            self.sim.probe('torn-record')
        # the library reads it back
        a = np.frombuffer(data[:whole * size], dt)
        if fmt == 'book':
            return self.look_up(a, want[:whole], rng)
        kind = 'hcp' if fmt in ('hcp', 'hcpe') else 'psfen'
        b = self.reader_board
        for i in rng.sample(range(whole), min(whole, 12)):
            rec, p, m, e, r = want[i]
            self.sim.yield_point('read')
            field = a[i]['hcp' if kind == 'hcp' else 'sfen']
            if w['flip'] and rng.random() < w['flip']:
                self.damaged(b, kind, field, rng)
                continue
            (b.set_hcp if kind == 'hcp' else b.set_psfen)(np.asarray(field))
            check(b.sfen().split()[:3] == p.sfen().split()[:3], 'train:restore', lambda: '%s record %d gives %s, it was written for %s' % (fmt, i, b.sfen(), p.sfen()))
            if fmt in ('hcpe', 'psv'):
                v = a[i]
                if fmt == 'hcpe':
                    mv = b.move_from_move16(v['bestMove16'])
                    got = (int(v['eval']), int(v['gameResult']))
                    exp = (e, r)
                else:
                    mv = b.move_from_psv(v['move'])
                    got = (int(v['score']), int(v['gamePly']), int(v['game_result']))
                    exp = (e, p.ply & 0xFFFF, (0, 1, -1)[r])
                    check(cs.move16_from_psv(v['move']) == move16(m), 'train:move', lambda: 'the move %s of a psv record converts to %d' % (usi(m), cs.move16_from_psv(v['move'])))
                check(got == exp, 'train:fields', lambda: '%s record %d reads %r, written %r' % (fmt, i, got, exp))
                check(cs.move_to_usi(mv) == usi(m) and b.is_legal(mv), 'train:move', lambda: '%s record %d has the move %s, not %s' % (fmt, i, cs.move_to_usi(mv), usi(m)))
                if rng.random() < 0.5:
                    (b.push_move16 if fmt == 'hcpe' else b.push_psv)(v['bestMove16' if fmt == 'hcpe' else 'move'])
                    q = p.copy()
                    q.push(m)
                    check(b.sfen().split()[:3] == q.sfen().split()[:3], 'train:push', lambda: 'playing the move of %s record %d gives %s, not %s' % (fmt, i, b.sfen(), q.sfen()))
                    b.pop()
            # converted to the other type
            o = np.full(32, rng.randrange(256), np.uint8)
            (b.to_psfen if kind == 'hcp' else b.to_hcp)(o)
            check(bytes(o) == encode(p, OTHER[kind]), 'train:convert', lambda: '%s record %d of %s converts to %s, should be %s' % (
                fmt, i, p.sfen(), bytes(o).hex(), encode(p, OTHER[kind]).hex()))
            self.sim.probe('restored')

    def damaged(self, b, kind, field, rng):
        """A flipped bit: the record is refused and the board kept, or it gives the position that the bits now stand for."""
        np = self.np
        x = np.array(field)
        n = rng.randrange(256)
        x[n // 8] ^= 1 << (n % 8)
        try:
            q, ok = decode(bytes(x), kind)
        except OneKing:
            return
        except BadRecord:
            q, ok = None, False
        before = b.sfen(), len(b.history)
        self.sim.fault('bit-flip')
        try:
            (b.set_hcp if kind == 'hcp' else b.set_psfen)(x)
        except Exception as e:
            check(isinstance(e, RuntimeError), 'train:refusal', lambda: 'a damaged record raises %r' % e)
            check((b.sfen(), len(b.history)) == before, 'train:kept', lambda: 'a refused record changed the board from %s to %s' % (before[0], b.sfen()))
            check(not ok, 'train:refused', lambda: 'the record of %s was refused: %r' % (q.sfen(), e))
            return
        if q is not None and ok:
            check(b.sfen().split()[:3] == q.sfen().split()[:3], 'train:restore', lambda: 'the record of %s gives %s' % (q.sfen(), b.sfen()))
        elif q is None:
            raise Violation('train:accepted', 'a record that is no %s code was accepted as %s' % (kind, b.sfen()))

    def look_up(self, a, want, rng):
        """A book program: sorts by key and finds the moves of a position, however it was reached."""
        np, cs = self.np, self.cs
        if not len(a):
            return
        a = np.sort(a, order='key', kind='stable')
        b = self.reader_board
        for i in rng.sample(range(len(want)), min(len(want), 8)):
            rec, p, m, e, r = want[i]
            self.sim.yield_point('look-up')
            b.set_sfen(p.sfen())
            key = b.book_key()
            lo, hi = np.searchsorted(a['key'], np.uint64(key), 'left'), np.searchsorted(a['key'], np.uint64(key), 'right')
            got = sorted((cs.move_to_usi(b.move_from_move16(int(x['fromToPro']))), int(x['count']), int(x['score'])) for x in a[lo:hi])
            exp = sorted((usi(w[2]), 1 + w[4], w[3] * 3) for w in want if book_key(w[1]) == book_key(p))
            check(got == exp, 'train:book', lambda: 'the book gives %r for %s, it holds %r' % (got, p.sfen(), exp))
            mv = b.move_from_usi(usi(m))
            q = p.copy()
            q.push(m)
            check(b.book_key_after(key, mv) == book_key(q), 'train:book-after', lambda: 'book_key_after of %s in %s' % (usi(m), p.sfen()))
            self.sim.probe('looked-up')

    # -- one run --------------------------------------------------------------------------------------------------------------------
    def body(self, plan, sim, out):
        import cshogi
        import numpy
        self.cs, self.np, self.sim = cshogi, numpy, sim
        root = self.scratch_dir()
        self.fs = fs = seams.SimFS(sim, root, plan.get('disk'))
        seams.hooks.fs = fs
        fs.bufsize = plan['bufsize']
        fs.yields = True
        self.calls = 0
        self.shared, self.reader_board = cshogi.Board(), cshogi.Board()
        ws = plan['writers']
        paths = [os.path.join(root, 'w%d.%s' % (i, w['fmt'])) for i, w in enumerate(ws)]
        sts = [{'want': self.expected(w)} for w in ws]
        ts = [sim.spawn('writer%d' % i, lambda w=w, p=p, s=s: self.write(w, p, s), group='process') for i, (w, p, s) in enumerate(zip(ws, paths, sts))]

        def reader(k):
            def run():
                rng = random.Random(plan['pyseed'] + k)
                for _ in range(plan['reads']):
                    for _ in range(rng.randrange(1, 12)):
                        sim.yield_point('wait')
                    i = rng.randrange(len(ws))
                    if os.path.exists(paths[i]):
                        sim.probe('looked-at-a-growing-file')
                        self.read(ws[i], paths[i], dict(sts[i]), rng)
            return run
        ts += [sim.spawn('reader%d' % k, reader(k), group='other') for k in range(plan['readers'])]

        def over():
            return all(t.state == 'done' for t in ts) or self.calls >= plan.get('crash', 1 << 60) or fs.nwrites >= plan.get('crashw', 1 << 60)
        sim.exact = True
        sim.run(over)
        if not all(t.state == 'done' for t in ts):
            sim.fault('process-crash')
            sim.event('crash')
            fs.crash()
            if not sim.kill('process'):
                raise RuntimeError('cannot kill the writers')
            sim.stop_reason = None
            ts = [t for t in ts if t.group != 'process']
            sim.run(lambda: all(t.state == 'done' for t in ts))
        sim.exact = False
        self.raise_from(ts)
        fs.plan = {}
        fs.broken = fs.pending = None
        fs.yields = False

        def inspect():
            rng = random.Random(plan['pyseed'])
            for w, path, st in zip(ws, paths, sts):
                if os.path.exists(path):
                    self.read(w, path, st, rng)
        t = sim.spawn('inspector', inspect, group='later')
        sim.run(lambda: t.state == 'done')
        self.raise_from([t])
        out.trivial = not any(st['want'] for st in sts)

    def raise_from(self, ts):
        for t in ts:
            if isinstance(t.exc, Violation):
                raise t.exc
            if t.exc is not None:
                raise Violation('train:exception-' + type(t.exc).__name__, raised(t))
            check(t.state == 'done', 'train:stuck', 'a task did not finish')
