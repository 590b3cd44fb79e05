"""
C06 - COPY streams are carried byte for byte, however they are chunked.

(wire)  WireState against the definition of the message stream: every stream
        of up to `n` COPY messages with every way to cut it into pieces
        (all segmentations of short streams, every one, two or three cuts of
        the long ones).
(copy)  The copy manager between model servers and callables: every list of
        row bodies times buffer sizes times receivers, and every schedule of
        short reads, short writes, would-block and timeout answers and
        asynchronous messages within the bound of deviations. Faults that are
        only "try again" are continued or reconciled. What arrives is compared
        with what was produced, and so are all the counts.
"""
import itertools
import struct

from mc import core, pgmodel as M, wire

PROPERTY = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of segmentations and of read/write schedules, against the definition of the stream'
RULE = 'an execution is a stream x segmentation, or a copy x schedule within the bound of deviations'
ASSUMPTIONS = ['the servers send well formed messages', 'buffers of at least one byte']


def d(body):
    return b'd' + struct.pack('!L', len(body) + 4) + body


BODIES = [b'', b'\n', b'ab', b'd\0\0', b'\0\0\0\4', b'c\0\0\0\4', b'x' * 7]
BIG = [b'y' * 300, b'd\0\0\0\5' * 60, b'z' * 65536]
TAILS = [b'', b'c\0\0\0\4', b'c\0\0\0\4C\0\0\0\x0bCOPY 2\0Z\0\0\0\5I', b'N\0\0\0\5\0', b'E', b'\0']

# lists of rows sent by the producing server
ROWS = {
    'none': [], 'empty': [b''], 'one': [b'1\n'], 'blank': [b'\n'], 'two': [b'1\n', b'22\n'],
    'empties': [b'', b'', b''], 'mixed': [b'a\n', b'', b'bcd\n', b'\n'],
    'heads': [b'd\0\0\0\4', b'c\0\0\0\4\n', b'\0', b'C\0\0\0\x0bCOPY 9\0'],
    'wide': [b'w' * 300 + b'\n', b'1\n'], 'many': [b'%d\n' % i for i in range(9)],
}
CHUNKS = {
    'none': [], 'void': [[]], 'one': [[b'1\n']], 'mixed': [[b'1\n', b'22\n'], [], [b'', b'333\n']],
    'heads': [[b'd\0\0\0\4', b'c\0\0\0\4\n'], [b'\0']], 'wide': [[b'w' * 300 + b'\n'], [b'1\n']],
}


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for tail in range(len(TAILS)):
            T.append(('wire', v, {'tail': tail}))
        T.append(('wirebig', v, {}))
        for rows in ROWS:
            for recv in ('S', 'C', 'N', 'SC', 'SS'):
                T.append(('copy', v, {'rows': rows, 'recv': recv}))
        for rows in CHUNKS:
            for recv in ('S', 'C', 'N', 'SC'):
                T.append(('iterated', v, {'rows': rows, 'recv': recv}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


# -- WireState ---------------------------------------------------------------

def expected(data, p):
    "messages completed within data[:p], remaining bytes, header fragment, where the stream ends"
    i = n = 0
    while i < p:
        if data[i:i + 1] != b'd':
            return n, 0, b'', i
        if p - i < 5:
            return n, -1, data[i + 1:p], None
        size = 1 + struct.unpack_from('!L', data, i + 1)[0]
        if i + size > p:
            return n, i + size - p, b'', None
        n += 1
        i += size
    return n, 0, b'', None


def drive(R, data, cuts, sig, kind=memoryview):
    from postgresql.copyman import WireState
    s = WireState()
    R.trans(len(cuts) + 1)
    total = at = 0
    for c in list(cuts) + [len(data)]:
        total += s.update(kind(data[at:c]))
        n, rem, frag, end = expected(data, c)
        got = (total, s.remaining_bytes, bytes(s.size_fragment), None if s.final_view is None else bytes(s.final_view))
        want = (n, rem, frag, None if end is None else data[end:c])
        if not R.check(got == want, sig, lambda: 'stream %r cut at %r, after %d bytes: got %r want %r' % (data[:80], cuts, c, got, want)):
            return
        at = c
        if end is not None:
            break
    R.state((n, rem, frag, end is not None))


def segmentations(n, limit, cuts):
    "every way to cut n bytes, or those with at most `cuts` cuts"
    if n <= limit:
        for k in range(n):
            yield from itertools.combinations(range(1, n), k)
    else:
        for k in range(cuts + 1):
            yield from itertools.combinations(range(1, n), k)


def t_wire(R, tail):
    deep = R.tier != 'quick'
    for n in range(0, 4):
        for bodies in itertools.product(BODIES, repeat=n):
            if n == 3 and sum(map(len, bodies)) > (12 if deep else 4):
                continue
            data = b''.join(map(d, bodies)) + TAILS[tail]
            if not data or not R.case([list(map(repr, bodies))]):
                continue
            with R.guarded('wire', 60):
                for cuts in segmentations(len(data), 13 if deep else 11, 3 if deep and len(data) < 40 else 2 if len(data) < 40 or deep else 1):
                    drive(R, data, cuts, 'wire:%d' % tail)
                if len(data) < 24:
                    drive(R, data, range(1, len(data)), 'wire:%d' % tail)
    R.outcome(tail)


def t_wirebig(R):
    for big in BIG:
        for before, after in itertools.product(([], [b''], [b'a']), ([], [b'b'], [b'', b''])):
            data = b''.join(map(d, before + [big] + after)) + TAILS[2]
            if not R.case([len(big), len(before), len(after)]):
                continue
            with R.guarded('wirebig', 60):
                n = len(data)
                near = sorted({x for x in list(range(0, 14)) + list(range(n - 45, n)) + [255, 256, 257, 300, 65535, 65536] if 0 < x < n})
                for cuts in [(x,) for x in near] + list(itertools.combinations(near, 2)):
                    drive(R, data, cuts, 'wire:big')
    R.outcome('big')


# -- copies ------------------------------------------------------------------

NOTICE = M.notice_msg('01000', 'one')
NOTIFY = M.notify_msg(77, b'inj', b'pay')
PARAM = M.param_msg(b'mc_param', b'v1')
MENU = [(NOTICE,), (NOTIFY, PARAM, NOTICE)]


class Boring(Exception):
    pass


class Copy:
    "one copy: servers, connections, producer, receivers"

    def __init__(self, ch, rows, recv, size, sched=(), asyncs=(), chunks=False):
        from postgresql import copyman
        self.ch, self.rows, self.recv = ch, rows, recv
        self.worlds = []
        self.got = []
        self.seen = {}

        def world(which):
            w = wire.World(ch, sched=which in sched, asyncs=MENU if which in asyncs else ())
            w.armed = False
            db = wire.connect(w)
            notices = self.seen.setdefault(which, [])
            db.msghook = lambda m: notices.append(m.message) or True
            self.worlds.append((which, w, db))
            return w, db
        if chunks:
            self.src = None
            self.producer = copyman.IteratorProducer([list(x) for x in rows])
            self.flat = [x for c in rows for x in c]
        else:
            w, self.src = world('src')
            w.server.anyout = list(rows)
            self.flat = list(rows)
            kw = {'buffer_size': size} if size else {}
            self.producer = copyman.StatementProducer(self.src.prepare('COPY anyout TO STDOUT'), **kw)
        self.receivers = []
        for i, r in enumerate(recv):
            if r == 'S':
                w, db = world('dst%d' % i)
                self.receivers.append(copyman.StatementReceiver(db.prepare('COPY anyin FROM STDIN')))
                self.got.append(w.server)
            elif r == 'C':
                got = []
                self.got.append(got)
                self.receivers.append(copyman.CallReceiver(got.append))
            else:
                self.got.append(None)
                self.receivers.append(copyman.NullReceiver())
        self.manager = copyman.CopyManager(self.producer, *self.receivers)
        self.stats = [0, 0]
        self.retries = 0

    def arm(self, on):
        for n, w, db in self.worlds:
            w.armed = on

    def again(self):
        self.retries += 1
        if self.retries > 60:
            raise core.Horizon('the copy does not come to an end')

    def go(self):
        from postgresql import copyman
        self.arm(True)
        with self.manager as copy:
            while True:
                try:
                    for n, b in copy:
                        self.again()
                        self.stats[0] += n
                        self.stats[1] += b
                    break
                except copyman.ProducerFault as f:
                    self.again()
                    if not isinstance(f.__context__, OSError):
                        raise
                except copyman.ReceiverFault as f:
                    todo = list(f.faults.items())
                    for r, x in todo:
                        if not isinstance(x, OSError):
                            raise
                    for r, x in todo:
                        while True:
                            self.again()
                            try:
                                copy.reconcile(r)
                                break
                            except OSError:
                                pass
            self.arm(False)
        self.arm(False)


def verify(R, c, sig, where, chunks):
    p = c.producer
    n = len(c.flat)
    size = sum(len(x) + (0 if chunks else 5) for x in c.flat)
    totals = (p.total_messages, p.total_bytes)
    R.check(totals == (n, size), sig + ':totals', lambda: '%s: producer counts %r, sent %r' % (where(), totals, (n, size)))
    R.check(tuple(c.stats) == (n, size), sig + ':progress', lambda: '%s: progress adds up to %r, sent %r' % (where(), c.stats, (n, size)))
    if not chunks:
        got = (p.count(), p.command())
        R.check(got == (n, 'COPY'), sig + ':count', lambda: '%s: producer count/command %r of %d rows' % (where(), got, n))
    for k, r, got in zip(c.recv, c.receivers, c.got):
        if k == 'S':
            have, want = b''.join(got.db['any']), b''.join(c.flat)
            R.check(have == want, sig + ':bytes', lambda: '%s: stored %r produced %r' % (where(), have[:200], want[:200]))
            cc = (r.count(), r.command())
            R.check(cc == (want.count(b'\n'), 'COPY'), sig + ':received', lambda: '%s: receiver count/command %r' % (where(), cc))
        elif k == 'C':
            have = [bytes(x) for l in got for x in l]
            R.check(have == c.flat, sig + ':rows', lambda: '%s: received %r produced %r' % (where(), have[:20], c.flat[:20]))
    for which, w, db in c.worlds:
        R.check(w.server.state == 'I' and not w.server.implicit, sig + ':state', lambda: '%s: %s left in %r' % (where(), which, w.server.state))
        one = db.prepare('SELECT 7::int4 AS i').first()
        R.check(one == 7, sig + ':usable', lambda: '%s: %s answers %r' % (where(), which, one))
        sent = [x for x in w.injected if x[:1] == b'N']
        R.check(c.seen[which] == ['one'] * len(sent), sig + ':notices', lambda: '%s: %s sent %d notices, %r seen' % (where(), which, len(sent), c.seen[which]))
        notes = [x for x in w.injected if x[:1] == b'A']
        have = list(db.iternotifies(0))
        R.check(have == [('inj', 'pay', 77)] * len(notes), sig + ':notifies', lambda: '%s: %s sent %d notifications, %r seen' % (where(), which, len(notes), have))


def sizes(R, rows):
    n = sum(len(x) + 5 for x in rows) + 40
    if n > 200:
        return [0, 1, 4, 5, 6, 255, 256, 300, 305, 306, 307]
    return [0] + list(range(1, 14)) + [20, 21, 33, 64, 128]


def one(R, key, sig, rows, recv, size, sched, asyncs, bound, chunks=False):
    def once(ch):
        with R.guarded(sig, 20), wire.quiet():
            c = Copy(ch, rows, recv, size, sched, asyncs, chunks)
            where = lambda: '%s size %r %r %r' % (key, size, ch.schedule, [(n, w.injected) for n, w, db in c.worlds if w.injected])
            c.go()
            verify(R, c, sig, where, chunks)
            R.state((key[0], recv, size, len(ch.trace), c.retries))
            R.outcome((key[0], recv, c.retries))
    if sched or asyncs:
        wire.explore(R, key, once, bound)
    elif R.case(key):
        once(wire.Chooser())


def t_copy(R, rows, recv):
    deep = R.tier != 'quick'
    data = ROWS[rows]
    sig = 'copy:' + recv
    for size in sizes(R, data):
        one(R, [rows, recv, size, 'plain'], sig, data, recv, size, (), (), 0)
    small = [0, 1, 5, 7, 12] if deep else [0, 7]
    if rows == 'wide':
        small = [0, 128, 306] if not deep else [0, 128, 255, 306]
    for size in small:
        one(R, [rows, recv, size, 'read'], sig, data, recv, size, ('src',), (), 2 if deep or (rows in ('two', 'mixed') and recv in 'SC' and not size) else 1)
        one(R, [rows, recv, size, 'write'], sig, data, recv, size, ('dst0', 'dst1'), (), 2 if deep or (rows in ('two', 'mixed') and recv == 'S' and not size) else 1)
        one(R, [rows, recv, size, 'async'], sig, data, recv, size, (), ('src', 'dst0', 'dst1'), 2 if deep or (rows in ('two', 'one') and recv in 'SC') else 1)
    if rows in ('two', 'heads') or deep:
        one(R, [rows, recv, 9, 'all'], sig, data, recv, 9, ('src', 'dst0', 'dst1'), ('src',), 2 if deep else 1)


def t_iterated(R, rows, recv):
    deep = R.tier != 'quick'
    sig = 'iterated:' + recv
    one(R, [rows, recv, 'plain'], sig, CHUNKS[rows], recv, 0, (), (), 0, True)
    if 'S' in recv:
        one(R, [rows, recv, 'write'], sig, CHUNKS[rows], recv, 0, ('dst0', 'dst1'), (), 3 if deep else 2, True)
        one(R, [rows, recv, 'async'], sig, CHUNKS[rows], recv, 0, (), ('dst0',), 2, True)
