"""
The model server and PostgreSQL, compared.

  python mc/conformance.py record [HOST PORT]   (a server with trust for user postgres)

sends every program of the corpus below to a real server and writes what it
answered to golden/wire.json.gz. The check of C03 feeds the same bytes to
mc.pgmodel in every run and compares the answers message by message: row
descriptions, rows, tags, transaction states, error codes, notices, parameter
reports and notifications. The corpus enumerates all sequences over alphabets
of commands, and sessions of the driver as it sent them when they were
recorded.
"""
import base64
import gzip
import itertools
import json
import os
import socket
import struct
import sys
import zlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GOLDEN = os.path.join(V, 'golden', 'wire.json.gz')
if __name__ == '__main__':
    sys.path[:0] = [V, os.environ.get('VERIF_REPO', '/repo')]

from mc import pgmodel, scripts as S                            # noqa: E402

PREAMBLE = [
    'CREATE TEMP TABLE mct (k int4 PRIMARY KEY)',
    'CREATE TEMP TABLE mcd (k int4 UNIQUE DEFERRABLE INITIALLY DEFERRED)',
]


def m(t, body=b''):
    return t + struct.pack('!L', len(body) + 4) + body


def z(s):
    return s.encode() + b'\0'


def encode(cmds):
    out = b''
    for c in cmds:
        k = c[0]
        if k == 'Q':
            out += m(b'Q', z(c[1]))
        elif k == 'P':
            out += m(b'P', z(c[1]) + z(c[2]) + b'\0\0')
        elif k == 'B':
            n = len(c[3])
            out += m(b'B', z(c[1]) + z(c[2]) + struct.pack('!H', n) + b'\0\1' * n + struct.pack('!H', n)
                     + b''.join(struct.pack('!L', len(a)) + a for a in c[3]) + (b'\0\1\0\1' if len(c) > 4 else b'\0\0'))
        elif k in ('DS', 'DP', 'CS', 'CP'):
            out += m(k[:1].encode(), k[1:].encode() + z(c[1]))
        elif k == 'E':
            out += m(b'E', z(c[1]) + struct.pack('!L', c[2]))
        elif k == 'S':
            out += m(b'S')
        elif k == 'H':
            out += m(b'H')
        elif k == 'd':
            out += m(b'd', c[1])
        elif k == 'c':
            out += m(b'c')
        elif k == 'f':
            out += m(b'f', z('no more'))
        else:
            raise AssertionError(c)
    return out


def q(*texts):
    return {t: [('Q', t)] for t in texts}


def products(name, alphabet, depth, prefix=()):
    for k in range(1, depth + 1):
        for seq in itertools.product(alphabet, repeat=k):
            yield '%s:%s' % (name, '|'.join(seq)), [encode([('Q', p)]) for p in prefix] + [encode(alphabet[s]) for s in seq]


REQUESTS = {
    'ok': S.ext(S.SN % 2), 'row-error': S.ext(S.ERR2), 'bad': S.ext(S.BAD, describe=True), 'q-ok': [('Q', S.INS)],
    'q-bad': [('Q', 'DELETE FROM mct; SELEKT')], 'q-row-error': [('Q', S.ERR2)], 'begin': [('Q', 'BEGIN')], 'commit': S.ext('COMMIT'),
    'rollback': [('Q', 'ROLLBACK')], 'copy-ok': S.ext(S.COPYIN) + [('d', b'8\n'), ('d', b'9\n'), ('c',), ('S',)],
    'copy-bad': S.ext(S.COPYIN) + [('d', b'8\nx\n'), ('d', b'9\n'), ('c',), ('S',)], 'copy-fail': S.ext(S.COPYIN) + [('d', b'8\n'), ('f',), ('S',)],
    'q-copy': [('Q', S.COPYIN), ('d', b'7\n'), ('c',)], 'q-copy-fail': [('Q', S.COPYIN), ('f',)], 'copy-out': S.ext(S.COPYOUT), 'copy-out-error': S.ext(S.COPYERR),
    'prep': [('P', 's', S.SP), ('DS', 's'), ('S',)], 'exec': [('B', 'c', 's', (S.i4(2),)), ('DP', 'c'), ('E', 'c', 1), ('E', 'c', 0), ('CP', 'c'), ('S',)],
    'exec-ins': [('P', '', 'INSERT INTO mct VALUES (5)'), ('B', '', '', ()), ('DP', ''), ('E', '', 0), ('S',)], 'deferred': S.ext('INSERT INTO mcd VALUES (1)'),
    'close': [('CS', 's'), ('S',)], 'two': S.ext(S.BAD) + S.ext(S.S5), 'portal': [('P', '', S.S5), ('B', 'p', '', (), 1), ('E', 'p', 2), ('S',)], 'more': [('E', 'p', 2), ('S',)],
    'empty': S.ext('', describe=True), 'q-empty': [('Q', ' ; ')], 'many': [('P', 'm', S.INSP), ('B', '', 'm', (S.i4(1),)), ('E', '', 1), ('B', '', 'm', (S.i4(2),)), ('E', '', 1), ('S',), ('CS', 'm'), ('S',)],
    'table': [('Q', S.TABLE)], 'multi': [('Q', 'INSERT INTO mct VALUES (3); SELECT k FROM mct ORDER BY k; DELETE FROM mct')],
    'types': S.ext(S.ST, describe=True), 'bad-bind': [('P', '', S.SP), ('B', '', '', (b'xx',)), ('E', '', 0), ('S',)],
    'returning': S.ext('INSERT INTO mct VALUES (6) RETURNING k'),
}
SMALL = ('ok', 'row-error', 'bad', 'begin', 'commit', 'rollback', 'copy-bad', 'prep', 'exec', 'deferred', 'q-ok', 'portal', 'more')
BLOCKS = q('BEGIN', 'COMMIT', 'ROLLBACK', 'SAVEPOINT "a"', 'SAVEPOINT "b"', 'RELEASE "a"', 'ROLLBACK TO "a"', 'INSERT INTO mct VALUES (1)', S.TABLE, S.BAD, 'INSERT INTO mcd VALUES (1)')
MODES = ('START TRANSACTION ISOLATION LEVEL SERIALIZABLE', 'BEGIN READ ONLY', 'BEGIN ISOLATION LEVEL READ COMMITTED READ WRITE')
MODED = q('INSERT INTO mct VALUES (1)', 'COMMIT', 'BEGIN', S.TABLE)
MOVES = [n % '"c"' for n in (
    'FETCH FORWARD 1 IN %s', 'FETCH FORWARD ALL IN %s', 'FETCH BACKWARD 1 IN %s', 'FETCH BACKWARD ALL IN %s', 'FETCH FORWARD 0 IN %s', 'FETCH BACKWARD 0 IN %s', 'FETCH FORWARD -1 IN %s', 'MOVE FORWARD 2 IN %s', 'MOVE BACKWARD 2 IN %s',
    'MOVE ABSOLUTE 0 IN %s', 'MOVE ABSOLUTE 2 IN %s', 'MOVE ABSOLUTE 9 IN %s', 'MOVE LAST IN %s', 'MOVE NEXT IN %s', 'MOVE RELATIVE -1 IN %s', 'MOVE BACKWARD ALL IN %s')]
DECLARE = 'DECLARE "c" INSENSITIVE SCROLL CURSOR %s HOLD FOR ' + S.SN % 3
HELD = q(DECLARE % 'WITH', DECLARE % 'WITHOUT', 'FETCH FORWARD 2 IN "c"', 'CLOSE "c"', 'BEGIN', 'COMMIT', 'ROLLBACK', 'SAVEPOINT "a"', 'ROLLBACK TO "a"', S.BAD)
SETS = q("SET application_name = 'x'", "SET LOCAL application_name = 'y'", 'RESET application_name', 'BEGIN', 'COMMIT', 'ROLLBACK', 'SAVEPOINT "a"', 'ROLLBACK TO "a"', 'RELEASE "a"', S.BAD)
NOTES = q('LISTEN a', 'LISTEN "A"', 'UNLISTEN a', 'UNLISTEN *', 'NOTIFY a', "NOTIFY a, 'x'", "NOTIFY \"A\", 'x'", 'BEGIN', 'COMMIT', 'ROLLBACK', S.BAD)


def corpus():
    yield from products('requests', REQUESTS, 2)
    yield from products('small', {k: REQUESTS[k] for k in SMALL}, 3)
    yield from products('blocks', BLOCKS, 3)
    yield from products('inside', BLOCKS, 3, ('BEGIN', 'SAVEPOINT "a"'))
    for i, mode in enumerate(MODES):
        yield from products('modes%d' % i, MODED, 2, (mode,))
    yield from products('moves', q(*MOVES), 3, ('BEGIN', DECLARE % 'WITHOUT'))
    yield from products('held', HELD, 3)
    yield from products('sets', SETS, 3)
    yield from products('sets-inside', SETS, 3, ('BEGIN', "SET application_name = 'z'"))
    yield from products('notes', NOTES, 3)
    yield from products('notes-inside', NOTES, 2, ('LISTEN a', 'BEGIN', "NOTIFY a, 'first'"))
    yield from sessions()


def sessions():
    "what the driver sends for programs, [(bytes, number of messages)]"
    from mc import wire
    import postgresql.exceptions as X
    ops = {
        'rows': lambda c: list(c.prepare(S.SN % 3).rows()), 'first': lambda c: c.query.first(S.SN % 3), 'err': lambda c: c.query(S.ERR2),
        'load': lambda c: c.prepare(S.INSP).load_rows([(3,), (4,), (3,)], chunksize=2), 'copy': lambda c: c.prepare(S.COPYIN).load_rows([b'8\n', b'9\n']),
        'table': lambda c: c.query(S.TABLE), 'cursor': lambda c: c.prepare(S.SN % 5).declare().read(2), 'block': block, 'nested': nested, 'bad': lambda c: c.prepare(S.BAD),
        'lock': lock, 'try': trylock, 'chunks': chunks, 'out': lambda c: list(c.prepare(S.COPYOUT)()), 'mode': mode,
    }
    for seq in itertools.product(ops, repeat=2):
        with wire.quiet():
            w = wire.World()
            db = wire.connect(w)
            log = []
            feed = w.server.feed
            w.server.feed = lambda data: log.append(data) or feed(data)
            for n in seq:
                try:
                    ops[n](db)
                except X.Error:
                    pass
            yield 'driver:' + '|'.join(seq), [b''.join(log)]


def block(c):
    with c.xact():
        c.execute(S.INS)


def nested(c):
    with c.xact():
        c.execute(S.INS)
        try:
            with c.xact():
                c.execute('INSERT INTO mct VALUES (2)')
                c.query(S.ERR0)
        except Exception:
            pass
        c.prepare(S.SN % 3).declare().read()


def mode(c):
    with c.xact(isolation='serializable', mode='read only'):
        c.query(S.TABLE)


def chunks(c):
    with c.xact():
        for x in c.prepare(S.SN % 3).chunks():
            pass


def lock(c):
    from postgresql.alock import ExclusiveLock
    with ExclusiveLock(c, 5, (1, 2)):
        pass


def trylock(c):
    from postgresql.alock import ShareLock
    k = ShareLock(c, 'name', (1, 2))
    k.acquire(blocking=False)
    k.release()


def canon(raw):
    "what is compared of a message of the server"
    t, body = raw[:1], raw[5:]
    if t in b'EN':
        f = {p[:1]: p[1:] for p in body.split(b'\0') if p}
        return t + b' ' + f.get(b'V', b'') + b' ' + f[b'C']
    if t == b'T':
        n, = struct.unpack_from('!H', body)
        out, pos = [], 2
        for i in range(n):
            e = body.index(b'\0', pos)
            _, _, oid, ln, _, fmt = struct.unpack_from('!LhLhlh', body, e + 1)
            out.append(b'%s %d %d %d' % (body[pos:e], oid, ln, fmt))
            pos = e + 19
        return b'T ' + b', '.join(out)
    if t == b'A':
        return b'A ' + body[4:]
    return t + b' ' + body


def model(steps):
    "what the model answers: a list of messages per step, or the breach"
    b = pgmodel.Backend()
    b.feed(struct.pack('!LL', 9 + 7, 196608) + b'user\0u\0' + b'\0')
    out = []
    for s in steps:
        out.append([canon(x) for x in b.feed(s)])
    return out


class Real:
    def __init__(self, host, port):
        self.s = socket.create_connection((host, port), 10)
        self.buf = b''
        self.user = b'user\0postgres\0database\0postgres\0'
        self.s.sendall(struct.pack('!LL', 9 + len(self.user), 196608) + self.user + b'\0')
        self.until_ready(1)
        for sql in ['RESET ALL'] + PREAMBLE:
            self.s.sendall(m(b'Q', z(sql)))
            r = self.until_ready(1)
            assert not any(x[:1] == b'E' for x in r), r

    def message(self):
        while True:
            if len(self.buf) >= 5:
                n, = struct.unpack_from('!L', self.buf, 1)
                if len(self.buf) > n:
                    r, self.buf = self.buf[:n + 1], self.buf[n + 1:]
                    return r
            d = self.s.recv(65536)
            if not d:
                raise EOFError
            self.buf += d

    def until_ready(self, n):
        out = []
        while n:
            out.append(self.message())
            n -= out[-1][:1] == b'Z'
        return out

    def step(self, data, n):
        self.s.sendall(data)
        out = []
        self.s.settimeout(5)
        try:
            out = self.until_ready(n)
        except (socket.timeout, EOFError):
            out.append(b'!\0\0\0\0timeout')
        # nothing more may follow
        self.s.settimeout(0)
        try:
            while True:
                out.append(self.message())
        except (BlockingIOError, EOFError):
            pass
        self.s.settimeout(10)
        return [canon(x) for x in out]

    def close(self):
        self.s.sendall(m(b'X'))
        self.s.close()


def digest(answers):
    return zlib.crc32(repr(answers).encode())


def record(host, port):
    out, bad, total = {}, 0, 0
    for name, steps in corpus():
        want = model(steps)
        r = Real(host, port)
        got = []
        for s, w in zip(steps, want):
            got.append(r.step(s, sum(1 for x in w if x[:1] == b'Z')))
        r.close()
        total += 1
        if got != want:
            bad += 1
            if bad <= int(os.environ.get('SHOW', 6)):
                for s, g, w in zip(steps, got, want):
                    if g != w:
                        print(name, '\n  sent ', s[:300], '\n  model', w, '\n  real ', g)
                        break
        out[name] = [(base64.b85encode(s).decode(), [base64.b85encode(x).decode() for x in g]) for s, g in zip(steps, got)]
    print(total, 'programs,', bad, 'differ')
    raw = json.dumps(out, sort_keys=True).encode()
    with open(GOLDEN, 'wb') as f:
        f.write(gzip.compress(raw, 9, mtime=0))
    print(len(raw), os.path.getsize(GOLDEN))


def recorded(part=0, parts=1):
    with gzip.open(GOLDEN) as f:
        g = json.load(f)
    for i, name in enumerate(sorted(g)):
        if i % parts == part:
            yield name, [(base64.b85decode(s), [base64.b85decode(x) for x in a]) for s, a in g[name]]


if __name__ == '__main__':
    if sys.argv[1:2] == ['record']:
        record(*(sys.argv[2:] or ('127.0.0.1', 15999)))
