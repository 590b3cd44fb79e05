"""
Protocol-level scripts: sequences of protocol transactions, each a list of
commands, run on a client3.Connection over the model server.

A command is written as a short tuple:
 ('Q', sql) ('P', name, sql) ('B', portal, stmt, args) ('DS', name) ('DP', name)
 ('E', portal, max) ('CS', name) ('CP', name) ('S',) ('H',) ('F', oid)
A transaction is (commands, how) where how is
 None          nothing special (a COPY FROM is left to fail)
 ('copy', [[rows...], ...])  data for COPY FROM STDIN, a list per batch
"""
import struct

from . import wire
from .pgmodel import Backend

S5 = 'SELECT i::int4 AS i FROM generate_series(1, 5) AS g(i)'
SN = 'SELECT i::int4 AS i FROM generate_series(1, %d) AS g(i)'
ST = "SELECT i::int4 AS i, ('t'||i)::text AS t, NULL::int4 AS z FROM generate_series(1, 2) AS g(i)"
SP = 'SELECT i::int4 AS i FROM generate_series(1, $1::int4) AS g(i)'
ERR2 = 'SELECT (10/(3 - i))::int4 AS i FROM generate_series(1, 5) AS g(i)'     # fails at the third row
ERR0 = 'SELECT (10/(1 - i))::int4 AS i FROM generate_series(1, 5) AS g(i)'     # fails at the first
BAD = 'SELEKT 1'
INS = 'INSERT INTO mct VALUES (1)'
INSP = 'INSERT INTO mct VALUES ($1::int4)'
COPYIN = 'COPY mct FROM STDIN'
COPYOUT = 'COPY (SELECT i FROM generate_series(1, 3) AS g(i)) TO STDOUT'
COPYERR = 'COPY (SELECT 10/(3-i) FROM generate_series(1, 5) AS g(i)) TO STDOUT'
TABLE = 'SELECT k FROM mct ORDER BY k'


def i4(n):
    return struct.pack('!l', n)


def ext(sql, args=(), mx=0xFFFFFFFF, describe=False):
    r = [('P', '', sql)]
    if describe:
        r.append(('DS', ''))
    r += [('B', '', '', args), ('E', '', mx), ('S',)]
    return r


PROBE = ([('Q', TABLE)], None)
PROBE2 = (ext('SELECT 7::int4 AS i'), None)


def build(cmds):
    from postgresql.protocol import element3 as e
    out = []
    for c in cmds:
        k = c[0]
        if k == 'Q':
            out.append(e.Query(c[1].encode()))
        elif k == 'P':
            out.append(e.Parse(c[1].encode(), c[2].encode(), ()))
        elif k == 'B':
            out.append(e.Bind(c[1].encode(), c[2].encode(), (e.BinaryFormat,) * len(c[3]), tuple(c[3]), (e.BinaryFormat,) if len(c) > 4 else ()))
        elif k == 'DS':
            out.append(e.DescribeStatement(c[1].encode()))
        elif k == 'DP':
            out.append(e.DescribePortal(c[1].encode()))
        elif k == 'E':
            out.append(e.Execute(c[1].encode(), c[2]))
        elif k == 'CS':
            out.append(e.CloseStatement(c[1].encode()))
        elif k == 'CP':
            out.append(e.ClosePortal(c[1].encode()))
        elif k == 'S':
            out.append(e.SynchronizeMessage)
        elif k == 'H':
            out.append(e.FlushMessage)
        elif k == 'F':
            out.append(e.Function(c[1], (), (), e.StringFormat))
        else:
            raise AssertionError(c)
    return out


class Run:
    "One execution of a script."

    def __init__(self, world, script, mode, hook=None, startup=False):
        from postgresql.protocol import xact3
        self.w, self.script, self.mode = world, script, mode
        self.hook = hook
        self.obs = []           # per transaction: (messages, error, fatal, state)
        self.expected = []      # the same from the server's side
        self.asyncs = []
        self.raised = None
        armed, world.armed = world.armed, startup
        self.pq = wire.protocol_connection(world)
        self.pq.connect(ssl=None)
        world.armed = armed
        self.connected = self.pq.xact is None
        self.C = xact3.Complete

    def go(self):
        from postgresql.protocol import xact3
        for cmds, how in self.script:
            sock = self.w.sockets[-1]
            if self.pq.xact is not None and self.pq.xact.state is self.C:
                # dead: the driver does not push onto it
                self.obs.append('dead')
                continue
            x = xact3.Instruction(build(cmds), asynchook=self.on_async)
            self.mark = len(sock.out)
            self.x = x
            self.obs.append(None)
            self.transact(x, how)
            self.obs[-1] = self.observe(x)
        return self

    def on_async(self, m):
        self.asyncs.append(m)
        if self.hook:
            self.hook(self, m)

    def transact(self, x, how):
        pq = self.pq
        pq.push(x)
        if how and how[0] == 'copy':
            while x.state is not self.C:
                if hasattr(x, 'CopyFailSequence') and x.messages is x.CopyFailSequence:
                    break
                pq.step()
            if x.state is not self.C:
                from postgresql.protocol import element3 as e
                for rows in how[1]:
                    x.messages = [r for r in rows]
                    while x.messages is not x.CopyFailSequence and x.state is not self.C:
                        pq.step()
                    if x.state is self.C:
                        break
                else:
                    x.messages = x.CopyDoneSequence
        if self.mode == 'complete':
            if pq.xact is x:
                pq.complete()
        elif self.mode == 'step':
            n = 0
            while x.state is not self.C:
                pq.step()
                n += 1
                if n > 3000:
                    raise wire.core.Horizon('step() makes no progress')
        elif self.mode == 'mixed':
            # a few steps, then to the end
            for i in range(2):
                if x.state is not self.C:
                    pq.step()
            if x.state is not self.C:
                pq.complete()

    def observe(self, x):
        return ([wire.canon(m) for m in x.messages_received()],
                wire.canon_error(getattr(x, 'error_message', None)), x.fatal,
                x.state is self.C, self.pq.state if x.fatal is not True else None)


def server_view(out):
    """
    What a transaction must report, from the messages the server sent for it:
    (messages without errors and asynchronous ones, first error, state)
    """
    msgs, err, state = [], None, None
    for m in out:
        t, body = m[:1], m[5:]
        if t in b'NSA':
            continue
        if t == b'E':
            f = {}
            for part in body.split(b'\0'):
                if part:
                    f[part[:1]] = part[1:]
            err = f
            continue
        if t == b'D':
            n, = struct.unpack_from('!H', body)
            pos, row = 2, []
            for i in range(n):
                l, = struct.unpack_from('!l', body, pos)
                pos += 4
                if l == -1:
                    row.append(None)
                else:
                    row.append(body[pos:pos + l])
                    pos += l
            msgs.append(('row',) + tuple(row))
            continue
        if t == b'd':
            msgs.append(('data', body))
            continue
        if t == b'Z':
            state = body
        msgs.append((t, m))
    return msgs, err, state


def scripts(tier):
    "name -> script"
    d = {}

    def add(name, *txns, probe=True):
        t = [x if isinstance(x, tuple) else (x, None) for x in txns]
        d[name] = t + ([PROBE] if probe else [])
    add('simple', [('Q', S5)])
    add('simple-multi', [('Q', 'INSERT INTO mct VALUES (1); SELECT k FROM mct ORDER BY k; DELETE FROM mct')])
    add('simple-empty', [('Q', '')], [('Q', ';')])
    add('simple-error', [('Q', BAD)])
    add('simple-error-mid', [('Q', 'INSERT INTO mct VALUES (1); ' + ERR2 + '; INSERT INTO mct VALUES (2)')])
    add('block', [('Q', 'BEGIN')], [('Q', INS)], [('Q', ERR0)], [('Q', INS)], [('Q', 'ROLLBACK')])
    add('block-commit', [('Q', 'BEGIN; INSERT INTO mct VALUES (1)')], ext('COMMIT'))
    add('ext', ext(S5), ext(INSP, (i4(4),)))
    add('ext-types', ext(ST, describe=True))
    add('ext-suspend', [('Q', 'BEGIN')], [('P', 's', S5), ('B', 'c', 's', ()), ('E', 'c', 2), ('S',)],
        [('E', 'c', 2), ('S',)], [('E', 'c', 2), ('S',)], [('CP', 'c'), ('CS', 's'), ('S',)], [('Q', 'COMMIT')])
    add('ext-parse-error', [('P', 's', BAD), ('DS', 's'), ('S',)], [('P', 's', S5), ('DS', 's'), ('S',)])
    add('ext-bind-error', [('P', 's', SP), ('S',)], [('B', '', 's', (b'xx',)), ('E', '', 0), ('S',)], [('B', '', 's', (i4(2),)), ('E', '', 0), ('S',)])
    add('ext-row-error', ext(ERR2), ext(S5))
    add('ext-describe-error', [('DS', 'nope'), ('S',)], [('DP', 'nope'), ('S',)])
    add('ext-many', [('P', 's', INSP), ('B', '', 's', (i4(1),)), ('E', '', 1), ('B', '', 's', (i4(2),)), ('E', '', 1), ('S',)])
    add('ext-many-error', [('P', 's', INSP), ('B', '', 's', (i4(1),)), ('E', '', 1), ('B', '', 's', (i4(1),)), ('E', '', 1), ('B', '', 's', (i4(3),)), ('E', '', 1), ('S',)])
    add('ext-two-segments', ext(BAD) + ext(S5), ext(S5) + ext(ERR2))
    add('ext-empty', ext(''), ext('', describe=True))
    add('ext-nodata', [('P', 's', INS), ('DS', 's'), ('S',)], [('CS', 's'), ('S',)])
    add('ext-portal-describe', [('Q', 'BEGIN')], [('P', '', S5), ('B', 'c', '', ()), ('DP', 'c'), ('E', 'c', 0), ('S',)],
        [('P', '', INS), ('B', 'd', '', ()), ('DP', 'd'), ('E', 'd', 0), ('S',)])
    add('ext-flush', [('P', '', S5), ('H',), ('B', '', '', ()), ('E', '', 0), ('H',), ('S',)])
    add('function', [('F', 1)], [('F', 2)])
    add('function-error', [('F', 3)], [('F', 1)])
    add('copy-out', ext(COPYOUT), [('Q', COPYOUT)])
    add('copy-out-error', ext(COPYERR), [('Q', COPYERR)])
    add('copy-in', (ext(COPYIN), ('copy', [[b'1\n', b'2\n'], [b'3\n']])))
    add('copy-in-empty', (ext(COPYIN), ('copy', [])))
    add('copy-in-simple', ([('Q', COPYIN)], ('copy', [[b'1\n', b'2\n']])))
    add('copy-in-simple-more', ([('Q', COPYIN + '; SELECT k FROM mct ORDER BY k')], ('copy', [[b'5\n']])))
    add('copy-in-fail', ext(COPYIN), [('Q', COPYIN)])
    add('copy-in-error', (ext(COPYIN), ('copy', [[b'1\n', b'x\n'], [b'3\n']])))
    add('copy-in-dup', (ext(COPYIN), ('copy', [[b'1\n', b'1\n']])))
    add('deferred', [('Q', 'INSERT INTO mcd VALUES (1)')], ext('INSERT INTO mcd VALUES (1)'), [('Q', 'INSERT INTO mcd VALUES (1)')])
    add('settings', [('Q', "SET application_name = 'x'")], ext("SET application_name = 'yz'"))
    add('notify', [('Q', 'LISTEN ch')], [('Q', "NOTIFY ch, 'a'")], ext("NOTIFY ch, 'b'"))
    add('warn', [('Q', 'COMMIT')], ext('COMMIT'))
    add('rows-large', [('Q', SN % 40)], ext(SN % 40))
    return d
