"""
C03 - after a server error the session is synchronised.

Every sequence of requests over an alphabet in which any command can fail is
run on the real protocol code over the model server. What a transaction
reports must be exactly what the server sent for it; the known transaction
status must be the server's; and the probes that follow behave as the server
says.
"""
import itertools

from mc import conformance, core, scripts as S, wire
from mc.pgmodel import Backend

PROPERTY = 'C03'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of request sequences with failures, real protocol code over a model server'
RULE = ('an execution is one sequence of protocol transactions x way of running it; a state is the server state '
        '(transaction status, data, prepared names) with the client status after a transaction')
ASSUMPTIONS = ['the model server answers as PostgreSQL does (mc/conformance.py compares it with a real server)']


def alphabet(tier):
    A = {
        'ok': S.ext(S.SN % 2), 'row-error': S.ext(S.ERR2), 'bad': S.ext(S.BAD, describe=True),
        'q-ok': [('Q', S.INS)], 'q-bad': [('Q', 'DELETE FROM mct; SELEKT')], 'q-row-error': [('Q', S.ERR2)],
        'begin': [('Q', 'BEGIN')], 'commit': S.ext('COMMIT'), 'rollback': [('Q', 'ROLLBACK')],
        'copy-ok': (S.ext(S.COPYIN), ('copy', [[b'8\n'], [b'9\n']])),
        'copy-bad': (S.ext(S.COPYIN), ('copy', [[b'8\n', b'x\n'], [b'9\n']])),
        'copy-fail': S.ext(S.COPYIN), 'q-copy-fail': [('Q', S.COPYIN)],
        'copy-out-error': S.ext(S.COPYERR), 'fn-ok': [('F', 1)], 'fn-bad': [('F', 3)],
        'prep': [('P', 's', S.SP), ('DS', 's'), ('S',)],
        'exec': [('B', 'c', 's', (S.i4(2),)), ('DP', 'c'), ('E', 'c', 1), ('E', 'c', 0), ('CP', 'c'), ('S',)],
        'exec-ins': [('P', '', 'INSERT INTO mct VALUES (5)'), ('B', '', '', ()), ('DP', ''), ('E', '', 0), ('S',)],
        'deferred': S.ext('INSERT INTO mcd VALUES (1)'),
        'close': [('CS', 's'), ('S',)],
    }
    return {k: v if isinstance(v, tuple) else (v, None) for k, v in A.items()}


SMALL = ('ok', 'row-error', 'bad', 'q-row-error', 'begin', 'commit', 'copy-bad', 'prep', 'exec', 'deferred', 'fn-bad', 'q-ok')


def tasks(tier):
    A = list(alphabet(tier))
    T = [('conformance', 'c', {'part': i, 'parts': 4}) for i in range(4)]
    for v in ('c', 'py'):
        for i in range(len(A)):
            T.append(('seq', v, {'first': A[i:i + 1], 'depth': 4 if tier == 'thorough' else 3}))
        for f in SMALL:
            T.append(('small', v, {'first': f, 'depth': 4 if tier == 'thorough' else 3}))
        T.append(('inner', v, {}))
        T.append(('severity', v, {}))
        for n in DRIVER:
            T.append(('driver', v, {'first': n, 'depth': 4 if tier == 'thorough' else 3}))
    return T


class Boom(Exception):
    pass


def boom(*batches):
    for b in batches:
        yield b
    raise Boom()


def dup(db, v):
    return '23505' if v in db else None


# name -> (operation, expected(mct, deferred) -> value or sqlstate); a str
# result is the SQLSTATE of the expected error. 'E' is handled by the caller.
DRIVER = {
    'query': (lambda c: [tuple(r) for r in c.query(S.SN % 3)], lambda m: [(1,), (2,), (3,)]),
    'first': (lambda c: c.query.first(S.SN % 3), lambda m: 1),
    'rowerr': (lambda c: c.query(S.ERR2), lambda m: '22012'),
    'rows-err': (lambda c: list(c.prepare(S.ERR2).rows()), lambda m: '22012'),
    'first-err': (lambda c: c.query.first(S.ERR2), lambda m: '22012'),
    'bad': (lambda c: c.prepare(S.BAD), lambda m: '42601'),
    'exec-bad': (lambda c: c.execute('DELETE FROM mct; SELEKT'), lambda m: '42601'),
    'insert': (lambda c: c.query(S.INS), lambda m: '23505' if 1 in m else ('INSERT', 1)),
    'load': (lambda c: c.prepare(S.INSP).load_rows([(3,), (4,), (3,)], chunksize=2), lambda m: '23505'),
    'load-pack': (lambda c: c.prepare(S.INSP).load_rows([(3,), ('x',)]), lambda m: '--PIO'),
    'copy': (lambda c: c.prepare(S.COPYIN).load_rows([b'8\n', b'9\n']), lambda m: '23505' if 8 in m else None),
    'copy-bad': (lambda c: c.prepare(S.COPYIN).load_chunks([[b'6\n', b'x\n'], [b'7\n']]), lambda m: '22P02'),
    'copy-out': (lambda c: list(c.prepare(S.COPYOUT)()), lambda m: [b'1\n', b'2\n', b'3\n']),
    'copy-out-err': (lambda c: list(c.prepare(S.COPYERR)()), lambda m: '22012'),
    'table': (lambda c: [r[0] for r in c.query(S.TABLE)], lambda m: sorted(m)),
    'begin': (lambda c: c.execute('BEGIN'), lambda m: None),
    'commit': (lambda c: c.execute('COMMIT'), lambda m: None),
    'rollback': (lambda c: c.execute('ROLLBACK'), lambda m: None),
    'noproc': (lambda c: c.query('SELECT 1 + nope'), lambda m: '42601'),
    'copy-boom': (lambda c: c.prepare(S.COPYIN).load_chunks(boom([b'8\n'], [b'9\n'])), lambda m: 'boom'),
    'load-boom': (lambda c: c.prepare(S.INSP).load_chunks(boom([(11,)], [(12,)])), lambda m: '23505' if 11 in m else 'boom'),
    'not-copy': (lambda c: c.prepare('DELETE FROM mct').load_chunks([[b'1\n']]), lambda m: '--OPE'),
}


def t_driver(R, first, depth):
    import postgresql.exceptions as X
    for rest in itertools.product(DRIVER, repeat=depth - 1):
        seq = (first,) + rest + ('table',)
        if not R.case(['driver', list(seq)]):
            continue
        with R.guarded('driver', 20), wire.quiet():
            w = wire.World()
            db = wire.connect(w)
            srv = w.server
            for i, n in enumerate(seq):
                op, expect = DRIVER[n]
                mct, state = list(srv.db['mct']), srv.state
                want = expect(mct)
                if state == 'E' and n not in ('commit', 'rollback', 'load-pack', 'bad', 'noproc', 'exec-bad'):
                    want = '25P02'
                if state == 'E' and n == 'load-pack':
                    want = '25P02'
                try:
                    got = op(db)
                except X.Error as e:
                    got = e.code
                    R.check(e.source == ('CLIENT' if got.startswith('--') else 'SERVER'), 'driver:source', repr(e.source))
                except Boom:
                    got = 'boom'
                R.trans()
                where = '%s at %d of %r' % (n, i, seq)
                if n in ('insert',) and got != '25P02' and isinstance(got, (tuple, list)):
                    got = tuple(got)
                R.check(got == want, 'driver:result', lambda: '%s: got %r, expected %r' % (where, got, want))
                if n in ('load', 'copy-bad', 'copy-out-err', 'rowerr') and state == 'I':
                    R.check(srv.state == 'I', 'driver:state')
                R.check(db.state == {'I': 'idle', 'T': 'idle in block', 'E': 'failed block'}[srv.state], 'driver:status',
                        lambda: '%s: %r, the server is in %r' % (where, db.state, srv.state))
                R.check(not srv.skip and srv.copyin is None, 'driver:unsynchronised', where)
                R.state((srv.state, tuple(srv.db['mct']), db.state))
                R.outcome((n, repr(got)))
            db.close()
            R.check(srv.terminated and all(k.closed for k in w.sockets), 'driver:close', repr(seq))
    R.sample({'first': first, 'depth': depth})


def t_conformance(R, part, parts):
    "the model server answers recorded bytes as PostgreSQL 16 did"
    for name, steps in conformance.recorded(part, parts):
        R.case('conformance ' + name)
        got = conformance.model([s for s, _ in steps])
        for (s, want), g in zip(steps, got):
            R.trans()
            if g != want:
                # not a property of the driver: the check itself is wrong
                raise AssertionError('the model differs from PostgreSQL: %s sent %r model %r real %r' % (name, s, g, want))


def run(name, params, R):
    globals()['t_' + name](R, **params)


def one(R, key, script, mode, sig, cutoff=None):
    if not R.case(key):
        return
    with R.guarded(sig, 20), wire.quiet():
        w = wire.World()
        r = S.Run(w, script, mode)
        R.check(r.connected, sig + ':connect')
        sock = w.sockets[-1]
        srv = sock.srv
        base_s, start = len(sock.out), len(sock.out)
        for i, (cmds, how) in enumerate(script):
            r.script = [(cmds, how)]
            before = len(sock.out)
            r.go()
            got = r.obs[-1]
            out = sock.out[before:]
            if sock.inb:
                R.violate(sig + ':unread', 'transaction %d ended with %r unread' % (i, sock.inb))
                return
            msgs, err, state = S.server_view(out)
            R.trans()
            where = '%r in transaction %d of %r (%s)' % (cmds, i, key, mode)
            gm, ge, gf, done, st = got
            R.check(done, sig + ':incomplete', where)
            R.check(gm == msgs, sig + ':messages', lambda: '%s\n got %r\nsent %r' % (where, gm, msgs))
            if err is None:
                R.check(gf is None and ge is None, sig + ':spurious', lambda: '%s reports %r' % (where, ge))
            else:
                R.check(ge is not None and dict(ge) == err, sig + ':error', lambda: '%s\n got %r\nsent %r' % (where, ge, err))
                R.check(gf is (err[b'S'] != b'ERROR'), sig + ':fatal', lambda: '%s fatal=%r' % (where, gf))
            if state is not None and gf is not True:
                R.check(st == state, sig + ':status', lambda: '%s status %r, server %r' % (where, st, state))
                R.check(r.pq.xact is None, sig + ':stuck', where)
            R.check(not srv.skip and srv.copyin is None, sig + ':unsynchronised', where)
            R.state((srv.state, tuple(srv.db['mct']), tuple(srv.db['mcd']), tuple(sorted(srv.stmts)), tuple(sorted(srv.portals)), st, gf))
            R.outcome((gm, ge, gf, st))
            if gf is True:
                break


def seqs(R, names, depth, sig, A):
    for n in names:
        for rest in itertools.product(list(A), repeat=depth - 1):
            seq = (n,) + rest
            script = [A[x] for x in seq] + [S.PROBE2, S.PROBE]
            for mode in ('complete', 'step'):
                one(R, [sig, list(seq), mode], script, mode, sig)


def t_seq(R, first, depth):
    seqs(R, first, depth, 'seq', alphabet(R.tier))
    R.sample({'first': first, 'depth': depth})


def t_small(R, first, depth):
    A = {k: v for k, v in alphabet(R.tier).items() if k in SMALL}
    seqs(R, [first], depth, 'small', A)
    R.sample({'first': first, 'depth': depth})


# commands of one transaction, any of which can fail
PIECES = (
    ('P', 's', S.SP), ('P', 't', S.BAD), ('DS', 's'), ('DS', 'nope'), ('B', 'c', 's', (S.i4(2),)), ('B', 'c', 's', ()),
    ('DP', 'c'), ('E', 'c', 1), ('E', 'nope', 0), ('CP', 'c'), ('S',), ('H',),
)


def t_inner(R):
    for n in (1, 2, 3, 4) if R.tier == 'thorough' else (1, 2, 3):
        for seq in itertools.product(range(len(PIECES)), repeat=n):
            cmds = [PIECES[i] for i in seq] + [('S',)]
            for pre in (False, True):
                script = ([([('Q', 'BEGIN')], None), ([('P', 's', S.SP), ('B', 'c', 's', (S.i4(3),)), ('S',)], None)] if pre else []) + \
                    [(cmds, None), S.PROBE2]
                err = sum(1 for c in cmds if c == ('S',))
                if err > 1 and two_errors(script):
                    continue        # which of two errors is reported is not promised
                for mode in ('complete', 'step') if n < 3 else ('complete',):
                    one(R, ['inner', list(seq), pre, mode], script, mode, 'inner')
    R.sample({'pieces': PIECES})


def two_errors(script):
    "does the server answer one transaction with more than one error?"
    b = Backend()
    b.phase = 'ready'
    for cmds, how in script:
        n = 0
        for c in S.build(cmds):
            data = c.bytes()
            for m in b.feed(data):
                n += m[:1] == b'E'
        if n > 1:
            return True
    return False


def t_severity(R):
    "errors of every severity at every kind of command end the session only when fatal"
    from mc import pgmodel
    for sev in (b'ERROR', b'FATAL', b'PANIC'):
        for cmd in ('Q', 'P', 'B', 'DS', 'E', 'CS', 'F', 'S'):
            for mode in ('complete', 'step'):
                if not R.case(['severity', sev, cmd, mode]):
                    continue
                with R.guarded('severity', 20), wire.quiet():
                    class Srv(Backend):
                        boom = False

                        def on_message(self, t, body, out):
                            if self.boom and t == cmd[:1].encode() if cmd != 'DS' else self.boom and t == b'D':
                                if self.phase == 'ready' and not self.skip:
                                    self.boom = False
                                    self.fail(pgmodel.PgError('57P01', 'terminating', sev), out)
                                    if not self.closed:
                                        if t in (b'Q', b'F', b'S'):
                                            self.ready(out)
                                        else:
                                            self.skip = True
                                    return
                            super().on_message(t, body, out)
                    w = wire.World(server=lambda w, n: Srv())
                    script = {
                        'Q': [('Q', S.S5)], 'F': [('F', 1)],
                    }.get(cmd, [('P', 's', S.SP), ('DS', 's'), ('B', '', 's', (S.i4(2),)), ('E', '', 0), ('CS', 's'), ('S',)])
                    r = S.Run(w, [(script, None)], mode)
                    w.server.boom = True
                    r.go()
                    gm, ge, gf, done, st = r.obs[-1]
                    fatal = sev != b'ERROR'
                    R.check(done, 'severity:incomplete')
                    R.check(gf is fatal, 'severity:fatal', '%r at %s: fatal=%r' % (sev, cmd, gf))
                    R.check(ge is not None and dict(ge)[b'C'] == b'57P01', 'severity:error', repr(ge))
                    R.check((r.pq.xact is None) is (not fatal), 'severity:connection')
                    if not fatal:
                        r.script = [S.PROBE2]
                        r.go()
                        R.check(r.obs[-1][2] is None, 'severity:probe', repr(r.obs[-1]))
                    R.state((sev, cmd))
                    R.trans()
                    R.outcome((sev, cmd, gf))
