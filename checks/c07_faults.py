"""
C07 - faulty receivers are isolated; the others still get the whole COPY.

Copies to one to three receivers, with everything that can go wrong as a
choice: a callable that raises, a connection that would block (before or in
the middle of a message), breaks or loses data, a server that refuses a row,
an error or loss of the producing side, a caller that leaves the block. After
each receiver fault the caller drops the receiver, reconciles it or lets the
fault end the copy. Every schedule within the bound of deviations is run with
every such policy.
"""
from mc import core, pgmodel as M, wire

PROPERTY = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of fault placements and of the decisions of the caller'
RULE = 'an execution is a copy x policy x fault schedule within the bound of deviations'
ASSUMPTIONS = [
    'the connection of a statement receiver that was dropped is not used again',
    'a server whose connection broke may or may not have seen the end of the copy',
]

ROWS = {'two': [b'1\n', b'22\n'], 'heads': [b'd\0\0\0\4', b'', b'c\0\0\0\4\n'], 'wide': [b'w' * 300, b'1\n', b'2\n'], 'none': []}
CHUNKS = {'two': [[b'1\n'], [b'22\n', b'']], 'one': [[b'1\n', b'2\n']], 'none': []}
POLICIES = ('d', 'r', 'x', 'rd', 'dr')


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for recv in ('S', 'C', 'SC', 'CS', 'SS', 'CC', 'SCS'):
            for policy in POLICIES:
                T.append(('copy', v, {'recv': recv, 'policy': policy}))
            T.append(('producer', v, {'recv': recv}))
            T.append(('refused', v, {'recv': recv}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Boring(Exception):
    pass


class Leave(Exception):
    pass


class Edge(wire.World):
    "a world with few answers, and a partial write is followed by a full buffer"
    full = False

    def choose(self, options, label=''):
        if label.startswith('send'):
            if self.full:
                self.full = False
                return 'EAGAIN'
            n = options[0]
            parts = [x for x in options[1:] if isinstance(x, int)]
            keep = [n] + parts[len(parts) // 2:][:1] + [x for x in options if x in ('EAGAIN', 'RESET', 'LOST')] + [x for x in options if type(x) is tuple][:1]
            a = super().choose(keep, label)
            if isinstance(a, int) and a != n:
                self.full = True
            return a
        if label.startswith('recv'):
            parts = [x for x in options[1:] if isinstance(x, int)]
            ends = [x for x in options if type(x) is tuple]
            keep = options[:1] + parts[len(parts) // 2:][:1] + [x for x in options if x in ('EAGAIN', 'EOF', 'RESET')] + ends[1::max(1, len(ends) // 3)]
            return super().choose(keep, label)
        return super().choose(options, label)


def cancel(world, sock):
    "a cancel request takes effect: what was not sent yet is an error now"
    keep = [b for b in sock.bounds if sock.inb[b:b + 1] in (b'd', b'c')]
    if not sock.bounds or not keep:
        return
    # the running copy ends after any of its messages
    b = world.ch.choose([None] + keep, 'cancel')
    if b is None:
        return
    sock.inb = sock.inb[:b] + M.error_msg(M.PgError('57014', 'canceling statement due to user request')) + M.msg(b'Z', b'I')
    sock.bounds = [x for x in sock.bounds if x <= b]
    n = b
    while n < len(sock.inb):
        n += 1 + int.from_bytes(sock.inb[n + 1:n + 5], 'big')
        sock.bounds.append(n)


class Run:
    def __init__(self, ch, rows, recv, policy, size, chunks=False, faults='', fail=None, refuse=None, leave=False, raising=False):
        from postgresql import copyman
        self.ch, self.recv, self.policy, self.chunks = ch, recv, policy, chunks
        self.leave = leave
        self.worlds, self.got, self.calls = {}, [], []
        self.raised = []            # (receiver, exception) of callables
        self.reported = []
        self.dropped = []
        self.left = None
        self.entered = False
        self.finished = False
        self.outcome = None
        self.steps = 0
        self.fail = fail
        self.failed = False

        def world(which, on):
            w = Edge(ch, sched=on, faults=on)
            w.armed = False
            db = wire.connect(w)
            db.msghook = lambda m: True
            self.worlds[which] = (w, db)
            return w, db
        if chunks:
            self.flat = [x for c in rows for x in c]
            self.producer = copyman.IteratorProducer(self.iterate(rows))
        else:
            self.flat = list(rows)
            w, db = world('src', 'src' in faults)
            w.server.anyout = list(rows)
            w.server.anyfail = fail
            if 'cancel' in faults:
                w.cancels = []
                make = w.make_server

                def server(world, attempt):
                    s = make(world, attempt)
                    if attempt > 1:
                        feed = s.feed

                        def feed2(data):
                            out = feed(data)
                            if s.log and s.log[-1][0] == 'cancel':
                                cancel(w, w.sockets[0])
                            return out
                        s.feed = feed2
                    return s
                w.make_server = server
            self.producer = copyman.StatementProducer(db.prepare('COPY anyout TO STDOUT'), **({'buffer_size': size} if size else {}))
        self.receivers = []
        for i, r in enumerate(recv):
            if r == 'S':
                w, db = world(i, 'dst' in faults)
                self.receivers.append(copyman.StatementReceiver(db.prepare('COPY anyin FROM STDIN')))
                self.got.append(w.server)
                if refuse == i:
                    w.server.anyrefuse = ch.choose(list(range(len(self.flat) + 1)), 'refuse')
            else:
                got = []
                self.got.append(got)
                self.receivers.append(copyman.CallReceiver(self.caller(i, got, raising)))
        self.refuse = refuse
        self.manager = copyman.CopyManager(self.producer, *self.receivers)

    def iterate(self, rows):
        for i, c in enumerate(rows):
            if i == self.fail:
                self.failed = True
                raise Boring('producer')
            yield list(c)
        if self.fail is not None:
            self.failed = True
            raise Boring('producer')

    def caller(self, i, got, raising):
        def call(lines):
            if raising and self.ch.choose([False, True], 'raise'):
                e = Boring(i)
                self.raised.append((self.receivers[i], e))
                raise e
            got.extend(map(bytes, lines))
        return call

    def step(self):
        self.steps += 1
        if self.steps > 80:
            raise core.Horizon('the copy does not come to an end')

    def arm(self, on):
        for w, db in self.worlds.values():
            w.armed = on

    def decide(self, n):
        return self.policy[min(n, len(self.policy) - 1)]

    def go(self, R, sig, where):
        from postgresql import copyman
        faults = 0
        self.arm(True)
        try:
            with self.manager as copy:
                self.entered = True
                if self.leave:
                    self.maybe_leave()
                while self.left is None:
                    try:
                        for x in copy:
                            self.step()
                            if self.leave:
                                self.maybe_leave()
                            if self.left:
                                break
                        else:
                            self.finished = bool(copy.receivers)
                            break
                    except copyman.ProducerFault as f:
                        self.step()
                        if isinstance(f.__context__, BlockingIOError):
                            continue
                        self.left = 'producer'
                        raise
                    except copyman.ReceiverFault as f:
                        self.step()
                        R.check(f.manager is copy, sig + ':manager', where)
                        self.reported += list(f.faults.items())
                        R.check(not any(r in copy.receivers for r in f.faults), sig + ':removed', lambda: '%s: a faulted receiver is still served' % where())
                        for r, e in list(f.faults.items()):
                            self.fault(R, sig, where, r, e)
                            while True:
                                a = self.decide(faults)
                                faults += 1
                                if a == 'x':
                                    self.left = 'fault'
                                    raise
                                if a == 'd':
                                    self.dropped.append(r)
                                    break
                                self.step()
                                try:
                                    copy.reconcile(r)
                                    break
                                except Exception as e2:
                                    R.check(r not in copy.receivers, sig + ':added', lambda: '%s: a receiver that failed again was added' % where())
                                    self.fault(R, sig, where, r, e2)
                                    if faults > 8:
                                        self.dropped.append(r)
                                        break
        except Exception as e:
            self.outcome = e
        finally:
            self.arm(False)

    def maybe_leave(self):
        a = self.ch.choose(['go', 'raise', 'break'], 'caller')
        if a == 'raise':
            self.left = 'raise'
            raise Leave('caller')
        if a == 'break':
            self.left = 'break'

    def fault(self, R, sig, where, r, e):
        i = self.receivers.index(r)
        if self.recv[i] == 'C':
            R.check(any(x is r and y is e for x, y in self.raised[-3:]), sig + ':whose', lambda: '%s: %r reported for receiver %d, raised %r' % (where(), e, i, self.raised))
        else:
            R.check(isinstance(e, OSError), sig + ':what', lambda: '%s: %r reported for receiver %d' % (where(), e, i))

    def broken(self, i):
        return i in self.worlds and self.worlds[i][0].sockets[0].dead


def committed(server):
    "the rows others would see"
    db = server.base if server.base is not None and (server.implicit or server.state != 'I') else server.db
    return db['any']


def verify(R, c, sig, where):
    from postgresql import copyman
    out = c.outcome
    full = b''.join(c.flat)
    src = c.worlds.get('src')
    src_dead = bool(src and src[0].sockets[0].dead)
    tell = lambda s: '%s: %s; outcome %r, left %r, dropped %r, finished %r' % (where(), s, out, c.left, [i for i, r in enumerate(c.receivers) if r not in c.manager.receivers], c.finished)
    if not (out is None or isinstance(out, copyman.CopyFail)):
        # a producer that cannot even start may report that itself
        R.check(not c.entered and (src_dead or c.fail is not None), sig + ':report', lambda: tell('not a CopyFail'))
        for k, got in zip(c.recv, c.got):
            R.check(not (got if k == 'C' else committed(got)), sig + ':early', lambda: tell('rows of a copy that did not start'))
        return usable(R, c, sig, tell, [])
    rf = {c.receivers.index(r): e for r, e in (out.receiver_faults.items() if out else ())}
    dropped = [i for i, r in enumerate(c.receivers) if r not in c.manager.receivers]
    live = [i for i in range(len(c.recv)) if i not in dropped]
    if c.left or not live:
        R.check(out is not None, sig + ':silent', lambda: tell('an incomplete copy is not reported'))
    if out is None:
        R.check(c.finished, sig + ':unfinished', lambda: tell('success without the end'))
    if c.left == 'raise':
        R.check(isinstance(out.__context__, Leave) if out else False, sig + ':context', lambda: tell('the exception that ended the copy is not its context'))
    for i, e in rf.items():
        R.check(c.recv[i] == 'S' and (c.refuse == i or c.broken(i) or c.left is not None or not c.finished), sig + ':blame', lambda: tell('receiver %d blamed: %r' % (i, e)))
    ends = out is None or (c.finished and not c.left and out.producer_fault is None)
    for i, (k, got) in enumerate(zip(c.recv, c.got)):
        if k == 'C':
            if i in dropped or not ends:
                R.check(got == c.flat[:len(got)], sig + ':prefix', lambda: tell('receiver %d got %r of %r' % (i, got, c.flat)))
            else:
                R.check(got == c.flat, sig + ':rows', lambda: tell('receiver %d got %r of %r' % (i, got, c.flat)))
            continue
        have = b''.join(committed(got))
        if i in dropped or not ends or i in rf or (c.refuse == i and got.anyrefuse < len(c.flat)):
            ok = not have or (ends and i not in dropped and c.broken(i) and have == full)
            R.check(ok, sig + ':committed', lambda: tell('receiver %d stored %r of %r' % (i, have, full)))
        else:
            R.check(have == full, sig + ':stored', lambda: tell('receiver %d stored %r of %r' % (i, have, full)))
    # a server that refused is reported
    if c.refuse is not None and c.got[c.refuse].anyrefuse < len(c.flat) and c.refuse not in dropped and c.finished and ends and not c.broken(c.refuse):
        R.check(c.refuse in rf, sig + ':refusal', lambda: tell('the refusal of receiver %d is not reported' % c.refuse))
    usable(R, c, sig, tell, dropped)


def usable(R, c, sig, tell, dropped):
    "whatever happened, the connections that are still whole can be used"
    for which, (w, db) in c.worlds.items():
        if w.sockets[0].dead or which in dropped:
            continue
        try:
            one = db.prepare('SELECT 7::int4 AS i').first()
        except Exception as e:
            one = e
        R.check(one == 7, sig + ':usable', lambda: tell('connection %r answers %r' % (which, one)))
        R.check(w.server.state == 'I' or len(w.sockets) > 1, sig + ':open', lambda: tell('connection %r is left in a transaction' % (which,)))


def one(R, key, sig, bound, **kw):
    def once(ch):
        with R.guarded(sig, 20), wire.quiet():
            c = Run(ch, **kw)
            where = lambda: '%r %r %r' % (key, ch.schedule, ch.labels[:60])
            c.go(R, sig, where)
            verify(R, c, sig, where)
            R.state((key[0], key[1], len(ch.trace), c.left, len(c.dropped), len(c.reported)))
            R.outcome((key[0], c.left, len(c.dropped), type(c.outcome).__name__, len(c.reported)))
    wire.explore(R, key, once, bound)


def t_copy(R, recv, policy):
    deep = R.tier != 'quick'
    for rows in ('two', 'heads', 'wide')[:3 if deep else 2]:
        for size in (0, 7, 1) if deep else (0, 7):
            big = len(recv) > 2 or rows == 'wide' or size == 1
            one(R, [recv, policy, rows, size, 'dst'], 'dst', 2 if not big or deep else 1, rows=ROWS[rows], recv=recv, policy=policy, size=size, faults='dst', raising=True)
    for rows in CHUNKS:
        one(R, [recv, policy, rows, 'chunks'], 'chunks', 2, rows=CHUNKS[rows], recv=recv, policy=policy, size=0, faults='dst', raising=True, chunks=True)


def t_producer(R, recv):
    deep = R.tier != 'quick'
    for rows in ROWS:
        for size in (0, 1, 6, 7, 11) if rows != 'wide' else (0, 100, 306):
            one(R, [recv, rows, size, 'leave'], 'leave', 3, rows=ROWS[rows], recv=recv, policy='d', size=size, faults='cancel', leave=True)
            if deep or size in (0, 7):
                one(R, [recv, rows, size, 'src'], 'src', 2 if deep or len(recv) < 2 else 1, rows=ROWS[rows], recv=recv, policy='d', size=size, faults='src cancel', leave=True)
                one(R, [recv, rows, size, 'both'], 'both', 2 if deep or rows == 'two' else 1, rows=ROWS[rows], recv=recv, policy='d', size=size, faults='dst cancel', leave=True, raising=True)
            for fail in range(len(ROWS[rows]) + 1):
                one(R, [recv, rows, size, 'error', fail], 'error', 1, rows=ROWS[rows], recv=recv, policy='d', size=size, faults='', fail=fail, raising=True)
    for rows in CHUNKS:
        one(R, [recv, rows, 'leave chunks'], 'leave-chunks', 2, rows=CHUNKS[rows], recv=recv, policy='d', size=0, leave=True, chunks=True, raising=True)
        for fail in range(len(CHUNKS[rows]) + 1):
            one(R, [recv, rows, 'error chunks', fail], 'error-chunks', 2, rows=CHUNKS[rows], recv=recv, policy='d', size=0, fail=fail, chunks=True, raising=True)


def t_refused(R, recv):
    for i, k in enumerate(recv):
        if k != 'S':
            continue
        for rows in ROWS:
            for size in (0, 7):
                one(R, [recv, i, rows, size], 'refused', 2, rows=ROWS[rows], recv=recv, policy='d', size=size, refuse=i, leave=True, raising=True)
        for rows in CHUNKS:
            one(R, [recv, i, rows], 'refused-chunks', 2, rows=CHUNKS[rows], recv=recv, policy='d', size=0, refuse=i, chunks=True, leave=True)
