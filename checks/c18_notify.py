"""
C18 - notifications: every short sequence of arrivals, statements, failures
and changes of the set of connections around the manager's event loop, with a
virtual clock and a virtual select(), and every channel name of an alphabet.
"""
import errno
import itertools
import select
import sys
import time

from mc import core, pgmodel as M, wire

PROPERTY = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of event sequences around the notification manager, with time and select() under control of the explorer, against the record of what arrived'
RULE = 'an execution is one sequence of at most n events on two connections, or one channel name with a payload'
ASSUMPTIONS = [
    'the server is mc.pgmodel, time passes in select() and between calls only',
    'the client encoding does not change while notifications are waiting',
    'what a reset connection, or one closed by the user, has not read yet is lost',
    'channel names are not "*" and have at most 63 bytes',
]

REAL = (select.select, time.time, time.monotonic)
ENV = None


def install():
    "time and select() are the environment's, for whoever imports them from now on"
    for k in [k for k in sys.modules if k == 'postgresql' or k.startswith('postgresql.')]:
        del sys.modules[k]
    select.select = lambda *a: ENV.select(*a) if ENV else REAL[0](*a)
    time.time = lambda: ENV.now if ENV else REAL[1]()
    time.monotonic = lambda: ENV.now if ENV else REAL[2]()


class Blocked(Exception):
    "the manager waits, and nothing is going to happen"


class NSock(wire.Sock):
    def __init__(self, w, srv, n):
        super().__init__(w, srv)
        self.n = n
        self.rest = b''             # the missing part of a message that is on its way
        self.before, self.after = [], []    # to arrive in the next exchange
        self.arrived, self.known = [], 0
        self.reset = False

    def fileno(self):
        return -1 if self.closed else 100 + self.n

    def readable(self):
        return bool(self.inb or self.dead or self.srv_closed())

    def put(self, m):
        if self.rest:
            r, self.rest = self.rest, b''
            super().put(r)
            self.arrived.append(self.partial)
        super().put(m)

    def take(self, data):
        self.sent += data
        out = self.srv.feed(data)
        done = any(m[:1] == b'Z' for m in out)
        if done:
            for x in self.before:
                self.notify(x)
            self.before = []
        for m in out:
            self.put(m)
        if done:
            self.known = len(self.arrived)
            for x in self.after:
                self.notify(x)
            self.after = []

    def notify(self, x):
        ch, p = x
        self.put(M.notify_msg(70 + self.n, ch.encode(), p.encode()))
        self.arrived.append((ch, p, 70 + self.n))


class Env(wire.World):
    def __init__(self):
        super().__init__()
        self.now = 1000.0
        self.ops, self.at = (), 0
        self.idle_selects = 0
        self.count = 0
        self.waits = []

    def open(self, timeout=None):
        s = NSock(self, M.Backend(), len(self.sockets))
        self.sockets.append(s)
        return s

    def label(self):
        self.count += 1
        # every label is used twice in a row
        n = (self.count + 1) // 2
        return ('c%d' % (n % 2), 'p%d' % n)

    def select(self, r, w, x, t=None):
        socks = []
        for db in r:
            f = db if isinstance(db, int) else db.fileno()
            if f < 0:
                raise ValueError('file descriptor cannot be a negative integer (%d)' % f)
            socks.append((db, self.sockets[f - 100]))
        self.waits.append(t)
        left = t
        while True:
            ready = [db for db, s in socks if s.readable()]
            if ready or t == 0:
                self.idle_selects = 0 if ready else self.idle_selects + 1
                if self.idle_selects > 12:
                    raise Blocked()
                return ready, [], []
            # something happens while it waits
            if self.at < len(self.ops) and self.ops[self.at][0] in INSIDE:
                op = self.ops[self.at]
                self.at += 1
                if op == 't':
                    step = min(3.0, left) if left is not None else 3.0
                    self.now += step
                    left = None if left is None else left - step
                    if left == 0:
                        return [], [], []
                else:
                    self.happen(op)
                continue
            if left is None:
                raise Blocked()
            self.now += left
            self.idle_selects += 1
            if self.idle_selects > 4:
                raise Blocked()
            return [], [], []

    def happen(self, op):
        "what does not need the client"
        s = self.sockets[int(op[1])]
        if s.dead or s.closed or s.srv_closed():
            return
        if op[0] == 'n':
            s.notify(self.label())
        elif op[0] == 'p':
            if s.rest:
                return
            ch, p = self.label()
            m = M.notify_msg(70 + s.n, ch.encode(), p.encode())
            s.rest, s.partial = m[4:], (ch, p, 70 + s.n)
            s.inb += m[:4]
        elif op[0] == 'j':
            s.put(M.notice_msg('01000', 'w'))
        elif op[0] == 'k':
            s.put(M.msg(b'E', M.fields(b'FATAL', '57P01', 'terminating connection')))
            s.srv.closed = True
        elif op[0] == 'e':
            s.rest = b''
            s.die('RESET')
            s.inb = b''
            s.reset = True


INSIDE = 'npjket'
MENU = ['n0', 'n1', 'p0', 'z0', 'z1', 'b0', 's0', 'f0', 'o0', 'j0', 'k0', 'k1', 'e0', 'c0', 'd0', 'a0', 'g', 't', 'N']
SMALL = ['n0', 'n1', 'z0', 'b0', 'k0', 'c0', 'd0', 'g', 'N']


def tasks(tier):
    T = []
    quick = tier == 'quick'
    n = 4 if quick else 12
    for v in ('c', 'py'):
        for timeout in (0, 5, None):
            for i in range(n):
                if v == 'c':
                    T.append(('loop', v, {'timeout': timeout, 'i': i, 'n': n, 'depth': 4 if quick else 5}))
                    T.append(('loop', v, {'timeout': timeout, 'i': i, 'n': n, 'depth': 5 if quick else 7, 'small': True}))
            if v == 'py':
                T.append(('loop', v, {'timeout': timeout, 'i': 0, 'n': 1, 'depth': 3 if quick else 4}))
        T.append(('names', v, {}))
        T.append(('batches', v, {}))
        for kind in BUSY:
            T.append(('busy', v, {'kind': kind, 'depth': (3 if v == 'py' else 4) if quick else 5}))
    return T


def run(name, params, R):
    install()
    globals()['t_' + name](R, **params)


def scripts(depth, menu, timeout):
    def go(seq, gone, out):
        if seq:
            yield seq
        if len(seq) == depth:
            return
        for op in menu:
            o, c = op[0], op[1:]
            g2, o2 = gone, out
            if c and c in gone:
                continue
            if o in 'ke':
                g2 = gone + c
            elif o == 'c':
                g2 = gone + c
            elif o == 'd':
                if c in out:
                    continue
                o2 = out + c
            elif o == 'a':
                if c not in out:
                    continue
                o2 = out.replace(c, '')
            elif o == 'g' and (not seq or seq[-1] != 'N'):
                continue
            elif o == 't' and (timeout == 0 or seq and seq[-1] == 't'):
                continue
            elif o in 'js' and seq and seq[-1] == op:
                continue
            yield from go(seq + (op,), g2, o2)
    for s in go((), '', ''):
        # something arrives
        if any(x[0] in 'npzb' for x in s):
            yield s


def t_loop(R, timeout, i, n, depth, small=False):
    global ENV
    from postgresql.notifyman import NotificationManager
    import postgresql.exceptions as X
    for j, ops in enumerate(scripts(depth, SMALL if small else MENU, timeout)):
        if j % n != i or small and len(ops) < depth or not R.case(ops):
            continue
        with R.guarded('loop', 20), wire.quiet():
            env = ENV = Env()
            try:
                Loop(R, NotificationManager, X, env, ops, timeout).run()
            except Blocked:
                R.violate('loop:blocked', '%r timeout %r' % (ops, timeout))
            finally:
                ENV = None


class Loop:
    def __init__(self, R, NM, X, env, ops, timeout):
        self.R, self.NM, self.X, self.env, self.ops, self.timeout = R, NM, X, env, ops, timeout
        self.dbs = [wire.connect(env), wire.connect(env)]
        self.got = [[], []]
        self.nm = NM(*self.dbs, timeout=timeout)
        self.breakable = False
        self.out = set()            # taken from the set by the user
        self.broken = set()

    def where(self):
        return '%r timeout %r: arrived %r, delivered %r' % (self.ops, self.timeout, [s.arrived for s in self.env.sockets], self.got)

    def event(self, x):
        R = self.R
        if x is None:
            R.check(self.timeout, 'loop:idle', self.where)
            self.breakable = True
            return
        self.breakable = False
        db, notifies = x
        R.check(db in self.dbs, 'loop:connection', lambda: '%s: %r' % (self.where(), x))
        i = self.dbs.index(db)
        R.check(len(notifies) > 0, 'loop:empty', self.where)
        for t in notifies:
            R.check(type(t) is tuple and len(t) == 3, 'loop:triple', lambda: '%s: %r' % (self.where(), t))
            self.got[i].append(tuple(t))
        a = self.env.sockets[i].arrived
        R.check(self.got[i] == a[:len(self.got[i])], 'loop:order', self.where)

    def next(self):
        "-> 'event', 'idle', 'stop' or 'blocked'"
        R, env = self.R, self.env
        env.idle_selects = 0
        env.waits = []
        since = env.now
        at = env.at
        try:
            x = next(self.nm)
        except StopIteration:
            R.check(self.timeout == 0 or not self.nm.connections, 'loop:stopped', self.where)
            r = 'stop'
            self.breakable = True
        except Blocked:
            R.check(self.timeout is None, 'loop:waits', self.where)
            r = 'blocked'
        else:
            self.event(x)
            r = 'idle' if x is None else 'event'
        if self.timeout == 0:
            R.check(not any(env.waits) and env.now == since, 'loop:polling', lambda: '%s: waits %r' % (self.where(), env.waits))
        if r == 'idle' and env.at == at:
            R.check(env.now - since <= 2 * self.timeout, 'loop:late', lambda: '%s: idle after %r' % (self.where(), env.now - since))
        R.trans()
        return r

    def poll(self):
        "with a timeout of zero: everything there is, then the end"
        has = [len(s.arrived) for s in self.env.sockets]
        for n in range(40):
            if self.next() == 'stop':
                break
        else:
            self.R.violate('loop:endless', self.where())
        for i, s in enumerate(self.env.sockets):
            if i in self.out or s.reset or self.dbs[i] in self.nm.garbage and s.closed:
                continue
            if not s.closed:
                self.R.check(len(self.got[i]) >= has[i], 'loop:polled', self.where)

    def user(self, op):
        env, R = self.env, self.R
        if op in ('N', 'L'):
            if self.timeout == 0:
                self.poll()
            else:
                self.next()
            return
        if op == 't':
            env.now += 3
            return
        if op == 'g':
            if self.breakable:
                old = self.nm
                self.nm = self.NM(*old.connections, timeout=self.timeout)
            return
        o, i = op[0], int(op[1])
        db, s = self.dbs[i], env.sockets[i]
        if o in INSIDE:
            env.happen(op)
        elif o == 'z':
            s.after.append(env.label())
        elif o == 'd':
            self.nm.connections.discard(db)
            self.out.add(i)
        elif o == 'a':
            if db not in self.nm.garbage:
                self.nm.connections.add(db)
            self.out.discard(i)
        elif o == 'c':
            db.close()
        else:
            if o == 'b':
                s.before.append(env.label())
            try:
                if o == 'o':
                    self.rows = db.prepare("SELECT i::int4 AS i FROM generate_series(1, 300) AS g(i)").rows()
                    next(self.rows)
                elif o == 'f':
                    db.execute('BEGIN')
                    db.query('SELECT 1/0')
                elif o == 'b':
                    db.execute('SELECT 7::int4 AS i')
                else:
                    R.check(db.prepare('SELECT 7::int4 AS i').first() == 7, 'loop:statement', self.where)
            except self.X.Error as e:
                R.check(o == 'f' and e.code in ('22012', '25001', '25P02') or s.srv_closed() or s.dead or db.pq.state == b'E', 'loop:error', lambda: '%s: %r' % (self.where(), e))
            except StopIteration:
                pass

    def run(self):
        env, R = self.env, self.R
        env.ops, env.at = self.ops, 0
        while env.at < len(self.ops):
            op = self.ops[env.at]
            env.at += 1
            self.user(op)
            R.state((self.timeout, len(env.sockets[0].arrived), len(self.got[0]), len(env.sockets[1].arrived), len(self.got[1]), len(self.nm.connections), len(self.nm.garbage)))
        # what arrived is delivered, soon
        if self.timeout == 0:
            self.poll()
            self.poll()
        else:
            quiet = 0
            for n in range(30):
                r = self.next()
                quiet = quiet + 1 if r in ('idle', 'blocked') else 0
                if r == 'stop' or quiet == 3:
                    break
            else:
                R.violate('loop:endless', self.where())
        for i, s in enumerate(env.sockets):
            db = self.dbs[i]
            gone = s.srv_closed() or s.dead
            if i in self.out:
                # it can be asked itself
                for n in (1, 2):
                    self.got[i] += served(db)
            elif gone or s.closed:
                R.check(db not in self.nm.connections, 'loop:kept', self.where)
                R.check(db in self.nm.garbage or 'g' in self.ops, 'loop:garbage', self.where)
            else:
                R.check(db in self.nm.connections and db not in self.nm.garbage, 'loop:dropped', self.where)
            a = s.arrived
            lossy = s.reset or 'c%d' % i in self.ops
            want = a if not lossy else a[:max(len(self.got[i]), s.known)]
            R.check(self.got[i] == want, 'loop:delivered', lambda: '%s: connection %d' % (self.where(), i))
            if not gone and not s.closed:
                # it is as usable as before
                self.rows = None
                if db.pq.state != b'I':
                    db.execute('ROLLBACK')
                R.check(db.prepare('SELECT 7::int4 AS i').first() == 7, 'loop:usable', self.where)
        R.outcome((self.timeout, tuple(map(len, self.got)), len(self.nm.garbage)))


# -- channels ----------------------------------------------------------------

ALPHABET = ['a', 'A', '"', "'", ' ', ';', '$', '1', 'é', '\\', '-', '*']
PAYLOADS = ['', 'p', "it's", '"', '\\', "\\'", ';', 'é\n', '%s', "''"]


def served(db):
    "what was delivered of what has arrived"
    ENV.idle_selects = 0
    return list(db.iternotifies(0))


def t_names(R):
    import postgresql.exceptions as X
    global ENV
    depth = 3 if R.tier == 'quick' and R.variant == 'c' else 2 if R.tier == 'quick' else 4
    ENV = Env()
    db = wire.connect(ENV)
    last = None
    for k in range(0, depth + 1):
        for cs in itertools.product(ALPHABET, repeat=k):
            x = ''.join(cs)
            if x == '*' or not R.case(x):
                continue
            with R.guarded('names', 20), wire.quiet():
                if R.executions % 40 == 0:
                    ENV = Env()
                    db = wire.connect(ENV)
                srv = ENV.sockets[0].srv
                pid = srv.pid
                other = 'other "x"'
                where = lambda: 'channel %r: the server listens to %r' % (x, sorted(srv.listening))
                if not x:
                    for f in (db.listen, db.unlisten, db.notify):
                        try:
                            f(x)
                            R.violate('names:empty', f.__name__)
                        except X.Error:
                            pass
                    continue
                db.listen(x)
                R.check(srv.listening == {x}, 'names:listen', where)
                R.check(list(db.listening_channels()) == [x], 'names:listening', where)
                db.listen(other, x)
                R.check(srv.listening == {x, other}, 'names:listen-two', where)
                p = PAYLOADS[R.executions % len(PAYLOADS)]
                for call, want in (
                    (lambda: db.notify(x), [(x, '', pid)]), (lambda: db.notify((x, p)), [(x, p, pid)]), (lambda: db.notify(**{x: p}), [(x, p, pid)]),
                    (lambda: db.notify((x, '1'), other, **{x: p + '2'}), [(x, '1', pid), (other, '', pid), (x, p + '2', pid)]),
                ):
                    call()
                    got = served(db)
                    R.check(got == want, 'names:notify', lambda: '%s: %r, not %r' % (where(), got, want))
                    R.trans()
                db.unlisten(x)
                R.check(srv.listening == {other}, 'names:unlisten', where)
                db.notify(x)
                db.notify(other)
                got = served(db)
                R.check(got == [(other, '', pid)], 'names:unlistened', lambda: '%s: %r' % (where(), got))
                db.unlisten(other)
                R.check(not srv.listening, 'names:unlisten-last', where)
                R.state(x)
                R.outcome(x)
    ENV = None


BUSY = ['block', 'hold', 'stream', 'lines', 'copy']


def t_busy(R, kind, depth):
    "polling while a request is under way leaves the request alone, and nothing is delivered twice or lost"
    global ENV
    from postgresql import copyman, notifyman
    from postgresql.driver import pq3
    for c in vars(pq3).values():
        if isinstance(c, type) and 'chunksize' in vars(c):
            c.chunksize = 2
    for before in ([], ['n'], ['n', 'n']):
        for pieces in (0, 1, 2):
            for steps in itertools.product(('', 'p', 'n', 'np', 'b', 'nb'), repeat=depth):
                if not R.case([before, pieces, steps]):
                    continue
                with R.guarded('busy:' + kind, 20), wire.quiet():
                    ENV = Env()
                    ENV.pieces = pieces
                    try:
                        busy(R, copyman, notifyman, kind, before, steps)
                    finally:
                        ENV = None


def busy(R, copyman, notifyman, kind, before, steps):
    db, other = wire.connect(ENV), wire.connect(ENV)
    s = ENV.sockets[0]
    got = []
    rows = []
    nm = notifyman.NotificationManager(db, other, timeout=0)
    if kind in ('lines', 'copy'):
        st = db.prepare('COPY (SELECT i FROM generate_series(1, 9) AS g(i)) TO STDOUT')
    else:
        st = db.prepare('SELECT i::int4 AS i FROM generate_series(1, 9) AS g(i)')
    if kind == 'block':
        db.execute('BEGIN')
    for x in before:
        s.before.append(ENV.label())
    todo = list(steps)

    def between():
        for a in todo.pop(0) if todo else '':
            R.trans()
            ENV.idle_selects = 0
            if a == 'n':
                s.notify(ENV.label())
            elif a == 'p':
                got.extend(db.iternotifies(0))
            else:
                for x in nm:
                    got.extend(x[1])

    if kind == 'copy':
        p = copyman.StatementProducer(st, buffer_size=24)
        r = copyman.CallReceiver(lambda xs: rows.extend(bytes(x) for x in xs))
        with copyman.CopyManager(p, r) as m:
            for x in m:
                between()
    elif kind == 'lines':
        for c in st.chunks():
            rows.extend(c)
            between()
    elif kind == 'stream':
        for x in st.rows():
            rows.append(x)
            if len(rows) % 2:
                between()
    else:
        for c in st.chunks():
            rows.extend(c)
            between()
    want = [b'%d\n' % i for i in range(1, 10)] if kind in ('copy', 'lines') else [(i,) for i in range(1, 10)]
    R.check([x if isinstance(x, bytes) else tuple(x) for x in rows] == want, 'busy:rows', lambda: '%s: %r' % (kind, rows))
    if kind == 'block':
        db.execute('COMMIT')
    db.execute('')
    got.extend(served(db))
    for x in nm:
        got.extend(x[1])
    R.check(got == s.arrived, 'busy:notifies', lambda: '%s: delivered %r of %r' % (kind, got, s.arrived))
    R.check(s.srv.breach is None, 'busy:protocol', lambda: str(s.srv.breach))
    R.state((kind, tuple(before), steps))
    R.outcome((len(got), len(rows)))


def t_batches(R):
    "several channels at once: all or none, in order, and in transactions"
    import postgresql.exceptions as X
    global ENV
    names = ['a', 'B', 'c d', 'x' * 64, '']
    ENV = Env()
    db = wire.connect(ENV)
    for k in (0, 1, 2, 3):
        for xs in itertools.product(names, repeat=k):
            for tx in ('', 'commit', 'rollback', 'failed'):
                for p in PAYLOADS[:1] if k > 2 else PAYLOADS:
                    if not R.case([xs, tx, p]):
                        continue
                    with R.guarded('batches', 20), wire.quiet():
                        if R.executions % 20 == 0:
                            ENV = Env()
                            db = wire.connect(ENV)
                        batch(R, X, db, ENV.sockets[0].srv, xs, tx, p)
    ENV = None


def batch(R, X, db, srv, xs, tx, p):
    where = lambda: '%r %s: the server listens to %r' % (xs, tx, sorted(srv.listening))
    db.listen('kept')
    bad = any(len(x) > 63 or not x for x in xs)
    if tx:
        db.execute('BEGIN')
    try:
        db.listen(*xs)
        R.check(not bad, 'batches:accepted', where)
    except (ValueError, X.Error):
        R.check(bad, 'batches:refused', where)
    done = set(xs) | {'kept'}
    if tx:
        try:
            db.execute({'commit': 'COMMIT', 'rollback': 'ROLLBACK', 'failed': 'SELECT 1/0'}[tx])
        except X.Error:
            pass
        if tx == 'failed':
            db.execute('ROLLBACK')
    if bad or tx in ('rollback', 'failed'):
        done = {'kept'}
    R.check(srv.listening == done and set(db.listening_channels()) == done, 'batches:listen', where)
    sent = [(x, p + str(i)) for i, x in enumerate(xs)]
    if tx:
        db.execute('BEGIN')
    try:
        db.notify(*sent, kept=p)
        ok = True
    except (ValueError, X.Error):
        ok = False
    if not any(not x for x in xs):
        R.check(ok, 'batches:notify', where)
    if tx:
        R.check(served(db) == [], 'batches:early', where)
        db.execute('COMMIT' if tx == 'commit' else 'ROLLBACK')
    got = served(db)
    want = [(c, q, srv.pid) for c, q in sent + [('kept', p)] if c in done] if ok and tx in ('', 'commit') else []
    R.check(got == want, 'batches:order', lambda: '%s: %r, not %r' % (where(), got, want))
    try:
        db.unlisten(*xs)
        done -= set(xs)
        R.check(not bad, 'batches:accepted', where)
    except (ValueError, X.Error):
        R.check(bad, 'batches:refused', where)
    R.check(srv.listening == done, 'batches:unlisten', where)
    db.unlisten('*')
    R.trans(4)
    R.state((xs, tx))
    R.outcome((len(xs), tx, bad, len(got)))
