"""
C30 - connections do not affect each other: sessions on unlike servers, run
against each other at every point where one of them can be preempted, and with
their operations in every order, tell what each of them tells when it is alone.
"""
import datetime
import decimal
import itertools
import os
import pickle
import re
import select
import signal
import struct
import sys
import threading
import time

from mc import core, pgmodel, pgtypes, wire
from checks.c12_types import types
from checks.c26_procedures import Sig

PROPERTY = 'C30'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of two threads under a controlled scheduler, a fork at every line of the driver that the preempted thread executes, and of all orders of the operations of two and three sessions; every transcript is compared with the one of the session alone'
RULE = 'an execution is one schedule of two threads, or one order of the operations of two or three sessions'
ASSUMPTIONS = [
    'a thread is preempted between the lines of the driver, at most once (every line) or twice (between the lines of one function and of another running of it)',
    'a thread is not preempted while a module is imported: the interpreter has locks for that',
    'the servers are mc.pgmodel', 'an object of one connection is used by one thread',
]
Raw = pgmodel.Raw
UTC = datetime.timezone.utc


def tasks(tier):
    T = []
    n = 8
    for a, b, how in PAIRS:
        for v in ('py',) if (a, b, how) in PAIRS[:1] and tier == 'quick' else ('c', 'py') if tier != 'quick' else ('c',):
            for i in range(n):
                T.append(('preempt', v, {'a': a, 'b': b, 'how': how, 'i': i, 'n': n, 'warm': False, 'most': 1 if tier == 'quick' else 1000, 'deep': tier != 'quick'}))
    for i in range(n):
        T.append(('preempt', 'c', {'a': 'utf', 'b': 'latin', 'how': 'driver', 'i': i, 'n': n, 'warm': True, 'most': 1 if tier == 'quick' else 1000, 'deep': tier != 'quick'}))
        T.append(('twice', 'c', {'a': 'utf', 'b': 'latin', 'how': 'connector', 'i': i, 'n': n, 'most': 2 if tier == 'quick' else 40}))
        T.append(('orders', 'c' if i % 2 else 'py', {'i': i, 'n': n, 'most': 6 if tier == 'quick' else 9}))
    return T


# how much of what is not per connection is shared
PAIRS = [('utf', 'latin', 'connector'), ('latin', 'utf', 'driver'), ('api', 'utf', 'apart'), ('old', 'api', 'apart'), ('old', 'utf', 'connector'), ('utf', 'old', 'driver')]


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Server(pgmodel.Backend):
    def auth_request(self):
        if self.auth == 4:
            return pgmodel.msg(b'R', struct.pack('!L', 4) + self.SALT)
        return super().auth_request()

    def on_message(self, t, body, out):
        if self.phase == 'auth' and self.auth == 4:
            from checks.c19_connect import unix_crypt
            self.password = unix_crypt(self.password, self.SALT) if self.salted else self.password
            self.salted = False
        return super().on_message(t, body, out)
    salted = True


# -- sessions ----------------------------------------------------------------
class Profile:
    "a server, and what a program does with it"

    def __init__(self, name, settings=(), auth=None, password=b'', pair=(), hstore=90100, procs=(), text='a\xe9', code='42P01', api=False, set='latin1', salt=None):
        self.__dict__.update(locals())

    def server(self):
        b = Server(auth=self.auth, password=self.password, settings=dict(self.settings))
        if self.salt:
            b.SALT = self.salt
        b.types[80021] = ('public', 'pair', 'c', -1, 0, 81021, None, True, True)
        b.types[80031] = ('public', '_pair', 'b', -1, 80021, 0, 80021, True, True)
        b.composites[81021] = [(o, n, False) for n, o in self.pair]
        b.types[2249] = ('pg_catalog', 'record', 'p', -1, 0, 0, None, False, True)
        b.types[self.hstore] = ('public', 'hstore', 'b', -1, 0, 0, None, True, True)
        b.regtypes['hstore'] = self.hstore
        b.textlike |= {114}
        b.procs = [s.model() for s in self.procs]
        return b


PROFILES = {p.name: p for p in (
    Profile('utf', pair=[('i', 23), ('t', 25)], auth='md5', password=b'secret', procs=[Sig([('i', 'a', 23), ('i', 'b', 25)], fname='one')], set='euc_jp', text='a\xe9\u3042'),
    Profile('latin', dict(client_encoding='LATIN1', integer_datetimes='off', server_version='9.6.24', TimeZone='EST'), pair=[('i', 25), ('t', 701), ('u', 23)], auth='md5', password=b'other',
            hstore=90200, procs=[Sig([('i', 'a', 25)], ret='table', rows=3, fname='one')], code='23505', set='utf8', salt=b'abcd'),
    Profile('api', dict(client_encoding='LATIN9', server_version='12.3'), pair=[('i', 16)], api=True, text='\u20ac', code='40001', auth=4, password=b'crypted', salt=b'xy'),
    Profile('old', dict(integer_datetimes='off', server_version='8.0.26', TimeZone='CET'), pair=[('t', 25), ('i', 23)], auth=4, password=b'crypt', text='b', set='latin1', code='22012', salt=b'ab'),
)}


class Mix(wire.World):
    "the sockets of several sessions, told apart by whose turn it is"

    def __init__(self):
        super().__init__()
        self.turn = threading.local()
        self.only = None

    def session(self):
        return self.only or self.turn.session

    def open(self, timeout=None):
        return self.session().open()


class Shared:
    "what the sessions have in common: all of a connector, a driver, or only the modules"

    def __init__(self, how):
        from postgresql.driver import pq3, dbapi20
        self.how = how
        self.mix = Mix()
        self.connectors = {}
        mix = self.mix

        class IP4(pq3.IP4):
            def create_socket_factory(self, **params):
                return wire.factory(mix, **params)

        class Driver(pq3.Driver):
            def ip4(self, **k):
                return IP4(driver=self, **k)
        self.Driver = Driver
        self.api = dbapi20.Connection
        self.driver = Driver()

    def connect(self, s):
        p = s.p
        if self.how == 'connector':
            if 0 not in self.connectors:
                # one connector, so one password
                self.connectors[0] = self.driver.ip4(host='127.0.0.1', port=5432, user='u', database='d', password='shared', sslmode='disable')
            return self.connectors[0]()
        d = self.driver if self.how == 'driver' else self.Driver(connection=self.api) if p.api else self.Driver()
        return d.ip4(host='127.0.0.1', port=5432, user='u' + p.name, database='d', password=p.password.decode(), sslmode='disable', settings={'application_name': p.name})()


def show(v):
    if isinstance(v, (list, tuple)) and type(v).__module__ != 'postgresql.types':
        names = getattr(v, '_fields', None)
        return (type(v).__name__, names) + tuple(show(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted((show(k), show(x)) for k, x in v.items()))
    if hasattr(v, 'keys') and hasattr(v, 'column_names'):
        return ('row', tuple(v.column_names), tuple(show(x) for x in tuple.__iter__(v)))
    if hasattr(v, 'elements') and not isinstance(v, type):
        return ('array', tuple(show(x) for x in v.elements()))
    return (type(v).__name__, repr(v))


def error(e):
    return ('raised', type(e).__module__, type(e).__qualname__, getattr(e, 'code', None), str(getattr(e, 'message', e)))


class Session:
    def __init__(self, name, shared):
        self.p = PROFILES[name]
        self.shared = shared
        self.sock = None
        self.told = []
        self.stmts = {}
        self.at = 0
        self.steps = self.api_steps() if self.p.api else self.pg_steps()
        if shared.how == 'connector':
            self.p = Profile(**dict({k: v for k, v in self.p.__dict__.items() if k not in ('self',)}, password=b'shared'))

    def open(self):
        self.sock = wire.Sock(self.shared.mix, self.p.server())
        return self.sock

    @property
    def srv(self):
        return self.sock.srv

    # what is done, by name
    def pg_steps(self):
        steps = ['connect', 'text', 'times', 'pair', 'numbers', 'fails', 'setting', 'block', 'cursor', 'hstore', 'proc', 'copy', 'listen', 'places', 'encoding', 'records', 'close']
        if self.p.name == 'old':
            steps.remove('listen')
        return steps

    def api_steps(self):
        return ['connect', 'a_query', 'text', 'pair', 'a_fails', 'a_many', 'a_fetch', 'a_commit', 'close']

    def step(self):
        "the next operation; False when there is none"
        if self.at >= len(self.steps):
            return False
        n = self.steps[self.at]
        self.at += 1
        self.shared.mix.turn.session = self
        self.shared.mix.steps = 0
        try:
            r = show(getattr(self, 's_' + n)())
        except Exception as e:
            r = error(e)
        self.told.append((n, r))
        return True

    def all(self):
        while self.step():
            pass

    def transcript(self):
        "what the program saw, and what the server did"
        # identifiers are addresses, and addresses are used again
        name = 'id'
        told = [(n, re.sub('0x[0-9a-f]+', name, repr(r))) for n, r in self.told]
        sent = self.sock.sent if self.sock else b''
        out, i = [], 0
        if sent:
            n, = struct.unpack_from('!L', sent)
            out.append(('startup', sent[4:n]))
            i = n
        while i < len(sent):
            n, = struct.unpack_from('!L', sent, i + 1)
            # when a statement that nothing refers to is closed does not matter
            t = sent[i:i + 1]
            if t != b'C' and (t != b'S' or out[-1][0] in (b'P', b'B', b'D', b'E', b'H', b'F', b'c', b'f')):
                out.append((sent[i:i + 1], re.sub('0x[0-9a-f]+', name, sent[i + 5:i + 1 + n].decode('latin-1'))))
            i += 1 + n
        return told, out

    # -- operations
    def s_connect(self):
        self.db = self.shared.connect(self)
        self.db.connect()
        db = self.db
        return [db.version, db.version_info, db.type, db.client_address, db.backend_id, db.pq.state if hasattr(db.pq, 'state') else None, db.connector.user, repr(db.connector), repr(db.connector._startup_parameters),
                db.typio.encoding, db.settings.get('TimeZone'), str(db)]

    def ask(self, oids, vals, answer=None):
        k = tuple(oids)
        if k not in self.stmts:
            self.stmts[k] = self.db.prepare('ECHO ' + ','.join(map(str, k)))
        got = []

        def on_echo(args):
            got.extend(args)
            return args if answer is None else answer
        self.srv.on_echo = on_echo
        ps = self.stmts[k]
        r = ps.first(*vals)
        return [[(bytes(g), getattr(g, 'fmt', None)) if isinstance(g, bytes) else g for g in got], r, ps.parameter_types, ps.sql_parameter_types, ps.sql_column_types]

    def s_text(self):
        return self.ask([25, 1043, 114], [self.p.text, 'x' + self.p.text, '[1]'])

    def s_times(self):
        d = datetime.datetime(2001, 2, 3, 4, 5, 6, 500000)
        return self.ask([1114, 1184, 1083, 1082, 1266], [d, d.replace(tzinfo=UTC), d.time(), d.date(), d.time().replace(tzinfo=UTC)])

    VALUES = {23: 7, 25: 'x', 701: 1.5, 16: True}

    def s_pair(self):
        v = tuple(self.VALUES[o] for n, o in self.p.pair)
        r = self.ask([80021, 80031], [v, [v, None]])
        row = r[1][0]
        return r + [tuple(row.keys()), row[self.p.pair[0][0]]]

    def s_numbers(self):
        Bit = __import__('postgresql.types.bitwise', fromlist=['x']).Varbit
        return self.ask([1700, 20, 1560, 1007, 1009, 17, 700], [decimal.Decimal('-12.50'), 1 << 40, Bit('101'), [1, None, 3], [[self.p.text], ['b']], b'\0\xff', 0.5])

    def s_places(self):
        return self.ask([600, 869, 2950, 829, 718], [(1.0, 2.0), '10.0.0.1/8', '12345678-1234-5678-1234-567812345678', '08:00:2b:01:02:03', ((1.0, 2.0), 3.0)])

    def s_records(self):
        r = self.ask([2249], [None], [Raw.of(pgtypes.send_record([(o, {23: b'\0\0\0\7', 25: b'x', 701: struct.pack('!d', 1.5), 16: b'\1'}[o]) for n, o in self.p.pair]))])
        ps = self.db.prepare("SELECT i::int4 AS i, ('t'||i)::text AS t FROM generate_series(1, 2) AS g(i)")
        from postgresql.types.namedtuple import namedtuples
        return [r, ps(), ps.column_names, list(ps.rows()), list(namedtuples(ps)())]

    def s_fails(self):
        from postgresql import exceptions as X
        out = []
        self.srv.anyfail = None
        for sql in ('SELEKT 1', 'SELECT (10/(3 - i))::int4 AS i FROM generate_series(1, 5) AS g(i)'):
            try:
                out.append(self.db.prepare(sql)())
            except X.Error as e:
                out.append([error(e), dict(e.details), e.source, [type(x).__name__ for x in e._e_metas()] and None])
        try:
            self.ask([23], ['no number'])
        except X.Error as e:
            out.append(error(e))
        out.append([type(X.ErrorLookup(self.p.code)).__name__, X.ErrorLookup(self.p.code).__name__, X.WarningLookup('01003').__name__, X.ErrorLookup('XX' + self.p.code[2:]).__name__])
        return out

    def s_setting(self):
        s = self.db.settings
        out = [s.get('work_mem'), s['search_path']]
        with self.db.settings(search_path=self.p.name, work_mem='1MB'):
            out += [s['search_path'], s.path]
        s['application_name'] = 'app ' + self.p.name
        return out + [s['search_path'], s['application_name'], sorted(s.getset(['work_mem', 'TimeZone']).items())]

    def s_block(self):
        db = self.db
        with db.xact():
            db.prepare('INSERT INTO mct VALUES ($1::int4)')(len(self.p.name))
            try:
                with db.xact():
                    db.execute('INSERT INTO mct VALUES (99)')
                    raise KeyError('undo')
            except KeyError:
                pass
        x = db.xact(isolation='serializable')
        x.start()
        db.execute('INSERT INTO mct VALUES (98)')
        x.rollback()
        return [db.query('SELECT k FROM mct ORDER BY k'), repr(x), x.state]

    def s_cursor(self):
        db = self.db
        with db.xact():
            c = db.prepare('SELECT i::int4 AS i FROM generate_series(1, 5) AS g(i)').declare()
            out = [c.read(2), c.read(1)]
            c.seek(0)
            out += [c.read(1)]
            c.close()
        h = db.prepare('SELECT i::int4 AS i FROM generate_series(1, 5) AS g(i)')
        it = iter(h.chunks())
        return out + [list(it), [r[0] for r in h.rows()]]

    def s_hstore(self):
        self.db.typio.identify(contrib_hstore='hstore')
        return self.ask([self.p.hstore], [{'k': self.p.name, 'n': None}])

    def s_proc(self):
        if not self.p.procs:
            return None
        p = self.db.proc(self.p.procs[0].ident())
        r = p(*[{23: 5, 25: 'y'}[o] for m, n, o in self.p.procs[0].inputs])
        return [list(r) if hasattr(r, '__next__') else r, repr(type(p))]

    def s_copy(self):
        db = self.db
        n = len(self.p.name)
        db.prepare('COPY mct FROM STDIN').load_rows([b'%d\n' % x for x in range(n)])
        return [db.query('SELECT k FROM mct ORDER BY k'), list(itertools.chain(*db.prepare('COPY (SELECT i FROM generate_series(1, %d) AS g(i)) TO STDOUT' % n).chunks())), db.prepare('SELECT k FROM mct ORDER BY k').first()]

    def s_listen(self):
        db = self.db
        db.listen('chan', self.p.name)
        db.notify('chan', self.p.name)
        db.notify((self.p.name, 'x'), ('chan', 'y'))
        return [sorted(db.listening_channels()), list(db.iternotifies(0)), db._notifies]

    def s_encoding(self):
        self.db.settings['client_encoding'] = self.p.set
        return [self.s_text(), self.db.typio.encoding]

    def s_close(self):
        repr(self.db)
        self.db.close()
        return [self.db.closed, self.db.state]

    # -- DB-API
    def s_a_query(self):
        c = self.c = self.db.cursor()
        c.execute('ANY %s ' + self.p.name, ('v',))
        return [c.fetchall(), c.description, c.rowcount]

    def s_a_many(self):
        self.c.executemany('INSERT INTO mct VALUES (%s)', [(i,) for i in range(3)])
        return self.c.rowcount

    def s_a_fetch(self):
        self.c.execute('SELECT k FROM mct ORDER BY k')
        return [self.c.fetchone(), self.c.fetchmany(1), self.c.fetchall(), self.c.description]

    def s_a_fails(self):
        from postgresql.driver import dbapi20
        out = []
        for sql, args in (('SELEKT', ()), ('INSERT INTO mct VALUES (%s)', ('no number',))):
            try:
                self.c.execute(sql, args)
            except dbapi20.Error as e:
                out.append(error(e))
            self.db.rollback()
        return out

    def s_a_commit(self):
        self.c.execute('INSERT INTO mct VALUES (50)')
        self.db.commit()
        self.c.execute('INSERT INTO mct VALUES (51)')
        self.db.rollback()
        self.c.execute('SELECT k FROM mct ORDER BY k')
        r = self.c.fetchall()
        self.db.commit()
        return r


def alone(name, how):
    "the transcript of a session that is alone, in a process of its own"
    def go():
        s = Session(name, Shared(how))
        s.all()
        return s.transcript()
    return forked(go, 60)


def forked(fn, seconds):
    "what fn returns in a child of this process; a string when it gave nothing"
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                v = fn()
            except BaseException:
                import traceback
                v = 'failed: ' + traceback.format_exc()
            data = pickle.dumps(v)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = b'', time.monotonic() + seconds
    try:
        while True:
            if not select.select([r], [], [], max(0, end - time.monotonic()))[0]:
                return 'hang'
            d = os.read(r, 1 << 16)
            if not d:
                break
            data += d
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else 'died'


def differ(got, want):
    for what, g, w in zip(('the program saw', 'the server got'), got, want):
        for i, (x, y) in enumerate(itertools.zip_longest(g, w)):
            if x != y:
                return '%s at %d:\n  %s\n  alone:\n  %s' % ((what, i) + clip(x, y))
    return None


def clip(x, y):
    x, y = repr(x), repr(y)
    k = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), 0)
    k = max(0, k - 150)
    return x[k:k + 400], y[k:k + 400]


# -- the scheduler -----------------------------------------------------------
class Tracer:
    "calls `at` before every line of the driver the thread executes"

    def __init__(self, at):
        import postgresql
        self.root = os.path.dirname(postgresql.__file__) + os.sep
        self.at = at
        self.wanted = {}
        self.off = False

    def ours(self, code):
        w = self.wanted.get(code)
        if w is None:
            # module and class bodies are part of an import
            w = self.wanted[code] = code.co_filename.startswith(self.root) and bool(code.co_flags & 2)
        return w

    def call(self, frame, event, arg):
        if event == 'call' and not self.off and self.ours(frame.f_code):
            return self.line

    def line(self, frame, event, arg):
        if event == 'line' and not self.off:
            self.at(frame)
        return self.line


def importing(frame):
    while frame is not None:
        if frame.f_code.co_filename.startswith('<frozen importlib'):
            return True
        frame = frame.f_back
    return False


class Other:
    "the other thread"

    def __init__(self, session, trace=None):
        self.s = session
        self.trace = trace
        self.t = threading.Thread(target=self.go, daemon=True)
        self.done = threading.Event()
        self.paused = threading.Event()
        self.resume = threading.Event()

    def go(self):
        if self.trace:
            sys.settrace(self.trace)
        try:
            self.s.all()
        finally:
            sys.settrace(None)
            self.done.set()
            self.paused.set()

    def run(self, seconds):
        "until it is done or paused; it may also wait for a lock of ours"
        if not self.t.ident:
            self.t.start()
        self.resume.set()
        return self.paused.wait(seconds)


def t_preempt(R, a, b, how, i, n, warm, most, deep):
    "the first session is preempted at every line (deep: of every operation), the second one runs whole"
    with R.guarded('alone', 120), wire.quiet():
        wa, wb = alone(a, how), alone(b, how)
    for w in (wa, wb):
        if not R.check(not isinstance(w, str), 'alone', lambda: w):
            return
        for name, r in w[0]:
            if not R.check('raised' != eval(r)[0] if r.startswith("('raised'") else True, 'alone:raises', lambda: '%s %s' % (name, r)):
                return
    with wire.quiet():
        shared = Shared(how)
        if warm:
            for x in (a, b):
                Session(x, Shared(how)).all()
        count, seen = [0], {}
        s = Session(a, shared)

        def at(frame):
            at_line = (s.at if deep else 0, frame.f_code.co_filename, frame.f_lineno)
            seen[at_line] = seen.get(at_line, 0) + 1
            if seen[at_line] > most or importing(frame):
                return
            k = count[0]
            count[0] += 1
            if k % n != i:
                return
            here = '%s:%d %s' % (frame.f_code.co_filename.rsplit('/postgresql/', 1)[1], frame.f_lineno, s.steps[s.at - 1])
            if not R.case([a, b, how, warm, k]):
                return
            tracer.off = True

            def child():
                o = Other(Session(b, shared))
                o.run(2)
                return o
            # the child goes on with the first session where this one is
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                os.close(r)
                sys.settrace(None)
                frame.f_trace = None
                f = frame
                while f is not None:
                    f.f_trace = None
                    f = f.f_back
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(120)
                state['child'] = (w, child())
                return
            os.close(w)
            tracer.off = False
            report(R, pid, r, (wa, wb), 'preempt:%s:%s:%s' % (a, b, how), here)
            R.state((a, b, how, here))
        state = {}
        tracer = Tracer(at)
        sys.settrace(tracer.call)
        try:
            s.all()
        finally:
            sys.settrace(None)
        if 'child' in state:
            finish(state['child'], s)
    R.note('lines', count[0])
    with R.guarded('preempt:end', 10):
        d = differ(s.transcript(), wa)
        R.check(d is None, 'preempt:none', lambda: d)


def finish(child, s):
    "the end of a child process: tell what both sessions told"
    w, o = child
    o.resume.set()
    o.done.wait(60)
    data = pickle.dumps((s.transcript(), o.s.transcript() if o.done.is_set() else 'hang'))
    while data:
        data = data[os.write(w, data):]
    os._exit(0)


def report(R, pid, r, want, sig, here):
    data = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        data += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    R.trans(2)
    if not data:
        R.violate(sig + ':died', 'preempted at %s: status %d' % (here, status))
        return
    for who, got, w in zip(('preempted', 'other'), pickle.loads(data), want):
        if got == 'hang':
            R.violate(sig + ':hang', 'preempted at %s' % here)
            continue
        d = differ(got, w)
        R.check(d is None, '%s:%s' % (sig, who), lambda: 'preempted at %s: %s' % (here, d))
    R.outcome(want is not None)


# -- both inside the same function -------------------------------------------
def t_twice(R, a, b, how, i, n, most):
    """
    The first thread stops at a line of a function, the second one at a line
    of the same function, the first one ends, the second one ends.
    """
    with R.guarded('alone', 120), wire.quiet():
        wa, wb = alone(a, how), alone(b, how)

    def lines():
        "the lines a session executes for the first time in each function"
        seen = {}

        def at(frame):
            if not importing(frame):
                seen.setdefault((frame.f_code.co_filename, frame.f_code.co_firstlineno), {}).setdefault(frame.f_lineno, len(seen))
        return seen, at

    def profile(name):
        seen, at = lines()
        s = Session(name, Shared(how))
        sys.settrace(Tracer(at).call)
        try:
            s.all()
        finally:
            sys.settrace(None)
        return seen
    with R.guarded('profile', 120), wire.quiet():
        pa, pb = (forked(lambda x=x: profile(x), 100) for x in (a, b))
    if not R.check(isinstance(pa, dict) and isinstance(pb, dict), 'profile', lambda: '%r %r' % (pa, pb)):
        return
    both = sorted(set(pa) & set(pb))
    mine = {f: sorted(pa[f])[:most] for f in both[i::n]}
    with wire.quiet():
        shared = Shared(how)
        s = Session(a, shared)
        state = {}
        gone = set()

        def at(frame):
            f = (frame.f_code.co_filename, frame.f_code.co_firstlineno)
            line = frame.f_lineno
            if f not in mine or line not in mine[f] or (f, line) in gone or importing(frame):
                return
            gone.add((f, line))
            name = '%s:%d' % (f[0].rsplit('/postgresql/', 1)[1], line)
            tracer.off = True
            for there in sorted(pb[f])[:most]:
                if not R.case([a, b, how, name, there]):
                    continue
                r, w = os.pipe()
                pid = os.fork()
                if not pid:
                    os.close(r)
                    sys.settrace(None)
                    x = frame
                    while x is not None:
                        x.f_trace = None
                        x = x.f_back
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(120)

                    def stop(fr, there=there):
                        if fr.f_lineno == there and (fr.f_code.co_filename, fr.f_code.co_firstlineno) == f and not o.paused.is_set():
                            inner.off = True
                            o.resume.clear()
                            o.paused.set()
                            o.resume.wait(60)
                    inner = Tracer(stop)
                    o = Other(Session(b, shared), inner.call)
                    o.run(2)
                    state['child'] = (w, o)
                    return
                os.close(w)
                report(R, pid, r, (wa, wb), 'twice:%s:%s:%s' % (a, b, how), '%s and %d' % (name, there))
                R.state((name, there))
            tracer.off = False
        tracer = Tracer(at)
        sys.settrace(tracer.call)
        try:
            s.all()
        finally:
            sys.settrace(None)
        if 'child' in state:
            finish(state['child'], s)


# -- operations in every order -----------------------------------------------
def t_orders(R, i, n, most):
    "one thread, the operations of two (three) sessions in every order"
    scripts = {'utf': ['connect', 'text', 'times', 'pair', 'setting', 'encoding', 'close', 'hstore', 'proc'][:most], 'latin': ['connect', 'pair', 'text', 'times', 'encoding', 'hstore', 'close', 'setting', 'fails'][:most],
               'old': ['connect', 'times', 'block', 'close']}
    for names, how in ((('utf', 'latin'), 'connector'), (('utf', 'latin'), 'driver'), (('old', 'utf', 'latin'), 'driver')):
        use = {x: scripts[x] if len(names) == 2 else [y for y in scripts[x] if y in ('connect', 'times', 'pair')][:3] for x in names}
        want = {}
        with R.guarded('alone', 60), wire.quiet():
            for x in names:
                s = Session(x, Shared(how))
                s.steps = use[x]
                s.all()
                want[x] = s.transcript()
        for k, order in enumerate(merges([len(use[x]) for x in names])):
            if k % n != i or not R.case([names, how, order]):
                continue
            with R.guarded('orders', 30), wire.quiet():
                shared = Shared(how)
                S = [Session(x, shared) for x in names]
                for s in S:
                    s.steps = use[s.p.name]
                for t in order:
                    S[t].step()
                for s in S:
                    d = differ(s.transcript(), want[s.p.name])
                    R.check(d is None, 'orders:%s:%s' % (how, s.p.name), lambda: '%r: %s' % (order, d))
                R.trans(len(order))
                R.state((names, how, order))


def merges(lengths):
    if not any(lengths):
        yield ()
        return
    for i, k in enumerate(lengths):
        if k:
            for r in merges(lengths[:i] + [k - 1] + lengths[i + 1:]):
                yield (i,) + r
