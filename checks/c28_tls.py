"""
C28 - encrypted connections: every combination of what the client is told about
encryption and certificates with what the server answers and presents, over
real sockets and real TLS in one process (the certificates are in golden/tls).
"""
import contextlib
import os
import socket
import ssl
import struct
import threading

from mc import core, pgmodel, wire

PROPERTY = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the combinations of client configuration, certificates and answers of the server, real sockets and TLS, against a table of what has to come out'
RULE = 'an execution is one connection attempt with one configuration against one server'
ASSUMPTIONS = ['TLS itself is OpenSSL\'s', 'the server behind the sockets is mc.pgmodel', 'host names are not compared with certificates', 'certificates are valid from 2000 to 2099 (the expired one to 2001)']

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden', 'tls')
MODES = ['disable', 'allow', 'prefer', 'require']
ROOTS = [None, 'root', 'other', 'missing']
CERTS = ['good', 'foreign', 'old', 'self']
CLIENTS = [None, 'client', 'both', 'stranger', 'missing']
ANSWERS = ['S', 'N', 'E', 'close', 'S+', 'S+1', 'S+4', '?']
PASSWORD = 'the-password'


def f(n):
    return os.path.join(DIR, n)


def tasks(tier):
    T = [('combinations', v, {'mode': m, 'answer': a}) for m in MODES for a in ('S', 'S+') for v in (('c', 'py') if tier != 'quick' and a == 'S' else ('c',))]
    T += [('answers', 'c', {}), ('kinds', 'c', {}), ('traffic', 'c', {}), ('traffic', 'py', {})]
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Server:
    "a listener; what it does is set before each attempt"

    def __init__(self, family=socket.AF_INET, path=None):
        self.l = socket.socket(family, socket.SOCK_STREAM)
        self.l.bind(path or ('127.0.0.1', 0))
        self.l.listen(16)
        self.address = self.l.getsockname()
        self.contexts = {}
        self.threads = []
        self.lock = threading.Lock()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def set(self, answer='S', cert='good', verify=False, clear=True):
        self.answer, self.cert, self.verify, self.clear = answer, cert, verify, clear
        self.seen = []      # one dictionary for each connection

    def loop(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            t = threading.Thread(target=self.serve, args=(s,), daemon=True)
            with self.lock:
                self.threads.append(t)
            t.start()

    def context(self):
        k = self.cert, self.verify
        if k not in self.contexts:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            c.load_cert_chain(f(self.cert + '.crt'), f(self.cert + '.key'))
            if self.verify:
                c.verify_mode = ssl.CERT_REQUIRED
                c.load_verify_locations(f('root.crt'))
            self.contexts[k] = c
        return self.contexts[k]

    def serve(self, s):
        d = {'asked': False, 'tls': False, 'clear': b'', 'startup': None, 'peer': None, 'error': None, 'ended': False}
        self.seen.append(d)
        try:
            s.settimeout(10)
            first = b''
            while len(first) < 8:
                x = s.recv(8 - len(first))
                if not x:
                    return
                first += x
            if struct.unpack('!LL', first) == (8, 80877103):
                d['asked'] = True
                a = self.answer
                if a == 'close':
                    return
                if a == 'E':
                    s.sendall(pgmodel.msg(b'E', pgmodel.fields(b'FATAL', b'08P01', b'what?')))
                    return
                # whoever sits between may put something behind the answer
                more = pgmodel.msg(b'R', struct.pack('!L', 0))
                s.sendall({'S+': b'S' + more, 'S+1': b'S' + more[:1], 'S+4': b'S' + more[:4]}.get(a, a.encode()))
                first = b''
                if a[0] == 'S':
                    s = self.context().wrap_socket(s, server_side=True)
                    d['tls'] = True
                    d['peer'] = s.getpeercert() or None
            b = pgmodel.Backend(auth='cleartext', password=PASSWORD.encode())
            if not d['tls'] and not self.clear:
                b = None
            while True:
                x = first or s.recv(65536)
                first = b''
                if not x:
                    return
                if not d['tls']:
                    d['clear'] += x
                if b is None:
                    if len(d['clear']) >= 4 and len(d['clear']) >= struct.unpack_from('!L', d['clear'])[0]:
                        s.sendall(pgmodel.msg(b'E', pgmodel.fields(b'FATAL', b'28000', b'no entry without encryption')))
                        return
                    continue
                out = b''.join(b.feed(x))
                d['startup'] = b.startup
                if out:
                    s.sendall(out)
                if b.terminated or b.closed:
                    return
        except (OSError, ssl.SSLError) as e:
            d['error'] = repr(e)
        finally:
            d['ended'] = True
            with contextlib.suppress(OSError):
                s.close()

    def settle(self):
        with self.lock:
            ts, self.threads = self.threads, []
        for t in ts:
            t.join(15)
        return not any(t.is_alive() for t in ts)

    def close(self):
        self.l.close()


def given(root, client, kw):
    if root is not None:
        kw['sslrootcrtfile'] = f('no-such.crt' if root == 'missing' else root + '.crt')
    if client == 'both':
        kw['sslcrtfile'] = f('client.both')
    elif client is not None:
        n = 'no-such' if client == 'missing' else client
        kw['sslcrtfile'], kw['sslkeyfile'] = f(n + '.crt'), f(n + '.key')
    return kw


def tls_works(answer, root, cert, client, verify):
    if answer != 'S' or 'missing' in (root, client):
        return False
    if root is not None and (root, cert) not in (('root', 'good'), ('other', 'foreign')):
        return False
    return not verify or client in ('client', 'both')


def expected(mode, tls, clear):
    "'ssl', 'clear' or None"
    return {
        'disable': 'clear' if clear else None,
        'allow': 'clear' if clear else 'ssl' if tls else None,
        'prefer': 'ssl' if tls else 'clear' if clear else None,
        'require': 'ssl' if tls else None,
    }[mode]


def attempt(R, server, mode, answer, root, cert, client, verify, clear, make):
    from postgresql import exceptions as X
    server.set(answer, cert, verify, clear)
    tls = tls_works(answer, root, cert, client, verify)
    want = expected(mode, tls, clear)
    where = lambda: 'sslmode %s root %s client %s; server answers %r with %s%s, clear %s: %s expected; saw %r' % (
        mode, root, client, answer, cert, ' and verifies' if verify else '', clear, want, server.seen)
    alt = expected(mode, False, clear)
    db = make(given(root, client, {'sslmode': mode, 'user': 'u', 'database': 'd', 'password': PASSWORD, 'connect_timeout': 10}))
    try:
        db.connect()
    except X.Error as e:
        if root is None and want == 'ssl' and alt is None:
            R.violate('no-root', where())
            want = alt
        R.check(want is None, 'refused', lambda: '%s: %s' % (where(), e))
        R.check(isinstance(e, X.ClientCannotConnectError), 'error:' + type(e).__name__, where)
        R.check(db.closed is not False, 'error:open', where)
    else:
        if root is None and want == 'ssl' and alt == 'clear' and db.security is None:
            R.violate('no-root', where())
            want = alt
        R.check(want is not None, 'connected', where)
        R.check(db.security == ('ssl' if want == 'ssl' else None), 'security', lambda: '%s: security %r' % (where(), db.security))
        R.check(db.query('SELECT 5 AS i') is not None, 'query', where)
        db.close()
    R.check(server.settle(), 'server:left', where)
    for d in server.seen:
        R.check(not (mode == 'disable' and d['asked']), 'disable:asked', where)
        R.check(not (mode == 'require' and (d['clear'] or not d['asked'])), 'require:clear', where)
        # whoever is asked gets nothing else before it has been answered
        R.check(d['startup'] is None or d['tls'] or clear, 'startup:clear', where)
        if d['tls'] and client in ('client', 'both') and verify:
            R.check(d['peer'] is not None, 'client-certificate', where)
    used = [d for d in server.seen if d['startup']]
    R.check(bool(used) is (want is not None), 'used', where)
    if used:
        R.check(used[-1]['tls'] is (want == 'ssl'), 'used:how', where)
    R.trans(len(server.seen))
    R.state([mode, answer, want, [(d['asked'], d['tls'], bool(d['clear'])) for d in server.seen]])
    R.outcome(want)


def maker(server):
    from postgresql import driver
    return lambda kw: driver.default.ip4(host=server.address[0], port=server.address[1], **kw)()


def t_combinations(R, mode, answer):
    server = Server()
    try:
        for root in ROOTS:
            for cert in CERTS:
                for client in CLIENTS:
                    for verify in (False, True):
                        for clear in (True, False):
                            if R.case([root, cert, client, verify, clear]):
                                with R.guarded('tls', 40), wire.quiet():
                                    attempt(R, server, mode, answer, root, cert, client, verify, clear, maker(server))
    finally:
        server.close()


def t_answers(R):
    server = Server()
    try:
        for mode in MODES:
            for answer in ANSWERS:
                for clear in (True, False):
                    for root in (None, 'root'):
                        if R.case([mode, answer, clear, root]):
                            with R.guarded('answers', 40), wire.quiet():
                                attempt(R, server, mode, answer, root, 'good', None, False, clear, maker(server))
    finally:
        server.close()


def t_kinds(R):
    "every kind of connector has the certificates"
    import shutil
    import tempfile
    from postgresql import driver
    d = tempfile.mkdtemp(prefix='mc28-')
    tcp, unix = Server(), Server(socket.AF_UNIX, d + '/s')
    D = driver.default
    try:
        kinds = {
            'host': (tcp, lambda kw: D.host(host='127.0.0.1', port=tcp.address[1], **kw)()),
            'fit-host': (tcp, lambda kw: D.fit(host='127.0.0.1', port=tcp.address[1], **kw)()),
            'unix': (unix, lambda kw: D.unix(unix=d + '/s', **kw)()),
            'clone': (tcp, lambda kw: _unconnected(maker(tcp)(kw))),
        }
        for k, (server, make) in kinds.items():
            for mode in MODES:
                for root in ROOTS:
                    for cert in CERTS[:2]:
                        for client in CLIENTS:
                            for verify in (False, True):
                                if R.case([k, mode, root, cert, client, verify]):
                                    with R.guarded('kinds', 40), wire.quiet():
                                        attempt(R, server, mode, 'S', root, cert, client, verify, False, make)
    finally:
        tcp.close()
        unix.close()
        shutil.rmtree(d, ignore_errors=True)


def _unconnected(db):
    return db.connector()


def t_traffic(R):
    "what is said over TLS is what is said in the clear"
    server = Server()
    try:
        for mode in ('disable', 'require'):
            for n in (0, 1, 10, 300, 5000, 40000):
                if not R.case([mode, n]):
                    continue
                with R.guarded('traffic', 60), wire.quiet():
                    server.set()
                    db = maker(server)(given('root', None, {'sslmode': mode, 'user': 'u', 'database': 'd', 'password': PASSWORD}))
                    db.connect()
                    where = lambda: '%s %d rows' % (mode, n)
                    ps = db.prepare('SELECT i::int4 AS i FROM generate_series(1, %d) AS g(i)' % n)
                    want = list(range(1, n + 1))
                    R.check([r[0] for r in ps()] == want, 'rows', where)
                    R.check([r[0] for r in ps.rows()] == want, 'rows:stream', where)
                    R.check([r[0] for c in ps.chunks() for r in c] == want, 'rows:chunks', where)
                    ins = db.prepare('INSERT INTO mct VALUES ($1)')
                    ins.load_rows([(i,) for i in range(min(n, 3000))])
                    R.check([r[0] for r in db.prepare('SELECT k FROM mct ORDER BY k')()] == list(range(min(n, 3000))), 'rows:sent', where)
                    db.execute('DELETE FROM mct')
                    c = db.prepare('COPY mct FROM STDIN')
                    c.load_rows(b'%d\n' % i for i in range(n))
                    R.check(len(db.prepare('SELECT k FROM mct ORDER BY k')()) == n, 'copy', where)
                    db.close()
                    R.check(server.settle(), 'server:left', where)
                    R.trans()
    finally:
        server.close()
