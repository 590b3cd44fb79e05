"""
C19 - connecting ends connected as configured or with the right error.

A connection is made to servers whose every answer during start-up is
enumerated: whether they can be reached, their answer to the request for
encryption, the outcome of the TLS handshake, every authentication request,
errors and wrong messages at each step, and the end of the stream after every
byte. All pairs (and triples, over several addresses) of answers of the
successive attempts are combined with every sslmode. A reference computes which
attempts are to be made and what comes out of each.
"""
import errno
import hashlib
import itertools
import socket
import ssl
import struct

from mc import core, pgmodel as M, wire

PROPERTY = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of server behaviours per attempt against a reference of the attempts'
RULE = 'an execution is sslmode x behaviour of the server in each attempt x credentials'
ASSUMPTIONS = ['the TLS layer itself is a stand-in that succeeds or fails', 'blocking sockets']

FATAL = b'FATAL'


def err(code, sev=FATAL):
    return M.error_msg(M.PgError(code, 'no', sev))


R = lambda n, salt=b'': M.msg(b'R', struct.pack('!L', n) + salt)
SALT4, SALT2 = b'\x01\0\xff\x7f', b'aZ'

# what a server sends when it got the start-up packet and, after None, when it
# got the password; GREET stands for parameters, key and ready
GREET = 'greet'
NOTICE = M.notice_msg('01000', 'w')
START = {
    'trust': ([R(0), GREET], None),
    'noticed': ([NOTICE, R(0), NOTICE, GREET, ], None),
    'clear': ([R(3)], [R(0), GREET]),
    'md5': ([R(5, SALT4)], [R(0), GREET]),
    'crypt': ([R(4, SALT2)], [R(0), GREET]),
    'md5-notice': ([NOTICE, R(5, SALT4), NOTICE], [NOTICE, R(0), NOTICE, GREET]),
    'late-params': ([R(0), M.msg(b'K', struct.pack('!LL', 4711, 99)), M.param_msg(b'server_version', b'16.1'), NOTICE, M.msg(b'Z', b'I')], None),
}
BAD = {
    # behaviour -> (messages at start-up, messages after the password, what it is an error of)
    'reject': ([err('28000')], None, '28000'),
    'full': ([err('53300')], None, '53300'),
    'starting': ([err('57P03')], None, '57P03'),
    'unknown-code': ([err('XYZZY')], None, 'XYZZY'),
    'reject-late': ([R(0), err('3D000')], None, '3D000'),
    'reject-params': ([R(0), M.param_msg(b'a', b'b'), M.msg(b'K', b'\0' * 8), err('57P02')], None, '57P02'),
    'noticed-reject': ([NOTICE, err('28000')], None, '28000'),
    'badpw': ([R(3)], [err('28P01')], '28P01'),
    'badpw-md5': ([R(5, SALT4)], [NOTICE, err('28P01')], '28P01'),
    'again': ([R(3)], [R(3)], '08P01'),
    'again-md5': ([R(5, SALT4)], [R(5, SALT4)], '08P01'),
    'silent': ([], None, '08006'),
    'silent-late': ([R(3)], [], '08006'),
    'silent-ok': ([R(0)], None, '08006'),
    'wrong-first': ([M.msg(b'Z', b'I')], None, '08P01'),
    'key-first': ([M.msg(b'K', b'\0' * 8)], None, '08P01'),
    'row-first': ([M.msg(b'D', b'\0\0\0\0')], None, '08P01'),
    'wrong-second': ([R(3)], [M.msg(b'K', b'\0\0\0\0\0\0\0\0'), M.msg(b'Z', b'I')], '08P01'),
    'wrong-third': ([R(3)], [M.msg(b'T', b'\0\0\0\0'), GREET], '08P01'),
    'no-key': ([R(0), M.msg(b'Z', b'I')], None, '08P01'),
    'no-ready': ([R(0), M.msg(b'K', b'\0' * 8), M.msg(b'1')], None, '08P01'),
    'reset': ('reset', None, '08006'),
    'reset-late': ([R(3)], 'reset', '08006'),
}
for n in (1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 99, 0xffffffff):
    BAD['auth%d' % n] = ([R(n, b'SCRAM-SHA-256\0\0' if n == 10 else b'')], None, '--AUT')
for a, b in ((3, 5), (3, 4), (3, 99), (5, 3), (4, 12)):
    BAD['again%d-%d' % (a, b)] = ([R(a, SALT4[:{3: 0, 4: 2, 5: 4}[a]] if a != 4 else SALT2)], [R(b, SALT4), GREET], '08P01')
# bodies no server of this protocol sends: an error of any class
BROKEN = {
    'short-auth': ([M.msg(b'R', b'\0\0\0')], None), 'empty-auth': ([M.msg(b'R', b'')], None),
    'short-key': ([R(0), M.msg(b'K', b'\0' * 7)], None), 'short-ready': ([R(0), M.msg(b'K', b'\0' * 8), M.msg(b'Z', b'')], None),
    'short-param': ([R(0), M.msg(b'S', b'a')], None), 'short-error': ([M.msg(b'E', b'')], None),
    'short-notice': ([M.msg(b'N', b'')], None),
    'short-second': ([R(3)], [M.msg(b'R', b'\0')]),
    'size': ([b'R\0\0\0\3'], None), 'http': ([b'HTTP/1.1 400 Bad Request\r\n\r\n'], None),
}
for k, (a, b) in BROKEN.items():
    BAD[k] = (a, b, None)

OPEN = {'refused': '08004', 'unreachable': '08004', 'timeout': '--TOE', 'missing': '08004'}
SSL = {b'S': True, b'N': False, b'E': None, b'X': None, b'': None, 'reset': None, 'epipe': None, b'?': None}


def open_error(how):
    if how == 'refused':
        return ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
    if how == 'unreachable':
        return OSError(errno.EHOSTUNREACH, 'No route to host')
    if how == 'missing':
        return FileNotFoundError(errno.ENOENT, 'No such file or directory')
    return socket.timeout('timed out')


def behaviours(tier):
    "(open, ssl answer, tls, start)"
    B = [(o, None, None, None) for o in OPEN]
    for a in SSL:
        if SSL[a] is None:
            B.append((None, a, None, 'trust'))
    for s in list(START) + list(BAD):
        B.append((None, b'N', None, s))
        B.append((None, b'S', None, s))
    B += [(None, b'S', 'tls', 'trust'), (None, b'S', 'oserror', 'trust')]
    return B


FEW = [
    ('refused', None, None, None), ('timeout', None, None, None), (None, b'X', None, 'trust'), (None, b'', None, 'trust'),
    (None, 'reset', None, 'trust'), (None, b'N', None, 'trust'), (None, b'S', None, 'trust'), (None, b'S', None, 'md5'),
    (None, b'N', None, 'clear'), (None, b'S', 'tls', 'trust'), (None, b'N', None, 'reject'), (None, b'S', None, 'reject'),
    (None, b'S', None, 'silent'), (None, b'S', None, 'badpw'), (None, b'N', None, 'reset'), (None, b'S', None, 'short-auth'),
]
MODES = ('disable', 'allow', 'prefer', 'require', None)


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for mode in MODES:
            T.append(('single', v, {'mode': mode}))
            for i in range(0, len(FEW), 4):
                T.append(('hosts', v, {'mode': mode, 'lo': i}))
            n = len(behaviours(tier))
            for i in range(0, n, 16):
                T.append(('pairs', v, {'mode': mode, 'lo': i}))
        for s in START:
            T.append(('cuts', v, {'start': s}))
        T.append(('parameters', v, {}))
        T.append(('late', v, {}))
        T.append(('fit', v, {}))
        T.append(('versions', v, {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


# -- servers -----------------------------------------------------------------

class Server(M.Backend):
    def __init__(self, behaviour, password=b'', cut=None):
        super().__init__()
        self.how = behaviour
        self.cut = cut
        self.pwd = None
        self.stage = None
        self.asked = 0

    def feed(self, data):
        if self.how[1] == 'epipe' and not self.buf and data[4:8] == struct.pack('!L', 80877103):
            self.sock.die('EPIPE')
            return []
        out = super().feed(data)
        if self.cut is not None:
            keep = []
            for m in out:
                if self.cut <= 0:
                    break
                keep.append(m[:self.cut])
                self.cut -= len(m)
            out = keep
            if self.cut <= 0:
                self.closed = True
        return out

    def on_startup(self, body, out):
        code, = struct.unpack_from('!L', body)
        if code == 80877103:
            self.asked += 1
            self.log.append(('ssl',))
            a = self.how[1]
            if a == 'reset':
                self.sock.die('RESET')
            elif a == b'':
                self.closed = True
            elif a == b'E':
                out.append(err('0A000'))
                self.closed = True
            else:
                out.append(a)
                if SSL[a] is None:
                    self.closed = True
            return
        parts = body[4:].split(b'\0')
        if code != 196608 or parts[-2:] != [b'', b''] or len(parts) % 2:
            raise M.ProtocolBreach('startup packet %r' % body)
        self.pairs = list(zip(parts[:-2:2], parts[1:-2:2]))
        self.startup = dict(self.pairs)
        self.log.append(('startup',))
        self.clear_startup = not self.sock.secured
        s = START.get(self.how[3]) or BAD[self.how[3]]
        self.second = s[1]
        self.phase = 'auth'
        self.script(s[0], out, s[1] is None)

    def script(self, messages, out, last):
        if messages == 'reset':
            self.sock.die('RESET')
            return
        for m in messages:
            if m is GREET:
                self.greet(out)
            else:
                out.append(m)
        if self.how[3] == 'late-params':
            self.phase = 'ready'
        if last and self.phase != 'ready':
            self.closed = True

    def on_message(self, t, body, out):
        if self.phase == 'auth':
            if t != b'p' or self.pwd is not None or self.second is None:
                raise M.ProtocolBreach('message %r while authenticating' % t)
            self.pwd = body
            self.clear_password = not self.sock.secured
            self.script(self.second, out, True)
            return
        super().on_message(t, body, out)


class Net(wire.World):
    "attempt n meets behaviour n (or behaviour by address)"

    def __init__(self, behaviours, cut=None):
        super().__init__()
        self.behaviours, self.cut = behaviours, cut
        self.armed = False
        self.made = []
        self.timeouts = []

    def open(self, timeout=None):
        i = len(self.made)
        self.timeouts.append(timeout)
        if i >= len(self.behaviours):
            raise core.Horizon('more attempts than expected')
        b = self.behaviours[i]
        self.made.append(b)
        if b[0]:
            raise open_error(b[0])
        s = wire.Sock(self, Server(b, cut=self.cut))
        s.srv.sock = s
        s.how = b
        s.clear = 0
        self.sockets.append(s)
        return s

    def tls(self, s):
        s.clear = len(s.sent)
        how = s.how[2]
        if how == 'tls':
            return ssl.SSLError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed')
        if how == 'oserror':
            return ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        return None


# -- reference ---------------------------------------------------------------

def attempt(how, want):
    """
    what comes of an attempt: ('ok', secured) or ('fail', codes); want is
    None (in the clear), False (encrypted if possible) or True (encrypted)
    """
    if how[0]:
        return 'fail', OPEN[how[0]]
    secured = False
    if want is not None:
        a = SSL[how[1]]
        if a is None:
            return 'fail', '08006' if how[1] in ('reset', 'epipe') else '08P01'
        if not a and want:
            return 'fail', '--SEC'
        if a:
            if how[2]:
                return 'fail', '--SEC'
            secured = True
    if how[3] in START:
        return 'ok', secured
    return 'fail', BAD[how[3]][2]


def sequence(mode, addresses):
    "(address, want) of the attempts to be made"
    for a in range(addresses):
        for w in {'disable': [None], 'allow': [None, True], 'prefer': [False, None], 'require': [True], None: [False, None]}[mode]:
            yield a, w


def simulate(mode, addresses, behaviours):
    """
    -> list of (want, outcome). An attempt in the clear after the server
    already declined encryption is the same attempt again, and a server that
    could not be reached is not called again.
    """
    out = []
    skip = None
    for a, w in sequence(mode, addresses):
        if skip == a:
            continue
        if len(out) >= len(behaviours):
            return None
        how = behaviours[len(out)]
        r = attempt(how, w)
        out.append((w, how, r))
        if r[0] == 'ok':
            return out
        if how[0]:
            skip = a
        if mode in ('prefer', None) and w is False and SSL.get(how[1]) is False:
            skip = a
    return out


def connector(net, addresses=1, **kw):
    from postgresql.driver import pq3

    class IP4(pq3.IP4):
        def create_socket_factory(self, **params):
            return wire.factory(net, **params)

    class Host(pq3.Host):
        def create_socket_factory(self, **params):
            return wire.factory(net, **params)

        def socket_factory_sequence(self):
            real = socket.getaddrinfo
            socket.getaddrinfo = lambda host, port, *a, **k: [(2, 1, 6, '', ('10.0.0.%d' % i, 5432)) for i in range(addresses)]
            try:
                return super().socket_factory_sequence()
            finally:
                socket.getaddrinfo = real

    class Driver(pq3.Driver):
        def ip4(self, **k):
            return IP4(driver=self, **k)

        def host(self, **k):
            return Host(driver=self, **k)
    kw.setdefault('user', 'u')
    return Driver().fit(host='127.0.0.1' if addresses == 1 else 'model', port=5432, **kw)


def expected_password(how, user, password):
    first = (START.get(how[3]) or BAD[how[3]])[0]
    for m in first if first != 'reset' else ():
        if m is GREET or m[:1] != b'R' or len(m) < 9:
            continue
        n, = struct.unpack_from('!L', m, 5)
        if n == 3:
            return password
        if n == 5:
            inner = hashlib.md5(password + user).hexdigest().encode()
            return b'md5' + hashlib.md5(inner + m[9:]).hexdigest().encode()
        if n == 4:
            return unix_crypt(password, m[9:])
    return None


def unix_crypt(password, salt):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import crypt
    return crypt.crypt(password.decode('ascii'), salt.decode('ascii')).encode()


def codes_of(e):
    return getattr(e, 'code', None)


def judge(R, sig, where, net, mode, plan, c, password=b'pw', user=b'u', startup=None):
    "connect and compare"
    from postgresql import exceptions as X
    db = c()
    caught = None
    try:
        db.connect()
    except Exception as e:
        caught = e
    R.trans(len(net.made))
    ok = plan[-1][2][0] == 'ok'
    made = list(net.made)
    R.check(made == [h for w, h, r in plan], sig + ':attempts', lambda: '%s: made %r, expected %r' % (where(), made, plan))
    if made != [h for w, h, r in plan]:
        return db
    # what went over each socket
    n = 0
    for w, how, r in plan:
        if how[0]:
            continue
        s = net.sockets[n]
        n += 1
        secured = w is not None and SSL[how[1]] is True
        text = s.sent
        if w is None:
            R.check(not s.srv.asked, sig + ':asked', lambda: '%s: encryption asked for' % where())
        elif how[1] != 'epipe':
            R.check(s.srv.asked == 1, sig + ':not-asked', lambda: '%s: encryption asked for %d times' % (where(), s.srv.asked))
        if secured or (w is True):
            clear = text[:s.clear] if secured else text
            R.check(clear == b'\0\0\0\x08\x04\xd2\x16\x2f' or (how[1] == 'epipe' and not clear), sig + ':in-the-clear', lambda: '%s: %r was sent in the clear' % (where(), clear))
        if w is not None and SSL[how[1]] is None:
            R.check(len(text) <= 8, sig + ':after-no', lambda: '%s: %r sent to a server of another kind' % (where(), text))
        if secured and how[2]:
            R.check(len(text) == 8, sig + ':after-tls', lambda: '%s: %r sent after a failed handshake' % (where(), text))
        want = None
        if s.srv.startup is not None:
            want = expected_password(how, user, password)
            have = s.srv.startup
            R.check(all(have.get(k) == v for k, v in (startup or {b'user': user}).items()), sig + ':startup', lambda: '%s: start-up %r, expected %r' % (where(), have, startup))
            R.check(len(s.srv.pairs) == len(have), sig + ':repeated', lambda: '%s: start-up %r' % (where(), s.srv.pairs))
        pwd = s.srv.pwd
        R.check(pwd == (want + b'\0' if want is not None else None), sig + ':password', lambda: '%s: password message %r, expected %r' % (where(), pwd, want))
    for i, s in enumerate(net.sockets):
        last = ok and i == len(net.sockets) - 1
        R.check(s.closed != last, sig + ':sockets', lambda: '%s: socket %d of %d %s; %r' % (where(), i, len(net.sockets), 'closed' if s.closed else 'left open', caught))
    if ok:
        R.check(caught is None, sig + ':refused', lambda: '%s: %r' % (where(), caught))
        if caught is None:
            R.check(db.closed is False, sig + ':closed', lambda: '%s: closed' % where())
            sec = plan[-1][2][1]
            R.check(db.security == ('ssl' if sec else None), sig + ':security', lambda: '%s: security %r' % (where(), db.security))
            R.check(bool(net.sockets[-1].secured) == sec and db.pq.socket is net.sockets[-1], sig + ':socket', where)
            one = db.prepare('SELECT 7::int4 AS i').first()
            R.check(one == 7, sig + ':usable', lambda: '%s: %r' % (where(), one))
            R.check(db.backend_id == 4711, sig + ':pid', lambda: '%s: %r' % (where(), db.backend_id))
            db.close()
            R.check(net.sockets[-1].closed and db.closed, sig + ':close', where)
        return db
    broken = any(r[1] is None for w, h, r in plan)
    R.check(isinstance(caught, X.ClientCannotConnectError) or (broken and isinstance(caught, Exception)), sig + ':error', lambda: '%s: %r' % (where(), caught))
    R.check(db.closed, sig + ':open', where)
    if isinstance(caught, X.ClientCannotConnectError):
        fails = [getattr(x, 'error', None) for x in db.failures]
        R.check(len(fails) == len(plan), sig + ':failures', lambda: '%s: %r for %r' % (where(), fails, plan))
        for f, (w, how, r) in zip(fails, plan):
            if r[1] is None:
                R.check(isinstance(f, Exception), sig + ':failure', lambda: '%s: %r for %r' % (where(), f, how))
                continue
            R.check(f.code in r[1].split() and type(f) in [X.ErrorLookup(c) for c in r[1].split()], sig + ':reason', lambda: '%s: %r for %r, expected %r' % (where(), f, how, r[1]))
            if how[0]:
                R.check(isinstance(f.__cause__, type(open_error(how[0]))), sig + ':cause', lambda: '%s: cause %r' % (where(), f.__cause__))
    # a failure is terminal
    before = len(net.made)
    for op in ('connect', 'prepare'):
        try:
            db.connect() if op == 'connect' else db.prepare('SELECT 1')
            e = None
        except Exception as x:
            e = x
        R.check(e is not None and len(net.made) == before, sig + ':terminal', lambda: '%s: %s afterwards gives %r' % (where(), op, e))
        if op == 'connect':
            R.check(isinstance(e, X.Error), sig + ':again', lambda: '%s: connecting again gives %r' % (where(), e))
    db.close()
    return db


def scenario(R, key, sig, mode, behaviours, addresses=1, cut=None, **kw):
    if not R.case(key):
        return
    plan = simulate(mode, addresses, behaviours)
    with R.guarded(sig, 20), wire.quiet():
        net = Net(behaviours, cut)
        where = lambda: '%r mode %s' % (behaviours[:len(plan)], mode)
        args = {'password': 'pw'}
        if mode:
            args['sslmode'] = mode
        args.update(kw)
        judge(R, sig, where, net, mode, plan, connector(net, addresses, **args))
    R.state((mode, addresses, tuple(r for w, h, r in plan)))
    R.outcome((mode, plan[-1][2]))


def t_single(R, mode):
    "the same server in every attempt"
    for b in behaviours(R.tier):
        scenario(R, [repr(b)], 'single', mode, [b] * 4)


def t_pairs(R, mode, lo):
    B = behaviours(R.tier)
    second = B if R.tier != 'quick' else FEW
    done = set()
    for b in B[lo:lo + 16]:
        for b2 in second:
            plan = simulate(mode, 1, [b, b2])
            k = tuple(h for w, h, r in plan)
            if len(plan) < 2 or k in done:
                continue
            done.add(k)
            scenario(R, [repr(b), repr(b2)], 'pairs', mode, [b, b2])


def t_hosts(R, mode, lo):
    "two and three addresses"
    deep = R.tier != 'quick'
    for addresses in (2, 3):
        done = set()
        for b in FEW[lo:lo + 4]:
            for rest in itertools.product(FEW[:16 if addresses == 2 or deep else 8], repeat=2):
                bs = [b] + list(rest) + [rest[-1]] * 4
                plan = simulate(mode, addresses, bs)
                k = tuple(h for w, h, r in plan)
                if k in done:
                    continue
                done.add(k)
                scenario(R, [addresses] + [repr(x) for x in k], 'hosts', mode, bs, addresses)


def t_cuts(R, start):
    "the stream ends after every byte of the start-up"
    for mode, a in (('disable', b'N'), ('require', b'S'), ('prefer', b'N')):
        net = Net([(None, a, None, start)] * 3)
        with wire.quiet():
            connector(net, sslmode=mode, password='pw')().connect()
        for cut in range(1, sum(map(len, net.sockets[0].out))):
            key = [mode, cut]
            if not R.case(key):
                continue
            with R.guarded('cuts', 20), wire.quiet():
                net = Net([(None, a, None, start)] * 3, cut)
                where = lambda: '%s in mode %s cut after %d bytes' % (start, mode, cut)
                db = connector(net, sslmode=mode, password='pw')()
                try:
                    db.connect()
                    caught = None
                except Exception as e:
                    caught = e
                R.trans()
                s = net.sockets[0]
                from postgresql import exceptions as X
                R.check(isinstance(caught, X.Error), 'cuts:error', lambda: '%s: %r' % (where(), caught))
                R.check(isinstance(caught, X.ConnectionError), 'cuts:class', lambda: '%s: %r' % (where(), caught))
                R.check(db.closed, 'cuts:open', where)
                R.check(all(x.closed for x in net.sockets), 'cuts:sockets', where)
    R.outcome(start)


PARAMS = [
    ({}, {}),
    ({'database': 'd'}, {b'database': b'd'}),
    ({'database': None}, {b'database': None}),
    ({'user': 'Ünï', 'database': 'dä'}, {b'user': 'Ünï'.encode(), b'database': 'dä'.encode()}),
    ({'user': 'Ünï', 'server_encoding': 'latin-1'}, {b'user': 'Ünï'.encode('latin-1')}),
    ({'settings': {'work_mem': '1MB'}}, {b'work_mem': b'1MB'}),
    ({'settings': {'search_path': 'a,b'}}, {b'search_path': b'a,b'}),
    ({'settings': {'search_path': ['a', 'b c', 'd"e']}}, {b'search_path': b'a,"b c","d""e"'}),
    ({'settings': {'search_path': ()}}, {b'search_path': b''}),
    ({'settings': {'search_path': None, 'work_mem': '2MB'}}, {b'search_path': None, b'work_mem': b'2MB'}),
    ({'settings': [('search_path', ['x', 'Y']), ('work_mem', '3MB')]}, {b'search_path': b'x,"Y"', b'work_mem': b'3MB'}),
    ({'settings': {'statement_timeout': 5}}, {b'statement_timeout': b'5'}),
    ({'settings': {'client_min_messages': 'ERROR'}}, {b'client_min_messages': b'ERROR'}),
    ({'settings': {'application_name': "a 'b' c=d\\"}}, {b'application_name': b"a 'b' c=d\\"}),
    ({'settings': {'application_name': ''}}, {b'application_name': b''}),
]
PASSWORDS = [None, '', 'pw', 'p w"\'\\', 'x' * 40, 'pässwörd']


def t_parameters(R):
    from postgresql.string import quote_ident_if_needed as q
    for i, (kw, want) in enumerate(PARAMS):
        for password in PASSWORDS:
            for start in ('trust', 'clear', 'md5', 'crypt'):
                enc = kw.get('server_encoding', 'utf-8')
                pw = (password or '').encode(enc)
                if start == 'crypt' and (password == 'pässwörd'):
                    continue
                if not R.case([i, password, start]):
                    continue
                with R.guarded('parameters', 20), wire.quiet():
                    kw2 = dict(kw)
                    if 'settings' in kw2:
                        kw2['settings'] = dict(kw2['settings']) if isinstance(kw2['settings'], dict) else list(kw2['settings'])
                    args = dict({'user': 'u', 'sslmode': 'disable'}, **kw2)
                    if password is not None:
                        args['password'] = password
                    b = (None, b'N', None, start)
                    net = Net([b])
                    plan = simulate('disable', 1, [b])
                    where = lambda: '%r password %r %s' % (kw, password, start)
                    c = connector(net, **args)
                    user = args['user'].encode(enc)
                    full = {b'user': user}
                    full.update({k: v for k, v in want.items() if k != b'search_path' or v is None})
                    judge(R, 'parameters', where, net, 'disable', plan, c, password=pw, user=user, startup={k: v for k, v in full.items()})
                    got = net.sockets[-1].srv.startup
                    if want.get(b'search_path') is not None:
                        R.check(idents(got[b'search_path']) == idents(want[b'search_path']), 'parameters:path', lambda: '%s: %r' % (where(), got))
                    extra = set(got) - {b'user', b'client_min_messages'} - set(want)
                    R.check(not extra, 'parameters:invented', lambda: '%s: %r' % (where(), extra))
                    # the connector makes any number of connections
                    net2 = Net([b])
                    net.behaviours, net.made, net.sockets = [b], [], []
                    judge(R, 'parameters:again', where, net, 'disable', plan, c, password=pw, user=user, startup=full)
    R.outcome('parameters')


def idents(b):
    out, i = [], 0
    s = b.decode()
    if not s.strip():
        return out
    while True:
        s = s.lstrip()
        if s.startswith('"'):
            j = 1
            cur = ''
            while True:
                k = s.index('"', j)
                cur += s[j:k]
                if s[k + 1:k + 2] == '"':
                    cur += '"'
                    j = k + 2
                    continue
                break
            out.append(cur)
            s = s[k + 1:].lstrip()
        else:
            n = s.find(',')
            cur, s = (s, '') if n < 0 else (s[:n], s[n:])
            out.append(cur.strip().lower())
        if not s:
            return out
        s = s[1:]


def t_late(R):
    "the server goes away or refuses after it was ready"
    from postgresql import exceptions as X
    for mode, a in (('disable', b'N'), ('require', b'S'), ('allow', b'N'), ('prefer', b'S')):
        for what in ('close', 'reset', 'error', 'fatal'):
            for at in range(1, 7):
                if not R.case([mode, what, at]):
                    continue
                with R.guarded('late', 20), wire.quiet():
                    net = Net([(None, a, None, 'trust')] * 4)
                    opened = net.open

                    def open2(timeout=None):
                        s = opened(timeout)
                        srv = s.srv
                        on = srv.on_message
                        count = [0]

                        def on_message(t, body, out):
                            count[0] += 1
                            if count[0] == at:
                                if what == 'reset':
                                    s.die('RESET')
                                elif what == 'close':
                                    srv.closed = True
                                elif what == 'fatal':
                                    out.append(err('57P01'))
                                    srv.closed = True
                                elif t in b'PBDE':
                                    out.append(err('42501', b'ERROR'))
                                    srv.skip = True
                                else:
                                    on(t, body, out)
                                return
                            on(t, body, out)
                        srv.on_message = on_message
                        return s
                    net.open = open2
                    where = lambda: '%s: %s at message %d' % (mode, what, at)
                    db = connector(net, sslmode=mode, password='pw')()
                    try:
                        db.connect()
                        caught = None
                    except Exception as e:
                        caught = e
                    R.trans()
                    if caught is None:
                        R.check(not db.closed and db.version_info[:2] == (16, 0) or True, 'late:ok', where)
                        continue
                    R.check(isinstance(caught, X.Error), 'late:error', lambda: '%s: %r' % (where(), caught))
                    want = {'error': '42501', 'fatal': '57P01'}.get(what)
                    R.check(caught.code == want if want else isinstance(caught, X.ConnectionError), 'late:class', lambda: '%s: %r' % (where(), caught))
                    R.check(all(s.closed for s in net.sockets), 'late:sockets', lambda: '%s: a socket was left open' % where())
                    R.check(db.closed, 'late:open', where)
                    R.check(len(net.made) == 1, 'late:attempts', lambda: '%s: %r' % (where(), net.made))
    R.outcome('late')


HOSTS = {
    '127.0.0.1': 'IP4', '10.1.2.3': 'IP4', '::1': 'IP6', 'fe80::1': 'IP6', 'localhost': 'Host', 'db.example.org': 'Host',
    '1.2.3.4.example.org': 'Host', '256.1.1.1': 'Host', '127.0.0.1.': 'Host', 'a:b': 'Host', '::g': 'Host',
    '1.2.3.4:5': 'Host', 'deadbeef.example': 'Host',
}


def t_fit(R):
    "the kind of connector for each kind of address"
    from postgresql.driver import pq3
    D = pq3.Driver()
    for host, kind in HOSTS.items():
        if not R.case([host]):
            continue
        with R.guarded('fit', 10):
            R.trans()
            c = D.fit(host=host, port=5432, user='u')
            R.check(type(c).__name__ == kind and c.host == host and int(c.port) == 5432, 'fit', lambda: '%r gives %r' % (host, c))
    for unix in ('/tmp/x', '/tmp/.s.PGSQL.5432'):
        if R.case([unix]):
            with R.guarded('fit', 10):
                c = D.fit(unix=unix, user='u')
                R.check(type(c).__name__ == 'Unix' and c.unix == unix, 'fit', lambda: '%r gives %r' % (unix, c))
    if R.case(['timeouts']):
        with R.guarded('fit', 10), wire.quiet():
            for t in (None, 3, '4', 2.5):
                net = Net([(None, b'N', None, 'trust')])
                connector(net, sslmode='disable', connect_timeout=t)().connect()
                R.check(net.timeouts == [t], 'fit:timeout', lambda: '%r gives %r' % (t, net.timeouts))
    R.outcome('fit')


# -- versions ----------------------------------------------------------------

def t_versions(R):
    "every form of version a server may report"
    from postgresql import versionstring as VS
    heads = [(8, 0), (8, 1, 23), (8, 3), (8, 4, 0), (9, 0), (9, 1, 2), (9, 2), (9, 6, 24), (10,), (10, 4), (14, 11), (16,), (17, 0), (100, 12)]
    states = [('', None, None)] + [(s + l, s, int(l) if l else None) for s in ('alpha', 'beta', 'rc', 'devel') for l in ('', '1', '12')]
    builds = ['', ' (Debian 16.1-1.pgdg120+1)', ' (Ubuntu 9.6.1-0ubuntu0.24.04.1)', ' (EnterpriseDB)', ' Vendor 2.0beta1']
    for h in heads:
        for text, cls, level in states:
            for b in builds:
                plain = '.'.join(map(str, h)) + text
                if not R.case([plain + b]):
                    continue
                with R.guarded('versions', 20), wire.quiet():
                    want = tuple(h) + (None,) * (3 - len(h)) + (cls, level)
                    got = VS.split(plain + b)
                    R.check(got == want, 'versions:split', lambda: '%r: %r' % (plain + b, got))
                    R.check(VS.unsplit(want) == plain, 'versions:unsplit', lambda: '%r: %r' % (want, VS.unsplit(want)))
                    full = tuple(x or 0 for x in want[:-2]) + (cls or 'final', level or 0)
                    R.check(VS.normalize(got) == full, 'versions:normalize', lambda: '%r: %r' % (got, VS.normalize(got)))

                    def server(world, attempt):
                        s = M.Backend()
                        s.settings['server_version'] = plain + b
                        return s
                    w = wire.World(server=server)
                    db = wire.connect(w)
                    R.check(tuple(db.version_info) == full, 'versions:connection', lambda: '%r: %r' % (plain + b, db.version_info))
                    R.check(db.query.first('SELECT 7::int4 AS i') == 7, 'versions:use', 'a query')
                    db.close()
                    R.trans()
                    R.state(plain + b)
