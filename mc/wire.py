"""
The world the driver runs in: sockets whose every answer is a choice, with a
model server (mc.pgmodel) at the other end, and the explorer that enumerates
the choices.

A choice point has a default (answer 0) and alternatives. `explore` runs the
program once with defaults only, then with every single deviation, then every
pair, up to the bound (deviation-bounded depth-first search; every execution
runs to completion). A schedule is written as [[index, answer], ...].
"""
import errno

from . import core
from .pgmodel import Backend, ProtocolBreach


class Chooser:
    def __init__(self, schedule=()):
        self.want = dict((i, a) for i, a in schedule)
        self.schedule = tuple((i, a) for i, a in schedule)
        self.trace = []         # number of answers at each point
        self.labels = []

    def choose(self, options, label=''):
        i = len(self.trace)
        self.trace.append(len(options))
        self.labels.append(label)
        if i > 4000:
            raise core.Horizon('more than 4000 environment steps')
        a = self.want.get(i, 0)
        if a >= len(options):
            raise core.Diverged('replay diverged at choice %d (%s): %d of %d' % (i, label, a, len(options)))
        return options[a]


def explore(R, key, run, bound, limit=None, schedules=None):
    """
    run(chooser) -> anything; every schedule of at most `bound` deviations is
    executed. R.case(key + [schedule]) is asked first. `limit` bounds the
    number of points of the default run at which the *first* deviation may
    happen (None: all).
    """
    stack = [()]
    n = 0
    while stack:
        sched = stack.pop()
        ch = Chooser(sched)
        if R.only is not None:
            # a replay: run the one schedule only
            want = R.only
            if list(want[:-1]) != core.jsonable(list(key)):
                return n
            sched = tuple((i, a) for i, a in want[-1])
            ch = Chooser(sched)
            R.case(list(key) + [[list(x) for x in sched]])
            run(ch)
            R.note('replayed')
            return 1
        if not R.case(list(key) + [[list(x) for x in sched]]):
            continue
        run(ch)
        n += 1
        R.trans(len(ch.trace))
        if len(ch.trace) <= max([i for i, a in sched] or [-1]):
            R.note('diverged')
            continue
        if len(sched) < bound:
            start = sched[-1][0] + 1 if sched else 0
            for i in range(len(ch.trace) - 1, start - 1, -1):
                for a in range(ch.trace[i] - 1, 0, -1):
                    stack.append(sched + ((i, a),))
    return n


# ---------------------------------------------------------------------------

def oserr(code):
    import os
    return OSError(code, os.strerror(code))


class World:
    """
    Everything outside of the client. `sched`: short sends and receives,
    try-again answers; `faults`: the connection may die; `asyncs`: menu of
    wire messages the server may put between its own.
    """

    def __init__(self, chooser=None, sched=False, faults=False, asyncs=(), server=None, fine=False, kill=None, idle=False, pieces=0):
        self.pieces = pieces        # at most that many messages are received at once
        self.ch = chooser or Chooser()
        self.idle = idle            # asynchronous messages also when nothing else is under way
        self.kill = kill            # an error message the server may end with
        self.sched, self.faults, self.asyncs, self.fine = sched, faults, tuple(asyncs), fine
        self.make_server = server or (lambda world, attempt: Backend())
        self.sockets = []
        self.steps = 0
        self.injected = []          # asynchronous messages put into a stream
        self.armed = True           # choices are offered only when armed
        self.attempts = 0

    def choose(self, options, label=''):
        self.steps += 1
        if self.steps > 20000:
            raise core.Horizon('more than 20000 socket operations')
        if not self.armed or len(options) == 1:
            return options[0]
        return self.ch.choose(options, label)

    # -- connecting ------------------------------------------------------
    def open(self, timeout=None):
        self.attempts += 1
        srv = self.make_server(self, self.attempts)
        if isinstance(srv, BaseException):
            raise srv
        s = Sock(self, srv)
        self.sockets.append(s)
        return s

    @property
    def server(self):
        return self.sockets[-1].srv

    def dead(self):
        return any(s.dead for s in self.sockets)


# how a connection breaks, and what reading it reports
BROKEN = {'RESET': errno.ECONNRESET, 'EPIPE': errno.ECONNRESET, 'ABORTED': errno.ECONNABORTED, 'UNREACH': errno.EHOSTUNREACH}


def cuts(n, bounds, fine):
    "prefix lengths of the n available bytes worth delivering alone"
    c = {1, 4, n - 1}
    for b in (bounds[:2] + bounds[-2:] if not fine else bounds):
        c |= {b - 1, b, b + 1, b + 4}
    return sorted(x for x in c if 0 < x < n)


class Sock:
    def __init__(self, world, srv):
        self.w, self.srv = world, srv
        self.inb = b''              # bytes on their way to the client
        self.bounds = []            # message ends in self.inb
        self.dead = None            # None, or how the connection died
        self.drain = 0              # bytes still delivered when dead
        self.closed = False
        self.sent = b''
        self.secured = False
        self.timeouts = []
        self.out = []               # every message the server sent

    # -- socket interface -----------------------------------------------
    def fileno(self):
        return 999

    def settimeout(self, t):
        self.timeouts.append(t)

    def gettimeout(self):
        return None

    def setblocking(self, b):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def check_open(self):
        if self.closed:
            raise oserr(errno.EBADF)

    def send(self, data, flags=0):
        self.check_open()
        data = bytes(data)
        if self.dead:
            return self.dead_send(data)
        if self.srv_closed():
            # the peer is gone: the kernel takes the data or resets
            return len(data)
        n = len(data)
        opts = [n]
        if n and self.w.sched:
            opts += sorted({x for x in (1, 4, 5, n // 2, n - 1) if 0 < x < n})
            opts += [errno.EAGAIN, errno.EINTR] and ['EAGAIN', 'EINTR']
        if n and self.w.faults:
            opts += ['EPIPE', 'RESET', 'UNREACH', 'LOST'] + [('cut', x) for x in sorted({1, n // 2, n - 1}) if 0 < x < n]
        a = self.w.choose(opts, 'send %d' % n)
        if a == 'EAGAIN':
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        if a == 'EINTR':
            raise InterruptedError(errno.EINTR, 'Interrupted system call')
        if a in ('EPIPE', 'RESET', 'UNREACH'):
            self.die(a)
            return self.dead_send(data)
        if a == 'LOST':
            # accepted by the kernel; the server never sees it
            self.die('EOF')
            return n
        if type(a) is tuple:
            # the server got a part, then the connection died
            self.take(data[:a[1]])
            self.die('EOF', keep=True)
            return n
        self.take(data[:a])
        return a

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    def recv(self, n, flags=0):
        self.check_open()
        if self.dead:
            if self.drain:
                return self.deliver(min(n, self.drain))
            if self.dead in BROKEN:
                raise oserr(BROKEN[self.dead])
            return b''
        if not self.inb and self.srv_closed():
            return b''
        have = min(n, len(self.inb))
        if self.w.pieces and len(self.bounds) >= self.w.pieces:
            have = min(have, self.bounds[self.w.pieces - 1])
        bounds = [b for b in self.bounds if b < have]
        opts = [have]
        if have and self.w.sched:
            opts += cuts(have, bounds, self.w.fine)
        if self.w.sched:
            opts += ['EAGAIN', 'EINTR', 'ETIMEDOUT']
        if self.w.faults:
            opts += ['EOF', 'RESET', 'ABORTED']
            opts += [('EOF', c) for c in cuts(have + 1, bounds, True)]
        if not have and len(opts) == 1:
            raise core.Horizon('the client waits and the server has nothing to say')
        if not have and not self.w.faults:
            opts[0] = 'WAIT'
        a = self.w.choose(opts, 'recv %d' % have)
        if a == 'EAGAIN':
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        if a == 'EINTR':
            raise InterruptedError(errno.EINTR, 'Interrupted system call')
        if a == 'ETIMEDOUT':
            raise oserr(errno.ETIMEDOUT)
        if a in ('EOF', 'RESET', 'ABORTED'):
            self.die(a)
            return self.recv(n)
        if type(a) is tuple:
            self.die('EOF')
            self.drain = a[1]
            return self.recv(n)
        if a == 'WAIT' or not a:
            raise core.Horizon('the client waits and the server has nothing to say')
        return self.deliver(a)

    def recv_into(self, buf, n=0, flags=0):
        d = self.recv(n or len(buf))
        buf[:len(d)] = d
        return len(d)

    # -- the other end ---------------------------------------------------
    def srv_closed(self):
        return getattr(self.srv, 'closed', False)

    def deliver(self, n):
        d, self.inb = self.inb[:n], self.inb[n:]
        self.bounds = [b - n for b in self.bounds if b > n]
        if self.dead:
            self.drain -= n
        return d

    def die(self, how, keep=False):
        self.dead = how
        if not keep:
            self.drain = 0
        else:
            self.drain = len(self.inb)

    def dead_send(self, data):
        raise oserr(BROKEN['UNREACH'] if self.dead == 'UNREACH' else errno.EPIPE)

    def take(self, data):
        self.sent += data
        for m in self.srv.feed(data):
            self.maybe_async()
            if self.dead:
                return
            self.put(m)
        self.maybe_async(tail=True)

    def put(self, m):
        self.out.append(m)
        self.inb += m
        self.bounds.append(len(self.inb))

    def maybe_async(self, tail=False):
        if self.w.kill and not self.dead and getattr(self.srv, 'phase', '') in ('ready', 'copyin'):
            if self.w.choose([False, True], 'kill'):
                self.put(self.w.kill)
                self.die('EOF', keep=True)
                return
        if not self.w.asyncs or getattr(self.srv, 'phase', '') not in ('ready', 'copyin')[:1 + self.w.idle]:
            return
        if tail and not self.inb and not self.w.idle:
            return
        a = self.w.choose([None] + list(range(len(self.w.asyncs))), 'async')
        if a is not None:
            for m in self.w.asyncs[a]:
                self.w.injected.append(m)
                self.put(m)


def factory(world, **params):
    "a socket factory of the documented kind whose sockets are the world's"
    from postgresql.python.socket import SocketFactory

    class Factory(SocketFactory):
        def __init__(self, **kw):
            super().__init__(**kw)

        def __call__(self, timeout=None):
            return world.open(timeout)

        def secure(self, s):
            err = world.tls(s) if hasattr(world, 'tls') else None
            if err:
                raise err
            s.secured = True
            return s
    params = params or {'socket_create': (2, 1), 'socket_connect': ('model', 5432)}
    return Factory(**params)


def protocol_connection(world, user=b'u', database=b'd', password=b'', settings=()):
    from postgresql.protocol import client3
    pq = client3.Connection(
        factory(world),
        tuple(((b'user', user), (b'database', database)) + tuple(settings)),
        password=password)
    return pq


def connector(world, connection=None, **kw):
    "a driver connector whose connections live in the world"
    from postgresql.driver import pq3

    class IP4(pq3.IP4):
        def create_socket_factory(self, **params):
            return factory(world, **params)

    class Driver(pq3.Driver):
        def ip4(self, **k):
            return IP4(driver=self, **k)
    kw.setdefault('user', 'u')
    kw.setdefault('database', 'd')
    kw.setdefault('sslmode', 'disable')
    driver = Driver(connection=connection) if connection else Driver()
    return driver.ip4(host='127.0.0.1', port=5432, **kw)


def connect(world, **kw):
    "kw: connection (a class), and parameters of the connection"
    armed, world.armed = world.armed, False
    try:
        db = connector(world, **kw)()
        db.connect()
    finally:
        world.armed = armed
    return db


def canon(m):
    "a received message, as a comparable value"
    if isinstance(m, tuple) and not hasattr(m, 'type'):
        return ('row',) + tuple(m)
    if isinstance(m, bytes):
        return ('data', m)
    if hasattr(m, 'bytes'):
        try:
            return (m.type, bytes(m.bytes()))
        except Exception:
            pass
    return (getattr(m, 'type', None), repr(m))


def canon_error(e):
    return None if e is None else tuple(sorted(e.items()))


class quiet:
    "capture messages, warnings and stderr of the driver"

    def __enter__(self):
        import sys, io, warnings
        self.err, sys.stderr = sys.stderr, io.StringIO()
        self.hook, sys.excepthook = sys.excepthook, (lambda *a: None)
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, *a):
        import sys
        sys.stderr, sys.excepthook = self.err, self.hook
        self.w.__exit__(*a)
