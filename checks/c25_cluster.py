"""
C25 - a cluster object never loses track of its server: every sequence of
operations of a cluster over a scripted operating system (processes, signals,
the pid file, the clock, the server's answers), with the server moving on
between any two steps of the library.

Nothing real is started, signalled or removed outside of a scratch directory:
Popen, kill, the clock and the connections are stand-ins.
"""
import builtins
import contextlib
import errno
import itertools
import os
import shutil
import signal
import subprocess
import tempfile
import time

from mc import core, wire

PROPERTY = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sequences of operations and of the reactions of a scripted operating system up to a bound on deviations, real code over stand-ins for processes, signals, clock and server'
RULE = 'an execution is one sequence of operations with one schedule of the server and the operating system; a state is the state of process, pid file and object after an operation'
ASSUMPTIONS = ['a pid file left behind names a process that does not exist (its reuse cannot be told by the library)', 'a process that is not a child is gone when it has exited',
               'the operating system is the one of the stand-ins: POSIX signals, zombies until they are polled']

TIMEOUT, DELAY = 0.2, 0.05

# how a server starts: what it does, one item at a time
BOOTS = {
    'ok': ['empty', 'pid', 'booting', 'ready'],
    'slow': ['empty', 'pid'] + ['booting'] * 12 + ['ready'],
    'early': ['die'],
    'empty': ['empty', 'die'],
    'late': ['empty', 'pid', 'booting', 'unlink', 'die'],
    'crash': ['empty', 'pid', 'booting', 'die'],
}


class Proc:
    def __init__(self, pid, script, child):
        self.pid, self.script, self.child = pid, list(script), child
        self.phase = 'spawned'
        self.exit = None        # exit status
        self.reaped = False
        self.hup = 0
        self.stopping = False
        self.ignores = False


class Sim:
    def __init__(self, ch, start='none'):
        self.ch = ch
        self.dir = tempfile.mkdtemp(prefix='mc25-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.data = self.dir + '/data'
        self.pidfile = self.data + '/postmaster.pid'
        self.now = 1000.0
        self.procs = {}
        self.next = 40001
        self.signals = []       # (pid, signal, what became of it)
        self.spawned = []       # command lines
        self.window = []
        self.armed = True
        self.noexec = False
        self.quiet = 0
        if start != 'void':
            os.mkdir(self.data)
            os.mkdir(self.data + '/base')
            with open(self.data + '/base/1', 'w') as f:
                f.write('x')
            with open(self.data + '/postgresql.conf', 'w') as f:
                f.write("listen_addresses = 'localhost'\nport = 5999\n")
            os.mkdir(self.dir + '/elsewhere')
            with open(self.dir + '/elsewhere/kept', 'w') as f:
                f.write('x')
            if start == 'links':
                os.symlink(self.dir + '/elsewhere', self.data + '/pg_wal')
                os.symlink(self.dir + '/nowhere', self.data + '/base/2')
        if start == 'stale':
            self.write(39999)
        if start == 'foreign':
            p = self.spawn('ok', False)
            while p.script:
                self.step()
        self.start = start

    def spawn(self, boot, child):
        p = Proc(self.next, BOOTS[boot], child)
        self.next += 1
        self.procs[p.pid] = p
        return p

    def write(self, pid):
        with open(self.pidfile, 'w') as f:
            if pid:
                f.write('%d\n%s\n%d\n' % (pid, self.data, 1000))

    def alive(self):
        return [p for p in self.procs.values() if p.exit is None]

    def die(self, p, code):
        p.exit = code
        p.phase = 'dead'
        p.script = []
        if not p.child:
            p.reaped = True

    def step(self):
        "the server does the next thing"
        for p in self.alive():
            if not p.script:
                continue
            x = p.script.pop(0)
            if x == 'empty':
                if os.path.exists(self.pidfile) and os.path.getsize(self.pidfile):
                    # left behind: checked, removed, made again
                    os.unlink(self.pidfile)
                self.write(None)
            elif x == 'pid':
                self.write(p.pid)
            elif x == 'unlink':
                os.unlink(self.pidfile)
            elif x == 'die':
                self.die(p, 0 if p.stopping else 1)
                continue
            p.phase = x
        self.look()

    def look(self):
        "what is the case now"
        try:
            with open(self.pidfile) as f:
                n = f.readline().strip()
        except OSError:
            n = None
        a = self.alive()
        self.window.append((tuple((p.pid, p.child, p.phase) for p in a), n))

    def point(self, label, rest=(0, 1)):
        "the server may go on before the library goes on"
        if not self.armed:
            return
        if not any(p.script for p in self.alive()):
            return
        for i in range(self.ch.choose(rest, label)):
            self.step()

    # -- stand-ins -----------------------------------------------------------
    def sleep(self, s):
        self.quiet += 1
        if self.quiet > 3000:
            raise core.Horizon('more than 3000 sleeps')
        self.now += s
        self.point('sleep', (1, 0, 3))

    def time(self):
        return self.now

    def kill(self, pid, sig):
        self.point('kill')
        if not isinstance(pid, int) or isinstance(pid, bool):
            raise TypeError('an integer is required (got %r)' % (pid,))
        p = self.procs.get(pid)
        if pid <= 1 or p is None or p.reaped:
            if sig:
                self.signals.append((pid, int(sig), 'reaped' if p and p.child else 'nobody'))
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        if not sig:
            return
        self.signals.append((pid, int(sig), 'zombie' if p.exit is not None else 'server'))
        if p.exit is not None:
            return
        if sig == signal.SIGKILL:
            self.die(p, -9)
        elif sig == signal.SIGHUP:
            p.hup += 1
        elif sig in (signal.SIGTERM, signal.SIGINT, signal.SIGQUIT):
            if p.phase == 'spawned':
                # not yet handling signals
                self.die(p, -int(sig))
            elif sig == signal.SIGTERM and (p.ignores or self.armed and self.ch.choose(('stops', 'waits'), 'term') == 'waits'):
                # clients are connected: it waits for them
                p.ignores = True
            else:
                p.stopping = True
                p.script = ['stopping'] + (['unlink'] if os.path.exists(self.pidfile) else []) + ['die']
        self.look()

    def popen(self, cmd, *a, **kw):
        self.point('popen')
        if self.noexec:
            raise FileNotFoundError(errno.ENOENT, 'No such file', cmd[0])
        self.spawned.append([str(x) for x in cmd])
        running = bool(self.alive())
        boot = self.ch.choose(list(BOOTS), 'boot') if self.armed else 'ok'
        if running or not os.path.exists(self.data):
            boot = 'early'      # the lock file of the other one
        p = self.spawn(boot, True)
        self.look()
        return FakePopen(self, p, kw)

    def connect(self, kw):
        from postgresql import exceptions as X
        self.point('connect')
        phases = [p.phase for p in self.alive()]
        if 'ready' in phases:
            if self.armed and self.ch.choose(('refused', 'trusted'), 'auth') == 'trusted':
                return
            err = X.AuthenticationSpecificationError('role does not exist')
        elif 'booting' in phases or 'stopping' in phases:
            err = X.ServerNotReadyError('the database system is starting up')
        else:
            err = ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        attempt = type('Attempt', (), {'error': err})()
        database = type('Database', (), {'failures': [attempt]})()
        e = X.ClientCannotConnectError('could not connect', creator=database)
        e.database = database
        raise e

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Pipe:
    def close(self):
        pass


class FakePopen:
    def __init__(self, sim, proc, kw):
        self.sim, self.proc, self.pid, self.returncode = sim, proc, proc.pid, None
        self.stdin = Pipe() if kw.get('stdin') == subprocess.PIPE else None
        self.stdout = Pipe() if kw.get('stdout') == subprocess.PIPE else None
        self.stderr = None

    def poll(self):
        self.sim.point('poll')
        if self.proc.exit is not None:
            self.proc.reaped = True
            self.returncode = self.proc.exit
        return self.returncode

    def send_signal(self, sig):
        if self.poll() is None:
            self.sim.kill(self.pid, sig)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def wait(self, timeout=None):
        end = self.sim.now + (100 if timeout is None else timeout)
        while self.poll() is None:
            if self.sim.now >= end:
                raise subprocess.TimeoutExpired('postgres', timeout)
            self.sim.sleep(0.01)
        return self.returncode


class FakeDriver:
    def __init__(self, sim):
        self.sim, self.asked = sim, []

    def fit(self, **kw):
        self.asked.append(kw)
        sim = self.sim

        class Connection:
            closed = False

            def connect(self):
                return sim.connect(kw)

            def close(self):
                pass
        return Connection


@contextlib.contextmanager
def stand_ins(sim):
    "put into the module whatever it calls of the operating system"
    from postgresql import cluster
    real = {os.kill: sim.kill, time.sleep: sim.sleep, time.time: sim.time, time.monotonic: sim.time, time.perf_counter: sim.time, subprocess.Popen: sim.popen}

    class Time:
        sleep, time, monotonic, perf_counter = staticmethod(sim.sleep), staticmethod(sim.time), staticmethod(sim.time), staticmethod(sim.time)

        def __getattr__(self, n):
            return getattr(time, n)

    class Sp:
        Popen = staticmethod(sim.popen)

        def __getattr__(self, n):
            return getattr(subprocess, n)

    def opens(path, *a, **kw):
        if str(path).endswith('postmaster.pid'):
            sim.point('open')
        return builtins.open(path, *a, **kw)
    saved = dict(vars(cluster))
    g = vars(cluster)
    for k, v in saved.items():
        try:
            if v in real:
                g[k] = real[v]
        except TypeError:
            pass
        if v is time:
            g[k] = Time()
        elif v is subprocess:
            g[k] = Sp()
    g['open'] = opens
    oskill, os.kill = os.kill, sim.kill
    try:
        yield cluster
    finally:
        os.kill = oskill
        for k in list(g):
            if k not in saved:
                del g[k]
            else:
                g[k] = saved[k]


class Installation:
    version_info = (16, 1, 0, 'final', 0)
    postmaster = None
    postgres = '/bin/postgres'
    initdb = '/bin/initdb'
    pg_ctl = '/bin/pg_ctl'


OPS = ['start', 'start-set', 'wait-up', 'stop', 'shutdown', 'kill', 'wait-down', 'running', 'pid', 'ready', 'reload', 'restart', 'with', 'drop', 'noexec', 'killed']
STARTS = ['none', 'stale', 'foreign', 'void', 'links']
SIG = {'stop': signal.SIGTERM, 'shutdown': signal.SIGINT, 'kill': signal.SIGKILL, 'reload': signal.SIGHUP}


def tasks(tier):
    T = []
    deep = tier != 'quick'
    for s in STARTS:
        for f in OPS:
            T.append(('run', 'c', {'start': s, 'first': f, 'depth': 4 if deep else 3, 'bound': 2 if deep else 1}))
            T.append(('run', 'c', {'start': s, 'first': f, 'depth': 3 if deep else 2, 'bound': 3 if deep else 2}))
    for f in OPS:
        T.append(('started', 'c', {'first': f, 'depth': 3 if deep else 2, 'bound': 2}))
    T.append(('init', 'c', {}))
    T.append(('address', 'c', {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def sensible(seq):
    "no operation that cannot tell anything new"
    for a, b in zip(seq, seq[1:]):
        if a == b and a in ('running', 'pid', 'ready', 'noexec', 'reload', 'wait-up', 'wait-down'):
            return False
    return seq[-1] not in ('noexec', 'killed')


def t_run(R, start, first, depth, bound):
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        if sensible(seq) and not ('drop' in seq[:-1] and set(seq[seq.index('drop') + 1:]) - {'running', 'pid', 'ready', 'stop'}):
            explored(R, [start, seq, bound], start, seq, bound, ())


def t_started(R, first, depth, bound):
    "from a server that this object has started and that is ready"
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        if sensible(seq) and 'drop' not in seq[:-1]:
            explored(R, ['started', seq, bound], 'none', seq, bound, ('start', 'wait-up'))
            explored(R, ['restarted', seq, bound], 'none', seq, bound, ('start', 'wait-up', 'kill', 'wait-down', 'start'))


def explored(R, key, start, seq, bound, prefix):
    def once(ch):
        with R.guarded('cluster', 20), wire.quiet():
            sim = Sim(ch, start)
            try:
                with stand_ins(sim) as cluster:
                    program(R, cluster, sim, seq, prefix)
            finally:
                sim.close()
    wire.explore(R, key, once, bound)


def program(R, cluster, sim, seq, prefix):
    c = cluster.Cluster(Installation(), sim.data)
    c.driver = FakeDriver(sim)
    sim.armed = False
    for op in prefix:
        operate(R, cluster, c, sim, op, lambda: repr((seq, prefix)))
    sim.armed = True
    for i, op in enumerate(seq):
        where = lambda: '%s %r at %d\nspawned %r signals %r now %r\nwindow %r' % (sim.start, prefix + seq, i, sim.spawned, sim.signals, sim.now, sim.window[-8:])
        operate(R, cluster, c, sim, op, where)
        R.state([op, sim.start, [(p.phase, p.child, p.reaped) for p in sim.procs.values()], os.path.exists(sim.pidfile)])
        if R.violations:
            break


def operate(R, cluster, c, sim, op, where):
    from postgresql import exceptions as X
    if op in ('noexec', 'killed'):
        # not the library: the executable goes away or comes back; the server is killed
        if op == 'noexec':
            sim.noexec = not sim.noexec
        for p in sim.alive() if op == 'killed' else ():
            sim.die(p, -9)
        return
    sim.window = []
    sim.look()
    sim.quiet = 0
    t0 = sim.now
    nsig, nspawn = len(sim.signals), len(sim.spawned)
    out = err = None
    try:
        if op == 'start':
            out = c.start()
        elif op == 'start-set':
            out = c.start(settings={'port': '5', 'x': 'a b'})
        elif op == 'wait-up':
            out = c.wait_until_started(timeout=TIMEOUT, delay=DELAY)
        elif op == 'wait-down':
            out = c.wait_until_stopped(timeout=TIMEOUT, delay=DELAY)
        elif op in SIG:
            out = getattr(c, op)()
        elif op == 'running':
            out = c.running()
        elif op == 'pid':
            out = c.pid
        elif op == 'ready':
            out = c.ready_for_connections()
        elif op == 'restart':
            out = c.restart(timeout=TIMEOUT)
        elif op == 'with':
            with c as x:
                R.check(x is c, 'with:value', where)
                R.check(any(ready(w) for w in sim.window), 'with:ready', where)
                inside = len(sim.signals), sim.alive() and [p.pid for p in sim.alive()]
                mark = len(sim.window)
        elif op == 'drop':
            out = c.drop()
        else:
            raise AssertionError(op)
    except (cluster.ClusterError, X.Error, OSError) as e:
        err = e
    except (core.Horizon, core.Diverged):
        raise
    except Exception as e:
        R.violate(op + ':raises:' + type(e).__name__, '%s: %r' % (where(), e))
        return
    sim.look()
    W = sim.window
    took = sim.now - t0
    sigs, spawns = sim.signals[nsig:], sim.spawned[nspawn:]
    alive = [w[0] for w in W]
    children = [[x for x in a if x[1]] for a in alive]
    # running as the object can tell: its child, or a process the pid file names
    visible = [any(p[1] or w[1] == str(p[0]) for p in w[0]) for w in W]
    where2 = lambda: '%s\n%s gives %r %r after %.2f s' % (where(), op, out, err, took)

    if isinstance(err, OSError):
        R.check(sim.noexec and op in ('start', 'start-set', 'restart', 'with') and isinstance(err, FileNotFoundError) or sim.start == 'void' and isinstance(err, FileNotFoundError), op + ':raises:' + type(err).__name__, where2)
    # no signal to a process that is not the server
    for pid, sig, whom in sigs:
        # what the pid file of a server that was killed names cannot be told from a server
        R.check(whom != 'reaped' or any(w[1] == str(pid) for w in W), op + ':signalled-gone', where2)
        if whom == 'nobody' and all(children) and op in SIG:
            R.violate(op + ':signalled-other', where2())
    if op in SIG:
        R.check(err is None, op + ':raises', where2)
        R.check(len(sigs) <= 1 and all(s == SIG[op] for _, s, _ in sigs), op + ':signal', where2)
        if all(visible) and len({p for a in alive for p in a}) == 1 or all(visible) and all(children):
            R.check(len(sigs) == 1 and sigs[0][2] in ('server', 'zombie'), op + ':delivered', where2)
        R.check(not spawns, op + ':spawned', where2)
    elif op == 'running':
        R.check(err is None and out in (True, False) and out in visible + [bool(children[0]) or visible[0]], 'running:value', where2)
        R.check(c.state in ('running', 'stopped', 'void'), 'state', where2)
    elif op == 'pid':
        pids = {p[0] for a in alive for p in a}
        R.check(err is None and (out is None or isinstance(out, int)), 'pid:type', where2)
        if all(children):
            R.check(out in pids, 'pid:child', where2)
        if out is None:
            R.check(not all(visible), 'pid:none', where2)
        if not any(alive) and not any(w[1] for w in W):
            R.check(out is None, 'pid:gone', where2)
    elif op == 'ready' and not (sim.start == 'void' and isinstance(err, FileNotFoundError)):
        R.check(err is None and (out is True or out is False or out is None), 'ready:type', where2)
        if out is True:
            R.check(any(ready(w) for w in W), 'ready:true', where2)
        else:
            R.check(not all(ready(w) and v for w, v in zip(W, visible)), 'ready:false', where2)
            if out is None:
                R.check(not all(visible), 'ready:none', where2)
            else:
                R.check(any(visible), 'ready:not-running', where2)
    elif op in ('start', 'start-set'):
        if err is None:
            R.check(len(spawns) == (0 if all(visible) else 1) or (any(visible) and not all(visible) and len(spawns) <= 1), op + ':spawned', where2)
            for cmd in spawns:
                want = ['/bin/postgres', '-D', sim.data] + (['--port=5', '--x=a b'] if op == 'start-set' else [])
                R.check(cmd == want, op + ':command', where2)
            if spawns:
                R.check(c.daemon_process is not None and c.daemon_process.pid == sim.next - 1, op + ':process', where2)
        R.check(not sigs, op + ':signal', where2)
    elif op == 'wait-up':
        waited_up(R, cluster, X, sim, W, visible, children, err, took, op, where2)
    elif op == 'wait-down':
        if err is None:
            R.check(not visible[-1] or not all(visible), 'wait-down:running', where2)
            R.check(not children[-1], 'wait-down:child', where2)
        else:
            R.check(isinstance(err, cluster.ClusterTimeoutError), 'wait-down:raises:' + type(err).__name__, where2)
            R.check(any(visible) and took >= TIMEOUT - 1e-6, 'wait-down:early', where2)
        R.check(took <= TIMEOUT + 2 * DELAY, 'wait-down:long', where2)
        R.check(not sigs and not spawns, 'wait-down:signal', where2)
    elif op == 'restart':
        if err is None:
            R.check(len(spawns) == 1 and any(ready(w) for w in W), 'restart:ready', where2)
            first = {p[0] for p in alive[0]}
            R.check(not first & {p[0] for p in alive[-1]}, 'restart:old', where2)
        else:
            R.check(isinstance(err, (cluster.ClusterError, X.ServerNotReadyError, OSError)), 'restart:raises:' + type(err).__name__, where2)
        R.check(took <= 2 * TIMEOUT + 4 * DELAY, 'restart:long', where2)
    elif op == 'with':
        if err is None:
            if len(spawns):
                R.check(not children[-1], 'with:left', where2)
            elif all(visible[:mark]):
                R.check(not [s for s in sigs if s[1]], 'with:stopped', where2)
        else:
            R.check(isinstance(err, (cluster.ClusterError, X.ServerNotReadyError, OSError)), 'with:raises:' + type(err).__name__, where2)
    elif op == 'drop':
        if err is None:
            R.check(not os.path.exists(sim.data), 'drop:left', where2)
            R.check(not children[-1] and not (alive[-1] and visible[0] and not any(p[2] == 'unlink' for a in alive for p in a)), 'drop:running', where2)
            if os.path.exists(sim.dir + '/elsewhere'):
                R.check(os.path.exists(sim.dir + '/elsewhere/kept'), 'drop:elsewhere', where2)
        else:
            R.check(sim.start == 'void', 'drop:raises', where2)


def ready(w):
    return any(p[2] == 'ready' for p in w[0])


def waited_up(R, cluster, X, sim, W, visible, children, err, took, op, where2):
    if err is None:
        R.check(any(ready(w) for w in W), op + ':ready', where2)
    elif isinstance(err, cluster.ClusterStartupError):
        # the child is gone
        R.check(not children[-1], op + ':startup', where2)
    elif isinstance(err, cluster.ClusterNotRunningError):
        R.check(not all(visible), op + ':notrunning', where2)
    elif isinstance(err, (cluster.ClusterTimeoutError, X.ServerNotReadyError)):
        R.check(took >= TIMEOUT - 1e-6, op + ':early', where2)
        R.check(not all(ready(w) for w in W), op + ':timeout', where2)
    elif sim.start != 'void':
        R.violate(op + ':raises:' + type(err).__name__, where2())
    R.check(took <= TIMEOUT + 2 * DELAY, op + ':long', where2)


# -- making one ---------------------------------------------------------------
def t_init(R):
    from postgresql import cluster as C
    opts = [{}, {'encoding': 'latin1'}, {'user': 'me'}, {'authentication': 'trust', 'user': 'u v'}, {'extra_arguments': ('--x', 5)}, {'bogus': 1}]
    for kw in opts:
        for password in (None, 'p w', '\u00e9', ''):
            for timeout in (None, 3):
                for end in ('ok', 'fails', 'fails-bytes', 'hangs', 'noexec'):
                    if not R.case([kw, password, timeout, end]):
                        continue
                    with R.guarded('init', 10), wire.quiet():
                        init(R, C, kw, password, timeout, end)


def init(R, C, kw, password, timeout, end):
    d = tempfile.mkdtemp(prefix='mc25-')
    seen = {}

    class P:
        returncode = None
        n = 0

        def __init__(self, cmd, **k):
            if end == 'noexec':
                raise FileNotFoundError(2, 'no initdb')
            seen['cmd'] = [str(x) for x in cmd]
            for x in seen['cmd']:
                if x.startswith('--pwfile='):
                    seen['file'] = x[9:]
                    with open(x[9:], 'rb') as f:
                        seen['password'] = f.read()
                    seen['mode'] = os.stat(x[9:]).st_mode & 0o77

        def communicate(self, *a, timeout=None):
            if end == 'hangs' and timeout is not None and not seen.get('killed'):
                raise subprocess.TimeoutExpired('initdb', timeout)
            self.returncode = -9 if seen.get('killed') else {'ok': 0, 'hangs': 0}.get(end, 1)
            return b'out', {'fails': b'it failed', 'fails-bytes': b'\xff\xfe it\nfailed'}.get(end, b'')

        def kill(self):
            seen['killed'] = True

        def poll(self):
            return self.returncode

        def wait(self, timeout=None):
            return self.communicate(timeout=timeout) and self.returncode

    class Sp:
        Popen = P

        def __getattr__(self, n):
            return getattr(subprocess, n)
    names = [k for k, v in vars(C).items() if v is subprocess]
    for k in names:
        setattr(C, k, Sp())
    try:
        c = C.Cluster(Installation(), d + '/data')
        where = lambda: '%r password %r timeout %r %s: saw %r' % (kw, password, timeout, end, seen)
        want = None
        if 'bogus' in kw:
            want = TypeError
        elif end == 'noexec':
            want = OSError
        elif end.startswith('fails') or end == 'hangs' and timeout is not None:
            want = C.InitDBError
        try:
            c.init(password=password, timeout=timeout, **kw)
        except (C.ClusterError, TypeError, OSError) as e:
            R.check(want is not None and isinstance(e, want), 'init:raises:' + type(e).__name__, lambda: '%s: %r' % (where(), e))
        else:
            R.check(want is None, 'init:silent', where)
        R.check(('killed' in seen) is (end == 'hangs' and timeout is not None and want is C.InitDBError), 'init:killed', where)
        if 'cmd' in seen:
            cmd = seen['cmd']
            R.check(cmd[0] == '/bin/initdb' and cmd[1:3] == ['-D', d + '/data'], 'init:command', where)
            for k, o in (('encoding', '-E'), ('user', '-U'), ('authentication', '-A')):
                v = kw.get(k, 'utf-8' if k == 'encoding' else None)
                R.check((o in cmd) is (v is not None) and (v is None or cmd[cmd.index(o) + 1] == v), 'init:option', where)
            x = [str(a) for a in kw.get('extra_arguments', ())]
            R.check(not x or cmd[-len(x):] == x, 'init:extra', where)
            R.check(('password' in seen) is (password is not None), 'init:password', where)
            if password is not None:
                R.check(seen['password'].decode('latin1' if kw.get('encoding') == 'latin1' else 'utf-8') == password, 'init:password', where)
                R.check(seen['mode'] == 0, 'init:password-mode', where)
                R.check(not os.path.exists(seen['file']), 'init:password-left', where)
        R.trans()
    finally:
        for k in names:
            setattr(C, k, subprocess)
        shutil.rmtree(d, ignore_errors=True)


# -- where the server is ---------------------------------------------------------
ADDRESSES = {
    None: None, 'localhost': 'localhost', '*': 'localhost', '': '', '127.0.0.1': '127.0.0.1', '::1': '::1', '10.0.0.1': '10.0.0.1', '10.0.0.1,localhost': 'localhost', '10.0.0.1, localhost': 'localhost',
    '10.0.0.1 , 127.0.0.1': '127.0.0.1', '::1, 127.0.0.1': '127.0.0.1', ' 10.0.0.1 ': '10.0.0.1', 'LOCALHOST': 'localhost', '10.0.0.1,*': 'localhost', '10.0.0.2, ::1': '::1',
}


def t_address(R):
    from postgresql import cluster as C
    for addr, host in ADDRESSES.items():
        for port in (None, '5432', '6000'):
            if not R.case([addr, port]):
                continue
            with R.guarded('address', 10), wire.quiet():
                d = tempfile.mkdtemp(prefix='mc25-')
                try:
                    with open(d + '/postgresql.conf', 'w') as f:
                        f.write(('' if addr is None else "listen_addresses = '%s'\t# comment\n" % addr) + ('#port = 1\n' if port is None else 'port = %s\n' % port))
                    c = C.Cluster(Installation(), d)
                    where = lambda: 'listen_addresses %r port %r: %r %r' % (addr, port, c.address(), c.driver.asked)
                    c.driver = FakeDriver(None)
                    R.check(c.address() == (host, port), 'address', where)
                    c.connection(user='x')
                    k = c.driver.asked[-1]
                    R.check(k['host'] == (host or 'localhost') and str(k['port']) == (port or '5432') and k['user'] == 'x', 'address:connection', where)
                    R.trans()
                finally:
                    shutil.rmtree(d, ignore_errors=True)
