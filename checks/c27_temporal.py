"""
C27 - temporary contexts: every sequence of entering, leaving, failing and
connecting, over the model server, with what the names mean, what is connected
and which schemas exist observed after every step; and the making and removing
of the temporary cluster over stand-ins, every operation failing in turn.

A program is a string of steps:
  (  enter      )  leave      !  leave with an error     ^  leave with an interrupt
  n  new()      x  db is closed     t  db is in a transaction    f  db is in a failed one
  r  db means something else        d  a decorated function is called
  D  a decorated function fails     k  the connection of db is lost
"""
import builtins
import contextlib
import itertools
import os

from mc import core, pgmodel, wire

PROPERTY = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sequences of temporary contexts, of the requests that fail in them, and of the operations of a scripted cluster that fail'
RULE = 'an execution is one sequence of steps with one failure at most, observed after each step'
ASSUMPTIONS = ['the server is mc.pgmodel; schemas are not transactional in it', 'one thread', 'after a failed request of a context only the names and the contexts around it are claimed',
               'after an interrupt the connections stay until the cluster is removed']

NAMES = ('db', 'prepare', 'xact', 'sqlexec', 'do', 'settings', 'proc', 'connector', 'new')
BEFORE = [{}, {'db': 'a', 'new': 'b', 'proc': 'c'}, {k: 'was ' + k for k in NAMES}]


def tasks(tier):
    deep = tier != 'quick'
    T = []
    for b in range(len(BEFORE)):
        for v in ('c', 'py'):
            T.append(('programs', v, {'before': b, 'depth': (6 if b == 1 else 5) + deep, 'ops': '()!^n'}))
        T.append(('programs', 'c', {'before': b, 'depth': (5 if b == 1 else 4) + deep, 'ops': '()!nxtfrdDk'}))
        for prog in ('()', '(n)', '(n!', '((n))', '((!)', '()()', '(d)', '(nt)'):
            T.append(('failing', 'c', {'before': b, 'prog': prog}))
    for source in ('later', 'PGTEST'):
        T.append(('programs', 'c', {'before': 1, 'depth': 4 + deep, 'ops': '()!n', 'source': source}))
    T.append(('cluster', 'c', {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Boom(Exception):
    pass


class Server(pgmodel.Backend):
    env = None

    def run_utility(self, p, out):
        if p.stmt.kind == 'schema':
            self.env.request(p.stmt.sql)
        return super().run_utility(p, out)

    def sys_rows(self, info, params, sql):
        if info['name'] == 'setting_set':
            self.env.request('set')
        return super().sys_rows(info, params, sql)


class Env:
    "the servers behind the connections"

    def __init__(self, fail=None):
        self.schemas = set()
        self.n = 0
        self.fail = fail            # the n-th thing asked fails
        self.asked = []
        self.w = wire.World(server=self.make)
        self.made = []

    def count(self, what):
        self.asked.append(what)
        self.n += 1
        return self.n == self.fail

    def make(self, world, attempt):
        if self.count('connect'):
            return ConnectionRefusedError(111, 'Connection refused')
        b = Server()
        b.env = self
        b.schemas = self.schemas
        return b

    def request(self, sql):
        if self.count(sql):
            raise pgmodel.PgError('42501', 'permission denied')

    def connection(self, user=None, database=None):
        # as a cluster makes them
        c = wire.connector(self.w, user=user or 'test', database=database)()
        return c

    def open(self):
        "connections that are up, other than those that only cancelled"
        return [s for s in self.w.sockets if s.srv.startup is not None and not s.srv.terminated and not s.srv.closed and not s.closed and not s.dead]


def valid(prog):
    "programs whose steps all can happen, and that end outside"
    d = 0
    for i, x in enumerate(prog):
        if x in '(dD' and '^' in prog[:i]:
            # the schema is still there
            return False
        if x == '(':
            d += 1
        elif x in ')!^':
            d -= 1
        elif x not in 'dD' and not d:
            return False
        if d < 0:
            return False
    return d == 0


def t_programs(R, before, depth, ops, source='cluster'):
    for n in range(1, depth + 1):
        for prog in itertools.product(ops, repeat=n):
            if valid(prog) and R.case([before, ''.join(prog)]):
                with R.guarded('temporal', 20), wire.quiet():
                    env = Env()
                    play(R, env, BEFORE[before], prog, source)
                    R.trans(n)


def t_failing(R, before, prog):
    env = Env()
    with wire.quiet():
        play(R, env, BEFORE[before], prog)
    for i in range(1, env.n + 1):
        if R.case([before, prog, i]):
            with R.guarded('failing', 20), wire.quiet():
                play(R, Env(i), BEFORE[before], prog)
                R.trans(len(prog))


@contextlib.contextmanager
def names(values):
    "builtins with these names set and no other of them"
    saved = {k: builtins.__dict__[k] for k in NAMES if k in builtins.__dict__}
    for k in NAMES:
        builtins.__dict__.pop(k, None)
    builtins.__dict__.update(values)
    pgtest = os.environ.pop('PGTEST', None)
    try:
        yield
    finally:
        for k in NAMES:
            builtins.__dict__.pop(k, None)
        builtins.__dict__.update(saved)
        if pgtest is not None:
            os.environ['PGTEST'] = pgtest


@contextlib.contextmanager
def pgtest(env):
    "the environment names a server to be used"
    import postgresql
    if env is None:
        yield
        return

    def opens(iri):
        assert iri == 'pq://test@model', iri
        c = env.connection(user='test')
        c.connect()
        return c
    real, postgresql.open = postgresql.open, opens
    os.environ['PGTEST'] = 'pq://test@model'
    try:
        yield
    finally:
        del os.environ['PGTEST']
        postgresql.open = real


def meanings():
    return {k: builtins.__dict__[k] for k in NAMES if k in builtins.__dict__}


def play(R, env, before, prog, source='cluster'):
    from postgresql import exceptions as X, temporal
    tmp = temporal.Temporal()
    if source == 'later':
        # made by the first context
        tmp.init = lambda: setattr(tmp, 'cluster', env)
    elif source == 'cluster':
        tmp.cluster = env
    levels = []         # what each context has: names before it, its connections
    kept = [0, 0]       # connections and schemas kept because of interrupts
    done = []
    failed = [False]    # a request failed: less is claimed

    def where():
        return '%r failing %r after %r: asked %r, schemas %r, open %d, names %r' % (
            ''.join(prog), env.fail, ''.join(done), env.asked, sorted(env.schemas), len(env.open()), sorted(meanings()))

    def same(a, b):
        return a.keys() == b.keys() and all(a[k] is b[k] or a[k] == b[k] for k in a)

    def observe():
        now = meanings()
        R.state([[l['n'] for l in levels], kept, sorted(now)])
        if not levels:
            R.check(same(now, before), 'names:after', where)
        else:
            l = levels[-1]
            if not l['rebound']:
                c = l['db']
                R.check(now.get('db') is c and set(now) >= set(NAMES) and now['prepare'] == c.prepare and now['xact'] == c.xact and now['sqlexec'] == c.execute and now['do'] == c.do
                        and now['proc'] == c.proc and now['settings'] is c.settings and now['connector'] is c.connector, 'names:inside', where)
        if failed[0] or env.fail is not None and env.n >= env.fail:
            failed[0] = True
            return
        R.check(len(env.schemas) == len(levels) + kept[1], 'schemas', where)
        R.check(len(env.open()) == sum(l['n'] for l in levels) + kept[0], 'connections', where)

    def enter():
        outer = meanings()
        try:
            tmp.__enter__()
        except (X.Error, OSError):
            R.check(env.fail is not None, 'enter:raises', where)
            failed[0] = True
            R.check(same(meanings(), outer), 'enter:failed:names', where)
            return False
        # every context is another connection and another schema
        db = builtins.db
        R.check(not any(l['db'] is db for l in levels) and not db.closed, 'enter:db', where)
        path = env.w.sockets and [s.srv.settings['search_path'] for s in env.open()]
        mine = path[-1].split(',')[0].strip() if path else None
        if not failed[0] and env.fail is None:
            R.check(mine in env.schemas and path.count(path[-1]) == 1 and '"$user", public' in path[-1], 'enter:schema', lambda: '%s paths %r' % (where(), path))
        levels.append({'outer': outer, 'db': db, 'n': 1, 'rebound': False, 'mine': mine, 'new': []})
        return True

    def leave(exc):
        l = levels.pop()
        try:
            r = tmp.__exit__(type(exc) if exc else None, exc, None)
        except (X.Error, OSError):
            R.check(env.fail is not None, 'leave:raises', where)
            failed[0] = True
        else:
            R.check(not r, 'leave:swallows', where)
            if exc is not None and not isinstance(exc, Exception):
                kept[0] += l['n']
                kept[1] += 1
            elif env.fail is None:
                R.check(all(c.closed for c in [l['db']] + l['new']), 'leave:open', where)
        if levels and levels[-1]['rebound']:
            levels[-1]['rebound'] = False
        R.check(same(meanings(), l['outer']) or bool(levels), 'leave:names', where)

    with names(before), pgtest(env if source == 'PGTEST' else None):
        for x in prog:
            if x == '(':
                if not enter():
                    break
            elif x in ')!^':
                leave({')': None, '!': Boom(), '^': KeyboardInterrupt()}[x])
            elif x == 'n':
                try:
                    c = builtins.new()
                except (X.Error, OSError):
                    R.check(env.fail is not None, 'new:raises', where)
                    failed[0] = True
                else:
                    R.check(c is not levels[-1]['db'] and not c.closed, 'new:connection', where)
                    if not failed[0]:
                        path = env.open()[-1].srv.settings['search_path']
                        R.check(path.split(',')[0].strip() == levels[-1]['mine'] and '"$user", public' in path, 'new:schema', lambda: '%s path %r' % (where(), path))
                    levels[-1]['n'] += 1
                    levels[-1]['new'].append(c)
            elif x == 'x':
                if not levels[-1]['db'].closed:
                    levels[-1]['n'] -= 1
                levels[-1]['db'].close()
            elif x == 'k':
                # the connection goes away and is found to be gone
                db = levels[-1]['db']
                if not db.closed:
                    for s in env.open():
                        if s is db.pq.socket or s is getattr(db.pq.socket, '_sock', None):
                            s.die('RESET') if hasattr(s, 'die') else s.close()
                    try:
                        db.execute('DELETE FROM mct')
                    except (X.Error, OSError):
                        pass
                    levels[-1]['n'] -= 1
            elif x == 't':
                if not levels[-1]['db'].closed:
                    try:
                        levels[-1]['db'].execute('BEGIN')
                    except X.Error:
                        R.check('f' in done, 'begin:raises', where)
            elif x == 'f':
                if not levels[-1]['db'].closed:
                    try:
                        levels[-1]['db'].execute('BEGIN; bad')
                    except X.Error:
                        pass
            elif x == 'r':
                builtins.db = 'another'
                levels[-1]['rebound'] = True
            else:
                decorated(R, env, tmp, x, X, where, meanings(), failed)
                if levels:
                    levels[-1]['rebound'] = False
            done.append(x)
            observe()
        while levels:
            leave(None)
            done.append(')')
            observe()
        if env.fail is None and '^' not in prog:
            # and again
            if enter():
                leave(None)
                observe()


def decorated(R, env, tmp, x, X, where, outer, failed):
    seen = []

    def a_function(*a, **kw):
        seen.append((a, kw, builtins.db, len(env.open())))
        if x == 'D':
            raise Boom('from inside')
        return 'value'
    g = tmp(a_function)
    R.check(g.__name__ == 'a_function', 'decorated:name', where)
    n, schemas = len(env.open()), set(env.schemas)
    try:
        r = g(1, k=2)
    except Boom as e:
        R.check(x == 'D' and e.args == ('from inside',), 'decorated:error', where)
    except (X.Error, OSError):
        R.check(env.fail is not None, 'decorated:raises', where)
        failed[0] = True
        return
    else:
        R.check(x == 'd' and r == 'value', 'decorated:value', where)
    R.check(len(seen) == 1 and seen[0][:2] == ((1,), {'k': 2}) and seen[0][2] is not outer.get('db'), 'decorated:call', where)
    if env.fail is None:
        R.check(len(env.open()) == n and env.schemas == schemas, 'decorated:left', where)


# -- the cluster ------------------------------------------------------------------
STEPS = ['install', 'drop-old', 'init', 'port', 'start', 'wait-up', 'connect', 'create']
ENDS = ['terminate', 'wait-down-timeout', 'drop']


class Script:
    "what became of the cluster"

    def __init__(self, fails, old):
        self.fails, self.old = fails, old
        self.exists = old
        self.up = False
        self.log = []
        self.sessions = 1       # somebody is connected

    def do(self, what):
        self.log.append(what)
        if what in self.fails:
            raise Boom(what)


def fake_cluster(S):
    from postgresql import cluster as C

    class Connection:
        version_info = (16, 1)

        def __init__(self, **kw):
            self.kw = kw
            self.sys = self

        def connect(self):
            S.do('connect')
            if not S.up:
                raise Boom('not up')

        def __enter__(self):
            self.connect()
            return self

        def __exit__(self, *a):
            pass

        def execute(self, sql):
            S.do('create')
            S.log.append(sql)

        def terminate_backends(self):
            raise Boom('not there')

        def terminate_backends_92(self):
            S.do('terminate')
            S.sessions = 0

    class Cluster:
        def __init__(self, installation, path):
            self.installation = installation
            self.data_directory = path
            self.settings = {}

        def initialized(self):
            return S.exists

        def running(self):
            return S.up

        def drop(self):
            S.do('drop' if 'init' in S.log else 'drop-old')
            S.up = False
            S.exists = False

        def init(self, **kw):
            S.exists = True
            S.do('init')
            S.log.append(sorted(kw))

        def start(self, logfile=None, **kw):
            S.do('start')
            S.up = True

        def wait_until_started(self, *a, **kw):
            S.do('wait-up')

        def connection(self, **kw):
            return Connection(**kw)

        def stop(self):
            S.do('stop')
            if not S.sessions:
                S.up = False

        def shutdown(self):
            S.do('stop')
            S.up = False

        def kill(self):
            S.up = False

        def wait_until_stopped(self, *a, **kw):
            S.do('wait-down')
            if S.up or 'wait-down-timeout' in S.fails:
                raise C.ClusterTimeoutError('timeout on shutdown')
    return Cluster


def t_cluster(R):
    from postgresql import temporal as T
    for old in (False, True):
        for fail in [None] + STEPS:
            for end in [None] + ENDS:
                for child in (False, True):
                    if not R.case([old, fail, end, child]):
                        continue
                    with R.guarded('cluster', 10), wire.quiet():
                        one_cluster(R, T, old, fail, end, child)


def one_cluster(R, T, old, fail, end, child):
    S = Script({fail} - {None}, old)
    exits = []
    real = {k: getattr(T, k) for k in ('Cluster', 'find_available_port', 'atexit', 'open') if hasattr(T, k)}

    class Atexit:
        register = staticmethod(lambda f, *a: exits.append(f))

    class Log:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def port():
        S.do('port')
        return 5999

    def install():
        S.do('install')
        return type('I', (), {'version_info': (16, 1, 0, 'final', 0)})()
    where = lambda: 'old %r failing %r then %r child %r: %r, exists %r up %r' % (old, fail, end, child, S.log, S.exists, S.up)
    getpid = os.getpid
    with names({}):
        try:
            T.Cluster, T.find_available_port, T.atexit, T.open = fake_cluster(S), port, Atexit, lambda *a, **k: Log()
            t = T.Temporal()
            try:
                t.init(installation_factory=install)
            except (Boom, T.ClusterError):
                R.check(fail is not None and fail in S.log, 'init:raises', where)
            else:
                R.check(fail is None or fail not in S.log, 'init:silent', where)
                R.check(t.cluster is not None and S.up, 'init:up', where)
                R.check(t.cluster.settings.get('port') == '5999', 'init:port', where)
                n = len(S.log)
                t.init(installation_factory=install)
                R.check(len(S.log) == n, 'init:twice', where)
            before = (S.exists, S.up, len(S.log))
            S.fails = {end} - {None}
            if child:
                os.getpid = lambda: getpid() + 1
                for f in exits:
                    f()
                R.check((S.exists, S.up, len(S.log)) == before, 'child', where)
                os.getpid = getpid
            err = None
            for f in reversed(exits):
                try:
                    f()
                except Exception as e:
                    err = e
            if S.log.count('init') and end != 'drop':
                R.check(not S.up, 'destroy:running', where)
                R.check(not S.exists, 'destroy:left', where)
            if fail is None and end is None:
                R.check(err is None and S.sessions == 0, 'destroy:sessions', where)
            R.trans()
            # and another one
            S.fails = set()
            if t.cluster is None and end is None:
                t.init(installation_factory=install)
                R.check(S.up, 'again', where)
        finally:
            os.getpid = getpid
            for k in ('Cluster', 'find_available_port', 'atexit', 'open'):
                if k in real:
                    setattr(T, k, real[k])
                elif hasattr(T, k):
                    delattr(T, k)
