"""
C29 - pg_python and its console: every combination of contexts, kind of main,
outcome and way of saying where to connect, and every short session of the
console, in a process of its own with a server behind a socket, against what
Python does with the same code.
"""
import code
import contextlib
import itertools
import json
import os
import pty
import re
import select
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time

from mc import pgmodel, wire

PROPERTY = 'C29'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of invocations of pg_python (contexts, mains, outcomes, sources of the parameters) and of the sessions of its console up to a length, each in a process of its own against a server behind a socket'
RULE = 'an execution is one process of pg_python'
ASSUMPTIONS = ['the server behind the socket is mc.pgmodel', 'modules given with -m are not packages', 'standard output is not a terminal']

INS = "prepare('INSERT INTO mct VALUES ($1)')(%d)\n"
MARK = re.compile(r'^(?:\w+\.)*(\w+(?:Error|Interrupt))\b|((?<!\w)@[^\n]*|MCV=[^\n]*|\[Return Value: [^\n]*\]|ERROR: unknown)', re.M)
DIE = b'SELECT 6666'

ZYGOTE = r'''
import sys, os, json
repo, = sys.argv[1:]
sys.path.insert(0, repo)
import postgresql.bin.pg_python as command, builtins, signal, warnings
assert os.path.dirname(os.path.dirname(command.__file__)) == repo + '/postgresql', command.__file__
def loop():
	while 1:
		l = os.read(3, 65536)
		while l and not l.endswith(b'\n'):
			l += os.read(3, 65536)
		if not l:
			os._exit(0)
		spec = json.loads(l)
		pid = os.fork()
		if not pid:
			return spec
		_, st = os.waitpid(pid, 0)
		os.write(4, b'%d\n' % (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)))
spec = loop()
signal.alarm(spec['limit'])
for n, (p, f) in enumerate(((spec['stdin'], os.O_RDWR if spec['tty'] else os.O_RDONLY), (spec['out'], os.O_WRONLY | os.O_CREAT | os.O_APPEND), (spec['err'], os.O_WRONLY | os.O_CREAT | os.O_APPEND))):
	fd = os.open(p, f | os.O_NOCTTY, 0o600)
	os.dup2(fd, n)
	os.close(fd)
os.close(3)
os.close(4)
sys.stdout.reconfigure(line_buffering=True)
for k in list(os.environ):
	del os.environ[k]
os.environ.update(spec['env'])
os.chdir(spec['dir'])
sys.path.insert(0, '')
sys.argv = spec['argv']
for k, v in spec['builtins'].items():
	setattr(builtins, k, v)
def state():
	return {'builtins': sorted((k, repr(v)) for k, v in vars(builtins).items() if k != '_'), 'environ': sorted(os.environ.items()), 'environ object': id(os.environ), 'argv': sys.argv, 'main': id(sys.modules.get('__main__'))}
before = state()
try:
	rv = command.command(sys.argv)
finally:
	after = state()
	with open(spec['report'], 'w') as f:
		json.dump([k for k in before if before[k] != after[k]] and {k: [before[k], after[k]] for k in before if before[k] != after[k]}, f)
sys.exit(rv)
'''


class Backend(pgmodel.Backend):
    def __init__(self, server, **kw):
        super().__init__(**kw)
        self.server = server
        self.inserts = []

    def insert(self, p):
        v = super().insert(p)
        self.inserts.append(v)
        return v

    def rows(self):
        return list((self.db if self.state == 'I' and not self.implicit else self.base)['mct'])

    def count(self, what):
        return sum(1 for x in self.log if x[0] == 'E' and what in str(x)) or sum(1 for x in self.log if what in str(x))


class Server:
    def __init__(self, family, address):
        self.l = socket.socket(family, socket.SOCK_STREAM)
        self.l.bind(address)
        self.l.listen(16)
        self.address = self.l.getsockname()
        self.lock = threading.Lock()
        self.set()
        threading.Thread(target=self.loop, daemon=True).start()

    def set(self, **kw):
        with self.lock:
            self.kw, self.seen, self.threads = kw, [], []

    def loop(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            with self.lock:
                b = Backend(self, **self.kw)
                self.seen.append(b)
                t = threading.Thread(target=self.serve, args=(s, b), daemon=True)
                self.threads.append(t)
            t.start()

    def serve(self, s, b):
        b.how = 'end'
        with contextlib.suppress(OSError), s:
            s.settimeout(60)
            while True:
                x = s.recv(65536)
                if not x:
                    break
                if DIE in x:
                    b.how = 'killed'
                    break
                try:
                    out = b''.join(b.feed(x))
                except pgmodel.ProtocolBreach as e:
                    b.breach = str(e)
                    break
                if out:
                    s.sendall(out)
                if b.terminated:
                    b.how = 'terminated'
                if b.terminated or b.closed:
                    break

    def settle(self):
        for t in self.threads:
            t.join(20)
        return [b for b in self.seen if b.startup is not None]


class Place:
    "a scratch directory, the process that forks, the server"

    def __init__(self, unix=False):
        import postgresql
        repo = os.path.dirname(os.path.dirname(os.path.abspath(postgresql.__file__)))
        self.d = tempfile.mkdtemp(prefix='mc29-')
        a, b = os.pipe(), os.pipe()
        src = self.d + '/.zygote.py'
        with open(src, 'w') as f:
            f.write(ZYGOTE)

        def fds():
            os.dup2(a[0], 13), os.dup2(b[1], 14)
            os.dup2(13, 3), os.dup2(14, 4)
            os.closerange(5, 256)
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'PYTHONPATH', 'LD_PRELOAD', 'ASAN_OPTIONS')}
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONUTF8'] = '1'
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', src, repo], env=env, cwd=self.d, close_fds=False, preexec_fn=fds)
        os.close(a[0]), os.close(b[1])
        self.w, self.r = a[1], b[0]
        self.server = Server(socket.AF_UNIX, self.d + '/.s') if unix else Server(socket.AF_INET, ('127.0.0.1', 0))
        self.where = ['--unix', self.d + '/.s'] if unix else ['-h', '127.0.0.1', '-p', str(self.server.address[1])]

    def write(self, name, text):
        p = os.path.join(self.d, name)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def start(self, argv, stdin='', env=(), tty=False, builtins=(), limit=60, where=None):
        self.n = [os.path.join(self.d, '.' + x) for x in ('out', 'err', 'report', 'in')]
        for x in self.n:
            with contextlib.suppress(OSError):
                os.unlink(x)
        spec = {'argv': ['pg_python'] + (self.where + ['-U', 'u', '-d', 'd'] if where is None else where) + argv, 'env': dict({'PATH': '/usr/bin:/bin', 'HOME': self.d, 'USER': 'u'}, **dict(env)),
                'dir': self.d, 'out': self.n[0], 'err': self.n[0] if tty else self.n[1], 'report': self.n[2], 'limit': limit, 'builtins': dict(builtins), 'tty': tty}
        if tty:
            self.master, slave = pty.openpty()
            self.slave = slave
            spec['stdin'] = os.ttyname(slave)
        else:
            spec['stdin'] = self.n[3]
            with open(self.n[3], 'w') as f:
                f.write(stdin)
        os.write(self.w, json.dumps(spec).encode() + b'\n')

    def wait(self):
        r = b''
        while not r.endswith(b'\n'):
            x = os.read(self.r, 100)
            assert x, 'the zygote is gone'
            r += x

        def text(p):
            try:
                with open(p, errors='replace') as f:
                    return f.read()
            except FileNotFoundError:
                return ''
        rep = text(self.n[2])
        return int(r), text(self.n[0]), text(self.n[1]), json.loads(rep) if rep else None

    def run(self, argv, **kw):
        self.start(argv, **kw)
        return self.wait()

    def terminal(self, lines, **kw):
        "a session: everything typed at once, then the end of the input"
        self.start([], tty=True, **kw)
        try:
            os.write(self.master, ''.join(l + '\n' for l in lines).encode() + b'\x04')
            return self.drain()
        finally:
            os.close(self.master), os.close(self.slave)

    def drain(self):
        # what the terminal echoes has to be taken from it
        while not select.select([self.r], [], [], 0)[0]:
            if select.select([self.master, self.r], [], [])[0] != [self.r]:
                with contextlib.suppress(OSError):
                    if select.select([self.master], [], [], 0)[0]:
                        os.read(self.master, 65536)
        return self.wait()

    def until(self, done, seconds=30):
        end = time.time() + seconds
        while time.time() < end:
            if select.select([self.master], [], [], 0.002)[0]:
                with contextlib.suppress(OSError):
                    os.read(self.master, 65536)
            with contextlib.suppress(FileNotFoundError):
                with open(self.n[0]) as f:
                    if done(f.read()):
                        return True
            if select.select([self.r], [], [], 0)[0]:
                return False
        return False

    def close(self):
        os.close(self.w)
        with contextlib.suppress(subprocess.TimeoutExpired):
            self.p.wait(10)
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        os.close(self.r)
        self.server.l.close()
        shutil.rmtree(self.d, ignore_errors=True)


@contextlib.contextmanager
def place(**kw):
    p = Place(**kw)
    try:
        yield p
    finally:
        p.close()


KINDS = ['command', 'file', 'stdin', 'module', 'package']
CONTEXTS = {
    # text, the row it inserts, whether it goes on
    'command': ('%s', True), 'file': ('file://%s', True), 'module': ('module:%s', True),
    'raises': ('%s', False), 'exits': ('%s', False), 'interrupted': ('%s', False), 'syntax': ('%s', False), 'no-file': ('file://%s', False), 'no-module': ('module:%s', False), 'raising-file': ('file://%s', False),
}
OUTCOMES = {
    # code, rows inserted, rows kept, status, what is said on standard error
    'end': (INS % 11, [10, 11], [10, 11], 0, None),
    'exit': ('import sys; sys.exit()\n' + INS % 11, [10], [10], 0, None),
    'exit-0': ('import sys; sys.exit(0)\n' + INS % 11, [10], [10], 0, None),
    'exit-3': ('import sys; sys.exit(3)\n' + INS % 11, [10], [10], 3, None),
    'exit-text': ('import sys; sys.exit("the text")\n' + INS % 11, [10], [10], 1, 'the text'),
    'exit-true': ('import sys; sys.exit(True)\n' + INS % 11, [10], [10], 1, None),
    'raises': ('1/0\n' + INS % 11, [10], [10], 1, 'ZeroDivisionError'),
    'interrupt': ('raise KeyboardInterrupt\n' + INS % 11, [10], [10], 1, 'KeyboardInterrupt'),
    'syntax': ('a b\n' + INS % 11, [], [], 1, 'SyntaxError'),
    'sql': ('sqlexec("garbage")\n' + INS % 11, [10], [10], 1, 'syntax error'),
    'open': ('x = xact(); x.start()\n' + INS % 12, [10, 12], [10], 0, None),
    'open-exit': ('x = xact(); x.start()\n' + INS % 12 + 'import sys; sys.exit(4)\n', [10, 12], [10], 4, None),
    'open-raises': ('x = xact(); x.start()\n' + INS % 12 + '1/0\n', [10, 12], [10], 1, 'ZeroDivisionError'),
    'xact': ('with xact():\n ' + INS % 12, [10, 12], [10, 12], 0, None),
    'xact-raises': ('with xact():\n ' + INS % 12 + ' 1/0\n', [10, 12], [10], 1, 'ZeroDivisionError'),
    'xact-exit': ('with xact():\n ' + INS % 12 + ' import sys; sys.exit(4)\n', [10, 12], [10], 4, None),
    'xact-sql': ('with xact():\n ' + INS % 12 + ' sqlexec("garbage")\n', [10, 12], [10], 1, 'syntax error'),
    'closed': ('db.close()\n', [10], [10], 0, None),
    'closed-exit': ('db.close(); import sys; sys.exit(4)\n', [10], [10], 4, None),
    'closed-raises': ('db.close(); 1/0\n', [10], [10], 1, 'ZeroDivisionError'),
    'lost': ('sqlexec("%s")\n' % DIE.decode() + INS % 11, [10], [10], 1, 'connection'),
    'lost-kept': ('try: sqlexec("%s")\nexcept Exception: pass\n' % DIE.decode(), [10], [10], 0, None),
    'in-flight': ('i = iter(prepare("SELECT i::int4 AS i FROM generate_series(1, 200) AS g(i)").rows()); next(i)\n', [10], [10], 0, None),
}
ARGS = [[], ['a', '-c', '--help', '', 'x y']]


def tasks(tier):
    n = 2
    T = [('mains', 'c', {'kind': k, 'depth': n, 'tier': tier}) for k in KINDS]
    if tier != 'quick':
        T += [('mains', 'py', {'kind': k, 'depth': n, 'tier': tier}) for k in KINDS]
    T += [('globals', 'c', {}), ('parameters', 'c', {}), ('password', 'c', {}), ('prompt', 'c', {}), ('unreachable', 'c', {}), ('libraries', 'c', {}), ('editor', 'c', {'depth': 2 if tier == 'quick' else 3})]
    if tier == 'quick':
        T += [('console', 'c', {'first': f, 'depth': 2, 'alphabet': None}) for f in range(0, len(LINES), 5)]
        T += [('console', 'c', {'first': f, 'depth': 4, 'alphabet': a}) for a in (['set', 'say', 'block', 'in', 'blank'],) for f in (0,)]
    else:
        T += [('console', 'c', {'first': f, 'depth': 3, 'alphabet': None}) for f in range(0, len(LINES), 5)]
        T += [('console', 'c', {'first': f, 'depth': 5, 'alphabet': a}) for a in (['set', 'say', 'block', 'in', 'blank'],) for f in (0,)]
    return T


def run(name, params, R):
    with wire.quiet():
        globals()['t_' + name](R, **params)


def unchanged(R, rep, where):
    R.check(rep == [], 'left', lambda: '%s: %r' % (where(), rep))


def main_of(P, kind, text):
    "-> arguments, standard input, what sys.argv[0] and __file__ are, __package__"
    if kind == 'command':
        return ['-c', text], '', '<command>', None
    if kind == 'file':
        return [P.write('script.py', text)], '', P.d + '/script.py', None
    if kind == 'stdin':
        return [], text, '<stdin>', None
    if kind == 'module':
        return ['-m', 'mcmodule'], '', P.write('mcmodule.py', text), ''
    P.write('mcpackage/__init__.py', '')
    P.write('mcpackage/other.py', 'value = 77\n')
    return ['-m', 'mcpackage.inside'], '', P.write('mcpackage/inside.py', 'from .other import value\nassert value == 77\n' + text), 'mcpackage'


def t_mains(R, kind, depth, tier):
    with place() as P:
        for n in range(depth + 1):
            for ctx in itertools.product(CONTEXTS, repeat=n):
                if any(not CONTEXTS[c][1] for c in ctx[:-1]):
                    continue
                goes = all(CONTEXTS[c][1] for c in ctx)
                for o in OUTCOMES if goes else ('end', 'syntax'):
                    if n == 2 and tier == 'quick' and o not in ('end', 'exit-3', 'raises', 'open'):
                        continue
                    for args in ARGS if kind != 'stdin' else ARGS[:1]:
                        if n == 2 and args:
                            continue
                        if R.case([list(ctx), o, args]):
                            with R.guarded('mains', 90):
                                one(R, P, kind, ctx, o, args)


def one(R, P, kind, ctx, o, args):
    opts, want, kept = [], [], []
    for i, c in enumerate(ctx):
        body = 'c%d = %s1\n' % (i, 'c%d + ' % (i - 1) if i else '') + INS % (i + 1)
        if c == 'command':
            v = body
        elif c == 'file':
            v = P.write('context%d.py' % i, body)
        elif c == 'module':
            P.write('mccontext%d.py' % i, body)
            v = 'mccontext%d' % i
        elif c == 'raises':
            v = '1/0'
        elif c == 'exits':
            v = 'import sys; sys.exit(5)'
        elif c == 'interrupted':
            v = 'raise KeyboardInterrupt'
        elif c == 'raising-file':
            v = P.write('raising%d.py' % i, body + 'raise KeyError')
        elif c == 'syntax':
            v = body + 'a b'
        else:
            v = 'nosuch' if c == 'no-module' else P.d + '/nosuch.py'
        opts += ['-C', CONTEXTS[c][0] % v]
        if CONTEXTS[c][1] or c == 'raising-file':
            want.append(i + 1)
    goes = all(CONTEXTS[c][1] for c in ctx)
    text, rows, left, status, said = OUTCOMES[o]
    body = ('assert c%d == %d\n' % (len(ctx) - 1, len(ctx)) if ctx and goes else '') + 'import os, sys; os.environ["MCLEFT"] = "1"; assert sys.argv[1:] == %r, sys.argv\n' % (args,) + INS % 10 + text
    main, stdin, name, _ = main_of(P, kind, body)
    kept = want + (left if goes else [])
    want = want + (rows if goes else [])
    status = status if goes else 1
    P.server.set()
    rc, out, err, rep = P.run(opts + main + args, stdin=stdin)
    seen = P.server.settle()
    where = lambda: '%s %s contexts %s %s: status %s, expected %s; inserted %s, expected %s, kept %s; out %s err %s' % (
        kind, o, list(ctx), args, rc, status, [b.inserts for b in seen], want, kept, out[-300:], err[-700:])
    R.check(rc == status, 'status', where)
    if R.check(len(seen) == 1, 'connections', where):
        b = seen[0]
        R.check(b.breach is None, 'breach', lambda: '%s: %s' % (where(), b.breach))
        R.check(b.inserts == want, 'run', where)
        R.check(b.rows() == kept, 'kept', lambda: '%s: %s' % (where(), b.rows()))
        if rc == 0 or o in ('raises', 'sql') or not goes:
            R.check(b.how == ('terminated' if not (goes and o.startswith('lost')) else 'killed'), 'end', lambda: '%s: %s' % (where(), b.how))
        R.state([kind, o, [str(x)[:60] for x in b.log]])
    if goes and said:
        R.check(said in err, 'said', where)
    if not goes:
        R.check(err.strip() != '', 'said:context', where)
    if goes and rc == 0:
        R.check(err == '', 'said:nothing', where)
    unchanged(R, rep, where)
    R.trans()
    R.outcome([kind, o, rc])


GLOBALS = '''
import sys, json, os
print("@" + json.dumps({
 "name": __name__, "file": __file__, "argv": sys.argv, "package": __package__, "main": sys.modules["__main__"].__dict__ is globals(),
 "db": db.closed is False, "xact": xact == db.xact, "settings": settings is db.settings, "prepare": prepare == db.prepare,
 "proc": proc == db.proc, "do": do == db.do, "sqlexec": sqlexec == db.execute, "connector": connector is db.connector, "user": db.connector.user,
 "more": sorted(k for k in globals() if not k.startswith("__")),
}))
'''


def t_globals(R):
    with place() as P:
        for kind in KINDS:
            for before in ({}, {'db': 'mine'}, {'xact': 'other', 'proc': 0, 'mine': 5}):
                for args in ARGS:
                    if kind == 'stdin' and args:
                        continue
                    if R.case([kind, before, args]):
                        with R.guarded('globals', 90):
                            main, stdin, name, package = main_of(P, kind, GLOBALS)
                            P.server.set()
                            rc, out, err, rep = P.run(main + args, stdin=stdin, builtins=before)
                            where = lambda: '%s %s: %s %s %s' % (kind, args, rc, out, err)
                            P.server.settle()
                            if not R.check(rc == 0 and out.startswith('@'), 'globals:status', where):
                                continue
                            got = json.loads(out[1:])
                            want = {'name': '__main__', 'file': name, 'argv': [name] + args, 'package': package, 'main': True, 'user': 'u', 'more': ['json', 'os', 'sys'] + (['value'] if kind == 'package' else [])}
                            for k in ('db', 'xact', 'settings', 'prepare', 'proc', 'do', 'sqlexec', 'connector'):
                                want[k] = True
                            R.check(got == want, 'globals', lambda: '%s: %r' % (where(), {k: (got.get(k), want[k]) for k in want if got.get(k) != want[k]}))
                            unchanged(R, rep, where)
                            R.trans()
                            R.outcome([kind, got])


def t_parameters(R):
    "each parameter from an option, the environment or the locator"
    SOURCES = ['option', 'environment', 'iri']
    with place() as P, place(unix=True) as U:
        port = str(P.server.address[1])
        for user in SOURCES:
            for db in SOURCES:
                for password in SOURCES[1:]:
                    for address in SOURCES:
                        for setting in [None] + SOURCES[::2]:
                            if (password != 'iri' or user == 'iri') and R.case([user, db, password, address, setting]):
                                with R.guarded('parameters', 90):
                                    opts, env, iri, q = [], {}, {}, []
                                    for src, o, e, k, v in ((user, '-U', 'PGUSER', 'user', 'someone'), (db, '-d', 'PGDATABASE', 'db', 'some db'), (password, None, 'PGPASSWORD', 'password', 'p:w@'),
                                                            (address, '-h', 'PGHOST', 'host', '127.0.0.1'), (address, '-p', 'PGPORT', 'port', port), (setting, '-s', None, 'set', 'mc.x=a b')):
                                        if src == 'option':
                                            opts += [o, v]
                                        elif src == 'environment':
                                            env[e] = v
                                        elif src == 'iri':
                                            iri[k] = v.replace('%', '%25').replace(':', '%3A').replace('@', '%40').replace(' ', '%20')
                                    if iri:
                                        s = 'pq://%s%s%s%s/%s' % (iri.get('user', ''), ':' + iri['password'] if 'password' in iri else '', '@' if 'user' in iri or 'password' in iri else '',
                                                                  iri['host'] + ':' + iri['port'] if 'host' in iri else '', iri.get('db', ''))
                                        # the locator first: what it leaves out is given by the options
                                        opts = ['-I', s + ('?' + iri['set'] if 'set' in iri else '')] + opts
                                    P.server.set(auth='cleartext', password=b'p:w@', settings={'mc.x': ''}.items())
                                    rc, out, err, rep = P.run(['-c', 'print("@", db.connector.user)'], env=env, where=opts)
                                    seen = P.server.settle()
                                    where = lambda: '%r %r: %s %s %s %s' % (opts, env, rc, out, err, [b.startup for b in seen])
                                    if R.check(rc == 0 and out == '@ someone\n' and len(seen) == 1, 'parameters', where):
                                        st = seen[0].startup
                                        R.check((st[b'user'], st[b'database'], st.get(b'mc.x')) == (b'someone', b'some db', b'a b' if setting else None), 'parameters:sent', where)
                                    R.trans()
                                    R.outcome([rc, out])
        for ssl in (None, 'disable', 'allow', 'prefer', 'require'):
            for p in (P, U):
                if R.case(['ssl', ssl, p is U]):
                    with R.guarded('parameters', 90):
                        p.server.set()
                        rc, out, err, rep = p.run((['--ssl-mode', ssl] if ssl else []) + ['-c', 'print("@")'])
                        seen = p.server.settle()
                        where = lambda: '%s %s: %s %s %s %s' % (ssl, p is U, rc, out, err, [b.log[:2] for b in seen])
                        R.check(rc == (1 if ssl == 'require' else 0), 'ssl-mode', where)
                        R.check(len(seen) == (0 if ssl == 'require' else 1), 'ssl-mode:connections', where)
                        R.check(not seen or (('ssl',) in seen[0].log) is (ssl in (None, 'prefer')), 'ssl-mode:asked', where)
                        R.trans()
                        R.outcome([ssl, rc])


def t_password(R):
    "-W with the password on standard input, from the environment, from a file"
    with place() as P:
        for auth in ('cleartext', 'md5'):
            for prompt in (False, True):
                for line in ('right', 'wrong', '', None):
                    for env in (None, 'right', 'wrong'):
                        for passfile in (None, 'right', 'wrong', 'other'):
                            for kind in ('command', 'stdin'):
                                if (not prompt and line is not None) or not R.case([auth, prompt, line, env, passfile, kind]):
                                    continue
                                with R.guarded('password', 90):
                                    e = {}
                                    if env:
                                        e['PGPASSWORD'] = env
                                    if passfile:
                                        e['PGPASSFILE'] = P.write('.pass', '%s:*:*:u:%s\n' % ('127.0.0.1' if passfile != 'other' else 'elsewhere', passfile))
                                        os.chmod(P.d + '/.pass', 0o600)
                                    code_ = 'print("@ran")\n'
                                    stdin = (line + '\n' if line is not None else '') + (code_ if kind == 'stdin' and (line is not None or not prompt) else '')
                                    P.server.set(auth=auth, password=b'right')
                                    rc, out, err, rep = P.run((['-W'] if prompt else []) + (['-c', code_] if kind == 'command' else []), stdin=stdin, env=e, limit=20)
                                    seen = P.server.settle()
                                    used = (line or '') if prompt else env if env else passfile if passfile in ('right', 'wrong') else None
                                    want = used == 'right'
                                    where = lambda: '%r in, %r: %s %s %s; %d connections' % (stdin, e, rc, out, err[-600:], len(seen))
                                    R.check(rc == (0 if want else 1), 'password', where)
                                    R.check(out == ('@ran\n' if want else ''), 'password:ran', where)
                                    R.check(len(seen) == 1, 'password:connections', where)
                                    R.trans()
                                    R.outcome([rc, out, len(seen)])


def t_prompt(R):
    "passwords asked for at a terminal: every sequence of answers"
    with place() as P:
        for W in (False, True):
            for n in range(0, 4):
                for answers in itertools.product(['wrong', 'right', ''], repeat=n):
                    if 'right' in answers[:-1] or not R.case([W, list(answers)]):
                        continue
                    with R.guarded('prompt', 90):
                        P.server.set(auth='cleartext', password=b'right')
                        P.start(['-W'] if W else [], tty=True)
                        asked = 0
                        try:
                            for i, a in enumerate(list(answers) + ([None] if 'right' not in answers else [])):
                                if not P.until(lambda t: t.count('Password for') == i + 1):
                                    break
                                asked += 1
                                os.write(P.master, b'\x04' if a is None else a.encode() + b'\n')
                            else:
                                if 'right' in answers and P.until(lambda t: '>>> ' in t):
                                    os.write(P.master, b"print('%cran' % 64)\n\x04")
                            rc, out, err, rep = P.drain()
                        finally:
                            os.close(P.master), os.close(P.slave)
                        seen = P.server.settle()
                        want = 'right' in answers
                        where = lambda: '-W %s, %r: asked %d times, %s %s; %d connections' % (W, answers, asked, rc, out[-900:], len(seen))
                        R.check(rc == (0 if want else 1), 'prompt', where)
                        R.check(('@ran' in out) is want, 'prompt:ran', where)
                        R.check(asked == len(answers) + (not want), 'prompt:asked', where)
                        R.check(len(seen) == len(answers) + (not W), 'prompt:connections', where)
                        R.trans()
                        R.outcome([rc, asked, len(seen)])


def t_unreachable(R):
    "no connection: the code does not run"
    with place() as P:
        s = socket.socket()
        s.bind(('127.0.0.1', 0))    # not listening
        for kind in KINDS:
            for ctx in ([], ['-C', 'print("@context")']):
                for where in (['-h', '127.0.0.1', '-p', str(s.getsockname()[1])], ['--unix', P.d + '/nosuch'], None):
                    if R.case([kind, ctx, where and where[0]]):
                        with R.guarded('unreachable', 90):
                            main, stdin, _, _ = main_of(P, kind, 'print("@ran")')
                            P.server.set(auth=99)
                            rc, out, err, rep = P.run(ctx + main, stdin=stdin, where=where and where + ['-U', 'u', '-d', 'd'])
                            P.server.settle()
                            R.check((rc, out) == (1, '') and err, 'unreachable', lambda: '%s %s: %s %s %s' % (kind, where, rc, out, err))
                            unchanged(R, rep, lambda: kind)
                            R.trans()
                            R.outcome([rc, out])
        s.close()


# -- the console ----------------------------------------------------------------
LINES = {
    'set': "x = globals().get('x', 0) + 1",
    'say': "print('%csay' % 64, x)",
    'block': 'if 1:',
    'in': "  print('%cin' % 64)",
    'blank': '',
    'sql': "print('%csql' % 64, prepare('SELECT 5 AS i').first())",
    'raises': '1/0',
    'interrupt': 'raise KeyboardInterrupt',
    'syntax': 'a b',
    'bad-sql': 'sqlexec("garbage")',
    'exit': 'import sys; sys.exit(3)',
    'exit-none': 'raise SystemExit',
    'env': "import os; _ = os.system('echo @env $MCV')",
    'bs-set': r"\set MCV='q r'",
    'bs-get': r'\set MCV',
    'bs-i': r'\i FILE',
    'bs-i-raises': r'\i RAISES',
    'bs-i-none': r'\i nosuch',
    'bs-x': r'''\x -c "print('%cx' % 64, 'x' in globals(), prepare('SELECT 5 AS i').first()); import os; os.environ['MCV'] = 'inner'"''',
    'bs-x-file': r'\x FILE a',
    'bs-x-4': r'\x -c "import sys; sys.exit(4)"',
    'bs-x-text': r'\x -c "import sys; sys.exit(chr(64))"',
    'bs-x-raises': r'\x -c "1/0"',
    'bs-what': r'\nope 5',
}
FILE = "x = globals().get('x', 0) + 10\nprint('%cfile' % 64, x)\n"
RAISES = "x = 5\nprint('%craises' % 64)\nraise LookupError\n"


class Ref(code.InteractiveConsole):
    def __init__(self):
        self.tokens, self.sqls, self.env, self.status = [], 0, None, 0
        super().__init__({'__name__': '__main__', 'print': self.say, 'prepare': self.prepare, 'sqlexec': self.sqlexec})

    def say(self, *a):
        self.tokens.append(' '.join(map(str, a)))

    def prepare(self, sql):
        class s:
            @staticmethod
            def first():
                self.sqls += 1
                return 5
        return s

    def sqlexec(self, sql):
        raise SyntaxError

    def write(self, data):
        pass

    def showtraceback(self):
        self.tokens.append(sys.exc_info()[0].__name__)

    def showsyntaxerror(self, *a, **kw):
        self.tokens.append(sys.exc_info()[0].__name__)

    def line(self, k):
        if not self.buffer:
            if k == 'env':
                return self.tokens.append('@env %s' % self.env if self.env else '@env')
            if k == 'bad-sql':
                return self.tokens.append('SyntaxError')
            if k.startswith('bs-'):
                return self.backslash(k[3:])
        self.push(LINES[k])

    def backslash(self, k):
        T = self.tokens.append
        if k == 'set':
            self.env = 'q r'
            T('MCV=q r')
        elif k == 'get':
            T('MCV=' + (self.env or ''))
        elif k == 'i':
            self.locals['x'] = self.locals.get('x', 0) + 10
            T('@file %d' % self.locals['x'])
        elif k == 'i-raises':
            self.locals['x'] = 5
            T('@raises')
            T('LookupError')
        elif k == 'i-none':
            T('FileNotFoundError')
        elif k == 'x':
            self.sqls += 1
            T('@x False 5')
            T('[Return Value: 0]')
        elif k == 'x-file':
            T('@file 10')
            T('[Return Value: 0]')
        elif k == 'x-4':
            T('[Return Value: 4]')
        elif k == 'x-text':
            T('[Return Value: @]')
        elif k == 'x-raises':
            T('ZeroDivisionError')
            T('[Return Value: 1]')
        elif k == 'what':
            T('ERROR: unknown')


def t_console(R, first, depth, alphabet):
    names = list(LINES)
    firsts = names[first:first + 5]
    rest = alphabet or names
    with place() as P:
        f, r = P.write('File.py', FILE), P.write('Raises.py', RAISES)
        todo = [()] if not first and not alphabet else []
        for n in range(1 if not alphabet else 3, depth + 1):
            todo += [s for s in itertools.product(*([firsts if not alphabet else rest] + [rest] * (n - 1)))]
        for seq in todo:
            # nothing is read after the end
            if R.case(list(seq)):
                with R.guarded('console', 90):
                    ref = Ref()
                    ended = False
                    for k in seq:
                        try:
                            ref.line(k)
                        except SystemExit as e:
                            ref.status, ended = e.code or 0, True
                            break
                    P.server.set()
                    rc, out, err, rep = P.terminal([LINES[k].replace('FILE', f).replace('RAISES', r) for k in seq])
                    seen = P.server.settle()
                    text = out
                    for k in seq:       # a complaint about a line shows it
                        if len(LINES[k]) > 5:
                            text = text.replace(LINES[k].strip(), '')
                    got = [a or b for a, b in MARK.findall(text)]
                    where = lambda: '%s: status %s, expected %s; %s, expected %s; %s' % (list(seq), rc, ref.status, got, ref.tokens, out[-1500:])
                    R.check(rc == ref.status, 'console:status', where)
                    R.check([x.rstrip() for x in got] == ref.tokens, 'console', where)
                    if R.check(len(seen) == 1, 'console:connections', where):
                        n = sum(1 for x in seen[0].log if x[0] == 'P' and 'SELECT 5' in str(x))
                        R.check(n == ref.sqls, 'console:sql', lambda: '%s: %d' % (where(), n))
                        R.check(seen[0].breach is None, 'console:breach', lambda: '%s: %s' % (where(), seen[0].breach))
                        if rc == 0:
                            R.check(seen[0].how == 'terminated', 'console:end', where)
                    unchanged(R, rep, where)
                    R.trans(len(seq))
                    R.state([ref.env, sorted((k, v) for k, v in ref.locals.items() if k == 'x'), bool(ref.buffer), ended])
                    R.outcome([rc, got])


def t_libraries(R):
    "-l, -L and --pq-trace, in every combination"
    with place() as P:
        for d in ('', 'first/', 'second/', 'apart/'):
            for l in ('one', 'two', 'both') if d in ('first/', 'second/') else ('one',) if not d else ('path',):
                if (d, l) not in (('second/', 'one'), ('first/', 'one'), ('second/', 'two')) or l == 'two' and d == 'second/':
                    P.write('%slib%s.sql' % (d, l), '[s::first]\nANY %s of %s\n' % (l, d or 'here'))
        files = {'one': {'': 'here', }, 'two': {'first': 'first/', 'second': 'second/'}, 'both': {'first': 'first/', 'second': 'second/'}}
        path = P.d + '/apart/libpath.sql'
        for k in range(3):
            for libs in itertools.permutations(['one', 'two', 'both', path, 'none'], k):
                for paths in ([], ['first'], ['second'], ['first', 'second'], ['second', 'first']):
                    for trace in (False, True) if len(libs) < 2 else (False,):
                        if R.case([[os.path.basename(l) for l in libs], paths, trace]):
                            with R.guarded('libraries', 90):
                                library(R, P, libs, paths, trace, path)


def library(R, P, libs, paths, trace, path):
    want = {}
    for l in libs:
        if l == path:
            want['path'] = 'ANY path of apart/'
        elif l == 'one':
            want[l] = 'ANY one of here'
        else:
            where_ = [p for p in paths if os.path.exists('%s/%s/lib%s.sql' % (P.d, p, l))]
            if not where_:
                want = None
                break
            want[l] = 'ANY %s of %s/' % (l, where_[0])
    body = 'import postgresql.sys as s\nfor n in ("one", "two", "both", "path", "none"):\n b = getattr(db, n, None)\n print("@%s %s" % (n, None if b is None else b.s()))\n'
    opts = [x for l in libs for x in ('-l', l)] + [x for p in paths for x in ('-L', p)]
    traced = P.d + '/trace'
    if trace:
        P.write('trace', 'kept\n')
        opts += ['--pq-trace', traced]
    P.server.set()
    rc, out, err, rep = P.run(opts + ['-c', body])
    seen = P.server.settle()
    where = lambda: '%s: status %s; expected %s; out %s err %s' % (opts, rc, want, out[-600:], err[-600:])
    R.trans(1 + len(libs))
    R.state([libs, paths, trace, rc])
    if want is None:
        R.check(rc != 0 and not seen and out == '' and 'LoadError' in err, 'libraries:missing', where)
        return
    R.check(rc == 0, 'libraries:status', where)
    got = dict(re.findall(r'^@(\w+) (.*)$', out, re.M))
    R.check({k: re.sub(r'[\s]+', ' ', v).strip() for k, v in got.items()} == {n: want.get(n, 'None') for n in ('one', 'two', 'both', 'path', 'none')}, 'libraries:bound', where)
    if R.check(len(seen) == 1, 'libraries:connections', where):
        R.check(seen[0].how == 'terminated' and seen[0].breach is None, 'libraries:end', where)
    if trace:
        with open(traced) as f:
            text = f.read()
        R.check(text.startswith('kept\n'), 'trace:kept', lambda: text[:100])
        # what was sent and what came, the first and the last of it
        R.check(all(x in text for x in ('standard_conf', "'Z'", 'X(')) and text.count('\n') > 20, 'trace:text', lambda: text[:300] + ' ... ' + text[-300:])


# -- scripts that are edited ---------------------------------------------------
EDITS = {
    # what is typed: what is edited, what is run
    r'\E a': (['a'], []), r'\e a': (['a'], ['a']), r'\i a': ([], ['a']), r'\E A ': (['a'], []), r'\e b a': (['b', 'a'], ['b', 'a']), r'\i b': ([], ['b']), r'\E': ([''], []), r'\i': ([], ['']), r'\e': ([''], ['']),
    r'\e ./kept.py': (['./kept.py'], ['./kept.py']), r'\E ./kept.py a': (['./kept.py', 'a'], []), r'\i ./kept.py': ([], ['./kept.py']), "print('%cmain' % 64, globals().get('n'))": None,
}


def t_editor(R, depth):
    "temporary scripts by name, and files, edited and run"
    with place() as P:
        ed = P.write('.editor', '#!/bin/sh\nfor f; do echo "n = globals().get(chr(110), 0) + 1; print(chr(64) + chr(101), n, __name__)" >> "$f"; done\n')
        os.chmod(ed, 0o755)
        tmp = P.d + '/tmp'
        for n in range(1, depth + 1):
            for seq in itertools.product(EDITS, repeat=n):
                if R.case(list(seq)):
                    with R.guarded('editor', 90):
                        shutil.rmtree(tmp, ignore_errors=True)
                        os.mkdir(tmp)
                        P.write('kept.py', '')
                        lines, known, total, want = {'./kept.py': 0}, {}, 0, []
                        for k in seq:
                            if EDITS[k] is None:
                                want.append('@main %s' % (total or None))
                                continue
                            for f in EDITS[k][0]:
                                lines[f] = lines.get(f, 0) + 1
                            for f in EDITS[k][1]:
                                if f not in lines:
                                    want.append('FileNotFoundError')
                                for i in range(lines.get(f, 0)):
                                    total += 1
                                    want.append('@e %d __main__' % total)
                        P.server.set()
                        rc, out, err, rep = P.terminal(list(seq), env={'EDITOR': ed, 'TMPDIR': tmp})
                        seen = P.server.settle()
                        got = [(a or b).rstrip() for a, b in MARK.findall(out)]
                        where = lambda: '%s: status %s; %s, expected %s; %s' % (list(seq), rc, got, want, out[-1500:])
                        R.check(rc == 0, 'editor:status', where)
                        R.check(got == want, 'editor', where)
                        R.check(len(seen) == 1 and seen[0].how == 'terminated', 'editor:end', where)
                        # the names are temporary files, and only they are
                        R.check(len(os.listdir(tmp)) == len(set(lines) - {'./kept.py'}), 'editor:files', lambda: '%s: %s' % (where(), os.listdir(tmp)))
                        unchanged(R, rep, where)
                        R.trans(len(seq))
                        R.state([sorted(lines.items()), total])
