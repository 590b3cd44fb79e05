"""
A real PostgreSQL (the one the test suite uses) in a scratch directory, run as
an unprivileged user, reached over a socket in that directory, gone with the
process that started it.
"""
import contextlib
import os
import shutil
import signal
import subprocess
import tempfile
import time

BINS = ('/opt/pgtest/bin', '/usr/lib/postgresql/16/bin')
USER = 'nobody'


class Unavailable(Exception):
    pass


def bindir():
    for b in BINS:
        if os.access(b + '/initdb', os.X_OK) and os.access(b + '/postgres', os.X_OK):
            return b
    raise Unavailable('no PostgreSQL')


@contextlib.contextmanager
def server():
    "-> the directory of the socket; Unavailable when it cannot be had"
    b = bindir()
    d = tempfile.mkdtemp(prefix='mcpg-', dir='/tmp')
    pre = []
    proc = None
    try:
        if os.geteuid() == 0:
            if not shutil.which('setpriv'):
                raise Unavailable('no setpriv')
            import grp
            import pwd
            u = pwd.getpwnam(USER)
            os.chown(d, u.pw_uid, u.pw_gid)
            pre = ['setpriv', '--reuid=' + USER, '--regid=' + grp.getgrgid(u.pw_gid).gr_name, '--clear-groups', '--pdeathsig', 'QUIT']
        env = {'HOME': d, 'TMPDIR': d, 'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
        kw = dict(cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
        try:
            r = subprocess.run(pre + [b + '/initdb', '-A', 'trust', '-U', 'postgres', '-E', 'UTF8', '--locale=C', '--no-sync', '-D', d + '/d'], timeout=120, **kw)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise Unavailable('initdb: %r' % e)
        if r.returncode:
            raise Unavailable('initdb gives %d' % r.returncode)
        opts = {'listen_addresses': '', 'unix_socket_directories': d, 'fsync': 'off', 'full_page_writes': 'off', 'synchronous_commit': 'off', 'shared_buffers': '16MB', 'max_connections': '20',
                'autovacuum': 'off', 'wal_level': 'minimal', 'max_wal_senders': '0', 'log_min_messages': 'panic', 'deadlock_timeout': '50ms'}
        a = []
        for k, v in opts.items():
            a += ['-c', '%s=%s' % (k, v)]
        proc = subprocess.Popen(pre + [b + '/postgres', '-D', d + '/d'] + a, start_new_session=True, **kw)
        end = time.time() + 60
        sock = d + '/.s.PGSQL.5432'
        while True:
            if proc.poll() is not None:
                raise Unavailable('postgres gives %d' % proc.returncode)
            if os.path.exists(sock):
                try:
                    connect(d).close()
                    break
                except Exception as e:
                    err = e
            if time.time() > end:
                raise Unavailable('postgres does not start: %r' % (err if os.path.exists(sock) else None))
            time.sleep(0.05)
        yield d
    finally:
        if proc is not None and proc.poll() is None:
            # QUIT: at once, without a checkpoint
            proc.send_signal(signal.SIGQUIT)
            try:
                proc.wait(20)
            except subprocess.TimeoutExpired:
                with contextlib.suppress(ProcessLookupError):
                    os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()
        shutil.rmtree(d, ignore_errors=True)


class Plain:
    "the protocol, by hand: a connection that owes nothing to the driver"

    def __init__(self, d):
        import socket
        import struct
        self.struct = struct
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(20)
        self.s.connect(d + '/.s.PGSQL.5432')
        b = b'user\0postgres\0database\0postgres\0\0'
        self.s.sendall(struct.pack('!LL', len(b) + 8, 196608) + b)
        self.buf = b''
        self.read()

    def read(self):
        out = []
        while True:
            while len(self.buf) >= 5:
                n, = self.struct.unpack_from('!L', self.buf, 1)
                if len(self.buf) <= n:
                    break
                m, self.buf = self.buf[:n + 1], self.buf[n + 1:]
                out.append((m[:1], m[5:]))
                if m[:1] == b'Z':
                    return out
            r = self.s.recv(1 << 16)
            if not r:
                raise EOFError(out)
            self.buf += r

    def __call__(self, sql):
        "rows of text of a simple query"
        b = sql.encode() + b'\0'
        self.s.sendall(b'Q' + self.struct.pack('!L', len(b) + 4) + b)
        rows, bad = [], None
        for t, body in self.read():
            if t == b'E':
                bad = body
            if t == b'D':
                n, = self.struct.unpack_from('!H', body)
                pos, row = 2, []
                for i in range(n):
                    l, = self.struct.unpack_from('!l', body, pos)
                    pos += 4
                    row.append(None if l < 0 else body[pos:pos + l].decode())
                    pos += max(l, 0)
                rows.append(tuple(row))
        if bad is not None:
            raise RuntimeError('%s: %r' % (sql, bad))
        return rows

    def close(self):
        with contextlib.suppress(OSError):
            self.s.sendall(b'X\0\0\0\4')
        self.s.close()


def connect(d):
    return Plain(d)


def driver(d, **kw):
    "a connection of the driver"
    from postgresql.driver import default
    db = default.fit(unix=d + '/.s.PGSQL.5432', user='postgres', database='postgres', **kw)()
    db.connect()
    return db
