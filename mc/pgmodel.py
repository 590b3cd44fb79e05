"""
A deterministic model of a PostgreSQL backend at the protocol 3.0 level, used
as the environment of the driver. It implements the parts of the server that
the driver's guarantees are stated against: the simple and the extended query
cycle with skip-until-Sync after an error, implicit and explicit transactions
with savepoints, portals and scrollable cursors, COPY in both directions,
LISTEN/NOTIFY, settings, advisory locks, and a small SQL dialect that is a
subset of PostgreSQL's (so that the same statements run on a real server: see
mc/conformance.py).

The model is strict: a frontend message it cannot parse, or that a client has
no business sending in the current phase, is a ProtocolBreach.
"""
import re
import struct

INT4, TEXT, INT8, VOID, BOOL, TEXTARRAY, INT4ARRAY, INT8ARRAY = 23, 25, 20, 2278, 16, 1009, 1007, 1016
NAME, CHAR, INT2, OID = 19, 18, 21, 26
TYPLEN = {INT4: 4, TEXT: -1, INT8: 8, BOOL: 1, NAME: 64, CHAR: 1, INT2: 2, OID: 4}


class ProtocolBreach(Exception):
    "The client broke the protocol."


class PgError(Exception):
    def __init__(self, code, message, severity=b'ERROR', raw=None):
        self.code, self.message, self.severity, self.raw = code, message, severity, raw


def msg(t, body=b''):
    return t + struct.pack('!L', len(body) + 4) + body


def fields(sev, code, message, **extra):
    b = b'S' + sev + b'\0' + b'V' + sev + b'\0' + b'C' + code.encode() + b'\0' + b'M' + message.encode('utf-8') + b'\0'
    for k, v in extra.items():
        b += k.encode() + v.encode('utf-8') + b'\0'
    return b + b'\0'


def error_msg(e):
    return msg(b'E', fields(e.severity, e.code, e.message) if e.raw is None else e.raw)


def notice_msg(code='01000', message='a warning', sev=b'WARNING'):
    return msg(b'N', fields(sev, code, message))


def param_msg(k, v):
    return msg(b'S', k + b'\0' + v + b'\0')


def notify_msg(pid, channel, payload=b''):
    return msg(b'A', struct.pack('!L', pid) + channel + b'\0' + payload + b'\0')


def cstr(data, pos):
    e = data.index(b'\0', pos)
    return data[pos:e], e + 1


class Raw(bytes):
    "a value the model keeps as it was received (ECHO)"
    fmt, text = 1, False

    @classmethod
    def of(cls, data, fmt=1, text=False):
        r = cls(data)
        r.fmt, r.text = fmt, text
        return r


def enc(v, oid, fmt):
    if v is None:
        return None
    if isinstance(v, Raw):
        if v.fmt != fmt and not v.text:
            raise PgError('0A000', 'type %d was received in format %d and is asked for in format %d' % (oid, v.fmt, fmt))
        return bytes(v)
    if fmt == 0 or oid == TEXT:
        if v is True or v is False:
            return b't' if v else b'f'
        return str(v).encode('utf-8')
    if oid == INT4:
        return struct.pack('!l', v)
    if oid == INT8:
        return struct.pack('!q', v)
    if oid == BOOL:
        return b'\1' if v else b'\0'
    if oid == INT2:
        return struct.pack('!h', v)
    if oid == OID:
        return struct.pack('!L', v)
    if oid in (NAME, CHAR):
        return v.encode('utf-8')
    if oid in (1028, 1002, TEXTARRAY, INT4ARRAY):
        e = {1028: OID, 1002: CHAR, TEXTARRAY: TEXT, INT4ARRAY: INT4}[oid]
        if not v:
            return struct.pack('!lll', 0, 0, e)
        b = [enc(x, e, 1) for x in v]
        return struct.pack('!lllll', 1, 0, e, len(v), 1) + b''.join(struct.pack('!l', len(x)) + x for x in b)
    raise AssertionError(oid)


def dec(b, oid, fmt):
    if b is None:
        return None
    if fmt == 0 or oid in (TEXT, 2275):
        s = b.decode('utf-8')
        if oid in (INT4, INT8):
            return int(s)
        return s
    try:
        if oid == INT4:
            return struct.unpack('!l', b)[0]
        if oid == INT8:
            return struct.unpack('!q', b)[0]
        if oid == OID:
            return struct.unpack('!L', b)[0]
        if oid in (TEXTARRAY, INT4ARRAY, INT8ARRAY):
            return dec_array(b)
    except struct.error:
        raise PgError('08P01', 'insufficient data left in message')
    raise AssertionError(oid)


def dec_array(b):
    nd, flags, eoid = struct.unpack_from('!lll', b)
    pos = 12
    dims = []
    for i in range(nd):
        n, lb = struct.unpack_from('!ll', b, pos)
        dims.append(n)
        pos += 8
    total = 1
    for n in dims:
        total *= n
    if not nd:
        total = 0
    out = []
    for i in range(total):
        l, = struct.unpack_from('!l', b, pos)
        pos += 4
        if l == -1:
            out.append(None)
        else:
            out.append(dec(b[pos:pos + l], eoid, 1))
            pos += l
    if pos != len(b):
        raise ProtocolBreach('array has trailing data')
    for n in reversed(dims[1:]):
        out = [out[i:i + n] for i in range(0, len(out), n)]
    return out


class Stmt:
    def __init__(self, sql, oids=()):
        self.sql = sql
        self.kind, self.info = classify(sql)
        n = max([int(x) for x in re.findall(r'\$(\d+)', sql)] or [0])
        self.params = []
        for i in range(1, n + 1):
            m = re.search(r'\$%d::(int4|int8|text)(\[\])?' % i, sql)
            oid = {'int4': INT4, 'int8': INT8, 'text': TEXT}[m.group(1)] if m else TEXT
            if m and m.group(2):
                oid = {INT4: INT4ARRAY, INT8: INT8ARRAY, TEXT: TEXTARRAY}[oid]
            self.params.append(oid)
        if self.kind == 'insert':
            self.params = [INT4] * n
        if self.kind == 'sys':
            self.params = list(self.info['params'])
            if self.info['name'] == 'procs' and 'regprocedurein' in sql:
                self.params = [2275]
        elif self.kind == 'proc':
            a = proc_args(self.info['args'])
            self.params = [dict((i, o) for i, o, _ in a).get(i, TEXT) for i in range(1, n + 1)]
        elif self.kind == 'echo':
            self.params = [int(x) for x in self.info['oids'].split(',')]
        elif self.kind == 'declare' and classify(self.info['q'])[0] == 'echo':
            self.params = Stmt(self.info['q']).params
            self.echo = True
        elif self.kind == 'declare' and classify(self.info['q'])[0] == 'proc':
            self.params = Stmt(self.info['q']).params
        self.echo = self.kind == 'echo' or hasattr(self, 'echo')


SQL = [
    ('empty', r'^\s*;?\s*$'),
    ('series', r'^SELECT (?P<cols>.+) FROM generate_series\(1, (?P<n>\d+|\$1::int4)\) AS g\(i\)(?P<order>)$'),
    ('const', r'^SELECT (?P<v>\$1::int4|\d+)(?:::int4)? AS i$'),
    ('echo', r'^ECHO (?P<oids>\d+(?:,\d+)*)$'),     # returns its parameters
    ('nulls', r'^NULLS (?P<oids>\d+(?:,\d+)*)$'),   # one row of nulls of these types
    ('any', r'^(?:ANY\b|SELECT anyproc\().*$'),         # any text: one row, the text
    ('table', r'^SELECT k FROM mct ORDER BY k$'),
    ('insert', r'^INSERT INTO (?P<t>mct|mcd) VALUES \((?P<v>-?\d+|\$1(?:::int4)?)\)(?P<ret> RETURNING k)?$'),
    ('delete', r'^DELETE FROM mct$'),
    ('copyin', r'^COPY (?P<t>mct|anyin) FROM STDIN$'),
    ('copyany', r'^COPY anyout TO STDOUT$'),            # any messages: Backend.anyout, Backend.anyfail
    ('copyout', r"^COPY \(SELECT i FROM generate_series\(1, (?P<n>\d+)\) AS g\(i\)\) TO STDOUT$"),
    ('copyouterr', r"^COPY \(SELECT 10/\((?P<k>\d+)-i\) FROM generate_series\(1, (?P<n>\d+)\) AS g\(i\)\) TO STDOUT$"),
    ('begin', r'^(?:START TRANSACTION|BEGIN)(?P<mode>(?: [A-Za-z ]+)?)$'),
    ('commit', r'^(?:COMMIT|END)$'),
    ('rollback', r'^(?:ABORT|ROLLBACK)$'),
    ('savepoint', r'^SAVEPOINT "(?P<id>(?:[^"]|"")+)"$'),
    ('release', r'^RELEASE "(?P<id>(?:[^"]|"")+)"$'),
    ('rollbackto', r'^ROLLBACK TO "(?P<id>(?:[^"]|"")+)"$'),
    ('declare', r'^DECLARE "(?P<id>(?:[^"]|"")+)"(?: INSENSITIVE)?(?P<scroll> SCROLL)? CURSOR (?P<hold>WITH|WITHOUT) HOLD FOR (?P<q>.*)$'),
    ('fetch', r'^FETCH (?P<dir>FORWARD|BACKWARD) (?P<n>ALL|-?\d+) IN "(?P<id>(?:[^"]|"")+)"$'),
    ('move', r'^MOVE (?P<dir>FORWARD|BACKWARD|ABSOLUTE|RELATIVE|LAST|NEXT) *(?P<n>ALL|-?\d+)? IN "(?P<id>(?:[^"]|"")+)"$'),
    ('close', r'^CLOSE "(?P<id>(?:[^"]|"")+)"$'),
    ('listen', r'^LISTEN (?P<id>"(?:[^"]|"")+"|[A-Za-z_][A-Za-z0-9_$]*)$'),
    ('unlisten', r'^UNLISTEN (?P<id>\*|"(?:[^"]|"")+"|[A-Za-z_][A-Za-z0-9_$]*)$'),
    ('notify', r"^NOTIFY (?P<id>\"(?:[^\"]|\"\")+\"|[A-Za-z_][A-Za-z0-9_$]*)(?: *, *'(?P<p>(?:[^']|'')*)')?$"),
    ('set', r"^SET (?P<local>LOCAL |SESSION )?(?P<k>[A-Za-z_.]+) *(?:=|TO) *'?(?P<v>[^']*)'?$"),
    ('reset', r'^RESET "?(?P<k>[A-Za-z_.]+)"?$'),
    ('schema', r'^(?P<t>CREATE|DROP) SCHEMA(?P<if> IF EXISTS)? (?P<id>[a-z0-9_]+)(?: CASCADE)?$'),      # Backend.schemas
    ('deallocate', r'^DEALLOCATE "(?P<id>(?:[^"]|"")+)"$'),
    ('proc', r'^SELECT \* FROM (?P<f>[^(]+)\((?P<args>[^()]*)\) AS func(?P<desc>\([^()]*\))?$'),     # Backend.procs
    ('raise', r'^RAISE (?P<t>ERROR|NOTICE)$'),       # sends the message body planted by a harness
    ('lock', r'^SELECT pg_advisory(?P<f>.*)$'),
]
SQL = [(k, re.compile(r, re.S)) for k, r in SQL]

# the driver's own catalog queries are recognised by what they mention
SYS = [
    ('startup', re.compile(r'pg_catalog\.version\(\)'), {'params': (), 'cols': (('version', TEXT), ('backend_start', TEXT), ('client_addr', TEXT), ('client_port', INT4))}),
    ('setting_set', re.compile(r'^\s*SELECT\s+pg_catalog\.set_config\(\$1, \$2, false\)', re.S), {'params': (TEXT, TEXT), 'cols': (('set_config', TEXT),)}),
    ('setting_update', re.compile(r'set_config\(\(\$1::text\[\]\[\]\)'), {'params': (TEXTARRAY,), 'cols': (('key', TEXT), ('value', TEXT))}),
    ('setting_mget', re.compile(r'SELECT name, setting FROM pg_catalog\.pg_settings WHERE (?:name|lower\(name\)) = ANY \(\$1\)'), {'params': (TEXTARRAY,), 'cols': (('name', TEXT), ('setting', TEXT))}),
    ('setting_len', re.compile(r'SELECT count\(\*\) FROM pg_catalog\.pg_settings'), {'params': (), 'cols': (('count', INT8),)}),
    ('setting_keys', re.compile(r'SELECT name FROM pg_catalog\.pg_settings ORDER'), {'params': (), 'cols': (('name', TEXT),)}),
    ('setting_values', re.compile(r'SELECT setting FROM pg_catalog\.pg_settings ORDER'), {'params': (), 'cols': (('setting', TEXT),)}),
    ('setting_items', re.compile(r'SELECT name, setting FROM pg_catalog\.pg_settings ORDER'), {'params': (), 'cols': (('name', TEXT), ('setting', TEXT))}),
    ('setting_get', re.compile(r'SELECT setting FROM pg_catalog\.pg_settings WHERE (?:name = \$1|lower\(name\) = lower\(\$1\))'), {'params': (TEXT,), 'cols': (('setting', TEXT),)}),
    ('setting_get_custom', re.compile(r'^\s*SELECT pg_catalog\.current_setting\(\$1, true\)', re.S), {'params': (TEXT,), 'cols': (('current_setting', TEXT),)}),
    ('listening', re.compile(r'pg_listening_channels'), {'params': (), 'cols': (('channel', TEXT),)}),
]
# what lookup_procedures selects: oid, pg_proc.*, and four more
PROC_COLS = tuple(
    [('oid', OID), ('oid', OID), ('proname', NAME)] + [(n, OID) for n in ('pronamespace', 'proowner', 'prolang')] + [('procost', TEXT), ('prorows', TEXT), ('provariadic', OID), ('prosupport', TEXT), ('prokind', CHAR)]
    + [(n, BOOL) for n in ('prosecdef', 'proleakproof', 'proisstrict', 'proretset')] + [('provolatile', CHAR), ('proparallel', CHAR), ('pronargs', INT2), ('pronargdefaults', INT2), ('prorettype', OID), ('proargtypes', 30)]
    + [('proallargtypes', 1028), ('proargmodes', 1002), ('proargnames', TEXTARRAY)] + [(n, TEXT) for n in ('proargdefaults', 'protrftypes', 'prosrc', 'probin', 'prosqlbody', 'proconfig', 'proacl')]
    + [('_proid', 24), ('procedure_id', 2202), ('proargtypes', 1028), ('composite', BOOL)])
SQLTYPES = {'int4': INT4, 'int': INT4, 'integer': INT4, 'text': TEXT, 'int8': INT8, 'bigint': INT8, 'bool': BOOL, 'boolean': BOOL, '_int4': INT4ARRAY, 'int4[]': INT4ARRAY, 'integer[]': INT4ARRAY}


def sqltype(s):
    s = s.strip()
    if s.startswith('"pg_catalog".'):
        s = s[13:]
    if s.startswith('pg_catalog.'):
        s = s[11:]
    s = s.replace('"', '').lower()
    if s not in SQLTYPES:
        raise PgError('42704', 'type "%s" does not exist' % s)
    return SQLTYPES[s]


def proc_args(text):
    "[(parameter, oid, given with VARIADIC)] of the call of a function"
    out = []
    for a in text.split(',') if text.strip() else ():
        m = re.match(r'^\s*(VARIADIC )?\s*\$(\d+)::(.+?)\s*$', a)
        if not m:
            raise PgError('42601', 'syntax error in the call of a function: %r' % a)
        out.append((int(m.group(2)), sqltype(m.group(3)), bool(m.group(1))))
    return out


SYS += [
    ('type', re.compile(r'pg_catalog\.pg_type bt\b.*WHERE bt\.oid = \$1', re.S), {'params': (OID,), 'cols': (('namespace', NAME), ('typname', NAME), ('typtype', CHAR), ('typlen', INT2), ('typelem', OID), ('typrelid', OID), ('ae_typid', OID), ('ae_hasbin_input', BOOL), ('ae_hasbin_output', BOOL))}),
    ('composite', re.compile(r'pg_attribute a\b.*attrelid = \$1', re.S), {'params': (OID,), 'cols': (('atttypid', OID), ('attname', TEXT), ('is_domain', BOOL))}),
    ('basetype', re.compile(r'RECURSIVE typehierarchy.*tt\.oid = \$1', re.S), {'params': (OID,), 'cols': (('basetypid', OID),)}),
    ('procs', re.compile(r'pg_catalog\.pg_proc\b.*WHERE pg_proc\.oid = (?:\$1|regprocedurein\(\$1\))', re.S), {'params': (OID,), 'cols': PROC_COLS}),
    ('regtypes', re.compile(r'regtypein'), {'params': (TEXTARRAY,), 'cols': (('typoid', OID),)}),
    ('alock_try', re.compile(r'pg_try_advisory_lock'), {'params': (INT4ARRAY, INT8ARRAY), 'cols': (('acquired', BOOL),)}),
    ('alock_release', re.compile(r'pg_advisory_unlock'), {'params': (INT4ARRAY, INT8ARRAY), 'cols': (('released', BOOL),)}),
    ('alock_acquire', re.compile(r'pg_advisory_lock'), {'params': (INT4ARRAY, INT8ARRAY), 'cols': (('acquired', INT8),)}),
]


def unq(s):
    return s[1:-1].replace('""', '"') if s.startswith('"') else s.lower()


def classify(sql):
    s = sql.strip()
    s = s[:-1].rstrip() if s.endswith(';') else s
    for k, r in SQL:
        m = r.match(s)
        if m:
            return k, m.groupdict()
    for k, r, info in SYS:
        if r.search(s):
            return 'sys', dict(info, name=k, calls=lock_calls(s) if k.startswith('alock') else None)
    return 'bad', {}


def lock_calls(s):
    '''
    what an advisory lock query calls for an int8 identifier, and for a pair:
    ((action, shared), (action, shared, indexes of the two halves))
    '''
    one = two = None
    for m in re.finditer(r'pg_(try_)?advisory_(unlock|lock)(_shared)?\s*\(', s):
        depth, e = 1, m.end()
        while depth and e < len(s):
            depth += (s[e] == '(') - (s[e] == ')')
            e += 1
        arg = s[m.end():e - 1]
        act = m.group(2) if not m.group(1) else 'try'
        if '$1' in arg:
            ix = [int(x) for x in re.findall(r'\[(\d)\]', arg)]
            two = (act, bool(m.group(3)), ix if len(ix) == 2 else [1, 2])
        else:
            one = (act, bool(m.group(3)))
    if one is None or two is None:
        x = (one or two)[:2]
        one, two = x, x + ([1, 2],)
    return one, two


COLS = {'i::int4 AS i': ('i', INT4), "('t'||i)::text AS t": ('t', TEXT), 'NULL::int4 AS z': ('z', INT4)}


def split_cols(cols):
    out, depth, cur = [], 0, ''
    for c in cols:
        if c == ',' and not depth:
            out.append(cur.strip())
            cur = ''
            continue
        depth += (c == '(') - (c == ')')
        cur += c
    return out + [cur.strip()]


def col(expr):
    if expr in COLS:
        return COLS[expr]
    m = re.match(r'^\(10/\((\d+) - i\)\)::int4 AS i$', expr)
    if m:
        return ('i', INT4)
    raise PgError('42703', 'column does not exist: ' + expr)


class Locks:
    "The advisory lock table shared by the sessions of a server."

    def __init__(self):
        self.held = {}      # key -> {session: [exclusive count, share count]}

    def can(self, sess, key, shared):
        for s, (x, h) in self.held.get(key, {}).items():
            if s is not sess and (x or (h and not shared)):
                return False
        return True

    def take(self, sess, key, shared):
        if not self.can(sess, key, shared):
            return False
        self.held.setdefault(key, {}).setdefault(sess, [0, 0])[1 if shared else 0] += 1
        return True

    def wait(self, sess, key, shared):
        "take it when it becomes free; False when that will never happen"
        return self.take(sess, key, shared)

    def purge(self, sess):
        for c in self.held.values():
            c.pop(sess, None)

    def drop(self, sess, key, shared):
        c = self.held.get(key, {}).get(sess)
        if not c or not c[1 if shared else 0]:
            return False
        c[1 if shared else 0] -= 1
        return True

    def count(self, sess, key):
        return tuple(self.held.get(key, {}).get(sess, (0, 0)))


class Portal:
    def __init__(self, stmt, params, rfmts):
        self.stmt, self.params, self.rfmts = stmt, params, rfmts
        self.cols = None
        self.rows = None        # materialised rows, or a generator
        self.pos = 0
        self.done = False
        self.tag = None
        self.hold = False
        self.depth = 0          # subtransaction depth it was created at
        self.scroll = False
        self.started = False
        self.sql_cursor = False
        self.fail_at = None


class Snap(dict):
    "what a rollback restores: rows of tables, settings"


class Backend:
    """
    feed(bytes) -> list of wire messages (bytes), one entry per message, in
    the order the server sends them.
    """

    SETTINGS = (
        ('server_version', '16.1'), ('server_encoding', 'UTF8'), ('client_encoding', 'UTF8'),
        ('standard_conforming_strings', 'on'), ('DateStyle', 'ISO, MDY'), ('TimeZone', 'UTC'),
        ('integer_datetimes', 'on'), ('application_name', ''), ('search_path', '"$user", public'),
        ('work_mem', '4MB'), ('client_min_messages', 'notice'),
    )
    REPORTED = ('server_version', 'server_encoding', 'client_encoding', 'standard_conforming_strings',
                'DateStyle', 'TimeZone', 'integer_datetimes', 'application_name')

    def __init__(self, auth=None, locks=None, pid=4711, password=b'', settings=(), ssl=b'N'):
        self.buf = b''
        self.phase = 'startup'
        self.auth = auth
        self.password = password
        self.ssl = ssl
        self.pid, self.key = pid, 99
        self.state = 'I'
        self.implicit = False
        self.save = []              # savepoint stack [(name, snapshot)]
        self.db = {'mct': [], 'mcd': [], 'any': []}
        self.anyout, self.anyfail, self.anyrefuse = [], None, None
        self.base = None            # snapshot at transaction start
        self.stmts, self.portals = {}, {}
        # pg_type: (namespace, name, type, len, elem, relid, element, binary in and out)
        self.types = {
            a: ('pg_catalog', '_' + n, 'b', -1, e, 0, e, True, True)
            for a, n, e in ((1028, 'oid', OID), (1002, 'char', CHAR), (TEXTARRAY, 'text', TEXT), (INT4ARRAY, 'int4', INT4), (INT8ARRAY, 'int8', INT8))
        }
        self.composites, self.basetypes = {}, {}
        self.regtypes = {}
        self.procs = []             # functions, as dictionaries
        self.schemas = set()        # not transactional; a harness may share them
        self.echo_rows = 1
        self.on_echo = lambda args: args        # what ECHO returns for its parameters
        self.textlike = {TEXT, 1043, 1042, 19, 114, 705, 2275}   # the two formats are the same
        self.skip = False
        self.copyin = None
        self.listening = set()
        self.tx_notifies = []
        self.tx_listen = []
        self.inbox = []
        self.settings = dict(self.SETTINGS)
        self.settings.update(settings)
        self.defaults = dict(self.settings)
        self.session = dict(self.settings)      # what commit leaves of them
        self.reported = dict(self.settings)
        self.ready_settings = None
        self.early = False
        self.locks = locks or Locks()
        self.unheld = 0             # locks given back that were not held
        self.log = []               # (type, summary) of frontend messages
        self.closed = False
        self.terminated = False
        self.startup = None
        self.breach = None
        self.closes = []            # names closed with Close messages
        self.cursor_depth = {}

    # -- wire ------------------------------------------------------------
    def feed(self, data):
        self.buf += data
        out = self.out = []
        while self.buf and not self.closed:
            if self.phase == 'startup':
                if len(self.buf) < 4:
                    break
                n, = struct.unpack_from('!L', self.buf)
                if n < 8 or n > 10000:
                    raise ProtocolBreach('startup packet of %d bytes' % n)
                if len(self.buf) < n:
                    break
                body, self.buf = self.buf[4:n], self.buf[n:]
                self.on_startup(body, out)
                continue
            if len(self.buf) < 5:
                break
            n, = struct.unpack_from('!L', self.buf, 1)
            if n < 4 or n > 1 << 24:
                raise ProtocolBreach('message length %d of type %r' % (n, self.buf[:1]))
            if len(self.buf) < n + 1:
                break
            t, body, self.buf = self.buf[:1], self.buf[5:n + 1], self.buf[n + 1:]
            self.on_message(t, body, out)
        return out

    def on_startup(self, body, out):
        code, = struct.unpack_from('!L', body)
        if code == 80877103:
            self.log.append(('ssl',))
            out.append(self.ssl)
            if self.ssl == b'S':
                self.phase = 'tls'
                self.phase = 'startup'
            return
        if code == 80877102:
            self.log.append(('cancel',) + struct.unpack_from('!LL', body, 4))
            self.closed = True
            return
        if code != 196608:
            raise ProtocolBreach('startup code %d' % code)
        parts = body[4:].split(b'\0')
        if parts[-2:] != [b'', b'']:
            raise ProtocolBreach('startup packet not terminated: %r' % body)
        parts = parts[:-2]
        if len(parts) % 2:
            raise ProtocolBreach('odd startup parameters %r' % parts)
        self.startup = dict(zip(parts[::2], parts[1::2]))
        self.log.append(('startup', tuple(sorted(self.startup.items()))))
        for k, v in self.startup.items():
            if k.decode() in self.settings:
                self.settings[k.decode()] = v.decode()
                self.defaults[k.decode()] = v.decode()
        if self.auth is None:
            out.append(msg(b'R', struct.pack('!L', 0)))
            self.greet(out)
        else:
            self.phase = 'auth'
            out.append(self.auth_request())

    SALT = b'\x01\x00\xff\x7f'

    def auth_request(self):
        if self.auth == 'cleartext':
            return msg(b'R', struct.pack('!L', 3))
        if self.auth == 'md5':
            return msg(b'R', struct.pack('!L', 5) + self.SALT)
        return msg(b'R', struct.pack('!L', self.auth))

    def greet(self, out):
        self.session, self.reported = dict(self.settings), dict(self.settings)
        for k in self.REPORTED:
            out.append(param_msg(k.encode(), self.settings[k].encode()))
        out.append(msg(b'K', struct.pack('!LL', self.pid, self.key)))
        out.append(msg(b'Z', b'I'))
        self.phase = 'ready'

    def on_message(self, t, body, out):
        if self.phase == 'auth':
            if t != b'p':
                raise ProtocolBreach('expected a password, got %r' % t)
            if not body.endswith(b'\0') or b'\0' in body[:-1]:
                raise ProtocolBreach('password not terminated')
            if self.auth == 'md5':
                from hashlib import md5
                inner = md5(self.password + self.startup[b'user']).hexdigest().encode()
                want = b'md5' + md5(inner + self.SALT).hexdigest().encode()
            else:
                want = self.password
            if body[:-1] == want:
                out.append(msg(b'R', struct.pack('!L', 0)))
                self.greet(out)
            else:
                out.append(error_msg(PgError('28P01', 'password authentication failed', b'FATAL')))
                self.closed = True
            return
        if t == b'X':
            if body:
                raise ProtocolBreach('Terminate with a body')
            self.log.append(('X',))
            self.closed = self.terminated = True
            self.locks.purge(self)
            return
        if self.copyin is not None:
            return self.on_copyin(t, body, out)
        if self.skip:
            if t == b'S':
                self.log.append(('S',))
                self.skip = False
                self.sync(out)
            else:
                self.log.append(('skipped', t))
            return
        h = {b'Q': self.on_query, b'P': self.on_parse, b'B': self.on_bind, b'D': self.on_describe,
             b'E': self.on_execute, b'C': self.on_close, b'S': self.on_sync, b'H': self.on_flush,
             b'F': self.on_function}.get(t)
        if h is None:
            if t in (b'd', b'c', b'f'):
                # CopyData/CopyDone/CopyFail outside of COPY: ignored by the server
                self.log.append(('ignored', t))
                return
            raise ProtocolBreach('unexpected message type %r' % t)
        try:
            h(body, out)
        except PgError as e:
            self.fail(e, out)
            if t == b'Q' or t == b'F':
                self.finish_implicit()
                self.ready(out)
            else:
                self.skip = True
        except (IndexError, ValueError, struct.error) as e:
            raise ProtocolBreach('malformed %r message %r: %r' % (t, body, e))

    def on_function(self, body, out):
        oid, nf = struct.unpack_from('!LH', body)
        pos = 6 + 2 * nf
        na, = struct.unpack_from('!H', body, pos)
        self.log.append(('F', oid, na))
        if self.state == 'E':
            raise PgError('25P02', 'current transaction is aborted')
        if oid == 1:
            out.append(msg(b'V', struct.pack('!l', 4) + struct.pack('!l', 7)))
        elif oid == 2:
            out.append(msg(b'V', struct.pack('!l', -1)))
        else:
            raise PgError('42883', 'function with OID %d does not exist' % oid)
        self.ready(out)

    # -- transactions ----------------------------------------------------
    def snap(self):
        s = Snap({k: list(v) for k, v in self.db.items()})
        s.settings, s.session = self.settings, self.session     # never changed in place
        return s

    def restore(self, s):
        self.db = {k: list(v) for k, v in s.items()}
        self.regain(s)

    def regain(self, s):
        "settings of the snapshot"
        was = self.settings
        self.settings, self.session = s.settings, s.session
        self.report_early(was)

    def settle(self):
        "end of a transaction: what was set for it alone is gone"
        was = self.settings
        self.settings = self.session
        self.report_early(was)

    def report_early(self, was):
        "servers before 14 report a setting when it changes, others when they are ready"
        if self.early:
            for k in self.REPORTED:
                if k in was and self.settings[k] != was[k]:
                    self.reported[k] = self.settings[k]
                    self.out.append(param_msg(k.encode(), self.settings[k].encode(self.text())))

    def text(self):
        return {'LATIN1': 'latin1'}.get(self.settings['client_encoding'].upper(), 'utf-8')

    def begin_implicit(self):
        if self.state == 'I' and not self.implicit:
            self.implicit = True
            self.base = self.snap()

    def finish_implicit(self, ok=False):
        "end of an implicit transaction (after an error it was rolled back)"
        if self.implicit:
            if ok:
                self.check_deferred()
                self.base = None
                self.settle()
                self.deliver_listen()
            self.implicit = False
            self.drop_portals(commit=ok)

    def check_deferred(self):
        d = self.db['mcd']
        if len(set(d)) != len(d):
            self.restore(self.base)
            self.base = None
            self.tx_notifies, self.tx_listen = [], []
            raise PgError('23505', 'duplicate key value violates unique constraint "mcd_k_key"')

    def deliver_listen(self):
        for op, ch in self.tx_listen:
            if op == 'listen':
                self.listening.add(ch)
            elif ch == '*':
                self.listening.clear()
            else:
                self.listening.discard(ch)
        self.tx_listen = []
        seen = []
        for n in self.tx_notifies:
            if n not in seen:
                seen.append(n)
        for ch, p in seen:
            if ch in self.listening:
                self.inbox.append(notify_msg(self.pid, ch.encode('utf-8'), p.encode('utf-8')))
        self.tx_notifies = []

    def drop_portals(self, commit, depth=None):
        for n in list(self.portals):
            p = self.portals[n]
            if commit and p.hold:
                p.depth = -1        # survives everything from now on
                if p.rows is not None and not isinstance(p.rows, list):
                    p.rows = list(p.rows)
            elif depth is not None and p.depth <= depth:
                pass
            elif p.depth == -1:
                pass
            else:
                del self.portals[n]

    def fail(self, e, out):
        out.append(error_msg(e))
        if e.severity != b'ERROR':
            self.closed = True
            return
        self.copyin = None
        if self.state == 'T':
            self.state = 'E'
            self.regain(self.save[-1][1] if self.save else self.base)
            # portals of the failed subtransaction are gone
        elif self.state == 'I':
            if self.base is not None:
                self.restore(self.base)
                self.base = None
            self.tx_notifies, self.tx_listen = [], []
            self.implicit_failed = True

    def ready(self, out):
        for m in self.inbox:
            out.append(m)
        self.inbox = []
        for k in self.REPORTED if self.settings is not self.ready_settings else ():
            if self.settings[k] != self.reported[k]:
                self.reported[k] = self.settings[k]
                out.append(param_msg(k.encode(), self.settings[k].encode(self.text())))
        self.ready_settings = self.settings
        out.append(msg(b'Z', {'I': b'I', 'T': b'T', 'E': b'E'}[self.state]))

    def sync(self, out):
        if self.implicit:
            ok = self.base is not None
            try:
                self.finish_implicit(ok)
            except PgError as e:
                self.implicit = False
                self.drop_portals(commit=False)
                out.append(error_msg(e))
        self.ready(out)

    def on_sync(self, body, out):
        if body:
            raise ProtocolBreach('Sync with a body')
        self.log.append(('S',))
        self.sync(out)

    def on_flush(self, body, out):
        self.log.append(('H',))

    # -- simple query ----------------------------------------------------
    def on_query(self, body, out):
        sql, e = cstr(body, 0)
        if e != len(body):
            raise ProtocolBreach('trailing data in Query')
        sql = sql.decode('utf-8')
        self.log.append(('Q', sql))
        self.stmts.pop('', None)
        self.portals.pop('', None)
        parts = split_statements(sql)
        if not parts:
            out.append(msg(b'I'))
            self.ready(out)
            return
        for s in parts:     # the whole text is parsed before any of it runs
            if Stmt(s).kind == 'bad':
                raise PgError('42601', 'syntax error at or near "%s"' % s.split(' ')[0])
        self.multi(parts, out)

    def multi(self, parts, out):
        while parts:
            s = parts.pop(0)
            self.begin_implicit()
            st = Stmt(s)
            if st.kind == 'bad':
                raise PgError('42601', 'syntax error at or near "%s"' % s.split(' ')[0])
            self.check_failed(st)
            p = Portal(st, [], [])
            p.depth = len(self.save)
            self.start(p)
            if st.kind == 'copyin':
                out.append(msg(b'G', b'\0' + struct.pack('!HH', 1, 0)))
                self.copyin = {'rows': [], 'buf': b'', 'simple': parts, 'any': st.info['t'] == 'anyin'}
                return
            cols = self.result_cols(p)
            if cols is not None:
                out.append(self.row_desc(cols, [0] * len(cols)))
                self.emit(p, 0, out, [0] * len(cols))
            else:
                self.run_utility(p, out)
        try:
            self.finish_implicit(True)
        except PgError as e:
            if out and out[-1][:1] == b'C':
                out.pop()           # the last statement is complete after the commit only
            self.implicit = False
            self.drop_portals(commit=False)
            out.append(error_msg(e))
        self.ready(out)

    def check_failed(self, st):
        if self.state == 'E' and st.kind not in ('commit', 'rollback', 'rollbackto', 'empty'):
            raise PgError('25P02', 'current transaction is aborted, commands ignored until end of transaction block')

    # -- extended query --------------------------------------------------
    def on_parse(self, body, out):
        name, p = cstr(body, 0)
        sql, p = cstr(body, p)
        n, = struct.unpack_from('!H', body, p)
        if len(body) != p + 2 + 4 * n:
            raise ProtocolBreach('Parse message size')
        name, sql = name.decode(), sql.decode('utf-8')
        self.log.append(('P', name, sql))
        self.begin_implicit()
        st = Stmt(sql)
        if st.kind == 'bad':
            raise PgError('42601', 'syntax error at or near "%s"' % sql.split(' ')[0])
        if st.kind != 'any' and len(split_statements(sql)) > 1:
            raise PgError('42601', 'cannot insert multiple commands into a prepared statement')
        self.check_failed(st)
        if name and name in self.stmts:
            raise PgError('42P05', 'prepared statement "%s" already exists' % name)
        if st.kind == 'series':
            [col(c) for c in split_cols(st.info['cols'])]
        if st.kind == 'proc':
            self.proc_of(st)
        self.stmts[name] = st
        out.append(msg(b'1'))

    def on_bind(self, body, out):
        portal, p = cstr(body, 0)
        sname, p = cstr(body, p)
        nf, = struct.unpack_from('!H', body, p)
        fm = struct.unpack_from('!%dH' % nf, body, p + 2)
        p += 2 + 2 * nf
        na, = struct.unpack_from('!H', body, p)
        p += 2
        args = []
        for i in range(na):
            l, = struct.unpack_from('!l', body, p)
            p += 4
            if l == -1:
                args.append(None)
            else:
                if l < 0 or p + l > len(body):
                    raise ProtocolBreach('Bind argument size %d' % l)
                args.append(body[p:p + l])
                p += l
        nr, = struct.unpack_from('!H', body, p)
        rf = struct.unpack_from('!%dH' % nr, body, p + 2)
        if p + 2 + 2 * nr != len(body):
            raise ProtocolBreach('Bind message size')
        if any(f not in (0, 1) for f in fm + rf):
            raise ProtocolBreach('Bind format codes %r %r' % (fm, rf))
        portal, sname = portal.decode(), sname.decode()
        self.log.append(('B', portal, sname, tuple(args)))
        self.begin_implicit()
        st = self.stmts.get(sname)
        if st is None:
            raise PgError('26000', 'prepared statement "%s" does not exist' % sname)
        if nf > 1 and nf != na:
            raise PgError('08P01', 'bind message has %d parameter formats but %d parameters' % (nf, na))
        if na != len(st.params):
            raise PgError('08P01', 'bind message supplies %d parameters, but prepared statement "%s" requires %d' % (na, sname, len(st.params)))
        self.check_failed(st)
        vals = []
        for i, a in enumerate(args):
            f = fm[i] if nf > 1 else (fm[0] if nf == 1 else 0)
            if st.echo and a is not None:
                r = Raw(a)
                r.fmt, r.text = f, st.params[i] in self.textlike
                vals.append(r)
                continue
            vals.append(dec(a, st.params[i], f))
        if st.echo:
            vals = self.on_echo(vals)
        if portal and portal in self.portals:
            raise PgError('42P03', 'cursor "%s" already exists' % portal)
        po = Portal(st, vals, rf)
        po.depth = len(self.save)
        self.portals[portal] = po
        self.start(po)
        out.append(msg(b'2'))

    def on_describe(self, body, out):
        k, (name, e) = body[:1], cstr(body, 1)
        if e != len(body) or k not in (b'S', b'P'):
            raise ProtocolBreach('Describe message %r' % body)
        name = name.decode()
        self.log.append(('D', k.decode(), name))
        self.begin_implicit()
        if k == b'S':
            st = self.stmts.get(name)
            if st is None:
                raise PgError('26000', 'prepared statement "%s" does not exist' % name)
            out.append(msg(b't', struct.pack('!H', len(st.params)) + b''.join(struct.pack('!L', o) for o in st.params)))
            cols = self.stmt_cols(st)
            fm = None
        else:
            p = self.portals.get(name)
            if p is None:
                raise PgError('34000', 'portal "%s" does not exist' % name)
            cols = self.result_cols(p)
            fm = self.formats(p, cols) if cols is not None else None
        if cols is None:
            out.append(msg(b'n'))
        else:
            out.append(self.row_desc(cols, fm or [0] * len(cols)))

    def on_close(self, body, out):
        k, (name, e) = body[:1], cstr(body, 1)
        if e != len(body) or k not in (b'S', b'P'):
            raise ProtocolBreach('Close message %r' % body)
        name = name.decode()
        self.log.append(('C', k.decode(), name))
        existed = (self.stmts if k == b'S' else self.portals).pop(name, None) is not None
        self.closes.append((k.decode(), name, existed))
        out.append(msg(b'3'))

    def on_execute(self, body, out):
        name, p = cstr(body, 0)
        mx, = struct.unpack_from('!l', body, p)
        if p + 4 != len(body):
            raise ProtocolBreach('Execute message size')
        name = name.decode()
        self.log.append(('E', name, mx))
        po = self.portals.get(name)
        if po is None:
            raise PgError('34000', 'portal "%s" does not exist' % name)
        st = po.stmt
        if st.kind == 'empty':
            out.append(msg(b'I'))
            return
        self.check_failed(st)
        if st.kind == 'copyin':
            out.append(msg(b'G', b'\0' + struct.pack('!HH', 1, 0)))
            self.copyin = {'rows': [], 'buf': b'', 'simple': None, 'any': st.info['t'] == 'anyin'}
            return
        cols = self.result_cols(po)
        if cols is not None:
            self.emit(po, mx if mx > 0 else 0, out, self.formats(po, cols))
        else:
            if po.done:
                raise PgError('55000', 'portal "%s" cannot be run' % name)
            self.run_utility(po, out)
            po.done = True

    def formats(self, p, cols):
        if not cols:
            return []
        if len(p.rfmts) == 0:
            return [0] * len(cols)
        if len(p.rfmts) == 1:
            return list(p.rfmts) * len(cols)
        if len(p.rfmts) != len(cols):
            raise PgError('08P01', 'bind message has %d result formats but query has %d columns' % (len(p.rfmts), len(cols)))
        return list(p.rfmts)

    def row_desc(self, cols, fm):
        b = struct.pack('!H', len(cols))
        for (n, oid), f in zip(cols, fm):
            b += n.encode() + b'\0' + struct.pack('!LhLhlh', 0, 0, oid, TYPLEN.get(oid, -1), -1, f)
        return msg(b'T', b)

    def stmt_cols(self, st):
        k = st.kind
        if k == 'series':
            return [col(c) for c in split_cols(st.info['cols'])]
        if k == 'const':
            return [('i', INT4)]
        if k == 'table':
            return [('k', INT4)]
        if k == 'any':
            return [('sql', TEXT)]
        if k == 'nulls':
            return [('c%d' % i, int(o)) for i, o in enumerate(st.info['oids'].split(','))]
        if k == 'insert' and st.info['ret']:
            return [('k', INT4)]
        if k == 'sys':
            return list(st.info['cols'])
        if k == 'proc':
            return self.proc_of(st)['cols']
        if k == 'echo':
            return [('c%d' % i, o) for i, o in enumerate(st.params)]
        if k == 'fetch':
            return self.cursor(st.info['id']).cols
        return None

    def proc_of(self, st):
        "the function a statement calls"
        a = proc_args(st.info['args'])
        if [i for i, _, _ in a] != list(range(1, len(a) + 1)):
            raise PgError('42P18', 'parameters of the function are not in order')
        desc = st.info['desc']
        for f in self.procs:
            if st.info['f'].strip() == f['_proid'] and [o for _, o, _ in a] == f['types'] and [v for _, _, v in a] == [bool(f['variadic']) and i == len(a) - 1 for i in range(len(a))]:
                if (f.get('desc') or None) != (desc and desc[1:-1]):
                    raise PgError('42601', 'a column definition list is required for functions returning "record"')
                return f
        raise PgError('42883', 'function %s(%s) does not exist' % (st.info['f'], st.info['args']))

    def cursor(self, qid):
        n = qid.replace('""', '"')
        c = self.portals.get(n)
        if c is None:
            raise PgError('34000', 'cursor "%s" does not exist' % n)
        return c

    def result_cols(self, p):
        if p.cols is None:
            p.cols = self.stmt_cols(p.stmt)
        return p.cols

    # -- execution -------------------------------------------------------
    def start(self, p):
        "compute what the portal returns (rows are produced lazily)"
        st = p.stmt
        k, info = st.kind, st.info
        if k == 'series':
            n = p.params[0] if info['n'].startswith('$') else int(info['n'])
            n = n or 0
            cols = split_cols(info['cols'])
            p.cols = [col(c) for c in cols]

            def gen():
                for i in range(1, n + 1):
                    r = []
                    for c in cols:
                        m = re.match(r'^\(10/\((\d+) - i\)\)::int4 AS i$', c)
                        if m:
                            d = int(m.group(1)) - i
                            if d == 0:
                                raise PgError('22012', 'division by zero')
                            r.append(int(10 / d))
                        elif c.startswith('i'):
                            r.append(i)
                        elif c.startswith('NULL'):
                            r.append(None)
                        else:
                            r.append('t%d' % i)
                    yield tuple(r)
            p.rows = gen()
            p.tag = 'SELECT %d'
        elif k == 'const':
            p.rows = iter([(p.params[0] if info['v'].startswith('$') else int(info['v']),)])
            p.tag = 'SELECT %d'
        elif k == 'table':
            p.rows = iter([(x,) for x in sorted(self.db['mct'])])
            p.tag = 'SELECT %d'
        elif k == 'nulls':
            p.rows = iter([(None,) * len(self.stmt_cols(st))])
            p.tag = 'SELECT %d'
        elif k == 'any':
            p.rows = iter([(st.sql,)])
            p.tag = 'SELECT %d'
        elif k == 'proc':
            p.rows = iter(self.proc_of(st)['f'](*p.params))
            p.tag = 'SELECT %d'
        elif k == 'echo':
            p.rows = iter([tuple(p.params)] * self.echo_rows)
            p.tag = 'SELECT %d'
        elif k == 'sys':
            p.rows = self.sys_rows(st.info, p.params, st.sql)
            p.tag = 'SELECT %d'

    def lock_keys(self, params):
        pairs, ids = params
        out = []
        n = len(ids) if ids else len(pairs or ())
        for i in range(n):
            if ids and ids[i] is not None:
                out.append(ids[i])
            else:
                out.append(tuple(pairs[i]))
        return out

    def sys_rows(self, info, params, sql):
        n = info['name']
        if n == 'startup':
            yield ('PostgreSQL 16.1 (model)', '2020-01-01 00:00:00+00', None, None)
        elif n == 'setting_set':
            yield (self.set(params[0], params[1]),)
        elif n == 'setting_update':
            for k, v in params[0]:
                yield (k, self.set(k, v))
        elif n == 'setting_mget':
            for k in self.listed():
                if (k.lower() if 'lower(name) = ANY ($1)' in sql else k) in params[0]:
                    yield (k, self.raw(k))
        elif n == 'setting_get':
            for k in self.listed():
                if k == params[0] or 'lower(name) = lower($1)' in sql and k.lower() == params[0].lower():
                    yield (self.raw(k),)
        elif n == 'setting_get_custom':
            k = self.setting(params[0])
            yield (self.settings[k] if k else None,)
        elif n == 'setting_len':
            yield (len(self.listed()),)
        elif n == 'setting_keys':
            for k in self.listed(sql):
                yield (k,)
        elif n == 'setting_values':
            for k in self.listed(sql):
                yield (self.raw(k),)
        elif n == 'setting_items':
            for k in self.listed(sql):
                yield (k, self.raw(k))
        elif n == 'listening':
            for ch in sorted(self.listening):
                yield (ch,)
        elif n == 'type':
            if params[0] in self.types:
                yield self.types[params[0]]
        elif n == 'procs':
            for f in self.procs:
                if (params[0] in f['idents'] if isinstance(params[0], str) else params[0] == f['oid']):
                    yield (f['oid'], f['oid'], f['name'], 2200, 10, 14, '100', '0', f['variadic'], '-', 'f', False, False, False, f['retset'], 'v', 'u', len(f['types']), 0, f['rettype'], ' '.join(map(str, f['types'])),
                           f['alltypes'], f['modes'], f['names'], None, None, 'body', None, None, None, None, f['_proid'], f['_proid'] + '()', list(f['types']), f['composite'])
                    return
            if isinstance(params[0], str):
                raise PgError('42883', 'function "%s" does not exist' % params[0])
        elif n == 'regtypes':
            for k in params[0]:
                yield (self.regtypes[k],)
        elif n == 'composite':
            for r in self.composites.get(params[0], ()):
                yield r
        elif n == 'basetype':
            yield (self.basetypes.get(params[0]),)
        elif n in ('alock_try', 'alock_acquire', 'alock_release'):
            one, two = info['calls']
            k = 0
            for k, key in enumerate(self.lock_keys(params), 1):
                act, shared = one
                if isinstance(key, tuple):
                    act, shared, ix = two
                    key = tuple(key[i - 1] for i in ix)
                self.log.append((act, key, shared))
                if act == 'try':
                    r = self.locks.take(self, key, shared)
                elif act == 'lock':
                    r = self.locks.wait(self, key, shared)
                    if not r:
                        raise PgError('40P01', 'deadlock detected')
                else:
                    r = self.locks.drop(self, key, shared)
                    self.unheld += not r
                if n != 'alock_acquire':
                    yield (r,)
            if n == 'alock_acquire':
                yield (k,)

    def setting(self, k):
        for x in self.settings:
            if x.lower() == k.lower():
                return x

    def set(self, k, v, local=False):
        x = self.setting(k)
        if x is None and '.' not in k:
            raise PgError('42704', 'unrecognized configuration parameter "%s"' % k)
        k = x or k
        if v is None:
            v = self.defaults.get(k, '')
        if v == 'BAD':
            raise PgError('22023', 'invalid value for parameter "%s"' % k)
        if k == 'work_mem':
            n = int(v[:-2]) * 1024 if v.endswith('MB') else int(v.removesuffix('kB'))
            v = '%dMB' % (n // 1024) if n % 1024 == 0 else '%dkB' % n
        was = self.settings
        self.settings = {**was, k: v}
        if not local:
            self.session = {**self.session, k: v}
        self.report_early(was)
        return v

    def raw(self, k):
        "the value in pg_settings is in the setting's unit"
        v = self.settings[k]
        if k == 'work_mem':
            return str(int(v[:-2]) * (1024 if v.endswith('MB') else 1))
        return v

    def listed(self, sql='ORDER BY name'):
        "settings of pg_settings"
        ks = [k for k in self.settings if '.' not in k]
        if 'ORDER BY name' in sql:
            return sorted(ks)
        return sorted(ks, key=self.raw) if 'ORDER BY setting' in sql else ks

    def emit(self, p, limit, out, fm):
        st = p.stmt
        if st.kind == 'insert':
            if p.rows is None:
                v = self.insert(p)
                p.rows = iter([(v,)])
                p.tag = 'INSERT 0 %d'
        elif st.kind == 'fetch':
            if p.rows is None:
                rows = self.fetch(st.info)
                p.rows = iter(rows)
                p.tag = 'FETCH %d'
        elif p.rows is None:
            p.rows = iter(())
        n = 0
        it = p.rows
        cols = p.cols
        while True:
            if limit and n == limit:
                out.append(msg(b's'))
                return
            try:
                r = next(it)
            except StopIteration:
                break
            n += 1
            b = struct.pack('!H', len(r))
            for v, (cn, oid), f in zip(r, cols, fm):
                d = enc(v, oid, f)
                b += b'\xff\xff\xff\xff' if d is None else struct.pack('!l', len(d)) + d
            out.append(msg(b'D', b))
        p.done = True
        p.rows = iter(())
        out.append(msg(b'C', (p.tag % n).encode() + b'\0'))

    def insert(self, p):
        info = p.stmt.info
        v = p.params[0] if info['v'].startswith('$') else int(info['v'])
        if v is None:
            raise PgError('23502', 'null value in column "k"')
        if info['t'] == 'mct' and v in self.db['mct']:
            raise PgError('23505', 'duplicate key value violates unique constraint "mct_pkey"')
        self.db[info['t']].append(v)
        return v

    def fetch(self, info, move=False):
        c = self.cursor(info['id'])
        if not isinstance(c.rows, list):
            c.rows = list(c.rows)
        N = len(c.rows)
        d = info['dir']
        n = info['n']

        def rows(seq):
            return [c.rows[i - 1] for i in seq]

        def forward(k):
            if k == 0:
                return rows([c.pos]) if 1 <= c.pos <= N else []
            if k < 0:
                return backward(-k)
            r = list(range(c.pos + 1, min(c.pos + k, N) + 1))
            c.pos = c.pos + k if c.pos + k <= N else N + 1
            return rows(r)

        def backward(k):
            if k == 0:
                return forward(0)
            if k < 0:
                return forward(-k)
            if not c.scroll:
                raise PgError('55000', 'cursor can only scan forward')
            r = list(range(min(c.pos - 1, N), max(c.pos - k, 1) - 1, -1))
            c.pos = max(c.pos - k, 0)
            return rows(r)

        def absolute(k):
            if k > N:
                c.pos = N + 1
                return []
            if k < 0:
                k = N + 1 + k
                if k < 1:
                    c.pos = 0
                    return []
            c.pos = k
            return rows([k]) if k else []

        if d == 'FORWARD':
            return forward(N + 2 if n == 'ALL' else int(n))
        if d == 'BACKWARD':
            return backward(N + 2 if n == 'ALL' else int(n))
        if d == 'ABSOLUTE':
            return absolute(int(n))
        if d == 'RELATIVE':
            k = int(n)
            if k == 0:
                return forward(0)
            t = c.pos + k
            if t < 1:
                c.pos = 0
                return []
            if t > N:
                c.pos = N + 1
                return []
            c.pos = t
            return rows([t])
        if d == 'LAST':
            return absolute(-1) if N else absolute(1)
        if d == 'NEXT':
            return forward(1)
        raise AssertionError(d)

    def run_utility(self, p, out):
        st = p.stmt
        k, info = st.kind, st.info

        def tag(s):
            out.append(msg(b'C', s.encode() + b'\0'))
        if k == 'empty':
            out.append(msg(b'I'))
        elif k == 'insert':
            self.insert(p)
            tag('INSERT 0 1')
        elif k == 'raise':
            if info['t'] == 'ERROR':
                raise PgError('', '', raw=self.planted)
            out.append(msg(b'N', self.planted))
            tag('DO')
        elif k == 'delete':
            n = len(self.db['mct'])
            self.db['mct'] = []
            tag('DELETE %d' % n)
        elif k in ('copyout', 'copyouterr'):
            out.append(msg(b'H', b'\0' + struct.pack('!HH', 1, 0)))
            n = int(info['n'])
            for i in range(1, n + 1):
                if k == 'copyouterr':
                    d = int(info['k']) - i
                    if d == 0:
                        raise PgError('22012', 'division by zero')
                    v = int(10 / d)
                else:
                    v = i
                out.append(msg(b'd', b'%d\n' % v))
            out.append(msg(b'c'))
            tag('COPY %d' % n)
        elif k == 'copyany':
            out.append(msg(b'H', b'\0' + struct.pack('!HH', 1, 0)))
            for i, b in enumerate(self.anyout):
                if i == self.anyfail:
                    raise PgError('22012', 'division by zero')
                out.append(msg(b'd', b))
            if self.anyfail is not None:
                raise PgError('22012', 'division by zero')
            out.append(msg(b'c'))
            tag('COPY %d' % len(self.anyout))
        elif k == 'begin':
            if self.state == 'T':
                out.append(notice_msg('25001', 'there is already a transaction in progress'))
            else:
                if self.base is None:
                    self.base = self.snap()
                self.state = 'T'
                self.implicit = False
                self.begin_mode = info['mode'].strip()
            tag('START TRANSACTION' if st.sql.strip().startswith('START') else 'BEGIN')
        elif k == 'commit':
            if self.state == 'E':
                self.rollback()
                tag('ROLLBACK')
            elif self.state == 'I':
                out.append(notice_msg('25P01', 'there is no transaction in progress'))
                tag('COMMIT')
            else:
                self.state = 'I'
                self.save = []
                try:
                    self.check_deferred()
                except PgError:
                    self.implicit = False
                    self.drop_portals(commit=False)
                    raise
                self.base = None
                self.settle()
                self.deliver_listen()
                self.drop_portals(commit=True)
                tag('COMMIT')
        elif k == 'rollback':
            if self.state == 'I':
                out.append(notice_msg('25P01', 'there is no transaction in progress'))
                if self.base is not None:
                    self.restore(self.base)
                    self.base = None
                    self.implicit = False
            else:
                self.rollback()
            tag('ROLLBACK')
        elif k == 'savepoint':
            self.need_block('SAVEPOINT')
            self.save.append((info['id'], self.snap(), list(self.tx_notifies), list(self.tx_listen)))
            tag('SAVEPOINT')
        elif k == 'release':
            self.need_block('RELEASE SAVEPOINT')
            i = self.find_save(info['id'])
            del self.save[i:]
            for po in self.portals.values():
                if po.depth > i:
                    po.depth = i
            tag('RELEASE')
        elif k == 'rollbackto':
            self.need_block('ROLLBACK TO SAVEPOINT')
            i = self.find_save(info['id'])
            n, s, nt, ls = self.save[i]
            del self.save[i + 1:]
            self.restore(s)
            self.tx_notifies, self.tx_listen = list(nt), list(ls)
            self.state = 'T'
            self.drop_portals(commit=False, depth=i)
            tag('ROLLBACK')
        elif k == 'declare':
            hold = info['hold'] == 'WITH'
            if not hold and self.state == 'I':
                raise PgError('25P01', 'DECLARE CURSOR can only be used in transaction blocks')
            n = info['id'].replace('""', '"')
            if n in self.portals:
                raise PgError('42P03', 'cursor "%s" already exists' % n)
            inner = Stmt(info['q'])
            if inner.kind not in ('series', 'table', 'const', 'sys', 'echo', 'any', 'proc'):
                raise PgError('42601', 'syntax error')
            c = Portal(inner, p.params, [])
            c.depth = len(self.save)
            c.hold = hold
            c.scroll = bool(info['scroll'])
            c.sql_cursor = True
            self.start(c)
            self.result_cols(c)
            if self.state == 'I':
                c.rows = list(c.rows)
            self.portals[n] = c
            tag('DECLARE CURSOR')
        elif k == 'move':
            tag('MOVE %d' % len(self.fetch(info, move=True)))
        elif k == 'close':
            n = info['id'].replace('""', '"')
            self.cursor(info['id'])
            del self.portals[n]
            tag('CLOSE CURSOR')
        elif k == 'deallocate':
            n = info['id'].replace('""', '"')
            if n not in self.stmts:
                raise PgError('26000', 'prepared statement "%s" does not exist' % n)
            del self.stmts[n]
            tag('DEALLOCATE')
        elif k == 'schema':
            if (info['t'] == 'CREATE') is (info['id'] in self.schemas):
                if not info['if']:
                    raise PgError('42P06' if info['t'] == 'CREATE' else '3F000', 'schema "%s" %s' % (info['id'], 'already exists' if info['t'] == 'CREATE' else 'does not exist'))
            elif info['t'] == 'CREATE':
                self.schemas.add(info['id'])
            else:
                self.schemas.remove(info['id'])
            tag(info['t'] + ' SCHEMA')
        elif k == 'listen':
            self.tx_listen.append(('listen', unq(info['id'])))
            tag('LISTEN')
        elif k == 'unlisten':
            self.tx_listen.append(('unlisten', '*' if info['id'] == '*' else unq(info['id'])))
            tag('UNLISTEN')
        elif k == 'notify':
            self.tx_notifies.append((unq(info['id']), (info['p'] or '').replace("''", "'")))
            tag('NOTIFY')
        elif k == 'set':
            if self.state == 'I' and (info['local'] or '').strip().upper() == 'LOCAL':
                out.append(notice_msg('25P01', 'SET LOCAL can only be used in transaction blocks'))
            self.set(info['k'], info['v'], (info['local'] or '').strip().upper() == 'LOCAL')
            tag('SET')
        elif k == 'reset':
            if info['k'].upper() == 'ALL':
                for x in list(self.settings):
                    self.set(x, None)
            else:
                if self.setting(info['k']) is None:
                    raise PgError('42704', 'unrecognized configuration parameter "%s"' % info['k'])
                self.set(info['k'], None)
            tag('RESET')
        else:
            raise AssertionError((k, st.sql))

    def rollback(self):
        self.restore(self.base)
        self.base = None
        self.state = 'I'
        self.save = []
        self.tx_notifies, self.tx_listen = [], []
        self.implicit = False
        self.drop_portals(commit=False)

    def need_block(self, what):
        if self.state == 'I':
            raise PgError('25P01', '%s can only be used in transaction blocks' % what)

    def find_save(self, n):
        for i in range(len(self.save) - 1, -1, -1):
            if self.save[i][0] == n:
                return i
        raise PgError('3B001', 'savepoint "%s" does not exist' % n)

    # -- COPY FROM STDIN -------------------------------------------------
    def on_copyin(self, t, body, out):
        c = self.copyin
        if t in (b'S', b'H'):
            self.log.append(('ignored', t))     # as the server does during COPY
            return
        if t == b'd':
            self.log.append(('d', body))
            if c['any']:
                if len(c['rows']) == self.anyrefuse:
                    return self.copy_error(PgError('22P02', 'invalid input'), out)
                c['rows'].append(body)
                self.db['any'].append(body)
                return
            c['buf'] += body
            try:
                while b'\n' in c['buf']:
                    line, _, c['buf'] = c['buf'].partition(b'\n')
                    self.copy_line(c, line)
            except PgError as e:
                self.copy_error(e, out)
            return
        if t == b'c':
            if body:
                raise ProtocolBreach('CopyDone with a body')
            self.log.append(('c',))
            try:
                if c['buf']:
                    self.copy_line(c, c['buf'])
                if not c['any']:
                    self.copy_store(c)
            except PgError as e:
                return self.copy_error(e, out)
            if c['any']:
                n = b''.join(c['rows']).count(b'\n')
            else:
                n = len(c['rows'])
            out.append(msg(b'C', b'COPY %d\0' % n))
            self.copyin = None
            if c['simple'] is not None:
                try:
                    self.multi(c['simple'], out)
                except PgError as e:
                    self.fail(e, out)
                    self.finish_implicit()
                    self.ready(out)
            return
        if t == b'f':
            m, e = cstr(body, 0)
            if e != len(body):
                raise ProtocolBreach('CopyFail message')
            self.log.append(('f', m))
            return self.copy_error(PgError('57014', 'COPY from stdin failed: ' + m.decode('utf-8')), out)
        self.log.append(('breach-in-copy', t))
        self.copy_error(PgError('08P01', 'unexpected message type 0x%02X during COPY from stdin' % t[0]), out)

    def copy_line(self, c, line):
        try:
            v = int(line)
        except ValueError:
            raise PgError('22P02', 'invalid input syntax for type integer: "%s"' % line.decode('utf-8', 'replace'))
        c['rows'].append(v)

    def copy_store(self, c):
        "rows are read in batches (of a thousand) before they are stored"
        n = len(self.db['mct'])
        for v in c['rows']:
            if v in self.db['mct']:
                del self.db['mct'][n:]
                raise PgError('23505', 'duplicate key value violates unique constraint "mct_pkey"')
            self.db['mct'].append(v)

    def copy_error(self, e, out):
        c = self.copyin
        if c['any']:
            del self.db['any'][len(self.db['any']) - len(c['rows']):]
        self.copyin = None
        self.fail(e, out)
        if c['simple'] is not None:
            self.finish_implicit()
            self.ready(out)
        else:
            self.skip = True


def split_statements(sql):
    "split on semicolons outside of quotes; empty statements vanish"
    parts, cur, i, q = [], '', 0, None
    while i < len(sql):
        ch = sql[i]
        if q:
            cur += ch
            if ch == q:
                q = None
        elif ch in '"\'':
            q = ch
            cur += ch
        elif ch == ';':
            parts.append(cur)
            cur = ''
        else:
            cur += ch
        i += 1
    if q:
        raise PgError('42601', 'unterminated quoted string')
    parts.append(cur)
    return [p.strip() for p in parts if p.strip()]
