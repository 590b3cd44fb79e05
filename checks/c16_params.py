"""
C16 - connection parameters mean the same wherever they are given: every small
parameter set over an alphabet with the delimiters through IRIs, every
combination of sources, every password file to the bound.
"""
import contextlib
import io
import itertools
import os
import sys
import tempfile

PROPERTY = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of parameter sets, combinations of sources and password files against reference readers'
RULE = 'an execution is one parameter set through an IRI, one combination of sources, one password file with its lookups, or one resolution'
ASSUMPTIONS = [
    'percent escapes in IRIs stand for one character below 128',
    'parameter values are not empty; names of settings have no brackets, equal signs or ampersands',
    'password files are read as libpq documents them: the characters escaped are the colon and the backslash',
]


def tasks(tier):
    T = []
    n = 8
    for i in range(n):
        T += [('iri', 'c', {'i': i, 'n': n}), ('sources', 'c', {'i': i, 'n': n}), ('passfile', 'c', {'i': i, 'n': n})]
    T += [('resolve', 'c', {}), ('lookup', 'c', {}), ('services', 'c', {}), ('opened', 'c', {}), ('twice', 'c', {}), ('home', 'c', {})]
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


# ---------------------------------------------------------------------------
# IRIs

CHARS = "a:@/?#%[]&=, é'\"\\+"


def allowed(k, v):
    if k == 'host':
        # no name or address has these; the colon makes it an address
        return not set(v) & set('[]')
    if k == 'port':
        # a number or the name of a service
        return not set(v) & set('@[]')
    return True


def escape(t):
    "as cautious as can be: everything but letters and digits"
    return ''.join(c if c.isalnum() or ord(c) > 127 else '%%%02X' % ord(c) for c in t)


def by_hand(p):
    "the IRI a cautious user would write"
    s = 'pq://'
    if 'user' in p:
        s += escape(p['user'])
        if 'password' in p:
            s += ':' + escape(p['password'])
        s += '@'
    if 'unix' in p:
        s += '[unix:' + ':'.join(escape(x) for x in p['unix'].split('/')) + ']'
    elif 'host' in p:
        s += '[%s]' % ':'.join(escape(x) for x in p['host'].split(':')) if ':' in p['host'] else escape(p['host'])
    if 'port' in p:
        s += ':' + escape(p['port'])
    if 'database' in p:
        s += '/' + '/'.join(escape(x) for x in [p['database']] + p.get('path', []))
    q = ['[%s]=%s' % (k, escape(p[k])) for k in p if k in ('sslmode', 'connect_timeout')]
    q += [escape(k) + '=' + escape(v) for k, v in p.get('settings', {}).items() if k != 'search_path']
    if q:
        s += '?' + '&'.join(q)
    sp = p.get('settings', {}).get('search_path')
    if sp:
        s += '#' + ','.join(map(escape, sp))
    return s


def strings(length):
    for k in range(1, length + 1):
        for t in itertools.product(CHARS, repeat=k):
            yield ''.join(t)


FULL = {'user': 'u', 'password': 'p', 'host': 'h', 'port': '5', 'database': 'd', 'settings': {'s': 'v', 'search_path': ['x', 'y']}, 'sslmode': 'require'}
FIELDS = ['user', 'password', 'host', 'port', 'database', 'unix', 'setting', 'name', 'path', 'driver', 'parts']


def put(p, field, v):
    p = {k: (dict(x) if isinstance(x, dict) else x) for k, x in p.items()}
    if field == 'setting':
        p.setdefault('settings', {})['s'] = v
    elif field == 'name':
        p.setdefault('settings', {})[v] = 'v'
    elif field == 'path':
        p.setdefault('settings', {})['search_path'] = [v, 'y']
    elif field == 'driver':
        p['connect_timeout'] = v
    elif field == 'parts':
        # what follows the database
        p.setdefault('database', 'd')
        p['path'] = [v, 'z']
    else:
        p[field] = v
        if field == 'unix':
            p.pop('host', None)
            p.pop('port', None)
    return p


def param_sets(tier):
    long = 3 if tier == 'quick' else 4
    for f in FIELDS:
        for v in strings(long if f not in ('port', 'driver') else 2):
            if f == 'name' and set(v) & set('[]=&') or not allowed(f, v):
                continue
            for base in (FULL, {}) if len(v) < 3 or tier != 'quick' else (FULL,):
                yield put(base, f, v)
    for f, g in itertools.combinations(FIELDS, 2):
        if {f, g} in ({'host', 'unix'}, {'port', 'unix'}):
            continue
        for v in CHARS:
            for w in CHARS:
                if {'name'} & {f, g} and set(v if f == 'name' else w) & set('[]=&') or not allowed(f, v) or not allowed(g, w):
                    continue
                yield put(put({}, f, v), g, w)
    # every subset of the parameters
    keys = list(FULL)
    for k in range(len(keys) + 1):
        for c in itertools.combinations(keys, k):
            yield {x: FULL[x] for x in c}


def t_iri(R, i, n):
    from postgresql import iri as I
    for j, p in enumerate(param_sets(R.tier)):
        if j % n != i or not R.case(p):
            continue
        with R.guarded('iri', 10):
            before = repr(p)
            s = I.serialize(p)
            R.check(repr(p) == before, 'iri:argument', lambda: '%s became %r' % (before, p))
            got = I.parse(s)
            R.check(got == p, 'iri:round', lambda: '%r -> %r -> %r' % (p, s, got))
            R.check(I.serialize(got) == s, 'iri:stable', lambda: '%r -> %r' % (s, I.serialize(got)))
            # one user would write
            if not ('port' in p and 'host' not in p or 'password' in p and 'user' not in p):
                h = by_hand(p)
                R.check(I.parse(h) == p, 'iri:by-hand', lambda: '%r is read as %r, not %r' % (h, I.parse(h), p))
            # shown without the password
            if 'password' in p:
                o = I.serialize(p, obscure_password=True)
                R.check(I.parse(o) == dict(p, password='***'), 'iri:obscured', lambda: '%r -> %r' % (p, o))
            else:
                R.check(I.serialize(p, obscure_password=True) == s, 'iri:obscured-none', lambda: repr(p))
            # settings as pairs, the search path as text
            if 'settings' in p:
                q = dict(p, settings=list(p['settings'].items()))
                R.check(I.parse(I.serialize(q)) == p, 'iri:pairs', lambda: '%r -> %r' % (q, I.serialize(q)))
                sp = p['settings'].get('search_path')
                if sp:
                    q = dict(p, settings=dict(p['settings'], search_path=','.join('"%s"' % x.replace('"', '""') for x in sp)))
                    R.check(I.parse(I.serialize(q)) == p, 'iri:search-path', lambda: '%r -> %r' % (q, I.serialize(q)))
            R.trans(5)
            R.state((sorted(p), len(s)))
            R.outcome((s[:5], len(got)))


def t_twice(R):
    "what the locator says in its place is not replaced by a driver parameter of the same name"
    from postgresql import iri as I
    P = {'user': 'u', 'password': 'p', 'host': 'h', 'port': '5', 'database': 'd', 'path': ['x', 'y']}
    for k in range(1, 6):
        for place in itertools.combinations(list(P), k):
            if 'password' in place and 'user' not in place or 'port' in place and 'host' not in place or 'path' in place and 'database' not in place:
                continue
            for n in (1, 2):
                for again in itertools.permutations(['user', 'password', 'host', 'port', 'database', 'path', 'sslmode', 'settings'], n):
                    if R.case([place, again]):
                        with R.guarded('twice', 10):
                            p = {x: P[x] for x in place}
                            h = by_hand(p)
                            h += ('' if 'database' in p else '/') + '?' + '&'.join('[%s]=other' % x for x in again)
                            want = dict(p)
                            for x in again:
                                if x != 'settings':
                                    want.setdefault(x, 'other')
                            R.check(I.parse(h) == want, 'iri:twice', lambda: '%r is read as %r, not %r' % (h, I.parse(h), want))
                            R.trans()
                            R.state([place, again])


# what is looked for in the home of the user, when it is there
HOME_FILES = {'sslcrtfile': '.postgresql/postgresql.crt', 'sslkeyfile': '.postgresql/postgresql.key', 'sslrootcrtfile': '.postgresql/root.crt', 'sslrootcrlfile': '.postgresql/root.crl', 'pgpassfile': '.pgpass'}


def t_home(R):
    import os
    import shutil
    import tempfile
    from postgresql import clientparameters as C
    top = tempfile.mkdtemp(prefix='mc16-')
    real = os.path.expanduser
    user = 'a-user'
    os.path.expanduser = lambda p: p.replace('~' + user, top).replace('~', top)
    saved = {k: os.environ.get(k) for k in ('LOGNAME', 'USER', 'HOME')}
    try:
        os.environ.update(LOGNAME=user, USER=user, HOME=top)
        for k in range(len(HOME_FILES) + 1):
            for there in itertools.combinations(HOME_FILES, k):
                for given in (None, 'option', 'environment'):
                    if R.case([there, given]):
                        with R.guarded('home', 10):
                            shutil.rmtree(top)
                            os.makedirs(top + '/.postgresql')
                            for x in there:
                                with open(os.path.join(top, HOME_FILES[x]), 'w') as f:
                                    f.write('localhost:5432:*:%s:from the file\n' % user)
                                os.chmod(os.path.join(top, HOME_FILES[x]), 0o600)
                            want = {'user': user, 'host': 'localhost', 'port': 5432, 'prompt_title': None}
                            want.update({x: os.path.join(top, HOME_FILES[x]) for x in there})
                            env = {}
                            if given == 'environment':
                                env = {'PGPASSFILE': '/d'}
                                want.update(pgpassfile='/d')
                            got = C.collect(environ=env, prompt_title=None, parameters={'sslkeyfile': '/b'} if given == 'option' else ())
                            if given == 'option':
                                want['sslkeyfile'] = '/b'
                            for d in (got, want):
                                d['port'] = str(d.get('port'))
                                d.pop('prompt_title', None)
                            R.check(got == want, 'home', lambda: '%r %r: %r not %r' % (there, given, got, want))
                            if given != 'environment':
                                got = C.collect(environ={}, prompt_title='')
                                R.check(got.get('password') == ('from the file' if 'pgpassfile' in there else None) and 'pgpassfile' not in got, 'home:password', lambda: '%r: %r' % (there, got))
                            none = C.collect(environ={}, no_defaults=True, prompt_title=None)
                            R.check(not none, 'home:none', lambda: repr(none))
                            R.trans()
                            R.state([there, given])
    finally:
        os.path.expanduser = real
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(top, ignore_errors=True)


# ---------------------------------------------------------------------------
# sources

ENV = {'user': 'PGUSER', 'database': 'PGDATABASE', 'host': 'PGHOST', 'port': 'PGPORT', 'password': 'PGPASSWORD',
       'sslmode': 'PGSSLMODE', 'connect_timeout': 'PGCONNECT_TIMEOUT'}
ENV_SETTINGS = {'timezone': 'PGTZ', 'datestyle': 'PGDATESTYLE', 'client_encoding': 'PGCLIENTENCODING', 'geqo': 'PGGEQO'}
OPTION = {'user': ['-U', '--username'], 'database': ['-d', '--database'], 'host': ['-h', '--host'], 'port': ['-p', '--port'], 'sslmode': ['--ssl-mode']}
VALUE = {
    'port': ['1001', '1002', '1003', '1004', '1005'],
    'sslmode': ['require', 'prefer', 'allow', 'disable', 'require'],
}


def value(k, j):
    return VALUE[k][j] if k in VALUE else '%s%d' % (k[:2], j)


def as_env(k, v, prefix='PG'):
    n = ENV.get(k) or ENV_SETTINGS[k]
    return {prefix + n[2:]: v}


def as_iri(k, v):
    if k in ('user', 'password'):
        return 'pq://%s@' % (v if k == 'user' else 'ux:' + v)
    if k == 'host':
        return 'pq://' + v
    if k == 'port':
        return 'pq://hx:' + v
    if k == 'database':
        return 'pq:///' + v
    if k in ('sslmode', 'connect_timeout'):
        return 'pq://?[%s]=%s' % (k, v)
    return 'pq://?%s=%s' % (k, v)


# what an IRI for one parameter cannot do without
EXTRA = {'password': {'user': 'ux'}, 'port': {'host': 'hx'}}


def set_in(d, k, v):
    if k in ENV_SETTINGS or k == 'work_mem':
        d.setdefault('settings', {})[k] = v
    else:
        d[k] = v


SOURCES = ['defaults', 'parameters', 'environ', 'option', 'iri']


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory() as d:
        yield d


def t_sources(R, i, n):
    from postgresql import clientparameters as C
    keys = list(ENV) + list(ENV_SETTINGS) + ['work_mem']
    combos = []
    # every parameter in every subset of the sources, options in both orders
    for k in keys:
        for r in range(len(SOURCES) + 1):
            for srcs in itertools.combinations(SOURCES, r):
                for order in (0, 1):
                    for prefix in ('PG', 'PG_X_'):
                        combos.append(({k: srcs}, order, prefix))
    # two parameters, each from one or two sources
    few = [c for r in (1, 2) for c in itertools.combinations(SOURCES[1:], r)]
    for k, l in itertools.combinations(keys, 2):
        for a in few if R.tier != 'quick' else few[:6]:
            for b in few:
                combos.append(({k: a, l: b}, 0, 'PG'))
    for j, (given, order, prefix) in enumerate(combos):
        if j % n != i or not R.case([{k: list(v) for k, v in given.items()}, order, prefix]):
            continue
        with R.guarded('sources', 10):
            one_sources(R, C, given, order, prefix)


def one_sources(R, C, given, order, prefix):
    defaults = any('defaults' in s for s in given.values())
    want, params, env = {}, {}, {}
    argv = []
    if defaults:
        want.update(user=C.getuser(), host='localhost', port=5432)
    for src in ('parameters', 'environ'):
        for k, srcs in given.items():
            if src not in srcs:
                continue
            v = value(k, SOURCES.index(src))
            if src == 'parameters':
                set_in(params, k, v)
            elif k != 'work_mem':
                env.update(as_env(k, v, prefix))
            else:
                continue
            set_in(want, k, v)
    opts = []
    for k, srcs in given.items():
        if 'option' in srcs and k not in ('password', 'connect_timeout'):
            v = value(k, 3)
            if k in OPTION:
                o = OPTION[k][order % len(OPTION[k])]
                opts.append(([o, v] if not o.startswith('--') or order else [o + '=' + v], {k: v}))
            else:
                opts.append((['-s', '%s=%s' % (k, v)] if order else ['--setting=%s=%s' % (k, v)], {k: v}))
    iris = []
    for k, srcs in given.items():
        if 'iri' in srcs:
            v = value(k, 4)
            iris.append((['-I', as_iri(k, v)], dict(EXTRA.get(k, {}), **{k: v})))
    both = opts + iris if not order else iris + opts
    for a, d in both:
        argv += a
        for k, v in d.items():
            set_in(want, k, v)
    before = repr((params, env))
    co, ca = C.DefaultParser().parse_args(argv + ['rest'])
    kw = dict(parsed_options=co, no_defaults=not defaults, environ=env, environ_prefix=prefix, parameters=params)
    got = C.collect(prompt_title=None, **kw)
    if defaults:
        for k in ('pgpassfile', 'sslcrtfile', 'sslkeyfile', 'sslrootcrtfile', 'sslrootcrlfile'):
            got.pop(k, None)
    R.check(got == want, 'sources', lambda: '%r %r %r: %r, not %r' % (params, env, argv, got, want))
    R.check(ca == ['rest'] and repr((params, env)) == before, 'sources:arguments', lambda: repr((ca, params, env)))
    # a prefix that is not asked for is not looked at
    if prefix != 'PG':
        got = C.collect(prompt_title=None, environ=env, no_defaults=True)
        R.check(got == {}, 'sources:prefix', lambda: repr((env, got)))
    R.trans()
    R.state((sorted(given), len(got)))
    R.outcome(sorted(map(str, got.items())))


def t_opened(R):
    "postgresql.open: environment < locator < keywords"
    import postgresql
    keys = ['user', 'database', 'host', 'port', 'password', 'sslmode', 'connect_timeout', 'timezone', 'datestyle']
    sources = ['environ', 'iri', 'keyword']
    saved = dict(os.environ)
    subsets = [c for r in range(4) for c in itertools.combinations(sources, r)]
    cases = [{k: s} for k in keys for s in subsets]
    cases += [{k: a, l: b} for k, l in itertools.combinations(keys, 2) for a in subsets for b in (subsets if R.tier != 'quick' else subsets[1:5])]
    try:
        for given in cases:
            if not R.case({k: list(v) for k, v in given.items()}):
                continue
            with R.guarded('opened', 10):
                os.environ.clear()
                os.environ.update(saved, PGPASSFILE='/nonexistent')
                d, kw, want = {}, {}, {}
                for k, srcs in given.items():
                    if 'environ' in srcs:
                        v = value(k, 0)
                        os.environ.update(as_env(k, v))
                        set_in(want, k, v)
                for k, srcs in given.items():
                    if 'iri' in srcs:
                        v = value(k, 1)
                        set_in(d, k, v)
                        set_in(want, k, v)
                if 'password' in d and 'user' not in d:
                    d['user'] = want['user'] = 'ux'
                if 'port' in d and 'host' not in d:
                    d['host'] = want['host'] = 'hx'
                for k, srcs in given.items():
                    if 'keyword' in srcs:
                        v = value(k, 2)
                        set_in(kw, k, v)
                        set_in(want, k, v)
                iri = by_hand(d)
                c = postgresql.open('&' + iri, **kw)
                got = {k: getattr(c, k) for k in want if k != 'settings'}
                got['settings'] = dict(c.settings or {})
                want.setdefault('settings', {})
                for x in (got, want):
                    x.update({k: str(v) for k, v in x.items() if k in ('port', 'connect_timeout')})
                R.check(got == want, 'opened', lambda: '%r %r %r: %r, not %r' % (given, iri, kw, got, want))
                if 'database' not in want:
                    R.check(c.database is None, 'opened:database', lambda: repr(c.database))
                R.check((c.user, str(c.port)) == (want.get('user', postgresql._pg_param.getuser()), want.get('port', '5432')), 'opened:defaults', lambda: repr((c.user, c.port)))
                R.trans()
                R.state((sorted(given), len(want)))
                R.outcome(sorted(map(str, want.items())))
        # sockets do not go with the default host; the password file works for them
        with scratch() as tmp:
            pw = os.path.join(tmp, 'pw')
            with open(pw, 'w') as f:
                f.write('other:*:*:*:no\nlocalhost:*:*:su:local\n')
            for how in ('iri', 'keyword'):
                for env in ({}, {'PGHOST': 'h', 'PGPORT': '7'}):
                    if not R.case(['unix', how, env]):
                        continue
                    with R.guarded('opened', 10):
                        os.environ.clear()
                        os.environ.update(saved, PGPASSFILE=pw, **env)
                        if how == 'iri':
                            c = postgresql.open('&pq://su@[unix:%s]/d' % ':tmp:.s.PGSQL.5432')
                        else:
                            c = postgresql.open('&pq://su@/d', unix='/tmp/.s.PGSQL.5432')
                        R.check((c.unix, c.user, c.database, c.password) == ('/tmp/.s.PGSQL.5432', 'su', 'd', 'local'), 'opened:unix',
                                lambda: repr((c.unix, c.user, c.database, c.password)))
    finally:
        os.environ.clear()
        os.environ.update(saved)


def t_services(R):
    "service files, REQUIRESSL, HOSTADDR"
    from postgresql import clientparameters as C
    with scratch() as tmp:
        a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'sys')
        os.mkdir(b)
        b = os.path.join(b, 'pg_service.conf')
        lines = {
            'host': ('host=sh', {'host': 'sh'}), 'hostaddr': ('hostaddr=10.0.0.1', {'host': '10.0.0.1'}), 'port': ('port=77', {'port': '77'}),
            'dbname': ('dbname=sd', {'database': 'sd'}), 'user': ('user=su', {'user': 'su'}), 'password': ('password=s:p%s', {'password': 's:p%s'}),
            'sslmode': ('sslmode=require', {'sslmode': 'require'}), 'timeout': ('connect_timeout=9', {'connect_timeout': '9'}),
            'guc': ('work_mem=5MB', {'settings': {'work_mem': '5MB'}}), 'upper': ('DBNAME=up', {'database': 'up'}),
        }
        for r in range(0, 4 if R.tier == 'quick' else 6):
            for c in itertools.combinations(lines, r):
                if {'dbname', 'upper'} <= set(c):
                    continue
                for where in ('a', 'b', 'both', 'none'):
                    for env in ({}, {'PGUSER': 'eu', 'PGHOST': 'eh', 'PGDATABASE': 'ed'}):
                        if not R.case([list(c), where, sorted(env)]):
                            continue
                        with R.guarded('services', 10):
                            text = '[other]\nhost=no\nuser=no\n[svc]\n# note\n' + ''.join(lines[x][0] + '\n' for x in c) + '[last]\nport=1\n'
                            with open(a, 'w') as f:
                                f.write(text if where in ('a', 'both') else '[other]\nhost=x\n')
                            with open(b, 'w') as f:
                                f.write(text if where == 'b' else '[svc]\nhost=global\n' if where == 'both' else '')
                            want = {}
                            for k, v in env.items():
                                want[{'PGUSER': 'user', 'PGHOST': 'host', 'PGDATABASE': 'database'}[k]] = v
                            for x in c:
                                want.update(lines[x][1])
                            e = dict(env, PGSERVICE='svc', PGSERVICEFILE=a, PGSYSCONFDIR=os.path.dirname(b))
                            try:
                                got = C.collect(environ=e, no_defaults=True, prompt_title=None)
                            except C.ServiceDoesNotExistError:
                                got = None
                            R.check(got == (want if where != 'none' else None), 'services', lambda: '%r %r %r: %r, not %r' % (c, where, env, got, want))
                            if where != 'none':
                                # the same by keywords
                                got = C.collect(environ=dict(env, PGSERVICE='svc'), no_defaults=True, prompt_title=None,
                                                pg_service_file=a, default_pg_sysconfdir=os.path.dirname(b))
                                R.check(got == want, 'services:keywords', lambda: repr((got, want)))
                            R.trans()
                            R.state((c, where))
                            R.outcome(sorted(map(str, want.items())))
    for host in (None, 'eh'):
        for addr in (None, '10.1.1.1'):
            for req in (None, '1', '0', '', ' 1 '):
                for mode in (None, 'disable'):
                    if not R.case(['ssl', host, addr, req, mode]):
                        continue
                    with R.guarded('services', 10):
                        e = {k: v for k, v in (('PGHOST', host), ('PGHOSTADDR', addr), ('PGREQUIRESSL', req), ('PGSSLMODE', mode)) if v is not None}
                        got = C.collect(environ=e, no_defaults=True, prompt_title=None)
                        want = {}
                        if host or addr:
                            want['host'] = addr or host
                        if mode or req and req.strip() == '1':
                            want['sslmode'] = mode or 'require'
                        R.check(got == want, 'services:ssl', lambda: '%r: %r, not %r' % (e, got, want))
    # malformed options are refused as such
    for argv in (['-s', 'nothing'], ['--setting=nothing'], ['--ssl-mode=what'], ['-U']):
        if R.case(argv):
            with R.guarded('services', 10):
                err = io.StringIO()
                code = None
                with contextlib.redirect_stderr(err):
                    try:
                        C.DefaultParser().parse_args(argv)
                    except SystemExit as e:
                        code = e.code
                R.check(code == 2 and 'error' in err.getvalue(), 'services:option', lambda: repr((argv, code, err.getvalue())))


# ---------------------------------------------------------------------------
# the password file

def fields(line):
    line = line.rstrip('\r\n')
    out, cur, k = [], '', 0
    while k < len(line):
        c = line[k]
        if c == '\\' and k + 1 < len(line) and line[k + 1] in ':\\':
            cur += line[k + 1]
            k += 2
            continue
        if c == ':':
            out.append(cur)
            cur = ''
        else:
            cur += c
        k += 1
    out.append(cur)
    return out


def expected(text, want):
    user, host, port, database = want
    for line in io.StringIO(text):
        if line.startswith('#'):
            continue
        f = fields(line)
        if len(f) != 5:
            continue
        if all(p == '*' or p == v for p, v in zip(f, (host, port, database, user))):
            return f[4]
    return None


LINES = [
    'h:5:d:u:one', '*:5:d:u:two', '*:*:*:*:three', 'h:*:*:v:fo ur ', '#h:5:d:u:no', '# comment', '', 'h:5:d:u', 'h:5:d:u:a:b', 'h:5:d:u:',
    r'h:5:a\:b:u:x\:y', r'h:5:d:u\\:z\\', r'\\:5:d\\\::u:w', r'h:5:d\:u:no', r'h:5:d:u:p\\\:q', r':5:d:u:e', 'h:6:d:u:*', r'h:5:d:u\\\\:q\:\:', '   ',
    'h:5:D:u:case', r'h:5:d:\:u:lead', r'h:5:d:u\::trail',
]
ASK = [
    ('u', 'h', '5', 'd'), ('u', 'x', '5', 'd'), ('v', 'h', '5', 'd'), ('u', 'h', '6', 'd'), ('u', 'h', '5', 'a:b'), ('u\\', 'h', '5', 'd'),
    ('u', '\\', '5', 'd\\:'), ('u', '', '5', 'd'), ('u\\\\', 'h', '5', 'd'), ('u', 'h', '5', 'D'), (':u', 'h', '5', 'd'), ('u:', 'h', '5', 'd'), ('*', '*', '*', '*'),
]


def t_passfile(R, i, n):
    from postgresql import pgpassfile as F
    files = [()] + [f for k in range(1, 4 if R.tier == 'quick' else 5) for f in itertools.product(range(len(LINES)), repeat=k)]
    if R.tier == 'quick':
        files = [f for j, f in enumerate(files) if len(f) < 3 or all(x < 13 for x in f)]
    for j, f in enumerate(files):
        if j % n != i:
            continue
        for end in ('\n', '\r\n', ''):
            if end != '\n' and len(f) > 1 or end == '' and not f:
                continue
            text = '\n'.join(LINES[x] for x in f) + (end if f else '')
            if not R.case(text):
                continue
            with R.guarded('passfile', 10):
                words = F.parse(io.StringIO(text, newline=''))
                for ask in ASK:
                    got = F.lookup_password(words, ask)
                    w = expected(text, ask)
                    R.check(got == w, 'passfile', lambda: '%r in %r: %r, not %r' % (ask, text, got, w))
                    R.trans()
                    R.outcome((f[:2], got))
                R.state(f)


def t_lookup(R):
    from postgresql import pgpassfile as F
    with scratch() as tmp:
        pw = os.path.join(tmp, 'pw')
        with open(pw, 'w') as f:
            f.write('localhost:5432:d:u:A\nlocalhost:*:u:u:B\nh:77:*:u:C\n*:*:*:w:D\n')
        for user in 'uwx':
            for host in (None, 'h', 'localhost'):
                for unix in (None, '/tmp/.s.PGSQL.5432'):
                    for port in (None, 5432, '5432', 77, '77'):
                        for db in (None, 'd'):
                            if host and unix or not R.case([user, host, unix, port, db]):
                                continue
                            with R.guarded('lookup', 10):
                                p = {k: v for k, v in (('user', user), ('host', host), ('unix', unix), ('port', port), ('database', db)) if v is not None}
                                got = F.lookup_pgpass(p, pw)
                                with open(pw) as f:
                                    w = expected(f.read(), (user, host or 'localhost', str(port or 5432), db or user))
                                R.check(got == w, 'lookup', lambda: '%r: %r, not %r' % (p, got, w))
                                R.check(F.lookup_pgpass(p, pw + '.none') is None, 'lookup:none')
                                R.trans()
                                R.state((user, host, unix, port, db))
                                R.outcome(got)


class Stdin(io.StringIO):
    tty = False

    def isatty(self):
        return self.tty


def t_resolve(R):
    from postgresql import clientparameters as C, iri as I
    with scratch() as tmp:
        pw = os.path.join(tmp, 'pw')
        with open(pw, 'w') as f:
            f.write('h:5:u:u:filed\n')
        old = sys.stdin
        try:
            for prompt, given, file, title, default, tty, end in itertools.product(
                    (None, True, False), (None, 'given', ''), (None, pw, pw + '.none'), ('', 'Arg'), (None, 'Par'), (True, False), ('\n', '')):
                if not R.case([prompt, given, file and file[len(tmp):], title, default, tty, end]):
                    continue
                with R.guarded('resolve', 10):
                    p = {'user': 'u', 'host': 'h', 'port': '5', 'settings': {'geqo': 1}}
                    for k, v in (('prompt_password', prompt), ('password', given), ('pgpassfile', file), ('prompt_title', default)):
                        if v is not None:
                            p[k] = v
                    asked = []

                    def getpass(q):
                        asked.append(q)
                        return 'typed'
                    sys.stdin = Stdin('  li ne ' + end)
                    sys.stdin.tty = tty
                    C.resolve_password(p, getpass=getpass, prompt_title=title)
                    sys.stdin = old
                    if prompt:
                        want = 'typed' if tty else '  li ne '
                        R.check(len(asked) == tty, 'resolve:asked', repr(asked))
                        for q in asked:
                            R.check((title or default or '') in q, 'resolve:title', lambda: repr((title, default, q)))
                            R.check('given' not in q and 'u' in q, 'resolve:shown', lambda: repr(q))
                    else:
                        R.check(not asked, 'resolve:asked', repr(asked))
                        want = given
                        if given is None and file == pw:
                            want = 'filed'
                    R.check(p.get('password') == want, 'resolve:password', lambda: '%r: not %r' % (p, want))
                    R.check(not {'prompt_password', 'prompt_title', 'pgpassfile'} & set(p), 'resolve:left', lambda: repr(p))
                    R.check({k: v for k, v in p.items() if k != 'password'} == {'user': 'u', 'host': 'h', 'port': '5', 'settings': {'geqo': 1}},
                            'resolve:others', lambda: repr(p))
                    R.trans()
                    R.state((prompt, given, file and file[len(tmp):]))
                    R.outcome(want)
        finally:
            sys.stdin = old
