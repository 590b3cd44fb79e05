"""
C31 - an installation is described as its programs report it: every form of a
version, every line of options of its configuration, every output of a
pg_config (a program that is run), every layout of the files and of the PATH.
"""
import contextlib
import itertools
import os
import shutil
import tempfile
import time

from mc import core

PROPERTY = 'C31'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of version strings, configurations, outputs of the programs and layouts of the files, against what they were written from'
RULE = 'an execution is one version, one line of options, one output of a program, or one layout of files'
ASSUMPTIONS = ['an option of the configuration has no single quotes unless they are doubled, and no spaces where the options are not quoted',
               'every line of the help of an old pg_config that names an option describes it']


def tasks(tier):
    deep = tier != 'quick'
    T = [('versions', 'py', {'n': 4 + deep}), ('tuples', 'py', {}),
         ('executables', 'py', {'n': 2 + deep}), ('directories', 'py', {'n': 3 + deep}),
         ('output', 'py', {'n': 2 + deep}), ('older', 'py', {'n': 2 + deep}), ('fails', 'py', {}), ('search', 'py', {'n': 3 + deep}), ('ssl', 'py', {})]
    for style in STYLES:
        T.append(('options', 'py', {'style': style, 'n': 3 + deep}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


# -- versions -----------------------------------------------------------------

NUMBERS = (0, 1, 9, 10, 16, 100)
STATES = ((None, None), ('devel', None), ('dev', None), ('a', 1), ('alpha', 1), ('alpha', 4), ('b', 2), ('beta', 1), ('beta', 12), ('rc', 1), ('rc', None), ('rc', 0), ('rc', 10))
AFTER = ('', ' ', ' (Ubuntu 16.15-0ubuntu0.24.04.1)', ' (Debian 9.6beta1-1.pgdg+2)', ' - a build', '\n')


def numbers(n):
    for k in range(1, n + 1):
        for first in NUMBERS[1:] if k > 1 else NUMBERS:
            for rest in itertools.product(NUMBERS[:5] if k < 4 else NUMBERS[:3], repeat=k - 1):
                yield (first,) + rest


def t_versions(R, n):
    from postgresql import installation, versionstring as V
    for nums in numbers(n):
        for state, level in STATES:
            text = '.'.join(map(str, nums)) + (state or '') + ('' if level is None else str(level))
            if not R.case([text]):
                continue
            with R.guarded('versions'):
                split = nums + (None,) * (3 - len(nums)) + (state, level)
                normal = nums + (0,) * (3 - len(nums)) + (state or 'final', level or 0)
                for after in AFTER:
                    for before in ('', ' '):
                        got = V.split(before + text + after)
                        R.check(got == split, 'versions:split', '%r is %r' % (before + text + after, got))
                R.check(V.unsplit(split) == text, 'versions:unsplit', 'the text of %r is %r' % (split, V.unsplit(split)))
                got = V.normalize(split)
                R.check(got == normal, 'versions:normalize', '%r becomes %r' % (split, got))
                R.check([type(x) for x in got] == [type(x) for x in normal], 'versions:types', repr(got))
                for product in ('PostgreSQL', 'EnterpriseDB'):
                    for after in AFTER[:5]:
                        i = installation.Installation({'version': product + ' ' + text + after})
                        R.check(i.version_info == normal, 'versions:installation', '%r is %r' % (i.version, i.version_info))
                        R.check((i.version, i.type) == (product + ' ' + text + after, product), 'versions:kept', repr((i.version, i.type)))
                # what scripts are told
                lines = dict(x.split('=', 1) for x in V.sh(normal).splitlines())
                R.check(lines == {'PG_VERSION_' + k: str(v) for k, v in zip(('MAJOR', 'MINOR', 'PATCH'), normal)} | {'PG_VERSION_STATE': normal[-2], 'PG_VERSION_LEVEL': str(normal[-1])},
                        'versions:sh', repr(lines))
                import xml.etree.ElementTree as ET
                tags = {e.tag: e.text for e in ET.fromstring(V.xml(normal))}
                R.check(tags == dict(zip(('major', 'minor', 'patch'), map(str, normal))) | {'state': normal[-2], 'level': str(normal[-1])}, 'versions:xml', repr(tags))
                R.check(eval(V.python(normal)) == normal, 'versions:python', V.python(normal))
                R.state('%d.%s' % (len(nums), state))


def t_tuples(R):
    "of two versions the later one compares greater, its numbers deciding"
    from postgresql import versionstring as V
    all_ = list(numbers(3))
    made = {x: V.normalize(V.split('.'.join(map(str, x)))) for x in all_}
    for a in all_:
        if not R.case(['from', list(a)]):
            continue
        with R.guarded('tuples'):
            pa = a + (0,) * (3 - len(a))
            for b in all_:
                pb = b + (0,) * (3 - len(b))
                R.check((made[a] < made[b], made[a][:2] >= made[b][:2]) == (pa < pb, pa[:2] >= pb[:2]), 'tuples:order', '%r and %r' % (made[a], made[b]))
            R.trans(len(all_))


# -- options ------------------------------------------------------------------

# what is written, the key, the value
OPTIONS = (('--enable-debug', 'enable_debug', True), ('--with-openssl', 'with_openssl', True), ('--without-icu', 'without_icu', True),
           ('--prefix=/usr/local', 'prefix', '/usr/local'), ('--prefix=/other', 'prefix', '/other'), ('--with-tclconfig=/usr/lib/tcl8.6', 'with_tclconfig', '/usr/lib/tcl8.6'),
           ('--with-pam=', 'with_pam', ''), ('--mandir=${prefix}/share/a-man', 'mandir', '${prefix}/share/a-man'), ('--with-ssl=open-ssl', 'with_ssl', 'open-ssl'),
           ('--with-extra-version=-x-', 'with_extra_version', '-x-'), ('--a=b=c--d=', 'a', 'b=c--d='), ('--libdir=/l"', 'libdir', '/l"'), ('--z=--y', 'z', '--y'), ('--x="q"', 'x', '"q"'),
           ('--datadir=/a dir', 'datadir', '/a dir'), ('--cc=gcc  -O2 --fast -', 'cc', 'gcc  -O2 --fast -'),
           ("--v=an 'inner' one", 'v', "an 'inner' one"), ("--w='", 'w', "'"))
STYLES = ('single', 'double', 'bare')


def render(style, texts):
    if style == 'single':
        return ' '.join("'" + x.replace("'", "''") + "'" for x in texts)
    if style == 'double':
        return ' '.join('"' + x.replace('"', '""') + '"' for x in texts)
    return ' '.join(texts)


def t_options(R, style, n):
    from postgresql import installation as I
    some = [o for o in OPTIONS if (style != 'bare' or not set(' \'"') & set(o[0]))
            # quotes that are doubled are the only ones understood
            and not (style == 'single' and "=''" in o[0].replace("'", "''") and o[0].endswith("='"))
            and not (style == 'double' and "'" in o[0])]
    if n > 3:
        some = some[:12]
    for k in range(0, n + 1):
        for opts in itertools.product(some, repeat=k):
            text = render(style, [o[0] for o in opts])
            if not R.case([text]):
                continue
            with R.guarded('options'):
                want = [(o[1], o[2]) for o in opts]
                for t in (text, ' ' + text + ' ') if style == 'bare' else (text,):
                    got = list(I.parse_configure_options(t))
                    R.check(got == want, 'options:' + style, '%s\nis %r\nnot %r' % (t, got, want))
                i = I.Installation({'version': 'PostgreSQL 16.1', 'configure': text})
                R.check(i.configure_options == dict(want), 'options:last', lambda: repr(i.configure_options))
                for key, value in dict(want).items():
                    R.check(type(i.configure_options.get(key)) is type(value), 'options:type', repr((key, i.configure_options.get(key))))
                R.check(i.ssl is any(o[1] in ('with_openssl', 'with_ssl') for o in opts), 'options:ssl', '%r: %s' % (i.ssl, text))
                R.state(len(dict(want)))


def t_ssl(R):
    from postgresql import installation as I
    for text, want in (("", False), ("'--without-openssl'", False), ("'--with-openssl'", True), ("'--with-ssl=openssl'", True), ("--with-ssl=openssl --x", True),
                       ("'--with-sslmode-x'", None), ("'--prefix=/with-openssl'", False), ("'--with-pam' '--with-openssl' '--with-x'", True)):
        if want is not None and R.case([text]):
            with R.guarded('ssl'):
                got = I.Installation({'version': 'PostgreSQL 9.6', 'configure': text}).ssl
                R.check(got is want, 'ssl', '%s: %r' % (text, got))


# -- files --------------------------------------------------------------------

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc31-')
    try:
        yield d
    finally:
        shutil.rmtree(d)


def program(path, text):
    with open(path, 'w') as f:
        f.write('#!/bin/sh\n' + text)
    os.chmod(path, 0o755)
    return path


def touch(path):
    with open(path, 'w'):
        pass


EXECUTABLES = ('pg_config psql initdb pg_resetxlog pg_controldata clusterdb pg_ctl pg_dump pg_dumpall postgres postmaster reindexdb vacuumdb '
               'ipcclean createdb ecpg createuser createlang droplang dropuser pg_restore').split()
DIRECTORIES = 'bindir docdir includedir pkgincludedir includedir_server libdir pkglibdir localedir mandir sharedir sysconfdir'.split()


def t_executables(R, n):
    from postgresql import installation as I
    with scratch() as d:
        sets = [c for k in list(range(n + 1)) + list(range(len(EXECUTABLES) - n + 1, len(EXECUTABLES) + 1)) for c in itertools.combinations(EXECUTABLES, k)]
        for present in sets:
            if not R.case([list(present)]):
                continue
            with R.guarded('executables'):
                b = os.path.join(d, 'bin')
                os.mkdir(b)
                for x in present:
                    touch(os.path.join(b, x))
                i = I.Installation({'version': 'PostgreSQL 16.1', 'bindir': b})
                want = {x: os.path.join(b, x) if x in present else None for x in EXECUTABLES}
                got = {x: i.paths[x] for x in EXECUTABLES}
                R.check(got == want, 'executables:paths', lambda: repr({k: v for k, v in got.items() if v != want[k]}))
                got = {x: getattr(i, x) for x in EXECUTABLES}
                R.check(got == want, 'executables:attributes', lambda: repr({k: v for k, v in got.items() if v != want[k]}))
                R.check(i.bindir == i.paths['bindir'] == b, 'executables:bindir', repr(i.bindir))
                # gone
                shutil.rmtree(b)
                i = I.Installation({'version': 'PostgreSQL 16.1', 'bindir': b})
                R.check(not any(i.paths[x] for x in EXECUTABLES), 'executables:gone', lambda: repr(i.paths))


def t_directories(R, n):
    from postgresql import installation as I
    D = len(DIRECTORIES)
    for known in (c for k in list(range(n)) + list(range(D - n + 1, D + 1)) for c in itertools.combinations(DIRECTORIES, k)):
        if not R.case([list(known)]):
            continue
        with R.guarded('directories'):
            # as pg_config names them
            info = {'version': 'PostgreSQL 16.1', 'pgxs': '/p'}
            info.update({k.replace('_', '-'): '/no/' + k for k in known})
            before = dict(info)
            i = I.Installation(info)
            for k in DIRECTORIES:
                want = '/no/' + k if k in known else None
                R.check(i.paths[k] == want and getattr(i, k) == want, 'directories', '%s is %r, %r' % (k, i.paths[k], getattr(i, k)))
            R.check(not any(i.paths[x] for x in EXECUTABLES), 'directories:executables', lambda: repr(i.paths))
            R.check(i.info == before == info, 'directories:info', lambda: repr(i.info))
            j = I.Installation({'version': 'PostgreSQL 9.6.1'})
            R.check(i.paths['bindir'] == ('/no/bindir' if 'bindir' in known else None) and i.version_info[0] == 16 and j.paths['docdir'] is None,
                    'directories:apart', 'one installation shows the other\'s')


# -- pg_config ----------------------------------------------------------------

LINES = (('BINDIR = /x/bin', 'bindir', '/x/bin'), ('BINDIR = /a b/bin', 'bindir', '/a b/bin'), ('INCLUDEDIR-SERVER = /x/inc', 'includedir-server', '/x/inc'),
         ('CPPFLAGS = -DA=b -D_C= -g', 'cppflags', '-DA=b -D_C= -g'), ('LIBS = ', 'libs', ''), ('CONFIGURE =  \'--a=b c\' \'--d\'', 'configure', "'--a=b c' '--d'"),
         ('VERSION = PostgreSQL 16.1 (Ubuntu 1=2)', 'version', 'PostgreSQL 16.1 (Ubuntu 1=2)'), ('LOCALEDIR=/ö', 'localedir', '/ö'),
         ('', None, None), ('  ', None, None), ('a line of something', None, None))


def t_output(R, n):
    from postgresql import installation as I
    with scratch() as d:
        exe = program(os.path.join(d, 'pg config'), 'test $# = 0 || exit 3\ncat "$0.out"\n')
        for k in range(n + 1):
            for lines in itertools.product(LINES, repeat=k):
                for end in ('\n', '\r\n') if k < 3 else ('\n',):
                    if not R.case([[x[0] for x in lines], end]):
                        continue
                    with R.guarded('output'):
                        with open(exe + '.out', 'w', newline='', encoding='utf-8') as f:
                            f.write(''.join(x[0] + end for x in lines))
                        got = I.pg_config_dictionary(exe)
                        want = {x[1]: x[2] for x in lines if x[1]}
                        R.check(got == want, 'output', '%r is %r' % ([x[0] for x in lines], got))
                        R.trans(1)
        # and with arguments of the command
        exe2 = program(os.path.join(d, 'any'), 'test "$*" = "x y" || exit 3\necho "V = 1"\n')
        if R.case(['arguments']):
            with R.guarded('output'):
                got = I.pg_config_dictionary(exe2, 'x', 'y')
                R.check(got == {'v': '1'}, 'output:arguments', repr(got))
        if R.case(['latin1']):
            with R.guarded('output'):
                with open(exe + '.out', 'wb') as f:
                    f.write(b'DOCDIR = /\xe9\n')
                got = I.pg_config_dictionary(exe, encoding='latin-1')
                R.check(got == {'docdir': '/\xe9'}, 'output:encoding', repr(got))


OLD = ('bindir', 'includedir', 'includedir-server', 'libdir', 'pkglibdir', 'pgxs', 'configure')


def t_older(R, n):
    "releases that show nothing without being asked for it"
    from postgresql import installation as I
    with scratch() as d:
        for k in list(range(1, n + 1)) + [len(OLD)]:
            for names in itertools.permutations(OLD, k) if k < len(OLD) else (OLD, OLD[::-1]):
                for form in ('  --%-20sshow it\n', '--%s  show it, see the manual\n', '  --%s as --help and --version show it\n'):
                    for where in (0, k):
                        if not R.case([list(names), form, where]):
                            continue
                        with R.guarded('older'):
                            values = {x: '/the ' + x + '=' for x in names}
                            shown = list(names)
                            shown[where:where] = ['version', 'help']
                            body = 'test $# = 0 && { echo "pg_config: argument required" >&2; exit 1; }\n'
                            body += "test \"$1\" = --help && { cat <<'E'\npg_config tells\n\nUsage:\n  pg_config OPTION...\n\nOptions:\n" + ''.join(form % x for x in shown) + '\nReport bugs.\nE\nexit 0; }\n'
                            body += 'test "$1" = --version && { echo "PostgreSQL 8.0.26"; exit 0; }\n'
                            body += 'for x; do case $x in\n' + ''.join("--%s) echo '%s';;\n" % (x, values[x]) for x in names) + '*) exit 1;; esac; done\n'
                            exe = program(os.path.join(d, 'pg_config'), 'exec 2>/dev/null\n' + body)
                            got = I.pg_config_dictionary(exe)
                            R.check(got == dict(values, version='PostgreSQL 8.0.26'), 'older', repr(got))
                            i = I.Installation(got)
                            R.check(i.version_info == (8, 0, 26, 'final', 0), 'older:version', repr(i.version_info))
                            for x in names:
                                x = x.replace('-', '_')
                                if x in DIRECTORIES:
                                    R.check(i.paths[x] == values[x.replace('_', '-')], 'older:paths', repr((x, i.paths[x])))
                            R.trans(4)


def t_fails(R):
    "programs that fail, hang or do not exist: an error, soon, and no information"
    from postgresql import installation as I
    with scratch() as d:
        for kind, body in (('exits', 'exit 1\n'), ('partly', 'echo "BINDIR = /x"\nexit 1\n'), ('hangs', 'exec sleep 30\n'), ('hangs later', 'echo "BINDIR = /x"\nexec sleep 30\n'), ('killed', 'kill -9 $$\n'), ('missing', None)):
            if not R.case([kind]):
                continue
            with R.guarded('fails:' + kind, 20):
                exe = os.path.join(d, kind)
                if body:
                    program(exe, body)
                t = time.monotonic()
                try:
                    got = I.pg_config_dictionary(exe, timeout=1)
                except Exception as e:
                    R.check(kind != 'missing' or isinstance(e, OSError), 'fails:exception', repr(e))
                    R.outcome(kind)
                else:
                    R.violate('fails:' + kind, 'returned %r' % (got,))
                R.check(time.monotonic() - t < 12, 'fails:late', '%s took %.1f s' % (kind, time.monotonic() - t))


# -- the default --------------------------------------------------------------

def t_search(R, n):
    "PGINSTALLATION, or else the first directory of the PATH that has one"
    from postgresql import installation as I
    keep = {k: os.environ.get(k) for k in ('PATH', 'PGINSTALLATION')}
    try:
        with scratch() as d:
            for k in range(n + 1):
                for kinds in itertools.product(('has', 'other', 'none'), repeat=k):
                    for explicit in (None, '', 'given'):
                        if not R.case([list(kinds), explicit]):
                            continue
                        with R.guarded('search'):
                            os.environ['PATH'] = keep['PATH']
                            dirs = []
                            for j, kind in enumerate(kinds):
                                p = os.path.join(d, '%d%s' % (j, kind))
                                dirs.append(p)
                                if kind != 'none' and not os.path.isdir(p):
                                    os.mkdir(p)
                                    program(os.path.join(p, 'pg_config' if kind == 'has' else 'psql'), 'echo "VERSION = PostgreSQL 16.%d"\n' % j)
                            given = program(os.path.join(d, 'its config'), 'echo "VERSION = PostgreSQL 12.7"\n')
                            os.environ['PATH'] = ':'.join(dirs) if dirs else d + '/none'
                            os.environ.pop('PGINSTALLATION', None)
                            if explicit is not None:
                                os.environ['PGINSTALLATION'] = given if explicit else ''
                            first = next((j for j, x in enumerate(kinds) if x == 'has'), None)
                            want = given if explicit else None if first is None else os.path.join(dirs[first], 'pg_config')
                            got = I.default_pg_config()
                            R.check(got == want, 'search', '%r, not %r' % (got, want))
                            i = I.default()
                            v = None if i is None else i.version_info[:2]
                            R.check(v == ((12, 7) if explicit else None if first is None else (16, first)), 'search:default', repr(v))
                            if i is not None:
                                class Mine(I.Installation):
                                    pass
                                R.check(type(i) is I.Installation and type(I.default(typ=Mine)) is Mine, 'search:type', repr(type(i)))
    finally:
        for k, v in keep.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
