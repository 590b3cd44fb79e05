"""
C15 - editing a configuration file changes only what was asked: every file of
a line alphabet to a length times every edit (and sequence of edits), against
an independent reader of the server's file format.
"""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile

PROPERTY = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of files and edit sequences against a reference reader of the format'
RULE = 'an execution is one file with one sequence of edits'
ASSUMPTIONS = ['the lines the server would refuse only have to be preserved', 'line ends are \\n']

LINES = [
    "foo = 1", "#foo = 1", "foo = 'a b'", " foo=bar # note", "bar = 'x''y'  # it''s = 2", "# foo and = bar, or so", "",
    "Foo = 3", "foo = ''", "#\tbar = 1", "a.b = 'v'", "foo = 'q\\\\x\\'y'", "# prose", "foobar = 9", "bar = '#5'", "include 'foo'", "##foo = 'a b'", "  # foo = 2",
]
LINES = [x + '\n' for x in LINES]
VALUES = ['1', 'a b', "it's", '', 'C:\\temp\\', '#5', "''", 'x=y', "q\\x'y", 'a\nb', None]
KEYS = ['foo', 'bar', 'a.b', 'new']


def tasks(tier):
    T = []
    n = 16
    for i in range(n):
        T += [('one', 'c', {'i': i, 'n': n}), ('seq', 'c', {'i': i, 'n': n})]
    T += [('read', 'c', {}), ('mapping', 'c', {}), ('dotconf', 'c', {})]
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


# ---------------------------------------------------------------------------
# what the server reads

NAME = r"[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff]*"
SETTING = re.compile(r"""[ \t]*(%s(?:\.%s)?)[ \t]*=[ \t]*('(?:[^'\\\n]|\\.|'')*'|[^\s'#]*)[ \t]*(\#.*)?$""" % (NAME, NAME))


def deescape(s):
    out = ''
    i = 1
    while i < len(s) - 1:
        c = s[i]
        if c == '\\':
            i += 1
            c = s[i]
            if c in 'bfnrt':
                c = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}[c]
            elif c in '01234567':
                o = ''
                while i < len(s) - 1 and s[i] in '01234567' and len(o) < 3:
                    o += s[i]
                    i += 1
                c = chr(int(o, 8))
                i -= 1
        elif c == "'":
            i += 1
        out += c
        i += 1
    return out


def setting(line):
    "(name, value) of a line that sets something"
    m = SETTING.match(line.rstrip('\n'))
    if not m:
        return None
    v = m.group(2)
    return m.group(1).lower(), deescape(v) if v.startswith("'") else v


def about(line):
    "the name a line sets, or would if it were not commented out"
    x = setting(line)
    if x is None:
        m = re.match(r'[\s#]*(%s(?:\.%s)?)\s*=' % (NAME, NAME), line)
        if m and '#' in line[:m.start(1)]:
            return m.group(1).lower()
        return None
    return x[0]


def effective(text):
    d = {}
    for l in text.splitlines(True):
        x = setting(l)
        if x:
            d[x[0]] = x[1]
    return d


class Disk:
    "files in memory"

    def __init__(self, text):
        self.text = text

    def open(self, path, mode='r', *a, **k):
        d = self
        if 'r' in mode:
            return io.StringIO(d.text)

        class W(io.StringIO):
            def close(self):
                if not self.closed:
                    d.text = self.getvalue()
                super().close()
        d.text = ''
        return W()


def verify(R, before, edits, after, sig):
    where = lambda: '%r with %r became %r' % (before, edits, after)
    want = effective(before)
    low = {k.lower(): v for k, v in edits.items()}
    for k, v in low.items():
        if v is None:
            want.pop(k, None)
        else:
            want[k] = v
    got = effective(after)
    R.check(got == want, sig + ':effective', lambda: 'the server reads %r, not %r: %s' % (got, want, where()))
    bl, al = before.splitlines(True), after.splitlines(True)
    # every other line is as it was, and in its place
    rest = lambda lines: [l.rstrip('\n') for l in lines if about(l) not in low]
    R.check(rest(bl) == rest(al), sig + ':others', where)
    there = {about(l) for l in bl}
    new = sum(1 for k, v in low.items() if v is not None and k not in there)
    R.check(len(al) == len(bl) + new, sig + ':lines', where)
    for b, a in zip(bl, al):
        b, a = b.rstrip('\n'), a.rstrip('\n')
        k = about(b)
        if b.lstrip().startswith('#'):
            R.check(a != '#' + b, sig + ':again', lambda: 'a comment is made one again: ' + where())
        if k in low and a not in (b, '#' + b):
            # the one that was changed: what followed the value is kept
            R.check(setting(a) == (k, low[k]), sig + ':changed', lambda: '%r: %s' % (a, where()))
            m = SETTING.match(b)
            if m and m.group(3):
                R.check(a.endswith(m.group(3)), sig + ':comment', lambda: '%r: %s' % (a, where()))
    if before.endswith('\n') or new == 0:
        R.check(after.startswith('') and (not after or after.endswith('\n') == (before.endswith('\n') and new == 0) or new), sig + ':end', where)
    return got


def report(R, cf, text, sig):
    "the file object reports what the server reads"
    want = effective(text)
    got = {k.lower(): v for k, v in cf.items()}
    R.check(got == want, sig + ':items', lambda: '%r, not %r' % (got, want))
    for k in KEYS:
        R.check(cf.get(k, 'none') == want.get(k, 'none'), sig + ':get', lambda: '%s is %r, not %r: %r' % (k, cf.get(k, 'none'), want.get(k), text))
    R.check(cf.getset(KEYS) == {k: want.get(k) for k in KEYS}, sig + ':getset', lambda: repr(cf.getset(KEYS)))


def files(length, i, n):
    j = 0
    for k in range(length + 1):
        for ls in itertools.product(range(len(LINES)), repeat=k):
            j += 1
            if j % n == i:
                yield ''.join(LINES[x] for x in ls)


def edits():
    for k in KEYS:
        for v in VALUES:
            yield {k: v}
    for a, b in ((1, 2), (None, 1), (3, None), (None, None), (0, 0)):
        yield {'foo': VALUES[a] if a is not None else None, 'bar': VALUES[b] if b is not None else None}
    yield {'FOO': 'up', 'new': '1', 'other': '2'}


def t_one(R, i, n):
    from postgresql import configfile as C
    for text in files(3 if R.tier == 'quick' else 4, i, n):
        for end in (True, False):
            if not end:
                if not text:
                    continue
                text = text[:-1]
            for e in edits():
                if not R.case([text, e]):
                    continue
                with R.guarded('one', 10):
                    d = Disk(text)
                    cf = C.ConfigFile('/x', open=d.open)
                    cf.update(e)
                    got = verify(R, text, e, d.text, 'one')
                    report(R, cf, d.text, 'one')
                    first = d.text
                    cf.update(e)
                    R.check(d.text == first, 'one:twice', lambda: '%r with %r: %r, then %r' % (text, e, first, d.text))
                    R.state((text, tuple(sorted(e))))
                    R.outcome((tuple(sorted(got.items())), len(first)))
                    R.trans(2)


def t_seq(R, i, n):
    "sequences of edits on the same file"
    from postgresql import configfile as C
    ops = [{'foo': '1'}, {'foo': None}, {'foo': "it's"}, {'bar': 'a b', 'foo': 'bar'}, {'bar': None}, {'new': '\\'}, {'a.b': '2'}, {'a.b': None, 'new': None}]
    depth = 4 if R.tier == 'quick' else 5
    starts = ['', ''.join(LINES[:4]), LINES[1] + LINES[2] + LINES[4] + LINES[9], LINES[7] + LINES[10] + LINES[11], ''.join(LINES)[:-1]]
    for j, seq in enumerate(itertools.product(ops, repeat=depth)):
        if j % n != i:
            continue
        for s, text in enumerate(starts):
            if not R.case([s, seq]):
                continue
            with R.guarded('seq', 10):
                d = Disk(text)
                cf = C.ConfigFile('/x', open=d.open)
                for e in seq:
                    before = d.text
                    cf.update(e)
                    verify(R, before, e, d.text, 'seq')
                    report(R, cf, d.text, 'seq')
                    R.state(d.text)
                    R.trans()
                R.outcome(d.text)


def t_read(R):
    "reading single lines, and lines in any order"
    from postgresql import configfile as C
    parts = [['', ' ', '\t', '#', ' # '], ['foo', 'FOO', 'a.b', 'x_1'], ['=', ' = ', '\t=\t'],
             ['', '1', 'a', "''", "'a'", "'a b'", "'a''b'", "''''", "'#'", "'a=b'", "'\\\\'", "'\\''", "'\\n\\101'", "'''x'''"], ['', ' ', '#c', " # c 'x' = 1"], ['', '\n']]
    for x in itertools.product(*parts):
        line = ''.join(x)
        if not R.case(line):
            continue
        with R.guarded('read', 10):
            s = setting(line)
            got = {k.lower(): v for k, v in C.read_config([line]).items()}
            R.check(got == (dict([s]) if s else {}), 'read:line', lambda: '%r -> %r, not %r' % (line, got, s))
            R.state(line)
            R.outcome(tuple(got.items()))
            R.trans()
    for text in files(2, 0, 1):
        if not R.case(text):
            continue
        with R.guarded('read', 10):
            got = {k.lower(): v for k, v in C.read_config(io.StringIO(text)).items()}
            R.check(got == effective(text), 'read:file', lambda: '%r -> %r' % (text, got))
            R.check(C.read_config(io.StringIO(text), selector=lambda k: k.lower() == 'foo').keys() == {k for k in effective(text) if k == 'foo'} or 'Foo' in text, 'read:selector', text)
            R.trans()
    # a line without an equals sign sets something as well
    if R.case('no equals sign'):
        with R.guarded('read', 10):
            R.check(C.read_config(['port 5432\n']) == {'port': '5432'}, 'read:no-equals', 'port 5432')


def t_mapping(R):
    "the mapping interface, and scoped changes"
    from postgresql import configfile as C
    ops = ['set', 'del', 'update', 'scoped', 'scoped-error', 'nested', 'get', 'iter']
    for text in list(files(1, 0, 1)) + [''.join(LINES), ''.join(LINES[:3])]:
        for seq in itertools.product(ops, repeat=2):
            if not R.case([text, seq]):
                continue
            with R.guarded('mapping', 10):
                d = Disk(text)
                cf = C.ConfigFile('/x', open=d.open)
                want = effective(text)
                for op in seq:
                    where = lambda: '%r: %r in %r: %r' % (op, text, seq, d.text)
                    if op == 'set':
                        cf['foo'] = want['foo'] = "s'"
                    elif op == 'del':
                        if 'foo' in want:
                            del cf['foo']
                            del want['foo']
                    elif op == 'update':
                        cf.update({'bar': '1', 'new': '2'})
                        want.update({'bar': '1', 'new': '2'})
                    elif op.startswith('scoped'):
                        try:
                            with cf(foo='in', other='o'):
                                R.check(effective(d.text) == dict(want, foo='in', other='o'), 'mapping:inside', where)
                                if op == 'scoped-error':
                                    raise LookupError('left')
                        except LookupError:
                            R.check(op == 'scoped-error', 'mapping:swallowed', where)
                        else:
                            R.check(op == 'scoped', 'mapping:swallowed', where)
                    elif op == 'nested':
                        with cf(foo='1'):
                            with cf(foo='2', bar='3'):
                                R.check(effective(d.text) == dict(want, foo='2', bar='3'), 'mapping:nested', where)
                            R.check(effective(d.text) == dict(want, foo='1'), 'mapping:nested', where)
                    elif op == 'get':
                        for k in KEYS + ['FOO']:
                            try:
                                v = cf[k]
                            except KeyError:
                                v = None
                            R.check(v == want.get(k.lower()), 'mapping:getitem', where)
                    elif op == 'iter':
                        R.check(sorted(x.lower() for x in cf) == sorted(want), 'mapping:iter', where)
                        R.check(len(cf) == len(want), 'mapping:len', where)
                    R.check(effective(d.text) == want, 'mapping:effective', lambda: '%r, not %r: %s' % (effective(d.text), want, where()))
                    report(R, cf, d.text, 'mapping')
                    R.trans()
                    R.state(d.text)
                R.outcome(d.text)


def t_dotconf(R):
    "the command"
    from postgresql.bin import pg_dotconf
    tmp = tempfile.mkdtemp(dir=os.getcwd())
    try:
        p = os.path.join(tmp, 'x.conf')
        f = os.path.join(tmp, 'set.conf')
        for text in list(files(1, 0, 1)) + [''.join(LINES[a] for a in x) for x in itertools.combinations(range(len(LINES)), 2)]:
            for args, sets, want in (
                (['foo=1'], None, {'foo': '1'}), (['foo'], None, {'foo': None}), (['foo=a=b', 'bar'], None, {'foo': 'a=b', 'bar': None}),
                ([], "foo = 'f''x'\n#bar = 1\n", {'foo': "f'x"}), (['foo=2'], "foo = 1\nbar = 'b'\n", {'foo': '2', 'bar': 'b'}),
                (['new= '], None, {'new': ' '}),
            ):
                for out in (False, True):
                    if not R.case([text, args, sets, out]):
                        continue
                    with R.guarded('dotconf', 10):
                        with open(p, 'w') as w:
                            w.write(text)
                        argv = ['pg_dotconf'] + (['--stdout'] if out else [])
                        if sets is not None:
                            with open(f, 'w') as w:
                                w.write(sets)
                            argv += ['-f', f]
                        said = io.StringIO()
                        with contextlib.redirect_stdout(said):
                            rc = pg_dotconf.command(argv + [p] + args)
                        R.check(not rc, 'dotconf:rc', repr(rc))
                        with open(p) as r:
                            now = r.read()
                        if out:
                            R.check(now == text, 'dotconf:stdout-wrote', now)
                            now = said.getvalue()
                        verify(R, text, want, now, 'dotconf')
                        R.trans()
                        R.state(now)
                        R.outcome(now)
    finally:
        shutil.rmtree(tmp)
