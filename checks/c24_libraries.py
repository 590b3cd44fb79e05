"""
C24 - SQL libraries: every library text of few lines against a parser written
from the documentation, and what the symbols of bound libraries do.
"""
import itertools
import os
import shutil
import tempfile

from mc import core, wire

PROPERTY = 'C24'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of library texts against a reference parser, and of sequences of uses of bound symbols against a model server'
RULE = 'an execution is one library text, one symbol with its uses, or one sequence of accesses to bound libraries'
ASSUMPTIONS = [
    'the server is mc.pgmodel', 'headings have at most three parts', 'a reference to a symbol that is not defined yet may fail with any exception',
    'when constants are computed - binding or first use - is not claimed, that it is once is', 'libraries that are modules are not claimed',
]

LINES = ['SELECT 1\n', '  two;\n', '\n', '[a]\n', ' [b::first] \n', '[a:preload:rows]\n', '[&r:const:column]\n', '[p:proc]\n', '*[a]\n', '*[b] tail\n', '-- doc\n', '--near\n',
         'x [y]\n', '[x] y\n', ' *[a]\n', '[bad:kind]\n', '[bad::way]\n', '[t:transient:all]\n', 'last']


def tasks(tier):
    T = []
    depth = 5 if tier == 'quick' else 6
    for i in range(len(LINES)):
        T.append(('texts', 'py', {'first': i, 'depth': depth}))
    for v in ('c', 'py'):
        T += [('procs', v, {}), ('methods', v, {}), ('references', v, {}), ('categories', v, {})]
        for i in range(4):
            T.append(('accesses', v, {'i': i, 'n': 4, 'depth': 3 if tier == 'quick' else 4}))
    T.append(('loads', 'py', {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


METHODS = ('first', 'rows', 'chunks', 'declare', 'load_chunks', 'load_rows', 'column')
TYPES = ('static', 'preload', 'const', 'proc', 'transient')


def reference(lines):
    "({name: (reference, type, method, source)}, preloaded names, preface), or None when it is no library"
    preface, cur, order = [], None, []
    for l in lines:
        s = l.strip()
        if s.startswith('[') and s.endswith(']'):
            cur = [s[1:-1], []]
            order.append(cur)
        elif cur is None:
            preface.append(l)
        else:
            cur[1].append(l)
    syms, preload, have = {}, set(), {}
    bad = False
    for head, body in order:
        parts = (head.split(':') + ['', ''])[:3]
        name, typ, way = parts
        ref = name.startswith('&')
        shown = name[1:] if ref else name
        out = []
        doc = True
        for l in body:
            if l.startswith('*[') and ']' in l:
                r, rest = l[2:].split(']', 1)
                if r not in have:
                    return None
                l = have[r] + rest
            if doc and l.startswith('-- '):
                continue
            doc = False
            out.append(l)
        src = ''.join(out)
        if typ == 'proc':
            src = src.strip()
        have[shown] = src
        if typ and typ not in TYPES or way not in METHODS + ('', 'all'):
            bad = True
        if typ == 'preload':
            preload.add(shown)
            typ = ''
        syms[shown] = (ref, typ or None, None if way in ('', 'all') else way, src)
    return None if bad else (syms, preload, ''.join(preface))


def t_texts(R, first, depth):
    from postgresql import lib
    for k in range(1, depth + 1):
        for rest in itertools.product(LINES, repeat=k - 1):
            lines = [LINES[first], *rest]
            if 'last' in lines[:-1] or not R.case(lines):
                continue
            with R.guarded('texts', 10):
                want = reference(lines)
                try:
                    got = lib.ILF.from_lines(iter(lines))
                except Exception as e:
                    R.check(want is None, 'text:refused', lambda: '%r: %r' % (lines, e))
                    continue
                if want is None:
                    R.violate('text:accepted', '%r' % (lines,))
                    continue
                same_library(R, got, want, lines)
                R.state((tuple(sorted(want[0])), len(want[2])))


def same_library(R, got, want, lines):
    syms, preload, preface = want
    R.trans(len(syms))
    R.check(sorted(got.symbols()) == sorted(syms), 'text:names', lambda: '%r: %r' % (lines, list(got.symbols())))
    R.check(got.preface == preface, 'text:preface', lambda: '%r: %r' % (lines, got.preface))
    R.check(preload <= set(got.preload) <= set(syms), 'text:preload', lambda: '%r: %r' % (lines, got.preload))
    for n, (ref, typ, way, src) in syms.items():
        s = got.get_symbol(n)
        if not R.check(s is not None and s.name == n, 'text:symbol', lambda: '%r: %r' % (lines, n)):
            return
        R.check(str(s) == src, 'text:source', lambda: '%r: %s is %r instead of %r' % (lines, n, str(s), src))
        R.check((bool(s.reference), s.type or None, s.method) == (ref, typ, way), 'text:annotations', lambda: '%r: %s is %r' % (lines, n, (s.reference, s.type, s.method)))
    R.check(got.get_symbol('missing') is None, 'text:missing', lambda: repr(lines))


def t_loads(R):
    "files, names and paths"
    from postgresql import lib, exceptions as X
    from postgresql import sys as pg_sys
    texts = {
        'plain': '[a]\nSELECT 1\n', 'other': 'pre\n[b::first]\nSELECT 2', 'accents': '[a]\nSELECT \'h\xe9\'\n', 'empty': '', 'bad': '[a:bogus]\nx\n', 'ref': '[a]\n*[zz]\n',
    }
    top = tempfile.mkdtemp(prefix='mc24-')
    saved = list(pg_sys.libpath)
    try:
        dirs = [os.path.join(top, d) for d in 'xyz']
        for d in dirs:
            os.mkdir(d)
        for names in itertools.product([None] + sorted(texts), repeat=3):
            if not R.case(names):
                continue
            with R.guarded('loads', 20):
                for d, n in zip(dirs, names):
                    for f in os.listdir(d):
                        os.unlink(os.path.join(d, f))
                    if n:
                        with open(os.path.join(d, 'libmine.sql'), 'w', encoding='utf-8') as f:
                            f.write(texts[n])
                for order in itertools.permutations(range(3)):
                    R.trans()
                    pg_sys.libpath[:] = [dirs[i] for i in order]
                    found = [i for i in order if names[i]]
                    want = names[found[0]] if found else None
                    try:
                        got = lib.load('mine')
                    except X.LoadError as e:
                        R.check(want in (None, 'bad', 'ref'), 'load:refused', lambda: '%r %r: %r' % (names, order, e))
                        continue
                    if not R.check(want not in (None, 'bad', 'ref'), 'load:accepted', lambda: '%r %r' % (names, order)):
                        continue
                    R.check(got.name == 'mine' and os.path.samefile(got.address, os.path.join(dirs[found[0]], 'libmine.sql')), 'load:address', lambda: '%r %r: %r' % (names, order, got.address))
                    if want != 'accents':
                        same_library(R, got, reference(texts[want].splitlines(True)), names)
                for d, n in zip(dirs, names):
                    p = os.path.join(d, 'libmine.sql')
                    try:
                        got = lib.load(p)
                    except X.LoadError:
                        R.check(n in (None, 'bad', 'ref'), 'load:path-refused', repr(n))
                        continue
                    R.check(n not in (None, 'bad', 'ref') and got.address == p and got.name == 'mine', 'load:path', repr(n))
                    got = lib.ILF.open(p, encoding='utf-8')
                    same_library(R, got, reference(texts[n].splitlines(True)), n)
                R.state(names)
    finally:
        pg_sys.libpath[:] = saved
        shutil.rmtree(top)


def parses(srv):
    return [e[2].strip() for e in srv.log if e[0] == 'P']


def requests(srv):
    return [e for e in srv.log if e[0] in 'PBE']


QUERY = 'SELECT i::int4 AS i FROM generate_series(1, 3) AS g(i)'
WAYS = {
    '': lambda r: [tuple(x) for x in r], 'all': lambda r: [tuple(x) for x in r], 'first': lambda r: r, 'rows': lambda r: [tuple(x) for x in r],
    'chunks': lambda r: [tuple(x) for c in r for x in c], 'column': list, 'declare': lambda r: [tuple(x) for x in r.read()],
}


def stripped(x):
    return x.strip() if isinstance(x, str) else [tuple(z.strip() for z in y) if isinstance(y, tuple) else y.strip() for y in x]


def lib_of(text):
    from postgresql import lib
    return lib.ILF.from_lines(text.splitlines(True))


def t_methods(R):
    from postgresql import lib
    full = [(1,), (2,), (3,)]
    for typ in ('', 'static', 'preload', 'transient', 'const'):
        for way in WAYS:
            for uses in (1, 2, 3):
                for keep in (False, True):
                    if not R.case([typ, way, uses, keep]) or typ == 'const' and way == 'declare':
                        continue
                    with R.guarded('methods', 20), wire.quiet():
                        w = wire.World()
                        db = wire.connect(w)
                        L = lib_of('[s:%s:%s]\n%s\n' % (typ, way, QUERY))
                        del w.server.log[:]
                        B = lib.Binding(db, L)
                        bound = parses(w.server)
                        R.check(set(bound) <= {QUERY} and (typ != 'preload' or bound), 'bound:preload', lambda: repr(bound))
                        want = 1 if way == 'first' else [1, 2, 3] if way == 'column' else full
                        s = B.s if keep else None
                        for u in range(uses):
                            R.trans()
                            if typ == 'const' and u:
                                mark = requests(w.server)
                            with db.xact():
                                if typ == 'const':
                                    got = s if keep else B.s
                                else:
                                    got = (s if keep else B.s)()
                                got = WAYS[way](got)
                            if typ == 'const' and u:
                                R.check(requests(w.server) == mark, 'bound:const', lambda: '%s executed again' % way)
                            R.check(got == want, 'bound:result', lambda: '%s:%s use %d: %r' % (typ, way, u, got))
                        n = parses(w.server).count(QUERY)
                        if typ in ('', 'static', 'preload') or keep:
                            R.check(way == 'declare' or n == 1, 'bound:held', lambda: '%s:%s prepared %d times' % (typ, way, n))
                        elif typ == 'transient':
                            R.check(n == uses, 'bound:transient', lambda: '%s prepared %d times for %d uses' % (way, n, uses))
                        R.state((typ, way, uses, keep))
    # constants of no rows
    for way, want in (('', []), ('first', None), ('rows', []), ('chunks', []), ('column', [])):
        if R.case(['none', way]):
            with R.guarded('methods', 20), wire.quiet():
                w = wire.World()
                B = lib.Binding(wire.connect(w), lib_of('[s:const:%s]\n%s' % (way, QUERY.replace('3', '0'))))
                got = [B.s]
                mark = requests(w.server)
                got += [B.s, B.s]
                R.check(got == [want] * 3, 'bound:result', lambda: '%s: %r' % (way, got))
                R.check(requests(w.server) == mark, 'bound:const', lambda: '%s executed again' % way)
    # statements that take rows, and such that return none
    for way, stmt, arg, want in (('load_rows', 'INSERT INTO mct VALUES ($1)', [(1,), (2,)], [1, 2]), ('load_chunks', 'INSERT INTO mct VALUES ($1)', [[(1,)], [(2,), (3,)]], [1, 2, 3]),
                                 ('load_rows', 'COPY mct FROM STDIN', [b'4\n', b'5\n'], [4, 5]), ('load_chunks', 'COPY mct FROM STDIN', [[b'4\n'], [b'5\n']], [4, 5])):
        for typ in ('', 'preload', 'transient'):
            if R.case([way, stmt, typ]):
                with R.guarded('methods', 20), wire.quiet():
                    w = wire.World()
                    db = wire.connect(w)
                    B = lib.Binding(db, lib_of('[s:%s:%s]\n%s' % (typ, way, stmt)))
                    B.s(arg)
                    R.check(sorted(w.server.db['mct']) == want, 'bound:load', lambda: '%r %r: %r' % (way, stmt, w.server.db))
    for way, want in (('', ('DELETE', 0)), ('first', 0)):
        if R.case(['delete', way]):
            with R.guarded('methods', 20), wire.quiet():
                w = wire.World()
                B = lib.Binding(wire.connect(w), lib_of('[s::%s]\nDELETE FROM mct\n' % way))
                R.check(B.s() == want, 'bound:command', lambda: repr(B.s()))


def t_references(R):
    from postgresql import lib
    for typ in ('', 'preload', 'const', 'transient'):
        for way in ('', 'first', 'rows', 'column', 'chunks'):
            for rows in (1, 2):
                for params in (False, True):
                    if typ == 'const' and params or not R.case([typ, way, rows, params]):
                        continue
                    with R.guarded('references', 20), wire.quiet():
                        w = wire.World()
                        db = wire.connect(w)
                        w.server.echo_rows = rows
                        text = 'ECHO 25,25' if params else 'ANY x'
                        if not params:
                            rows = 1
                        L = lib_of('[&s:%s:%s]\n%s\n' % (typ, way, text))
                        B = lib.Binding(db, L)
                        target = '\n'.join(['ANY one two'] * rows) if params else 'ANY x'
                        want = {'': [(target,)], 'first': target, 'rows': [(target,)], 'column': [target], 'chunks': [(target,)]}[way]
                        for u in range(3):
                            R.trans()
                            if typ == 'const':
                                s = B.s
                            else:
                                s = B.s('ANY one', 'two') if params else B.s()
                            for v in range(2):
                                got = stripped(WAYS[way](s()))
                                R.check(got == want or way == 'first' and got == target, 'reference:result', lambda: '%s:%s: %r instead of %r' % (typ, way, got, want))
                        n = [p for p in parses(w.server)].count(target.strip())
                        m = parses(w.server).count(text)
                        if params:
                            R.check(m == (3 if typ == 'transient' else 1), 'reference:held', lambda: '%s:%s prepared %d times' % (typ, way, m))
                        elif typ != 'const':
                            R.check(m == (6 if typ == 'transient' else 4), 'reference:held', lambda: '%s:%s prepared %d times' % (typ, way, m))
                        if typ == 'const':
                            R.check(n == 2, 'reference:const', lambda: 'prepared %d times' % n)
                        R.state((typ, way, rows, params))


def t_procs(R):
    "symbols that are procedures"
    from checks import c26_procedures as c26
    from postgresql import lib
    I, T = c26.INT4, c26.TEXT
    sigs = [c26.Sig(i, o, ret, rows, 'pr') for i in ([], [('i', 'a', I)], [('i', 'a', I), ('i', '', T)]) for rows in (None, 0, 2) for o, ret in (((), 'text'), ((), 'null'), ((), 'table'), (((0, 'x'), (1, 'y')), 'text'))]
    for sig in sigs:
        for way in ('', 'first', 'rows'):
            for ref in ('', '&'):
                for pad in ('%s', '\n  %s \n\n', '*[id]'):
                    for uses in (1, 2):
                        if not R.case([sig.key(), way, ref, pad, uses]) or ref and pad != '%s':
                            continue
                        with R.guarded('procs', 20), wire.quiet():
                            w = wire.World()
                            db = wire.connect(w)
                            w.server.procs = [sig.model()]
                            id_ = sig.ident()
                            L = lib_of('[id]\n%s\n[%sp:proc:%s]\n%s\n[last::first]\nANY last\n' % (id_, ref, way, 'ECHO 25' if ref else pad % id_ if '%' in pad else pad))
                            B = lib.Binding(db, L)
                            where = lambda: '%s %r %r' % (sig.key(), way, pad)
                            args = c26.values(sig.types)
                            for u in range(uses):
                                R.trans()
                                p = B.p(id_) if ref else B.p
                                c26.result(R, sig, p(*args), args, where)
                            for bad in (args + [1], args[1:] if args else [1, 2]):
                                try:
                                    got = p(*bad)
                                except TypeError:
                                    pass
                                else:
                                    R.violate('proc:arguments', '%s: %r gives %r' % (where(), bad, got))
                            R.check(stripped(B.last()) == 'ANY last', 'proc:next', where)
                            R.state([sig.key(), way, ref])


LIB1 = '[s::first]\nANY s of one\n[c:const:first]\nANY c of one\n[only1:preload:column]\nANY only1\n[t:transient:first]\nANY t of one\n'
LIB2 = '[s::column]\nANY s of two\n[c:const:column]\nANY c of two\n[t::rows]\nANY t of two\n'
VALUES = {
    (1, 's'): 'ANY s of one', (1, 'c'): 'ANY c of one', (1, 'only1'): ['ANY only1'], (1, 't'): 'ANY t of one',
    (2, 's'): ['ANY s of two'], (2, 'c'): ['ANY c of two'], (2, 't'): [('ANY t of two',)],
}


def use(b, which, name):
    x = getattr(b, name)
    if name != 'c':
        x = x()
    return stripped(x)


def t_accesses(R, i, n, depth):
    "symbols of two libraries on two connections, in every order"
    from postgresql import lib
    uses = [(d, l, s) for d in (0, 1) for (l, s) in VALUES] + [(0, 1, 'lies'), (0, 2, 'only1'), ('rebind', 1, 's')]
    for j, prog in enumerate(itertools.product(uses, repeat=depth)):
        if j % n != i or not R.case(prog):
            continue
        with R.guarded('accesses', 20), wire.quiet():
            if j // n % 40 == 0:
                pool = [wire.World(), wire.World()]
                dbs = [wire.connect(w) for w in pool]
            L = [lib_of(LIB1), lib_of(LIB2)]
            B = {(d, l): lib.Binding(dbs[d], L[l - 1]) for d in (0, 1) for l in (1, 2)}
            for d, l, s in prog:
                R.trans()
                if d == 'rebind':
                    B[0, l] = lib.Binding(dbs[0], L[l - 1])
                    d = 0
                marks = [len(w.server.log) for w in pool]
                try:
                    got = use(B[d, l], l, s)
                except AttributeError:
                    R.check((l, s) not in VALUES, 'access:missing', lambda: '%r: %r' % (prog, (d, l, s)))
                    continue
                if not R.check((l, s) in VALUES, 'access:lies', lambda: '%r: %r' % (prog, got)):
                    continue
                R.check(got == VALUES[l, s], 'access:value', lambda: '%r: %r is %r' % (prog, (d, l, s), got))
                R.check(len(pool[1 - d].server.log) == marks[1 - d], 'access:connection', lambda: '%r: %r used the other connection' % (prog, (d, l, s)))
                want = {x for (m, x) in VALUES if m == l}
                R.check(want <= set(dir(B[d, l])), 'access:dir', lambda: repr(dir(B[d, l])))
            R.state(prog)


def t_categories(R):
    "libraries as attributes of the connections of a category"
    from postgresql import lib
    L1, L2 = lib_of(LIB1), lib_of(LIB2)
    L1._name, L2._name = 'one', 'two'
    choices = [(direct, named) for direct in ((), (1,), (2,), (1, 2)) for r in range(3) for named in itertools.product(*[[(k, l) for l in (1, 2)] for k in ('x', 'y')[:r]])]
    which = {1: L1, 2: L2}
    for (da, na), (db_, nb) in itertools.product(choices, repeat=2):
        if not R.case([da, na, db_, nb]):
            continue
        with R.guarded('categories', 20), wire.quiet():
            made = []
            for direct, named in ((da, na), (db_, nb)):
                cat = lib.Category(*[which[l] for l in direct], **{k: which[l] for k, l in named})
                w = wire.World()
                made.append((cat, w, wire.connect(w, category=cat), direct, named))
            for cat, w, db, direct, named in made:
                attrs = {'one' if l == 1 else 'two': l for l in direct}
                attrs.update(named)
                for a in ('one', 'two', 'x', 'y'):
                    R.trans()
                    if not R.check(hasattr(db, a) == (a in attrs), 'category:names', lambda: '%r %r: %s' % (direct, named, a)):
                        continue
                    if a in attrs:
                        l = attrs[a]
                        for s in ('s', 'c', 't'):
                            got = use(getattr(db, a), l, s)
                            R.check(got == VALUES[l, s], 'category:value', lambda: '%r %r: %s.%s is %r' % (direct, named, a, s, got))
                R.check(db.connector.category is cat, 'category:connector', '')
                # a clone has the same ones
            R.state((da, na, db_, nb))
    for taken in ('execute', 'prepare', 'settings', 'one'):
        if R.case(['taken', taken]):
            with R.guarded('categories', 20), wire.quiet():
                w = wire.World()
                db = wire.connect(w)
                if taken == 'one':
                    lib.Category(L1)(db)
                before = getattr(db, taken)
                try:
                    lib.Category(**{taken: L2})(db)
                except AttributeError:
                    pass
                else:
                    R.violate('category:taken', taken)
                R.check(getattr(db, taken) == before, 'category:replaced', taken)
