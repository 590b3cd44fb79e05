"""
C26 - a stored procedure is called with the arguments it was given, and gives
back what its signature promises: every signature of the bound, called in
every way, on the model server and on a real one.
"""
import itertools

from mc import core, real, wire
from mc.pgmodel import INT4, TEXT, INT4ARRAY

PROPERTY = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of function signatures and ways to call them, and of sequences of calls, the real driver over a model server and over PostgreSQL'
RULE = 'an execution is one signature with one way of calling it, or one sequence of calls; a state is a signature or what is open in a sequence'
ASSUMPTIONS = ['functions, not procedures that are CALLed; polymorphic arguments are not claimed',
               'without PostgreSQL in the sandbox only the model server is used (counted in the notes)']

NAMES = ('', 'a', 'B c', 'self')
SQLT = {INT4: 'int4', TEXT: 'text', INT4ARRAY: 'int4[]'}


class Sig:
    """
    inputs: [(mode, name, type oid)], mode i, b or v; outs: [(position in the
    declaration, name)]; ret: what is returned when nothing is an OUT argument;
    rows: None, or how many rows the set has
    """
    n = 0

    def __init__(self, inputs, outs=(), ret='text', rows=None, fname='f', table=False):
        self.inputs, self.outs, self.ret, self.rows, self.fname, self.table = list(inputs), list(outs), ret, rows, fname, table
        # the declaration
        decl = list(self.inputs)
        for i, (pos, name) in enumerate(self.outs):
            decl.insert(pos + i, ('t' if table else 'o', name, TEXT))
        self.decl = decl
        self.cols = [n for m, n, t in decl if m in 'bot']
        if self.cols:
            self.composite = len(self.cols) > 1
        else:
            self.composite = ret in ('table', 'record')
            if self.composite:
                self.cols = ['p', 'q']
        self.desc = ('p text', 'q text') if ret == 'record' else ()
        self.types = [t for _, _, t in self.inputs]
        Sig.n += 1
        self.oid = 50000 + Sig.n

    def key(self):
        return [self.decl, self.ret, self.rows, self.fname]

    def value(self, args):
        "the text the body makes of its arguments"
        return '|'.join('N' if a is None else '{%s}' % ','.join(map(str, a)) if isinstance(a, (list, tuple)) else str(a) for a in args)

    def table_rows(self, args):
        v = self.value(args)
        if self.ret == 'null':
            one = (None,) * max(1, len(self.cols))
        elif self.cols:
            one = tuple('%s:%d' % (v, i) for i in range(len(self.cols)))
        else:
            one = (v,)
        if self.rows is None:
            return [one]
        return [tuple(None if x is None else '%s#%d' % (x, r) for x in one) for r in range(self.rows)]

    def model(self):
        modes = [m.encode().decode() for m, _, _ in self.decl]
        names = [n for _, n, _ in self.decl]
        plain = all(m == 'i' for m in modes)
        q = '"%s"' % self.fname if not self.fname.isidentifier() or self.fname != self.fname.lower() else self.fname
        return {'oid': self.oid, 'name': self.fname, '_proid': q, 'idents': [self.ident()], 'types': self.types, 'variadic': INT4 if any(m == 'v' for m in modes) else 0,
                'modes': None if plain else modes, 'alltypes': None if plain else [t for _, _, t in self.decl], 'names': names if any(names) else None,
                'retset': self.rows is not None, 'rettype': 2249 if self.composite else TEXT, 'composite': self.composite, 'desc': ','.join(self.desc) or None,
                'cols': [(c or 'column%d' % (i + 1), TEXT) for i, c in enumerate(self.cols)] if self.composite else [('func', TEXT)], 'f': lambda *a: self.table_rows(a)}

    def ident(self):
        q = '"%s"' % self.fname if not self.fname.isidentifier() or self.fname != self.fname.lower() else self.fname
        return '%s(%s)' % (q, ','.join(SQLT[t] for t in self.types))

    def ddl(self):
        mode = {'i': 'IN', 'b': 'INOUT', 'v': 'VARIADIC', 'o': 'OUT'}
        args = ', '.join('%s %s %s' % (mode[m], '"%s"' % n if n else '', SQLT[t]) for m, n, t in self.decl if m != 't')
        v = " || '|' || ".join("coalesce($%d::text, 'N')" % (i + 1) for i in range(len(self.inputs))) or "''"
        setof = '' if self.rows is None else 'SETOF '
        if self.table:
            ret = 'RETURNS TABLE (%s)' % ', '.join('"%s" text' % n for m, n, _ in self.decl if m == 't')
        elif any(m in 'bo' for m, _, _ in self.decl):
            ret = ('RETURNS SETOF ' + ('record' if self.composite else 'text')) if setof else ''
        else:
            ret = 'RETURNS ' + setof + {'text': 'text', 'null': 'text', 'table': 'mcrow', 'record': 'record'}[self.ret]
        if self.ret == 'null':
            cols = ', '.join(['NULL::text'] * max(1, len(self.cols)))
        else:
            tail = " || '#' || g" if setof else ''
            cols = ', '.join("%s%s%s" % (v, " || ':%d'" % i if self.cols else '', tail) for i in range(max(1, len(self.cols))))
        body = 'SELECT %s' % cols
        if setof:
            body += ' FROM generate_series(0, %d) AS g(g)' % (self.rows - 1)
        return 'CREATE FUNCTION %s (%s) %s LANGUAGE sql AS $body$ %s $body$' % (self.ident().split('(')[0], args, ret, body)


def values(types):
    return [{INT4: 10 + i, TEXT: 's%d' % i, INT4ARRAY: [i, 7]}[t] for i, t in enumerate(types)]


def naming(n):
    "names of n arguments: no two the same"
    for names in itertools.product(NAMES, repeat=n):
        given = [x for x in names if x]
        if len(set(given)) == len(given):
            yield names


TYPES = {0: [()], 1: [(INT4,), (TEXT,)], 2: [(INT4, INT4), (TEXT, INT4)], 3: [(TEXT, TEXT, TEXT)]}


def sigs(kind):
    "the signatures of a task"
    if kind == 'in':
        for n in range(4):
            for names in naming(n):
                for types in TYPES[n]:
                    yield Sig([('i', a, t) for a, t in zip(names, types)])
    elif kind == 'out':
        for n in range(3):
            for names in naming(n):
                for pos in itertools.chain(*[itertools.combinations_with_replacement(range(n + 1), k) for k in (1, 2)]):
                    for rows in (None, 2):
                        yield Sig([('i', a, INT4) for a in names], [(p, ('x', 'y')[i]) for i, p in enumerate(pos)], rows=rows)
    elif kind == 'inout':
        for n in (1, 2, 3):
            for names in naming(n):
                if '' in names:
                    continue
                for modes in itertools.product('ib', repeat=n):
                    if 'b' not in modes:
                        continue
                    for outs in ((), ((0, 'x'),), ((n, 'x'),)):
                        yield Sig([(m, a, TEXT) for m, a in zip(modes, names)], outs)
    elif kind == 'variadic':
        for n in range(3):
            for names in naming(n + 1):
                for outs in ((), ((0, 'x'), (n, 'y')), ((0, 'x'),)):
                    yield Sig([('i', a, INT4) for a in names[:-1]] + [('v', names[-1], INT4ARRAY)], outs)
    elif kind == 'results':
        for n in range(3):
            for names in (('',) * n, ('a', 'B c')[:n]):
                for rows in (None, 0, 1, 2, 300):
                    for ret in ('text', 'null', 'table', 'record'):
                        for fname in ('f', 'F q'):
                            yield Sig([('i', a, INT4) for a in names], ret=ret, rows=rows, fname=fname)
                    if rows is not None:
                        for outs in (['x'], ['x', 'y']):
                            yield Sig([('i', a, INT4) for a in names], [(n, o) for o in outs], rows=rows, table=True)


KINDS = ('in', 'out', 'inout', 'variadic', 'results')


def ways(sig):
    "-> (positional, keywords, values of the inputs or None: a TypeError)"
    n = len(sig.inputs)
    vals = values(sig.types)
    named = [i for i in range(n) if sig.inputs[i][1]]
    for k in range(len(named) + 1):
        for kw in itertools.combinations(named, k):
            pos = [vals[i] for i in range(n) if i not in kw]
            words = {sig.inputs[i][1]: vals[i] for i in kw}
            yield pos, words, vals
            if len(kw) > 1:
                yield pos, dict(reversed(list(words.items()))), vals
            if pos:
                yield pos[:-1], words, None
            yield pos + [1], words, None
            yield pos, dict(words, nope=1), None
            if pos:
                yield pos[:-1], dict(words, nope=1), None
                yield pos[:-1], dict(words, **{'': pos[-1]}), None
            for m, name, t in sig.decl:
                if m in 'ot' and pos:
                    yield pos[:-1], dict(words, **{name: 'x'}), None
    # nulls arrive as they are
    for i in range(n):
        v = list(vals)
        v[i] = None
        yield v, {}, v


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for k in KINDS:
            T.append(('model', v, {'kind': k}))
        for f in range(len(OPS)):
            T.append(('sequence', v, {'first': f, 'depth': 3 if tier == 'quick' else 4}))
    for k in KINDS:
        T.append(('onreal', 'c', {'kind': k}))
    T.append(('overloads', 'c', {'depth': 3 if tier == 'quick' else 4}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def call(R, sig, db, ident, ways_, where0):
    from postgresql.driver.pq3 import StoredProcedure
    p = StoredProcedure(ident, db, sig.desc) if sig.desc else db.proc(ident)
    for pos, words, vals in ways_:
        where = lambda: '%s called with %r %r' % (where0, pos, words)
        try:
            got = p(*pos, **words)
        except TypeError as e:
            R.check(vals is None, 'call:refused', lambda: '%s: %s' % (where(), e))
            R.trans()
            continue
        if vals is None:
            R.violate('call:accepted', '%s: %r' % (where(), got))
            continue
        result(R, sig, got, vals, where)
        R.trans()
    return p


def result(R, sig, got, vals, where):
    want = sig.table_rows(vals)
    if sig.rows is None:
        if sig.composite:
            R.check(isinstance(got, tuple) and tuple(got) == want[0], 'call:row', lambda: '%s gives %r not %r' % (where(), got, want[0]))
            if all(sig.cols):
                R.check(list(got.column_names) == sig.cols, 'call:columns', lambda: '%s: %r' % (where(), got.column_names))
        else:
            R.check(got == want[0][0], 'call:value', lambda: '%s gives %r not %r' % (where(), got, want[0][0]))
    else:
        R.check(not isinstance(got, (str, tuple)) or sig.rows == 0, 'call:set', lambda: '%s gives %r' % (where(), got))
        rows = list(got)
        if sig.composite:
            R.check(all(isinstance(r, tuple) for r in rows) and [tuple(r) for r in rows] == want, 'call:rows', lambda: '%s gives %r not %r' % (where(), rows[:5], want[:5]))
        else:
            R.check(rows == [r[0] for r in want], 'call:column', lambda: '%s gives %r not %r' % (where(), rows[:5], want[:5]))


def t_model(R, kind):
    w = db = None
    for sig in sigs(kind):
        if not R.case(sig.key()):
            continue
        with R.guarded('model', 30), wire.quiet():
            if db is None or R.executions % 40 == 0:
                w = wire.World()
                db = wire.connect(w)
            w.steps = 0
            w.server.procs = [sig.model()]
            for ident in (sig.ident(), sig.oid):
                call(R, sig, db, ident, ways(sig) if isinstance(ident, str) else itertools.islice(ways(sig), 1), '%s (%s)' % (sig.ident(), sig.decl))
            R.state(sig.key())


# -- sequences of calls ------------------------------------------------------
def three():
    return [Sig([('i', 'a', INT4), ('i', 'B c', TEXT)], fname='one'), Sig([('i', 'a', INT4)], rows=300, fname='many'), Sig([('i', 'a', INT4)], ret='table', rows=3, fname='rows'),
            Sig([('i', 'a', INT4)], [(0, 'x'), (1, 'y')], fname='row')]


OPS = ['one', 'one-kw', 'row', 'many', 'rows', 'next', 'next-other', 'all', 'begin', 'rollback', 'bad', 'commit']


def t_sequence(R, first, depth):
    import postgresql.exceptions as X
    S = {s.fname: s for s in three()}
    for rest in itertools.chain(*[itertools.product(OPS, repeat=k) for k in range(depth)]):
        seq = (OPS[first],) + rest
        if not R.case(seq):
            continue
        with R.guarded('sequence', 30), wire.quiet():
            w = wire.World()
            db = wire.connect(w)
            w.server.procs = [s.model() for s in S.values()]
            P = {n: db.proc(s.ident()) for n, s in S.items()}
            iters = []      # (iterator, what it still gives, the block it was made in)
            block, dead = 0, False
            for i, op in enumerate(seq):
                where = lambda: '%r at %d' % (seq, i)
                try:
                    if op == 'one':
                        R.check(P['one'](i, 'x') == '%d|x' % i, 'sequence:value', where)
                    elif op == 'one-kw':
                        R.check(P['one']('x', a=i) == '%d|x' % i, 'sequence:keyword', where)
                    elif op == 'row':
                        R.check(tuple(P['row'](a=i)) == ('%d:0' % i, '%d:1' % i), 'sequence:row', where)
                    elif op in ('many', 'rows'):
                        it = iter(P[op](i) if i % 2 else P[op](a=i))
                        want = S[op].table_rows([i])
                        iters.append((it, want if op == 'rows' else [r[0] for r in want], block))
                    elif op in ('next', 'next-other', 'all'):
                        if not iters:
                            continue
                        it, want, b = iters[0 if op == 'next-other' else -1]
                        if op == 'all':
                            # what a stream says after its transaction block ended is C09's
                            R.check(b != block or [tuple(x) if isinstance(x, tuple) else x for x in it] == want, 'sequence:rest', where)
                            iters.pop()
                            continue
                        if b != block:
                            continue
                        x = next(it, StopIteration)
                        R.check((x is StopIteration and not want) or (want and (tuple(x) if isinstance(x, tuple) else x) == want[0]), 'sequence:next', lambda: '%s: %r not %r' % (where(), x, want[:1]))
                        del want[:1]
                    elif op == 'begin':
                        if not block:
                            db.execute('BEGIN')
                            block = i + 1
                    elif op in ('rollback', 'commit'):
                        db.execute(op.upper())
                        block, dead = 0, False
                        iters = []
                    elif op == 'bad':
                        dead = dead or bool(block)
                        db.execute('SELEKT')
                except X.Error as e:
                    R.check(op == 'bad' or dead, 'sequence:error', lambda: '%s: %r' % (where(), e))
                else:
                    R.check(not (dead and op in ('one', 'one-kw', 'row', 'many', 'rows')) or op in ('many', 'rows'), 'sequence:silent', where)
                R.trans()
                R.state([op, len(iters), bool(block), dead])
                if dead:
                    iters = []
            db.close()


# -- PostgreSQL ------------------------------------------------------------
def t_onreal(R, kind):
    try:
        cm = real.server()
        d = cm.__enter__()
    except real.Unavailable as e:
        R.note('no PostgreSQL')
        return
    try:
        c = real.connect(d)
        c('CREATE TYPE mcrow AS (p text, q text)')
        db = None
        for n, sig in enumerate(sigs(kind)):
            if not R.case(sig.key()):
                continue
            with R.guarded('real', 30), wire.quiet():
                if db is None or n % 40 == 0:
                    if db is not None:
                        db.close()
                    db = real.driver(d)
                c(sig.ddl())
                try:
                    oid = int(c("SELECT '%s'::regprocedure::oid" % sig.ident())[0][0])
                    for ident in (sig.ident(), oid):
                        call(R, sig, db, ident, ways(sig) if isinstance(ident, str) else itertools.islice(ways(sig), 1), 'real %s (%s)' % (sig.ident(), sig.decl))
                finally:
                    c('DROP FUNCTION ' + sig.ident())
                R.state(sig.key())
        R.note('PostgreSQL')
    finally:
        cm.__exit__(None, None, None)


OVER = {
    'f(int4)': "CREATE FUNCTION f(a int4) RETURNS text LANGUAGE sql AS $$ SELECT 'int'||$1 $$",
    'f(text)': "CREATE FUNCTION f(a text) RETURNS text LANGUAGE sql AS $$ SELECT 'text'||$1 $$",
    'f(text,int4)': "CREATE FUNCTION f(a text, b int4) RETURNS text LANGUAGE sql AS $$ SELECT 'two'||$1||$2 $$",
    's.f(int4)': "CREATE FUNCTION s.f(b int4) RETURNS text LANGUAGE sql AS $$ SELECT 's'||$1 $$",
    '"S t"."F"(int4)': "CREATE FUNCTION \"S t\".\"F\"(a int4) RETURNS SETOF text LANGUAGE sql AS $$ SELECT 'S'||$1 $$",
    'f("S t"."T y")': "CREATE FUNCTION f(d \"S t\".\"T y\") RETURNS text LANGUAGE sql AS $$ SELECT 'domain'||$1 $$",
    'f("S t"."E")': "CREATE FUNCTION f(d \"S t\".\"E\") RETURNS text LANGUAGE sql AS $$ SELECT 'enum'||$1 $$",
}
ARGS = {'f(int4)': (3,), 'f(text)': ('3',), 'f(text,int4)': ('3', 4), 's.f(int4)': (3,), '"S t"."F"(int4)': (3,), 'f("S t"."T y")': (3,), 'f("S t"."E")': ('x y',)}
WANT = {'f(int4)': 'int3', 'f(text)': 'text3', 'f(text,int4)': 'two34', 's.f(int4)': 's3', '"S t"."F"(int4)': ['S3'], 'f("S t"."T y")': 'domain3', 'f("S t"."E")': 'enumx y'}


def t_overloads(R, depth):
    "every set of overloads that exists, every one of them called"
    import postgresql.exceptions as X
    try:
        cm = real.server()
        d = cm.__enter__()
    except real.Unavailable:
        R.note('no PostgreSQL')
        return
    try:
        c = real.connect(d)
        c('CREATE SCHEMA s; CREATE SCHEMA "S t"; CREATE DOMAIN "S t"."T y" AS int4; CREATE TYPE "S t"."E" AS ENUM (\'x y\', \'z\')')
        for path in ('public', 's, public', 'public, s, "S t"'):
            for k in range(1, len(OVER) + 1):
                for names in itertools.combinations(OVER, k):
                    if not R.case([path, names]):
                        continue
                    with R.guarded('overloads', 30), wire.quiet():
                        for n in names:
                            c(OVER[n].replace('FUNCTION f', 'FUNCTION public.f'))
                        try:
                            db = real.driver(d)
                            db.execute('SET search_path = ' + path)
                            ps = {}
                            for n in OVER:
                                full = n.replace('f(', 'public.f(') if n.startswith('f(') else n
                                try:
                                    ps[n] = db.proc(full)
                                except X.Error:
                                    R.check(n not in names, 'overloads:missing', lambda: '%r of %r with search path %s' % (n, names, path))
                                else:
                                    R.check(n in names, 'overloads:found', lambda: '%r of %r' % (n, names))
                            for n, p in ps.items():
                                for how in ('positional', 'keyword'):
                                    # another path does not change what was looked up
                                    got = p(*ARGS[n]) if how == 'positional' else p(*ARGS[n][1:], **{{'s.f(int4)': 'b'}.get(n, 'd' if 'S t' in n and n[0] == 'f' else 'a'): ARGS[n][0]})
                                    got = got if isinstance(got, str) else list(got)
                                    R.check(got == WANT[n], 'overloads:value', lambda: '%r of %r with search path %s, %s: %r' % (n, names, path, how, got))
                                    R.trans()
                                    db.execute('SET search_path = pg_catalog')
                            db.close()
                        finally:
                            for n in names:
                                c('DROP FUNCTION ' + (n.replace('f(', 'public.f(') if n.startswith('f(') else n))
                        R.state([path, names])
        R.note('PostgreSQL')
    finally:
        cm.__exit__(None, None, None)
