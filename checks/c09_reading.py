"""
C09 - every way of reading or loading rows moves exactly those rows.
"""
import itertools

from mc import core, pgmodel as M, scripts as S, wire

PROPERTY = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of reading programs and cursor operation sequences, differential against plain lists'
RULE = 'an execution is one combination of method, row count and chunk size, one interleaving of streams, or one sequence of cursor operations'
ASSUMPTIONS = ['the server is mc.pgmodel', 'offsets of absolute seeks are not negative']

INF = 3600


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        T.append(('methods', v, {}))
        T.append(('errors', v, {}))
        T.append(('load', v, {}))
        T.append(('first', v, {}))
        for i in range(6):
            T.append(('cursor', v, {'i': i, 'n': 6}))
        for i in range(6):
            T.append(('streams', v, {'i': i, 'n': 6}))
        T.append(('split', v, {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def chunked(n):
    from postgresql.driver import pq3
    for c in vars(pq3).values():
        if isinstance(c, type) and 'chunksize' in vars(c):
            c.chunksize = n


SHAPES = {
    'one': (S.SN, lambda i: (i,), ('i',)),
    'three': ("SELECT i::int4 AS i, ('t'||i)::text AS t, NULL::int4 AS z FROM generate_series(1, %d) AS g(i)",
              lambda i: (i, 't%d' % i, None), ('i', 't', 'z')),
    'null': ('SELECT NULL::int4 AS z, i::int4 AS i FROM generate_series(1, %d) AS g(i)', lambda i: (None, i), ('z', 'i')),
}


def flat(chunks):
    return [r for c in chunks for r in c]


# way of reading -> f(db, prepared statement or text, parameters) -> list of rows
WHOLE = {
    'call': lambda ps, a: ps(*a),
    'rows': lambda ps, a: list(ps.rows(*a)),
    'chunks': lambda ps, a: flat(ps.chunks(*a)),
    'declare-iter': lambda ps, a: list(ps.declare(*a)),
    'declare-read': lambda ps, a: ps.declare(*a).read(),
    'declare-read2': lambda ps, a: by_two(ps.declare(*a)),
    'declare-back': lambda ps, a: backwards(ps.declare(*a)),
}


def by_two(c):
    out = []
    while True:
        r = c.read(2)
        if not r:
            return out
        out += r


def backwards(c):
    c.seek(0, 'FROM_END')
    return c.read(direction='BACKWARD')[::-1]


def t_methods(R):
    big = 7 if R.tier == 'quick' else 12
    for size in (1, 2, 3, 4096):
        chunked(size)
        for shape, (sql, mk, names) in SHAPES.items():
            for n in range(0, big + 1):
                for inside in (False, True):
                    for par in (False, True):
                        if par and shape != 'one':
                            continue
                        if not R.case([size, shape, n, inside, par]):
                            continue
                        with R.guarded('methods', 20), wire.quiet():
                            one_methods(R, size, sql % n if not par else S.SP, (n,) if par else (), [mk(i) for i in range(1, n + 1)], names, inside)
                        R.state((size, shape, n, inside, par))


def one_methods(R, size, sql, args, rows, names, inside):
    w = wire.World()
    db = wire.connect(w)
    if inside:
        db.execute('BEGIN')
    ps = db.prepare(sql)
    db.prepare(sql, statement_id='mine')
    byid = db.statement_from_id('mine')

    def same(way, got, want):
        got = [tuple(x) if isinstance(x, tuple) else x for x in got]
        R.check(got == want, 'methods:' + way, lambda: '%s of %r%r, chunks of %d, in block %r: %r' % (way, sql, args, size, inside, got))
        R.outcome((way, got))
        R.trans()
    for way, f in WHOLE.items():
        got = f(ps, args)
        same(way, got, rows)
        if way != 'chunks':
            for r, t in zip(got, rows):
                R.check([r[k] for k in names] == list(t) and list(r.column_names) == list(names), 'methods:names', lambda: '%s %r' % (way, r))
    if not inside:
        c = byid.chunks(*args)
        flat(c)
        R.check((c.command(), c.count()) == ('SELECT', len(rows)), 'methods:count', lambda: '%s%r: %r %r' % (sql, args, c.command(), c.count()))
        copy = db.prepare('COPY (SELECT i FROM generate_series(1, %d) AS g(i)) TO STDOUT' % len(rows))
        c = copy.chunks()
        same('copy', flat(c), [b'%d\n' % i for i in range(1, len(rows) + 1)])
        R.check((c.command(), c.count()) == ('COPY', len(rows)), 'methods:copy-count', lambda: '%d: %r %r' % (len(rows), c.command(), c.count()))
    same('id-call', byid(*args), rows)
    same('id-rows', list(byid.rows(*args)), rows)
    same('id-chunks', flat(byid.chunks(*args)), rows)
    same('id-column', list(byid.column(*args)), [r[0] for r in rows])
    same('column', list(ps.column(*args)), [r[0] for r in rows])
    first = ps.first(*args)
    want = None if not rows else rows[0] if len(names) > 1 else rows[0][0]
    R.check((tuple(first) if isinstance(first, tuple) else first) == want, 'methods:first', lambda: '%r %r' % (sql, first))
    same('query', db.query(sql, *args), rows)
    same('query-rows', list(db.query.rows(sql, *args)), rows)
    same('query-chunks', flat(db.query.chunks(sql, *args)), rows)
    same('query-column', list(db.query.column(sql, *args)), [r[0] for r in rows])
    same('query-declare', list(db.query.declare(sql, *args)), rows)
    q = db.query.first(sql, *args)
    R.check((tuple(q) if isinstance(q, tuple) else q) == want, 'methods:query-first', lambda: '%r %r' % (sql, q))
    same('iter', list(ps) if not args else rows, rows)
    # chunks are as large as they can be
    sizes = [len(c) for c in ps.chunks(*args)]
    R.check(all(0 < s <= size for s in sizes) and all(s == size for s in sizes[:-1]), 'methods:chunk-size', lambda: '%r %r' % (size, sizes))
    for c in ps.chunks(*args):
        R.check(all(type(r) is tuple for r in c), 'methods:chunk-type', repr(c))
    # wrong number of parameters: refused, nothing is sent
    log = len(w.server.log)
    for f in list(WHOLE.values()) + [lambda ps, a: ps.first(*a), lambda ps, a: list(ps.column(*a))]:
        try:
            f(ps, args + (1,))
        except TypeError:
            pass
        else:
            R.violate('methods:arity', sql)
    R.check(len(w.server.log) == log, 'methods:arity-sent', sql)
    db.close()


def t_errors(R):
    "an error at any row: what was returned before is correct, and the error is raised"
    import postgresql.exceptions as X
    for size in (1, 2, 3, 4096):
        chunked(size)
        for n in (1, 2, 3, 4, 6):
            for bad in range(1, n + 1):
                sql = 'SELECT (10/(%d - i))::int4 AS i FROM generate_series(1, %d) AS g(i)' % (bad, n)
                good = [int(10 / (bad - i)) for i in range(1, bad)]
                for inside in (False, True):
                    if not R.case([size, n, bad, inside]):
                        continue
                    for way in list(WHOLE) + ['column', 'first', 'id-call', 'id-chunks', 'id-rows', 'next']:
                        with R.guarded('errors', 20), wire.quiet():
                            w = wire.World()
                            db = wire.connect(w)
                            if inside:
                                db.execute('BEGIN')
                            got = []
                            where = lambda: '%s of %r, chunks of %d, in block %r, got %r' % (way, sql, size, inside, got)
                            try:
                                if way.startswith('id-'):
                                    db.prepare(sql, statement_id='m')
                                    ps = db.statement_from_id('m')
                                else:
                                    ps = db.prepare(sql)
                                if way.endswith('rows'):
                                    for r in ps.rows():
                                        got.append(r[0])
                                elif way.endswith('chunks'):
                                    for c in ps.chunks():
                                        got += [r[0] for r in c]
                                elif way == 'column':
                                    for r in ps.column():
                                        got.append(r)
                                elif way == 'next':
                                    for r in ps.declare():
                                        got.append(r[0])
                                elif way == 'first':
                                    ps.first()
                                elif way == 'id-call':
                                    ps()
                                else:
                                    WHOLE[way](ps, ())
                            except X.Error as e:
                                R.check(e.code == '22012', 'errors:code', lambda: '%s %s' % (e.code, where()))
                            else:
                                R.violate('errors:' + way, 'no error: ' + where())
                            R.check(got == good[:len(got)], 'errors:rows', where)
                            R.check((db.pq.state == b'E') == inside, 'errors:state', where)
                            if inside:
                                db.execute('ROLLBACK')
                            R.check([tuple(x) for x in db.query(S.SN % 2)] == [(1,), (2,)], 'errors:after', where)
                            R.outcome((way, got))
                            R.state((way, size, n, bad, inside))
                            R.trans(len(w.server.log))
                            db.close()


def t_first(R):
    "first() and calls of statements that change data"
    import postgresql.exceptions as X
    for n in range(0, 4):
        for inside in (False, True):
            if not R.case([n, inside]):
                continue
            with R.guarded('first', 20), wire.quiet():
                w = wire.World()
                db = wire.connect(w)
                if inside:
                    db.execute('BEGIN')
                ins = db.prepare(S.INSP)
                for i in range(n):
                    R.check(ins.first(i) == 1, 'first:count')
                R.check(db.query.first('DELETE FROM mct') == n, 'first:delete')
                for i in range(n):
                    R.check(ins(i) == ('INSERT', 1), 'first:call')
                R.check(db.query('DELETE FROM mct') == ('DELETE', n), 'first:delete-call')
                ret = db.prepare('INSERT INTO mct VALUES ($1::int4) RETURNING k')
                for i in range(n):
                    R.check(ret.first(i) == i, 'first:returning')
                R.check([r[0] for r in db.query(S.TABLE)] == list(range(n)), 'first:table')
                R.check(db.query.first('SELECT NULL::int4 AS z FROM generate_series(1, 1) AS g(i)') is None, 'first:null')
                R.check(db.query.first('') is None, 'first:empty')
                R.check(db.query('') in (None, []), 'first:empty-call')
                R.check([bytes(x) for x in db.query(S.COPYOUT)] == [b'1\n', b'2\n', b'3\n'], 'first:copy')
                R.check([bytes(x) for x in db.prepare(S.COPYOUT).rows()] == [b'1\n', b'2\n', b'3\n'], 'first:copy-rows')
                R.check([bytes(x) for c in db.prepare(S.COPYOUT).chunks() for x in c] == [b'1\n', b'2\n', b'3\n'], 'first:copy-chunks')
                R.outcome((n, inside))
                R.state((n, inside))
                R.trans(len(w.server.log))
                db.close()


def t_load(R):
    "rows loaded in batches arrive once each and in order; a bad one is reported and ends it"
    import postgresql.exceptions as X
    for n in range(0, 8 if R.tier == 'quick' else 14):
        for size in (1, 2, 3, 4, 256):
            for how in ('rows', 'query-rows', 'chunks', 'copy', 'bad', 'dup'):
                for inside in (False, True):
                    for at in (range(1, n + 1) if how in ('bad', 'dup') else (0,)):
                        if not R.case([n, size, how, inside, at]):
                            continue
                        with R.guarded('load:' + how, 20), wire.quiet():
                            w = wire.World()
                            db = wire.connect(w)
                            if inside:
                                db.execute('BEGIN')
                            vals = [100 - i for i in range(n)]
                            where = lambda: '%d rows, batches of %d, %s at %d, in block %r: %r' % (n, size, how, at, inside, w.server.db)
                            rows = [(v,) for v in vals]
                            if how == 'bad':
                                rows[at - 1] = ('x',)
                            if how == 'dup':
                                rows.insert(at, rows[at - 1])
                            try:
                                if how in ('rows', 'bad', 'dup'):
                                    db.prepare(S.INSP).load_rows(iter(rows), chunksize=size)
                                elif how == 'query-rows':
                                    db.query.load_rows(S.INSP, rows)
                                elif how == 'chunks':
                                    db.prepare(S.INSP).load_chunks([rows[i:i + size] for i in range(0, n, size)])
                                else:
                                    lines = [b'%d\n' % v for v in vals]
                                    db.prepare(S.COPYIN).load_rows(lines, chunksize=size)
                            except X.Error as e:
                                R.check(e.code == {'bad': '--PIO', 'dup': '23505'}.get(how), 'load:error', lambda: '%r %s' % (e, where()))
                                R.check((db.pq.state == b'E') == (inside and how == 'dup'), 'load:state', where)
                            else:
                                R.check(how not in ('bad', 'dup'), 'load:silent', where)
                            got = w.server.db['mct']
                            if how in ('bad', 'dup'):
                                # whole batches before the failing one, nothing of it or after it
                                k = (at - 1) if how == 'bad' else at
                                upto = vals[:k // size * size]
                                if inside and how == 'dup':
                                    R.check(got == vals[:at], 'load:partial', where)
                                else:
                                    R.check(got == upto, 'load:partial', where)
                            else:
                                R.check(got == vals, 'load:rows', where)
                            if inside:
                                db.execute('ROLLBACK')
                            R.check([tuple(x) for x in db.query(S.SN % 2)] == [(1,), (2,)], 'load:after', where)
                            R.outcome((n, size, how, got))
                            R.state((n, size, how, inside, at))
                            R.trans(len(w.server.log))
                            db.close()


# ---------------------------------------------------------------------------
# cursors

class Index:
    "a position in a list: 0 before the first row, n + 1 after the last"

    def __init__(self, rows):
        self.rows, self.pos, self.dir = rows, 0, True

    def read(self, q, d):
        n = len(self.rows)
        if q == 0:
            return []
        d = self.dir if d is None else d == self.dir
        if q is None:
            q = n + 1
        if d:
            r = self.rows[self.pos:self.pos + q]
            self.pos = min(self.pos + q, n + 1)
        else:
            lo = max(self.pos - q, 0)
            r = self.rows[max(lo - 1, 0):max(self.pos - 1, 0)][::-1]
            if lo > 0:
                r = self.rows[lo - 1:self.pos - 1][::-1]
            self.pos = lo
        return r

    def seek(self, off, whence):
        n = len(self.rows)
        p = self.pos if self.dir else n + 1 - self.pos      # position in the order of the direction
        if off == 'ALL':
            p = n + 1 if whence != 'BACKWARD' else 0
        elif whence == 'ABSOLUTE':
            p = off
        elif whence == 'FROM_END':
            p = n + 1 - off
        elif whence in ('RELATIVE', 'FORWARD'):
            p += off
        else:
            p -= off
        p = max(0, min(p, n + 1))
        self.pos = p if self.dir else n + 1 - p


WHENCE = {'ABSOLUTE': 0, 'RELATIVE': 1, 'FROM_END': 2, 'FORWARD': 3, 'BACKWARD': 4}
CURSOR_OPS = (
    [('read', q, d) for q in (None, 0, 1, 2) for d in (None, True, False)]
    + [('next',), ('dir', True), ('dir', False)]
    + [('seek', o, 'ABSOLUTE') for o in (0, 1, 2, 9)]
    + [('seek', o, 'FROM_END') for o in (0, 1, 2, 9)]
    + [('seek', o, x) for o in (-2, -1, 0, 1, 2) for x in ('RELATIVE', 'FORWARD', 'BACKWARD')]
    + [('seek', 'ALL', x) for x in ('FORWARD', 'BACKWARD', None)]
)


def t_cursor(R, i, n):
    depth = 3
    j = 0
    for size in ((0, 3) if R.tier == 'quick' else (0, 1, 2, 3, 4)):
        rows = [(k,) for k in range(1, size + 1)]
        for seq in itertools.product(CURSOR_OPS, repeat=depth if R.tier == 'quick' or size != 3 else depth + 1):
            j += 1
            if j % n != i or seq[-1][0] == 'dir':
                continue
            if size == 0 and j % (n * 7) != i:
                continue
            if not R.case([size, seq]):
                continue
            with R.guarded('cursor', 20), wire.quiet():
                one_cursor(R, rows, seq, j)
    # by identifier, for cursors the program declared
    for seq in itertools.product(CURSOR_OPS, repeat=2):
        j += 1
        if j % n == i and R.case(['id', seq]):
            with R.guarded('cursor-id', 20), wire.quiet():
                one_cursor(R, [(1,), (2,), (3,)], seq, j, byid=True)


WORLD = {}


def one_cursor(R, rows, seq, j, byid=False):
    # one connection serves many executions: each declares its own cursor
    if 'db' not in WORLD or WORLD['n'] > 200:
        if 'db' in WORLD:
            WORLD['db'].close()
        w = wire.World()
        WORLD.update(w=w, db=wire.connect(w), n=0, ps={})
    WORLD['n'] += 1
    WORLD['w'].steps = 0
    db = WORLD['db']
    if byid:
        name = 'Cur"s%d' % WORLD['n']
        db.execute('DECLARE "%s" SCROLL CURSOR WITH HOLD FOR %s' % (name.replace('"', '""'), S.SN % len(rows)))
        c = db.cursor_from_id(name)
    else:
        ps = WORLD['ps'].get(len(rows))
        if ps is None:
            ps = WORLD['ps'][len(rows)] = db.prepare(S.SN % len(rows))
        c = ps.declare()
    ref = Index(rows)
    for step, op in enumerate(seq):
        where = lambda: 'step %d of %r on %d rows' % (step, seq, len(rows))
        if op[0] == 'read':
            d = op[2]
            name = None if d is None else d if j % 2 else {True: 'forward', False: 'BACKWARD'}[d]
            got = [tuple(r) for r in (c.read(op[1], name) if j % 3 else c.read(quantity=op[1], direction=name))]
            want = ref.read(op[1], d)
            R.check(got == want, 'cursor:read', lambda: '%s: %r, not %r' % (where(), got, want))
        elif op[0] == 'next':
            try:
                got = [tuple(next(c))]
            except StopIteration:
                got = []
            want = ref.read(1, None)
            R.check(got == want, 'cursor:next', lambda: '%s: %r, not %r' % (where(), got, want))
        elif op[0] == 'dir':
            c.direction = op[1] if j % 2 else {True: 'FORWARD', False: 'backward'}[op[1]]
            ref.dir = op[1]
            R.check(c.direction is op[1], 'cursor:direction', where)
        else:
            w = op[2]
            if w is None:
                c.seek(op[1])
            else:
                c.seek(op[1], w if j % 2 else WHENCE[w])
            ref.seek(op[1], w)
        R.trans()
    where = lambda: 'position after %r on %d rows' % (seq, len(rows))
    got = [tuple(r) for r in c.read(1, 'FORWARD')] + [tuple(r) for r in c.read(2, 'BACKWARD')]
    want = ref.read(1, True) + ref.read(2, False)
    R.check(got == want, 'cursor:position', lambda: '%s: %r, not %r' % (where(), got, want))
    R.state((len(rows), ref.pos, ref.dir))
    R.outcome((seq[-1], got))
    c.close()
    if byid:
        db.execute('CLOSE "%s"' % name.replace('"', '""')) if not c.closed else None


# ---------------------------------------------------------------------------
# several at once

KINDS = {
    'chunks': lambda db, n: chunk_items(db.prepare(S.SN % n).chunks()),
    'rows': lambda db, n: (r[0] for r in db.prepare(S.SN % n).rows()),
    'column': lambda db, n: db.prepare(S.SN % n).column(),
    'cursor': lambda db, n: (r[0] for r in db.prepare(S.SN % n).declare()),
    'id': lambda db, n: named(db, n),
    'copy': lambda db, n: (int(x) for x in db.prepare('COPY (SELECT i FROM generate_series(1, %d) AS g(i)) TO STDOUT' % n).rows()),
    'bad': lambda db, n: (r[0] for r in db.prepare('SELECT (10/(3 - i))::int4 AS i FROM generate_series(1, 5) AS g(i)').rows()),
}


def chunk_items(it):
    for c in it:
        for r in c:
            yield r[0]


def named(db, n):
    name = 's%d' % n
    if name not in db.__dict__.setdefault('_mc_names', set()):
        db.prepare(S.SN % n, statement_id=name)
        db._mc_names.add(name)
    return (r[0] for r in db.statement_from_id(name).rows())


def t_streams(R, i, n):
    """
    Two streams opened, read, dropped and interleaved with other requests and
    the ends of transactions: each gives its rows in order, and ends early
    only with an error that has a reason.
    """
    import postgresql.exceptions as X
    pairs = [('chunks', 'rows'), ('rows', 'copy'), ('column', 'id'), ('cursor', 'chunks'), ('copy', 'id'), ('bad', 'chunks'), ('rows', 'bad')]
    ops = ['a', 'b', 'q', 'f', 'end', 'x']
    depth = 5 if R.tier == 'quick' else 6
    j = 0
    for size in (1, 2):
        chunked(size)
        for pair in pairs:
            for inside in (False, True):
                for seq in itertools.product(ops, repeat=depth):
                    if seq.count('end') > 1 or seq.count('f') > 1 or seq.count('x') > 1 or (seq.count('q') > 2):
                        continue
                    if not inside and 'end' in seq:
                        continue
                    j += 1
                    if j % n != i:
                        continue
                    if not R.case([size, pair, inside, seq]):
                        continue
                    with R.guarded('streams', 20), wire.quiet():
                        one_streams(R, X, size, pair, inside, seq)


def one_streams(R, X, size, pair, inside, seq):
    w = wire.World()
    db = wire.connect(w)
    if inside:
        db.execute('BEGIN')
    N = {'a': 3, 'b': 2}
    st, got, over = {}, {'a': [], 'b': []}, {'a': None, 'b': None}
    reason = False      # something happened that may end streams with an error
    failed = False      # the block failed
    where = lambda: '%r %r chunks of %d, in block %r: %r %r\n%r' % (pair, seq, size, inside, got, over, w.server.log[-14:])

    def error(e, who):
        nonlocal reason, failed
        bad = 'bad' in pair and e.code == '22012'
        R.check(bad or reason, 'streams:error', lambda: '%s: %r %s' % (who, e, where()))
        reason = True
    for op in list(seq) + list('ababababab'):
        if op in 'ab':
            if over[op]:
                continue
            kind = pair['ab'.index(op)]
            want = list(range(1, N[op] + 1)) if kind != 'bad' else [5, 10]
            try:
                if op not in st:
                    st[op] = iter(KINDS[kind](db, N[op]))
                v = next(st[op])
            except StopIteration:
                over[op] = 'stop'
                R.check(got[op] == want and kind != 'bad', 'streams:short', where)
            except X.Error as e:
                over[op] = 'error'
                error(e, op)
            else:
                got[op].append(v)
                R.check(got[op] == want[:len(got[op])], 'streams:rows', where)
        elif op == 'q':
            try:
                r = [tuple(x) for x in db.query(S.SN % 2)]
                R.check(r == [(1,), (2,)], 'streams:query', where)
            except X.Error as e:
                error(e, op)
        elif op == 'f':
            try:
                db.query(S.ERR0)
                R.violate('streams:no-error', where())
            except X.Error as e:
                R.check(e.code == '22012' or reason, 'streams:error-code', where)
            if inside and w.server.state != 'I':
                reason = True
        elif op == 'end':
            try:
                db.execute('COMMIT')
            except X.Error as e:
                error(e, op)
            reason = True
            inside = False
        elif op == 'x':
            st.pop('a', None)
            over['a'] = 'dropped'
        R.trans()
    R.check(all(over.values()), 'streams:endless', where)
    if w.server.state != 'I':
        try:
            db.execute('ROLLBACK')
        except X.Error:
            db.execute('ROLLBACK')
    try:
        r = db.query(S.SN % 2)
    except X.Error as e:
        # what a dropped stream still had under way
        error(e, 'after')
        r = db.query(S.SN % 2)
    R.check([tuple(x) for x in r] == [(1,), (2,)], 'streams:after', where)
    R.outcome((pair, got, over))
    R.state((pair, size, got['a'], got['b'], over['a'], over['b'], inside))
    db.close()


def t_split(R):
    "the same with reads cut anywhere"
    for size in (1, 2, 4096):
        chunked(size)
        for inside in (False, True):
            for way in ('call', 'rows', 'chunks', 'column', 'id', 'copy', 'declare-read2'):
                def once(ch):
                    with R.guarded('split:' + way, 20), wire.quiet():
                        w = wire.World(ch, sched=True, fine=True)
                        w.armed = False
                        db = wire.connect(w)
                        if inside:
                            db.execute('BEGIN')
                        if way == 'id':
                            db.prepare(S.SN % 3, statement_id='m')
                            ps = db.statement_from_id('m')
                        else:
                            ps = db.prepare(S.SN % 3 if way != 'copy' else S.COPYOUT)
                        w.armed = True
                        if way in WHOLE:
                            got = [r[0] for r in WHOLE[way](ps, ())]
                        elif way == 'column':
                            got = list(ps.column())
                        elif way == 'id':
                            got = [r[0] for r in ps.rows()]
                        else:
                            got = [int(x) for x in ps.rows()]
                        R.check(got == [1, 2, 3], 'split:' + way, lambda: '%r: %r' % (ch.schedule, got))
                        w.armed = False
                        R.check([tuple(x) for x in db.query(S.SN % 2)] == [(1,), (2,)], 'split:after', repr(ch.schedule))
                        db.close()
                        R.state((way, size, inside, len(ch.trace)))
                wire.explore(R, ['split', size, inside, way], once, 1 if R.tier == 'quick' else 2)
