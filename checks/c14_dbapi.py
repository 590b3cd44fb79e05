"""
C14 - DB-API parameters reach the statement they were given for; fetch calls
return each row once; commit, rollback and close do what the DB-API promises.
"""
import itertools
import re
import time

from mc import core, pgmodel, wire
from checks.c13_quoting import lex

PROPERTY = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of query texts and of operation sequences on DB-API cursors and connections, against reference models and a model server'
RULE = 'an execution is one query text with its parameters, or one sequence of operations'
ASSUMPTIONS = [
    'the server is mc.pgmodel', 'a percent sign that is neither doubled nor a placeholder may be refused in a query with placeholders',
    'doubled percent signs of a query without placeholders may be left alone', 'comments are no quotes, unterminated quotes are not used',
    'switching autocommit on may end the transaction either way',
]


def tasks(tier):
    T = []
    n = 8
    for i in range(n):
        T.append(('convert', 'c', {'i': i, 'n': n, 'length': 4 if tier == 'quick' else 5}))
    for i in range(n):
        T.append(('fetch', 'c', {'i': i, 'n': n, 'depth': 4 if tier == 'quick' else 5}))
        T.append(('tx', 'c', {'i': i, 'n': n, 'depth': 5 if tier == 'quick' else 7}))
    T += [('convert', 'py', {'i': 0, 'n': 1, 'length': 2}), ('fetch', 'py', {'i': 0, 'n': 1, 'depth': 2}), ('tx', 'py', {'i': 0, 'n': 1, 'depth': 4})]
    for v in ('c', 'py'):
        T += [('two', v, {}), ('many', v, {}), ('misc', v, {})]
    T.append(('ticks', 'c', {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def chunked(n):
    from postgresql.driver import pq3
    for c in vars(pq3).values():
        if isinstance(c, type) and 'chunksize' in vars(c):
            c.chunksize = n


def dbapi(world=None):
    from postgresql.driver import dbapi20
    w = world or wire.World()
    return w, wire.connect(w, connection=dbapi20.Connection)


# ---------------------------------------------------------------------------
# placeholders

TOKENS = ['%s', '%(a)s', '%(b)s', '%%', 's', ' ', "'", '"', '$$', "E'", '(a)s', '\\', '%(a b)s']


def pieces(t):
    """
    What a query means: text and placeholders in order. None if it is not
    claimed, 'bad' if a placeholder is malformed.
    """
    parts, sane = lex('ANY ' + t)
    if not sane or not all(p[5] for p in parts):
        return None
    quoted = set()
    for p in parts:
        quoted.update(range(p[1] - 4, p[2] - 4))
    out, i, odd, double = [''], 0, False, False
    while i < len(t):
        if i in quoted or t[i] != '%':
            out[-1] += t[i]
            i += 1
            continue
        if i + 1 in quoted:
            odd = True
            out[-1] += '%'
            i += 1
        elif t.startswith('%%', i):
            out[-1] += '%'
            double = True
            i += 2
        elif t.startswith('%s', i):
            out += [(None,), '']
            i += 2
        else:
            e = t.find(')s', i)
            if t.startswith('%(', i) and e > 0 and not any(x in quoted for x in range(i, e + 2)) and ')' not in t[i:e]:
                out += [(t[i + 2:e],), '']
                i = e + 2
            else:
                odd = True
                out[-1] += '%'
                i += 1
    return out, odd, double


def substituted(sql, args):
    out = ['']
    p = 0
    for m in re.finditer(r'\$(\d+)', sql):
        out[-1] += sql[p:m.start()]
        p = m.end()
        n = int(m.group(1))
        out += [('param', args[n - 1] if 0 < n <= len(args) else None), '']
    out[-1] += sql[p:]
    return out


def requests(log):
    "[(sql, arguments)] of what was bound"
    sql, out = {}, []
    for e in log:
        if e[0] == 'P':
            sql[e[1]] = e[2]
        elif e[0] == 'B':
            out.append((sql.get(e[2]), e[3]))
    return out


VALUES = {'a': 'va', 'b': 'vb', 'a b': 'vab'}


def t_convert(R, i, n, length):
    j = 0
    w, db = dbapi()
    cur = db.cursor()
    for k in range(length + 1):
        for toks in itertools.product(TOKENS, repeat=k):
            t = ''.join(toks)
            if '%' not in t:
                continue
            j += 1
            if j % n != i:
                continue
            p = pieces(t)
            if p is None or not R.case(t):
                continue
            with R.guarded('convert', 10), wire.quiet():
                if db is None or R.executions % 200 == 0:
                    w, db = dbapi()
                    cur = db.cursor()
                if not convert(R, w, cur, t, *p):
                    w, db = dbapi()
                    cur = db.cursor()


def convert(R, w, cur, t, want, odd, double):
    "-> whether the connection may be used again"
    w.steps = 0
    log = w.server.log
    del log[:]
    names = [x[0] for x in want if isinstance(x, tuple)]
    positional = names.count(None)
    keyed = sorted({x for x in names if x is not None})
    R.state((positional, len(keyed), odd, double))
    if positional and keyed:
        try:
            cur.execute('ANY ' + t, ('x',) * positional)
        except Exception:
            R.check(not requests(log), 'convert:mixed-sent', lambda: '%r was sent: %r' % (t, log))
        else:
            R.violate('convert:mixed', '%r mixes the styles and was executed' % t)
        return True
    if positional:
        vals = ['v%d' % k for k in range(positional)]
        params = tuple(vals)
        wrong = [params[1:], params + ('more',)]
        it = iter(vals)
        expect = [x if isinstance(x, str) else ('param', next(it).encode()) for x in want]
    elif keyed:
        params = {k: VALUES[k] for k in keyed}
        wrong = [{k: VALUES[k] for k in keyed[1:]}, {'zz': 'v', **{k: VALUES[k] for k in keyed[1:]}}]
        expect = [x if isinstance(x, str) else ('param', VALUES[x[0]].encode()) for x in want]
    else:
        params = ()
        wrong = [('more',)]
        expect = want
    if not odd:
        for x in wrong:
            try:
                cur.execute('ANY ' + t, x)
            except Exception:
                R.check(not requests(log), 'convert:count-sent', lambda: '%r with %r was sent: %r' % (t, x, log))
            else:
                R.violate('convert:count', '%r was executed with %r' % (t, x))
    try:
        cur.execute('ANY ' + t, params)
        got = requests(log)
        one = cur.fetchone()
        rest = cur.fetchall()
    except Exception as e:
        if not (odd and names) or requests(log):
            R.violate('convert:refused', '%r with %r raised %r' % (t, params, e))
            return False
        return True
    if not names:
        plain = ['ANY ' + t]
        if R.check(len(got) == 1, 'convert:requests', lambda: repr(log)):
            s = substituted(got[0][0], got[0][1])
            R.check(s == plain or double and s == ['ANY ' + want[0]] and not odd, 'convert:plain', lambda: '%r was sent as %r' % (t, got))
        return True
    if R.check(len(got) == 1, 'convert:requests', lambda: repr(log)):
        s = substituted(*got[0])
        e = ['ANY ' + expect[0]] + expect[1:]
        if not odd:
            R.check(s == e, 'convert:text', lambda: '%r with %r was sent as %r, expected %r' % (t, params, s, e))
        R.check(one is not None and rest == [], 'convert:rows', lambda: repr((one, rest)))
        R.outcome((len(s), odd))
    return True


# ---------------------------------------------------------------------------
# fetch calls

OPS = ['one', 'next', 'many', 'many2', 'many5', 'all', 'for2', 'for', 'size3', 'again3', 'again0', 'nextset']


def t_fetch(R, i, n, depth):
    chunked(3)
    j = 0
    w = db = None
    for auto in (False, True):
        for rows in (0, 1, 3, 4, 6, 8):
            for k in range(1, depth + 1):
                for seq in itertools.product(OPS, repeat=k):
                    if sum(o in ('again3', 'again0') for o in seq) > 2 or 'size3' in seq[-1:]:
                        continue
                    if depth == 4 and k == 4 and (auto, rows) not in ((False, 4), (True, 6), (False, 8)):
                        continue
                    j += 1
                    if j % n != i or not R.case([auto, rows, seq]):
                        continue
                    with R.guarded('fetch', 10), wire.quiet():
                        if db is None or R.executions % 40 == 0:
                            w, db = dbapi()
                        w.steps = 0
                        db.autocommit = auto
                        c = FetchRef(R, db, 'fetch:')
                        c.execute(rows)
                        for op in seq:
                            c.do(op)
                            R.trans()
                        c.finish()
                        R.state((auto, c.outline()))
                        db.autocommit = True        # ends the transaction
                        R.check(w.server.state == 'I', 'fetch:state', 'in a transaction after autocommit was set')


class FetchRef:
    "a cursor and what it has to return: the results pending, newest first"

    def __init__(self, R, db, sig):
        self.R, self.cur, self.sig = R, db.cursor(), sig
        self.sets = []
        self.array = 1
        self.base = 0

    def outline(self):
        return tuple(len(s) for s in self.sets), self.array

    def execute(self, rows):
        self.cur.execute('SELECT i::int4 AS i FROM generate_series(1, %d) AS g(i)' % rows)
        self.sets.insert(0, list(range(1, rows + 1)))
        self.R.check(self.cur.rowcount == -1 and [d[0] for d in self.cur.description] == ['i'],
                     self.sig + 'description', lambda: repr((self.cur.rowcount, self.cur.description)))

    def take(self, k):
        s = self.sets[0]
        r = s[:k]
        del s[:k]
        return r

    def do(self, op):
        c, R = self.cur, self.R
        if op == 'size3':
            c.arraysize = self.array = 3
            return
        if op in ('again3', 'again0'):
            self.execute(int(op[-1]))
            return
        if op == 'nextset':
            if self.sets:
                r = c.nextset()
                self.sets.pop(0)
                R.check(bool(r) == bool(self.sets) and (r is None) == (not self.sets), self.sig + 'nextset', lambda: '%r with %d results left' % (r, len(self.sets)))
                return
            f, want = c.nextset, None
        elif op == 'one':
            f = c.fetchone
            want = self.sets and ((self.take(1) or [None])[0],)
        elif op == 'next':
            f = lambda: next(c, None)
            want = self.sets and ((self.take(1) or [None])[0],)
        elif op == 'many':
            f = c.fetchmany
            want = self.sets and self.take(self.array)
        elif op in ('many2', 'many5'):
            f = lambda: c.fetchmany(int(op[-1]))
            want = self.sets and self.take(int(op[-1]))
        elif op == 'all':
            f = c.fetchall
            want = self.sets and self.take(10 ** 6)
        elif op == 'for2':
            f = lambda: list(itertools.islice(c, 2))
            want = self.sets and self.take(2)
        else:
            f = lambda: list(c)
            want = self.sets and self.take(10 ** 6)
        if not self.sets:
            try:
                r = f()
            except c.database.Error:
                return
            R.violate(self.sig + 'no-result', '%s without a result returned %r' % (op, r))
            return
        r = f()
        if op in ('one', 'next'):
            got = (None if r is None else r[0],)
        else:
            got = [x[0] for x in r]
        R.check(got == want, self.sig + op, lambda: '%s returned %r instead of %r' % (op, got, want))

    def finish(self):
        while self.sets:
            self.do('all')
            self.do('nextset')


def t_two(R):
    "two cursors of a connection do not disturb each other"
    chunked(2)
    w = db = None
    for auto in (False, True):
        for rows in itertools.product((0, 2, 3, 5), repeat=2):
            for seq in itertools.product(['0one', '1one', '0many2', '1many2', '0all', '1for2', '0again3'], repeat=3 if R.tier == 'quick' else 4):
                if not R.case([auto, rows, seq]):
                    continue
                with R.guarded('two', 10), wire.quiet():
                    if db is None or R.executions % 40 == 0:
                        w, db = dbapi()
                    w.steps = 0
                    db.autocommit = auto
                    cs = [FetchRef(R, db, 'two:') for k in rows]
                    for c, k in zip(cs, rows):
                        c.execute(k)
                    for op in seq:
                        cs[int(op[0])].do(op[1:])
                        R.trans()
                    for c in cs:
                        c.finish()
                    R.state((auto, rows))
                    db.autocommit = True


# ---------------------------------------------------------------------------
# transactions

TX = ['ins', 'dup', 'def', 'commit', 'rollback', 'auto1', 'auto0', 'rows', 'close']


def plans(depth):
    def go(seq, closed):
        if seq:
            yield seq
        if len(seq) == depth or closed and len(seq) - closed >= 2:
            return
        for op in TX:
            if op in ('commit', 'rollback', 'rows') and not seq:
                continue
            if seq and seq[-1] == op and op != 'ins' and not closed:
                continue
            if op == 'def' and 'def' in seq:
                continue
            if op == 'rows' and seq.count('rows') > 1:
                continue
            yield from go(seq + (op,), closed or (len(seq) + 1 if op == 'close' else 0))
    # only sequences that cannot be continued, the others are their prefixes
    for seq in go((), 0):
        if len(seq) == depth or 'close' in seq and len(seq) - seq.index('close') > 2:
            yield seq


def t_tx(R, i, n, depth):
    from postgresql.driver import dbapi20
    for j, seq in enumerate(plans(depth)):
        if j % n != i or not R.case(seq):
            continue
        with R.guarded('tx', 20), wire.quiet():
            tx(R, dbapi20, seq)


def committed(srv):
    d = srv.db if srv.base is None else srv.base
    return sorted(d['mct']), sorted(d['mcd'])


PLACE = []


def tx(R, dbapi20, seq):
    if not PLACE or 'close' in seq or R.executions % 40 == 0:
        PLACE[:] = [dbapi()]
    w, db = PLACE[0]
    if 'close' in seq:
        del PLACE[:]
    w.steps = 0
    srv = w.server
    db.autocommit = True
    srv.db['mct'], srv.db['mcd'] = [0], []
    db.autocommit = False
    cur = db.cursor()
    auto, failed, closed, bad = False, False, False, False
    done = ([0], [])            # committed
    now = ([0], [])             # what the session sees
    fresh = 0
    for k, op in enumerate(seq):
        R.trans()
        R.state((auto, failed, closed, bad, len(done[0]), len(now[0]), op))
        before = (auto, failed, closed, bad, done, now)
        out = err = None
        try:
            if op == 'ins':
                fresh += 1
                cur.execute('INSERT INTO mct VALUES (%s)', (fresh,))
                out = cur.rowcount
            elif op == 'dup':
                cur.execute('INSERT INTO mct VALUES (%(k)s)', {'k': 0})
            elif op == 'def':
                cur.executemany('INSERT INTO mcd VALUES (%s)', [(7,), (7,)])
            elif op == 'rows':
                cur.execute('SELECT k FROM mct ORDER BY k')
                out = [r[0] for r in cur.fetchall()]
            elif op == 'auto1':
                db.autocommit = True
            elif op == 'auto0':
                db.autocommit = False
            elif op == 'commit':
                db.commit()
            elif op == 'rollback':
                db.rollback()
            else:
                db.close()
        except dbapi20.Error as e:
            err = e
        where = 'after %r: ' % (seq[:k + 1],)

        def must(raises, sig):
            R.check((err is not None) == raises, 'tx:%s:%s' % (op, sig), lambda: where + ('no error' if raises else 'raised %r' % err))

        if closed:
            if op not in ('auto0', 'auto1'):
                must(True, 'closed')
        elif op in ('ins', 'dup', 'def', 'rows'):
            if failed:
                must(True, 'failed')
            elif op == 'ins':
                must(False, 'plain')
                R.check(out == 1, 'tx:rowcount', lambda: where + repr(out))
                now = (now[0] + [fresh], now[1])
                if auto:
                    done = now
            elif op == 'dup':
                must(True, 'error')
                if not auto:
                    failed = True
            elif op == 'def':
                # all rows are loaded by one request
                must(auto, 'deferred')
                if not auto:
                    now = (now[0], now[1] + [7, 7])
                    bad = True
            else:
                must(False, 'plain')
                R.check(out == now[0], 'tx:rows', lambda: where + 'saw %r instead of %r' % (out, now[0]))
        elif op == 'commit':
            if auto:
                must(True, 'autocommit')
            elif failed:
                now, failed, bad = done, False, False
            else:
                must(bad, 'bad' if bad else 'plain')
                if bad:
                    now = done
                done, bad = now, False
        elif op == 'rollback':
            must(auto, 'autocommit' if auto else 'plain')
            if not auto:
                now, failed, bad = done, False, False
        elif op == 'auto1':
            if not auto:
                got = committed(srv)
                if not bad and not failed and got == now:
                    done = now
                now = done
                auto, failed, bad = True, False, False
            must(False, 'plain')
        elif op == 'auto0':
            must(False, 'plain')
            auto = False
        elif op == 'close':
            must(False, 'plain')
            closed = True
        R.outcome((op, before[:4], err is not None))
        R.check(committed(srv) == done, 'tx:committed', lambda: where + 'committed %r, expected %r' % (committed(srv), done))
        R.check(srv.breach is None, 'tx:protocol', lambda: where + str(srv.breach))
        if not closed:
            R.check(db.autocommit == auto, 'tx:autocommit', lambda: where + repr(db.autocommit))
            want = 'I' if auto else ('E' if failed else 'T')
            R.check(srv.state == want, 'tx:state', lambda: where + 'the server is in state %s instead of %s' % (srv.state, want))
    if not closed:
        db.autocommit = True


# ---------------------------------------------------------------------------

def t_many(R):
    "executemany: every row is given to the statement, in order"
    sets = [
        ('ANY %s %s', [('a', 'b'), ('c', 'd'), ('e', 'f')], None),
        ('ANY %(x)s %(y)s', [{'x': 'a', 'y': 'b'}, {'y': 'd', 'x': 'c'}, {'x': 'e', 'y': 'f'}], ['x', 'y']),
        ('ANY %(y)s %(x)s %(y)s', [{'x': 'a', 'y': 'b'}, {'y': 'd', 'x': 'c'}], ['y', 'x']),
        ("ANY '%s' %s %% %s", [('a', 'b'), (None, 'd')], None),
        ('ANY %s', [('v%d' % k,) for k in range(520)], None),
    ]
    for si, (sql, rows, keys) in enumerate(sets):
        for count in sorted({0, 1, 2, len(rows), 256, 257, 512, 513} & set(range(len(rows) + 1))):
            for auto in (False, True):
                for it in (list, iter, tuple):
                    if not R.case([si, count, auto, it.__name__]):
                        continue
                    with R.guarded('many', 20), wire.quiet():
                        w, db = dbapi()
                        db.autocommit = auto
                        cur = db.cursor()
                        del w.server.log[:]
                        r = cur.executemany(sql, it(rows[:count]))
                        R.check(cur.rowcount == -1, 'many:rowcount', lambda: repr(cur.rowcount))
                        got = requests(w.server.log)
                        want = [tuple(None if x is None else x.encode() for x in ([r[k] for k in keys] if keys else r)) for r in rows[:count]]
                        # with its keys the order of the parameters is free
                        if keys:
                            first = {}
                            texts = [re.findall(r'%\((\w+)\)s', sql)]
                            sub = [[x[1] for x in substituted(*g) if isinstance(x, tuple)] for g in got]
                            want = [[row[k].encode() for k in texts[0]] for row in rows[:count]]
                            R.check(sub == want, 'many:rows', lambda: '%r instead of %r' % (sub, want))
                        else:
                            R.check([g[1] for g in got] == want, 'many:rows', lambda: '%r instead of %r' % (got, want))
                            texts = {g[0] for g in got}
                            R.check(texts <= {re.sub(r'%%', '%', sql.replace("'%s'", "'\0'").replace('%s', '$1', 1).replace('%s', '$2', 1)).replace('\0', '%s')},
                                    'many:text', lambda: repr(texts))
                        R.state((si, count, auto))
                        R.trans(count)


def t_misc(R):
    from postgresql import types as T
    from postgresql.driver import dbapi20 as D
    # descriptions
    codes = {T.TEXTOID: D.STRING, T.VARCHAROID: D.STRING, T.NAMEOID: D.STRING, T.CHAROID: D.STRING, T.CSTRINGOID: D.STRING,
             T.BYTEAOID: D.BINARY, T.INT2OID: D.NUMBER, T.INT4OID: D.NUMBER, T.INT8OID: D.NUMBER,
             T.TIMESTAMPOID: D.DATETIME, T.TIMESTAMPTZOID: D.DATETIME, T.OIDOID: D.ROWID}
    for oids in itertools.product(sorted(codes), repeat=2):
        if not R.case(['description', oids]):
            continue
        with R.guarded('description', 10), wire.quiet():
            if R.executions % 40 == 1:
                w, db = dbapi()
            w.steps = 0
            cur = db.cursor()
            cur.execute('NULLS %d,%d' % oids)
            d = cur.description
            R.check(d is not None and len(d) == 2 and all(len(x) == 7 for x in d), 'description:shape', lambda: repr(d))
            R.check([x[0] for x in d] == ['c0', 'c1'] and [x[1] for x in d] == [codes[o] for o in oids], 'description:columns', lambda: '%r for %r' % (d, oids))
            R.state(oids)
    # procedures
    for n in range(6):
        for style in (tuple, list):
            if not R.case(['callproc', n, style.__name__]):
                continue
            with R.guarded('callproc', 10), wire.quiet():
                w, db = dbapi()
                cur = db.cursor()
                del w.server.log[:]
                args = style('v%d' % k for k in range(n))
                r = cur.callproc('anyproc', args)
                R.check(r == args, 'callproc:result', lambda: repr(r))
                got = requests(w.server.log)
                want = ['SELECT anyproc(']
                for k in range(n):
                    want += [('param', b'v%d' % k), ',']
                want[-1] = ')' if n else want[-1] + ')'
                s = [substituted(*g) for g in got]
                R.check(s == [want], 'callproc:call', lambda: '%r instead of %r' % (s, want))
                rows = cur.fetchall()
                R.check(len(rows) == 1 and cur.fetchone() is None, 'callproc:rows', lambda: repr(rows))
                R.state(n)
    # what a closed cursor, and a cursor of a closed connection, refuses
    calls = {
        'execute': lambda c: c.execute('SELECT 1 AS i'), 'executemany': lambda c: c.executemany('INSERT INTO mct VALUES (%s)', [(1,)]),
        'fetchone': lambda c: c.fetchone(), 'fetchmany': lambda c: c.fetchmany(), 'fetchmany3': lambda c: c.fetchmany(3), 'fetchall': lambda c: c.fetchall(),
        'next': lambda c: next(c), 'nextset': lambda c: c.nextset(), 'callproc': lambda c: c.callproc('anyproc', ()), 'close': lambda c: c.close(),
        'setinputsizes': lambda c: c.setinputsizes([1]), 'setoutputsize': lambda c: c.setoutputsize(1),
    }
    for before in ('new', 'selected', 'inserted', 'read'):
        for how in ('cursor', 'connection', 'unused'):
            for call in sorted(calls):
                if not R.case(['closed', before, how, call]):
                    continue
                with R.guarded('closed', 10), wire.quiet():
                    w, db = dbapi()
                    cur, other = db.cursor(), db.cursor()
                    other.execute('SELECT i::int4 AS i FROM generate_series(1, 5) AS g(i)')
                    if before in ('selected', 'read'):
                        cur.execute('SELECT i::int4 AS i FROM generate_series(1, 5) AS g(i)')
                        if before == 'read':
                            cur.fetchmany(2)
                    elif before == 'inserted':
                        cur.execute('INSERT INTO mct VALUES (%s)', (9,))
                    if how == 'cursor':
                        cur.close()
                        must = True
                    elif how == 'connection':
                        db.close()
                        must = call in ('execute', 'executemany', 'callproc')
                    else:
                        must = call in ('fetchone', 'fetchmany', 'fetchmany3', 'fetchall', 'next', 'nextset')
                        if before in ('selected', 'read'):
                            must = False
                    try:
                        r = calls[call](cur)
                    except db.Error as e:
                        R.check(must or how != 'unused', 'closed:raised', lambda: '%s of a %s cursor raised %r' % (call, before, e))
                    else:
                        R.check(not must, 'closed:accepted', lambda: '%s of a %s cursor, %s closed, returned %r' % (call, before, how, r))
                    if how != 'connection':
                        rows = [x[0] for x in other.fetchall()]
                        R.check(rows == [1, 2, 3, 4, 5], 'closed:other', lambda: 'the other cursor returned %r' % (rows,))
                    R.state((before, how, call))
    # counts
    for k in range(5):
        if not R.case(['rowcount', k]):
            continue
        with R.guarded('rowcount', 10), wire.quiet():
            w, db = dbapi()
            cur = db.cursor()
            for x in range(k):
                cur.execute('INSERT INTO mct VALUES (%s)', (x,))
                R.check(cur.rowcount == 1 and cur.description is None, 'rowcount:insert', lambda: repr((cur.rowcount, cur.description)))
            cur.execute('INSERT INTO mct VALUES (%s) RETURNING k', (99,))
            R.check(cur.fetchall() == [(99,)], 'rowcount:returning', 'the row inserted was not returned')
            cur.execute('DELETE FROM mct')
            R.check(cur.rowcount == k + 1, 'rowcount:delete', lambda: '%r of %d' % (cur.rowcount, k + 1))


def t_ticks(R):
    from postgresql.driver import dbapi20 as D
    base = [0, 86399, 951782400, 1234567890, 1700000000]
    for b in base:
        for k in range(0, 8 * 86400, 10799):
            x = b + k
            if not R.case(x):
                continue
            with R.guarded('ticks', 5):
                l = time.localtime(x)
                d, t, s = D.DateFromTicks(x), D.TimeFromTicks(x), D.TimestampFromTicks(x)
                R.check((d.year, d.month, d.day) == l[:3], 'ticks:date', lambda: '%r for %r' % (d, x))
                R.check((t.hour, t.minute, t.second, t.microsecond) == l[3:6] + (0,), 'ticks:time', lambda: '%r for %r' % (t, x))
                R.check((s.year, s.month, s.day, s.hour, s.minute, s.second, s.microsecond) == l[:6] + (0,), 'ticks:timestamp', lambda: '%r for %r' % (s, x))
                R.state(l[6])
    for y in (1, 1999, 2024, 9999):
        for r in ((1, 2), (12, 31), (2, 28)):
            if R.case(['date', y, r]):
                d = D.Date(y, *r)
                R.check((d.year, d.month, d.day) == (y,) + r, 'ctor:date', lambda: repr(d))
                for tm in ((0, 0, 0), (1, 2, 3), (23, 59, 59)):
                    s, t = D.Timestamp(y, *r, *tm), D.Time(*tm)
                    R.check((s.year, s.month, s.day, s.hour, s.minute, s.second) == (y,) + r + tm, 'ctor:timestamp', lambda: repr(s))
                    R.check((t.hour, t.minute, t.second) == tm, 'ctor:time', lambda: repr(t))
    for v in (b'', b'a\0\xff', bytearray(b'xy')):
        if R.case(['binary', bytes(v)]):
            R.check(D.Binary(v) == bytes(v), 'ctor:binary', lambda: repr(D.Binary(v)))
