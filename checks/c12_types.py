"""
C12 - values survive the binary transfer formats: the boundary values of every
type, all arrays and rows of them to a bound, sent as parameters of and read
from real statements on a model server that knows the formats independently
(mc.pgtypes, compared with what a real server sent in golden/types.json).
"""
import itertools
import json
import os

from mc import core, pgmodel, pgtypes, wire

PROPERTY = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of boundary values, shapes and column combinations against an independent model of the binary formats that is compared with recorded bytes of a real server'
RULE = 'an execution is one batch of values, one array or row, or one combination of columns sent and read back'
ASSUMPTIONS = ['the reference formats are those of mc.pgtypes; golden/types.json, recorded from PostgreSQL 16, is compared with them in every run',
               'the server is mc.pgmodel']
Raw = pgmodel.Raw
WIDTH = 64
UNCONVERTED = {790: 'money', 2206: 'regtype', 602: 'path', 3220: 'pg_lsn', 3614: 'tsvector', 3904: 'int4range', 33: None, 70001: 'mood', 5069: 'xid8'}
HSTORE = 90100


def types():
    return {t.name: t for t in pgtypes.catalogue() + [pgtypes.Hstore()]}


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for n in ('int2', 'numeric', 'float8'):
            T += [('scalar', v, {'types': [n]})]
        rest = [n for n in types_names() if n not in ('int2', 'numeric', 'float8')]
        k = 6
        for i in range(k):
            T.append(('scalar', v, {'types': rest[i::k]}))
        T.append(('arrays', v, {}))
        T.append(('rows', v, {}))
        for i in range(3):
            T.append(('wire', v, {'i': i, 'n': 3}))
        T.append(('legacy', v, {}))
        T.append(('encodings', v, {}))
        T.append(('xml', v, {}))
        T.append(('nested', v, {}))
    T.append(('golden', 'c', {}))
    return T


def types_names():
    return ['bool', 'int2', 'int4', 'int8', 'oid', 'xid', 'cid', 'tid', 'float4', 'float8', 'text', 'varchar', 'json', 'jsonb', 'bytea', '"char"', 'varbit', 'bit', 'macaddr', 'inet', 'cidr',
            'point', 'lseg', 'box', 'circle', 'numeric', 'date', 'time', 'timetz', 'timestamp', 'timestamptz', 'interval', 'uuid', 'hstore']


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Link:
    "a connection and statements that return their parameters"

    def __init__(self, setup=None, **kw):
        self.w = wire.World()
        self.db = wire.connect(self.w, **kw)
        self.srv = self.w.server
        self.stmts = {}
        self.args = None
        self.srv.types.update((o, ('pg_catalog', n, 'b', -1, 0, 0, None, True, True)) for o, n in UNCONVERTED.items() if n)
        self.srv.types[HSTORE] = ('public', 'hstore', 'b', -1, 0, 0, None, True, True)
        self.srv.regtypes['hstore'] = HSTORE
        self.srv.textlike |= {114}
        if setup:
            setup(self.srv)
        self.db.typio.identify(contrib_hstore='hstore')

    def array(self, t, oid=None):
        oid = oid or t.array
        self.srv.types[oid] = ('pg_catalog', '_' + t.name, 'b', -1, t.oid, 0, t.oid, True, True)
        return oid

    def prepare(self, oids):
        k = tuple(oids)
        if k not in self.stmts:
            self.stmts[k] = self.db.prepare('ECHO ' + ','.join(map(str, k)))
        return self.stmts[k]

    def ask(self, oids, vals, answer):
        "-> (what the server received, what first() returned)"
        ps = self.prepare(oids)
        self.args = None

        def on_echo(args):
            self.args = args
            return answer if answer is not None else args
        self.srv.on_echo = on_echo
        r = ps.first(*vals)
        return self.args, r

    def close(self):
        self.db.close()


def rep(v):
    "without evaluating a failing repr"
    try:
        r = repr(v)
    except Exception as e:
        r = '<%s: repr fails: %r>' % (type(v).__name__, e)
    return r if len(r) < 160 else r[:150] + '...'


def agree(R, t, sig, v, raw, got):
    "the bytes received stand for v and so does the value returned"
    what = lambda *x: '%s %s: %s' % (t.name, rep(v), ' '.join(map(str, x)))
    want = t.canon(v)
    if not isinstance(raw, Raw):
        R.violate(sig + ':not-sent', what('received', rep(raw)))
        return
    if not R.check(raw.fmt == 1 or t.text, sig + ':format', lambda: what('sent in text format', bytes(raw))):
        return
    try:
        x = t.recv(bytes(raw))
    except pgtypes.Refused as e:
        R.violate(sig + ':refused', what('sent as', bytes(raw)[:80].hex(), 'which the server refuses:', e))
        return
    R.check(t.canon(x) == want, sig + ':stored', lambda: what('sent as', bytes(raw)[:80].hex(), 'the server stores', rep(x)))
    R.check(t.canon(got) == want, sig + ':read', lambda: what('read as', rep(got), 'from', t.send(v)[:80].hex()))


def batches(it, n=WIDTH):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b


def t_scalar(R, types):
    X = __import__('postgresql.exceptions', fromlist=['x'])
    with core_quiet(R, 'scalar:connect', 10):
        L = Link()
    cat = globals()['types']()
    for name in types:
        scalar(R, X, L, cat[name])


class core_quiet:
    def __init__(self, R, sig, secs):
        self.g, self.q = R.guarded(sig, secs), wire.quiet()

    def __enter__(self):
        self.g.__enter__()
        self.q.__enter__()

    def __exit__(self, *a):
        self.q.__exit__(*a)
        return self.g.__exit__(*a)


def scalar(R, X, L, t, tag='scalar'):
    sig = '%s:%s' % (tag, t.name)
    for n, b in enumerate(batches((v, v) for v in t.values(R.tier))):
        batch(R, L, t, sig, n, b)
    for n, b in enumerate(batches(t.inputs(R.tier))):
        batch(R, L, t, sig + ':input', n, b)
    if isinstance(t, pgtypes.Interval):
        for n, (data, v) in enumerate(t.others()):
            if R.case([t.name, 'other', n]):
                with core_quiet(R, sig, 10):
                    _, got = L.ask([t.oid], [v], [Raw.of(data)])
                    R.check(t.canon(got) == t.canon(v), sig + ':read', lambda: '%s read from %s as %s' % (rep(v), data.hex(), rep(got)))
                    R.trans()
    good = answer(t, next(iter(t.values(R.tier))))
    for n, x in enumerate(t.refused(R.tier)):
        if hasattr(t, 'refused_filter') and not t.refused_filter(x):
            continue
        if R.case([t.name, 'refuse', n]):
            refuse(R, X, L, t, sig, x, good)
    for n, data in enumerate(t.unreadable):
        if not R.case([t.name, 'unreadable', n]):
            continue
        with core_quiet(R, sig + ':unreadable', 10):
            try:
                _, got = L.ask([t.oid], [good[0]], [Raw.of(data)])
            except X.ColumnError as e:
                R.check('c0' in str(e), sig + ':unreadable:name', lambda: '%s: the error does not name the column: %s' % (data.hex(), e))
            else:
                R.violate(sig + ':unreadable', '%s %s is read as %s' % (t.name, data.hex(), rep(got)))
            still(R, L, t, sig, good)
            R.trans()


def batch(R, L, t, sig, n, b):
    if not R.case([sig, n]):
        return
    k = len(b)
    while len(b) < WIDTH:
        b.append(b[0])
    with core_quiet(R, sig, 30):
        try:
            args, row = L.ask([t.oid] * WIDTH, [x for x, v in b], [Raw.of(t.send(v), 1, t.text) for x, v in b])
        except Exception:
            args = row = None
        if args is not None and len(args) == len(row) == WIDTH:
            for (x, v), a, g in zip(b[:k], args, row):
                agree(R, t, sig, v, a, g)
        else:
            # one at a time
            for x, v in b[:k]:
                try:
                    args, g = L.ask([t.oid], [x], [Raw.of(t.send(v), 1, t.text)])
                except Exception as e:
                    R.violate(sig + ':raises', '%s %s: %s: %s' % (t.name, rep(x), type(e).__name__, first_line(e)))
                    continue
                agree(R, t, sig, v, args[0], g)
        R.trans(k)
        R.state((sig, n))


def first_line(e):
    try:
        return str(e).split('\n')[0][:200] + (' from %s: %s' % (type(e.__cause__).__name__, e.__cause__) if e.__cause__ else '')
    except Exception as x:
        return repr(x)


def refuse(R, X, L, t, sig, x, good):
    "good: (a parameter that is fine, what the server answers)"
    with core_quiet(R, sig + ':refuse', 10):
        try:
            args, _ = L.ask([t.oid], [x], [good[1]])
        except X.ParameterError as e:
            R.check('$1' in str(e), sig + ':refuse:name', lambda: '%s: the error does not name the parameter: %s' % (rep(x), e))
            R.outcome('refused')
        except Exception as e:
            R.violate(sig + ':refuse:error', '%s %s: %s: %s' % (t.name, rep(x), type(e).__name__, first_line(e)))
        else:
            try:
                v = t.recv(bytes(args[0])) if args[0] is not None else None
            except pgtypes.Refused:
                R.outcome('refused by the server')
            else:
                if not any(x is y or x == y for y in getattr(t, 'lenient', ())):
                    R.violate(sig + ':accepted', '%s %s is stored as %s' % (t.name, rep(x), rep(v)))
        still(R, L, t, sig, good)
        R.trans()


def still(R, L, t, sig, good):
    "the connection is still good for something"
    try:
        args, _ = L.ask([t.oid], [good[0]], [good[1]])
        R.check(args is not None, sig + ':unusable', lambda: 'the statement did not run again')
    except Exception as e:
        R.violate(sig + ':unusable', 'after a refusal: %s: %s' % (type(e).__name__, first_line(e)))


def answer(t, v, python=None):
    return (v if python is None else python), Raw.of(t.send(v), 1, t.text)


# -- the reference and the real server -----------------------------------
def t_golden(R):
    g = json.load(open(os.path.join(core.VERIF, 'golden', 'types.json')))
    for t in types().values():
        rec = g[t.name]
        n = 0
        for v in itertools.chain(t.values('quick'), (x for _, x in t.inputs('quick'))):
            lit = t.literal(v)
            if lit not in rec:
                continue
            n += 1
            R.check(t.send(v).hex() == rec[lit], 'golden:' + t.name, lambda: '%s: model %s server %s' % (lit, t.send(v).hex(), rec[lit]))
            R.check(t.canon(t.recv(bytes.fromhex(rec[lit]))) == t.canon(v), 'golden:' + t.name, lambda: '%s: server value read as %s' % (lit, rep(t.recv(bytes.fromhex(rec[lit])))))
        if R.case([t.name]):
            R.check(n >= min(len(rec), 2), 'golden:' + t.name, lambda: 'only %d of %d recorded values compared' % (n, len(rec)))
            R.note('values compared with a real server', n)


# -- arrays --------------------------------------------------------------
def nest(dims, elems):
    if not dims:
        return []
    if len(dims) == 1:
        return list(elems)
    k = len(elems) // dims[0]
    return [nest(dims[1:], elems[i * k:(i + 1) * k]) for i in range(dims[0])]


def shapes(tier):
    top = 3 if tier == 'quick' else 4
    yield ()
    for n in (1, 2, 3):
        yield from itertools.product(range(1, (top if n < 3 else 2) + 1), repeat=n)
    yield (1, 2, 1, 2)
    yield (2, 1, 1, 2, 1)
    yield (1, 1, 2, 1, 1, 2)
    yield (40,)
    yield (300,)


def bounds(dims, tier):
    n = len(dims)
    yield (1,) * n
    if n and n <= 3:
        for c in itertools.product((0, -3, 5), repeat=n):
            yield c
        yield (2 ** 31 - 1 - dims[0],) + (1,) * (n - 1)
        yield (-2 ** 31,) * n


def nulls(n):
    if n <= 4:
        yield from itertools.product((False, True), repeat=n)
    else:
        yield (False,) * n
        yield (True,) * n
        for i in (0, 1, n // 2, n - 1):
            yield tuple(j == i for j in range(n))
            yield tuple(j != i for j in range(n))


class ArrayOf:
    "the array type of a type"

    def __init__(self, t, oid=None):
        self.t, self.oid, self.name = t, oid or t.array, t.name + '[]'

    def send(self, v):
        dims, lowers, elems = v
        return pgtypes.send_array(self.t.oid, dims, lowers, [None if e is None else self.t.send(e) for e in elems])

    def recv(self, b):
        dims, lowers, elems = pgtypes.recv_array(b, self.t.oid)
        return dims, lowers, [None if e is None else self.t.recv(e) for e in elems]

    def canon(self, v):
        if not isinstance(v, tuple):
            v = (v.dimensions, v.lowerbounds, list(v.elements()))
        dims, lowers, elems = v
        return tuple(dims), tuple(lowers), tuple(None if e is None else self.t.canon(e) for e in elems)

    def python(self, v):
        from postgresql.types import Array
        dims, lowers, elems = v
        return Array.from_elements(list(elems), lowerbounds=lowers, upperbounds=[l + d - 1 for l, d in zip(lowers, dims)])

    text = False


def t_arrays(R):
    X = __import__('postgresql.exceptions', fromlist=['x'])
    from postgresql.types import Array
    cat = types()
    with core_quiet(R, 'arrays:connect', 10):
        L = Link()
    for name, t in cat.items():
        a = ArrayOf(t, t.array or 90101)
        sig = 'array:' + name
        L.array(t, a.oid)
        pool = pick(t, 12)
        full = name in ('int4', 'text', 'numeric', 'timestamptz', 'varbit', 'bool', 'bytea', 'hstore', 'point')
        cases = []
        for dims in shapes(R.tier) if full else [(), (1,), (3,), (2, 2)]:
            n = 1 if dims else 0
            for d in dims:
                n *= d
            for lowers in bounds(dims, R.tier) if name == 'int4' or len(dims) < 2 else [(1,) * len(dims)]:
                for nl in nulls(n) if lowers == (1,) * len(dims) else [(False,) * n]:
                    cases.append((dims, lowers, [None if x else pool[i % len(pool)] for i, x in enumerate(nl)]))
        good = answer(a, ((2,), (1,), [pool[0], None]), [pool[0], None])
        for k, b in enumerate(batches(cases, 16)):
            if not R.case([a.name, k]):
                continue
            with core_quiet(R, sig, 20):
                for v in b:
                    obj = nest(v[0], v[2]) if all(x == 1 for x in v[1]) else a.python(v)
                    try:
                        args, got = L.ask([a.oid], [obj], [Raw.of(a.send(v))])
                    except Exception as e:
                        R.violate(sig + ':raises', '%s %s: %s: %s' % (a.name, rep(v), type(e).__name__, first_line(e)))
                        continue
                    agree(R, a, sig, v, args[0], got)
                    R.check(type(got) is Array and got.nest() == nest(v[0], v[2]) or t.name in ('float4', 'float8', 'bit', 'varbit', 'box'), sig + ':nest', lambda: '%s: %s nested as %s' % (a.name, rep(v), rep(got.nest())))
                    R.trans()
                    R.state((sig, v[0], v[1], tuple(e is None for e in v[2])))
        p = pool[0]
        bad = [[[p], [p, p]], [[p, p], [p]], [[p], p], [p, [p]], [[p], [[p]]], [[[p]], [p]], [[]], [[p], []], [[], [p]], [[p], None], [None, [p]], [[[[[[[p]]]]]]], 5, object, [[p], (p,)] if name not in ('hstore', 'tid', 'point') else 5]
        for n, x in enumerate(bad):
            if R.case([a.name, 'refuse', n]):
                refuse(R, X, L, a, sig, x, good)
        for n, x in enumerate(t.refused(R.tier)):
            if hasattr(t, 'refused_filter') and not t.refused_filter(x) or x is None or type(x) is list:
                continue
            for m, y in enumerate(([x], [p, x], [x, p], [None, x], [[p], [x]])):
                if R.case([a.name, 'element', n, m]):
                    if any(x is z or x == z for z in getattr(t, 'lenient', ())):
                        continue
                    refuse(R, X, L, a, sig, y, good)
        for n, data in enumerate(t.unreadable):
            if not R.case([a.name, 'unreadable', n]):
                continue
            with core_quiet(R, sig + ':unreadable', 10):
                try:
                    _, got = L.ask([a.oid], [good[0]], [Raw.of(pgtypes.send_array(t.oid, (2,), (1,), [None, data]))])
                except X.ColumnError as e:
                    R.check('c0' in str(e), sig + ':unreadable:name', lambda: 'the error does not name the column: %s' % e)
                else:
                    R.violate(sig + ':unreadable', '%s is read as %s' % (data.hex(), rep(got)))
                still(R, L, a, sig, good)


def pick(t, n):
    "n values of a type, spread over what it has"
    v = list(itertools.islice(t.values('quick'), 0, 4000))
    v = [x for x in v if len(t.send(x)) < 200]
    step = max(1, len(v) // n)
    return v[::step][:n]


# -- rows ----------------------------------------------------------------
class RecordOf:
    text = False

    def __init__(self, name, oid, names, attrs, oids=None):
        "oids: the types of the attributes as declared (domains)"
        self.name, self.oid, self.names, self.attrs = name, oid, names, attrs
        self.oids = oids or [t.oid for t in attrs]

    def send(self, v):
        return pgtypes.send_record([(o, None if x is None else t.send(x)) for o, t, x in zip(self.oids, self.attrs, v)])

    def recv(self, b):
        return tuple(None if x is None else t.recv(x) for t, x in zip(self.attrs, pgtypes.recv_record(b, self.oids)))

    def canon(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.attrs):
            return ('not a row', type(v), rep(v))
        return tuple(None if x is None else t.canon(x) for t, x in zip(self.attrs, v))


DOMAIN = 80050


def catalog(srv, cat):
    "composite types of the model's database"
    pair = RecordOf('pair', 80001, ['i', 't'], [cat['int4'], cat['text']])
    deep = RecordOf('deep', 80002, ['p', 'a', 'd', 'n', 'b'], [pair, ArrayOf(cat['int4']), cat['numeric'], cat['timestamptz'], cat['varbit']], [80001, 1007, DOMAIN, 1184, 1562])
    one = RecordOf('One "x"', 80003, ['Col umn'], [cat['bool']])
    none = RecordOf('none', 80004, [], [])
    recs = [pair, deep, one, none]
    for r in recs:
        srv.types[r.oid] = ('public', r.name, 'c', -1, 0, r.oid + 1000, None, True, True)
        srv.composites[r.oid + 1000] = [(o, n, o == DOMAIN) for o, n in zip(r.oids, r.names)]
    srv.types[DOMAIN] = ('public', 'dom', 'd', -1, 0, 0, None, True, True)
    srv.basetypes[DOMAIN] = 1700
    for e, o, n in ((pair.oid, 80011, '_pair'), (deep.oid, 80012, '_deep'), (cat['int4'].oid, 1007, '_int4')):
        srv.types[o] = ('public', n, 'b', -1, e, 0, e, True, True)
    srv.types[2249] = ('pg_catalog', 'record', 'p', -1, 0, 0, None, False, True)
    return recs


def t_rows(R):
    X = __import__('postgresql.exceptions', fromlist=['x'])
    from postgresql.types import Row
    cat = types()
    recs = []
    with core_quiet(R, 'rows:connect', 10):
        L = Link(lambda srv: recs.extend(catalog(srv, cat)))
    pair, deep, one, none = recs
    P = [(5, 'x'), (-1, ''), (0, '\u20ac"(,'), (None, 'n'), (7, None), (None, None)]
    D = pgtypes.D
    arrs = [None, ((), (), []), ((2,), (1,), [1, None]), ((2, 2), (1, 1), [1, 2, 3, 4]), ((1,), (-5,), [9])]
    nums = [None, D('1.50'), D('-7')]
    stamps = [None, pick(cat['timestamptz'], 3)[1]]
    bits = [None, pick(cat['varbit'], 3)[2]]
    values = {
        pair.oid: P,
        deep.oid: [tuple(v) for v in itertools.product([None, P[0], P[3], P[5]], arrs, nums, stamps, bits)],
        one.oid: [(True,), (False,), (None,)],
        none.oid: [()],
    }

    def python(r, v):
        "what a program would give"
        out = []
        for t, x in zip(r.attrs, v):
            if x is not None and isinstance(t, ArrayOf):
                x = nest(x[0], x[2]) if all(y == 1 for y in x[1]) else t.python(x)
            elif x is not None and isinstance(t, RecordOf):
                x = python(t, x)
            out.append(x)
        return tuple(out)

    for r in recs:
        sig = 'row:' + r.name
        for n, v in enumerate(values[r.oid]):
            for form in ('tuple', 'list', 'dict', 'row'):
                if not R.case([r.name, n, form]):
                    continue
                with core_quiet(R, sig, 10):
                    x = python(r, v)
                    if form == 'list':
                        x = list(x)
                    elif form == 'dict':
                        x = dict(zip(r.names, x))
                        if len(x) > 1:
                            # what is not there is NULL
                            x = {k: y for k, y in reversed(list(x.items())) if y is not None}
                    elif form == 'row':
                        x = Row.from_sequence({k: i for i, k in enumerate(r.names)}, x)
                    args, got = L.ask([r.oid], [x], [Raw.of(r.send(v))])
                    agree(R, r, sig, v, args[0], got)
                    for i, k in enumerate(r.names):
                        R.check(got[k] is got[i], sig + ':names', lambda: 'attribute %r of %s is not item %d' % (k, rep(got), i))
                    R.check(list(got.column_names) == r.names, sig + ':names', lambda: 'columns %r' % (got.column_names,))
                    R.trans()
                    R.state((r.name, n, form))
    # refused: the wrong number of attributes, attributes of other types
    for n, x in enumerate([(1,), (1, 'a', 2), (), 5, ('x', 'a'), (1, 5), (1 << 31, 'a'), ('1', 'a'), {'i': 'x'}, (1, b'x'), [1], (1, '\ud800')]):
        if R.case(['pair', 'refuse', n]):
            refuse(R, X, L, pair, 'row:pair', x, answer(pair, P[0]))
    g = python(deep, values[deep.oid][-1])
    gd = answer(deep, values[deep.oid][-1], g)
    for n, x in enumerate([((1,),) + g[1:], (g[0], [[1], 2]) + g[2:], (g[0], ['x']) + g[2:], g[:2] + ('x',) + g[3:], g[:3] + ('x',) + g[4:], g[:4] + ('012',), g[:4], g + (None,)]):
        if R.case(['deep', 'refuse', n]):
            refuse(R, X, L, deep, 'row:deep', x, gd)
    # an attribute Python has no value for
    big = pgtypes.struct.pack('!q', 2 ** 62)
    for n, (r, data) in enumerate([(deep, pgtypes.send_record([(80001, None), (1007, None), (DOMAIN, None), (1184, big), (1562, None)]))]):
        if R.case(['deep', 'unreadable', n]):
            with core_quiet(R, 'row:unreadable', 10):
                try:
                    _, got = L.ask([r.oid], [g], [Raw.of(data)])
                except X.ColumnError as e:
                    R.check('c0' in str(e) or 'attribute' in str(e), 'row:unreadable:name', lambda: str(e))
                else:
                    R.violate('row:unreadable', rep(got))
                still(R, L, r, 'row:deep', gd)
    # arrays of rows
    for r, oid in ((pair, 80011), (deep, 80012)):
        a = ArrayOf(r, oid)
        a.name = r.name + '[]'
        vs = values[r.oid][:: max(1, len(values[r.oid]) // 6)]
        for n, (dims, k) in enumerate([((), 0), ((1,), 1), ((3,), 3), ((2, 2), 4), ((6,), 6)]):
            for hole in (None,) + tuple(range(k)):
                if not R.case([a.name, n, hole]):
                    continue
                with core_quiet(R, 'row:array', 10):
                    el = [vs[i % len(vs)] if i != hole else None for i in range(k)]
                    x = nest(dims, [None if v is None else python(r, v) for v in el])
                    args, got = L.ask([oid], [x], [Raw.of(a.send((dims, (1,) * len(dims), el)))])
                    agree(R, a, 'row:array', (dims, (1,) * len(dims), el), args[0], got)
                    R.trans()
    # anonymous rows are only read
    kinds = [(23, cat['int4'], 5), (25, cat['text'], '\xe9'), (1700, cat['numeric'], D('2.50')), (80001, pair, (1, 'q')), (1007, ArrayOf(cat['int4']), ((2,), (1,), [1, 2])), (16, cat['bool'], True), (DOMAIN, cat['numeric'], D('-1')), (1043, cat['varchar'], 'v')]
    for k in range(4):
        for combo in itertools.product(range(len(kinds)), repeat=k):
            if k == 3 and R.tier == 'quick' and len(set(combo)) < 3:
                continue
            for hole in (None,) + tuple(range(k)):
                if not R.case(['record', combo, hole]):
                    continue
                with core_quiet(R, 'row:anonymous', 10):
                    cols = [(kinds[c][0], kinds[c][1], None if i == hole else kinds[c][2]) for i, c in enumerate(combo)]
                    data = pgtypes.send_record([(o, None if v is None else t.send(v)) for o, t, v in cols])
                    _, got = L.ask([2249], [None], [Raw.of(data)])
                    R.check(isinstance(got, tuple) and len(got) == k and all((g is None) if v is None else t.canon(g) == t.canon(v) for (o, t, v), g in zip(cols, got)),
                            'row:anonymous', lambda: '%s read as %s' % (rep(cols), rep(got)))
                    R.trans()
                    R.state(('record', combo, hole))


# -- columns and parameters together -------------------------------------
class AsText:
    "a type without a binary conversion"
    text = True
    unreadable_as = b'\xff'

    def __init__(self, oid, value):
        self.oid, self.name, self.value = oid, UNCONVERTED[oid], value

    def send(self, v):
        return v.encode('utf-8')


def columns(cat):
    "(type, its oid, value, Python type, object refused, bytes that cannot be read, what a program gives, raw answer)"
    import decimal
    import uuid
    from postgresql.types import Array
    u = uuid.UUID(int=77)
    ints = ArrayOf(cat['int4'])
    out = []
    for t, v, py, bad, data, given in (
        (cat['int4'], -5, int, 'x', b'abc', None),
        (cat['text'], '\xe9 x', str, 5, b'\xff', None),
        (cat['numeric'], decimal.Decimal('12.50'), decimal.Decimal, 'abc', b'\0', None),
        (AsText(790, '12345678'), '12345678', str, 5, b'\xff', None),
        (AsText(2206, 'integer'), 'integer', str, b'int4', b'\xff', None),
        (ints, ((2,), (1,), [1, None]), Array, [1, 'x'], b'\0\0', [1, None]),
        (cat['uuid'], u, uuid.UUID, 'zz', b'abc', None),
        (AsText(602, '((1,2),(3,4))'), '((1,2),(3,4))', str, 5, b'\xff', None),
    ):
        out.append((t, t.oid, v, py, bad, data, v if given is None else given))
    return out


READ = ('first', 'call', 'rows', 'chunks', 'rows-in-block', 'chunks-in-block', 'named', 'named-rows', 'cursor', 'cursor-in-block', 'column', 'column-in-block')
WRITE = ('first', 'call', 'rows', 'chunks', 'rows-in-block', 'cursor', 'named', 'named-rows', 'load_rows', 'load_chunks')


def fetch(db, sql, method, vals, oids):
    "-> list of rows"
    inside = method.endswith('-in-block')
    m = method.replace('-in-block', '')
    if inside:
        with db.xact():
            return fetch(db, sql, m, vals, oids)
    if m.startswith('named'):
        ps = db.prepare(sql, statement_id='mine')
        try:
            ps = db.statement_from_id('mine')
            m = m[6:] or 'call'
            return use(ps, m, vals)
        finally:
            ps.close()
    return use(db.prepare(sql), m, vals)


def use(ps, m, vals):
    if m == 'first':
        r = ps.first(*vals)
        return [(r,) if len(vals) == 1 else r]
    if m == 'call':
        return ps(*vals)
    if m == 'rows':
        return list(ps.rows(*vals))
    if m == 'column':
        return [(x,) for x in ps.column(*vals)]
    if m == 'chunks':
        return [r for c in ps.chunks(*vals) for r in c]
    if m == 'cursor':
        c = ps.declare(*vals)
        r = c.read()
        c.close()
        return r
    if m == 'load_rows':
        ps.load_rows([vals, vals])
    elif m == 'load_chunks':
        ps.load_chunks([[vals], [vals, vals]])
    return []


def t_wire(R, i, n):
    X = __import__('postgresql.exceptions', fromlist=['x'])
    cat = types()
    recs = []
    L = None
    j = 0
    for k in (1, 2, 3):
        for combo in itertools.product(range(len(columns(cat))), repeat=k):
            if k == 3 and R.tier == 'quick' and len(set(combo)) < 3:
                continue
            j += 1
            if j % n != i:
                continue
            wire_one(R, X, cat, combo)


def wire_one(R, X, cat, combo):
    cols = [columns(cat)[c] for c in combo]
    names = [t.name for t, *_ in cols]
    oids = [c[1] for c in cols]
    sql = 'ECHO ' + ','.join(map(str, oids))
    quick = R.tier == 'quick'
    holes = [(), tuple(range(len(cols)))] + [(h,) for h in range(len(cols))] if len(cols) > 1 else [(), (0,)]
    L = []

    def link():
        if not L:
            x = Link(lambda srv: catalog(srv, cat))
            for t, *_ in cols:
                if isinstance(t, ArrayOf):
                    x.array(t.t, t.oid)
            L.append(x)
        return L[0]
    # the types have names
    if R.case(['types', combo]):
        with core_quiet(R, 'wire:types', 10):
            ps = link().db.prepare(sql)
            py = [c[3] for c in cols]
            R.check(list(ps.pg_parameter_types) == oids == list(ps.pg_column_types), 'wire:pg-types', lambda: '%r: %r %r' % (oids, ps.pg_parameter_types, ps.pg_column_types))
            R.check(list(ps.column_types) == py and list(ps.parameter_types) == py, 'wire:python-types', lambda: '%r: columns %r parameters %r' % (names, ps.column_types, ps.parameter_types))
            R.check(len(ps.sql_column_types) == len(oids) == len(ps.sql_parameter_types), 'wire:sql-types', lambda: '%r %r' % (ps.sql_column_types, ps.sql_parameter_types))
            R.trans()
    # rotate the methods of the longer combinations
    for hole in holes:
        for mi, m in enumerate(sorted(set(READ) | set(WRITE))):
            if len(cols) == 3 and quick and (sum(combo) + mi) % 4 and hole:
                continue
            if m.startswith('column') and len(cols) > 1:
                continue
            if not R.case(['values', combo, hole, m]):
                continue
            with core_quiet(R, 'wire:' + m, 10):
                x = link()
                vals = [None if h in hole else c[6] for h, c in enumerate(cols)]
                seen = []

                def on_echo(args):
                    seen.append(args)
                    if m.startswith('load'):
                        return [None] * len(cols)       # nobody reads them
                    return [None if h in hole else Raw.of(c[0].send(c[2]), 0 if isinstance(c[0], AsText) else 1, c[0].text and not isinstance(c[0], AsText)) for h, c in enumerate(cols)]
                x.srv.on_echo = on_echo
                rows = fetch(x.db, sql, m, vals, oids)
                want = 1 if not m.startswith('load') else 0
                R.check(len(rows) == want, 'wire:rows', lambda: '%s %r: %s' % (m, names, rep(rows)))
                for row in rows:
                    for h, (c, g) in enumerate(zip(cols, row)):
                        same = g is None if h in hole else (type(g) is str and g == c[2]) if isinstance(c[0], AsText) else c[0].canon(g) == c[0].canon(c[2])
                        R.check(same, 'wire:read:' + c[0].name, lambda: '%s of %r: column %d is read as %s' % (m, names, h, rep(g)))
                R.check(len(seen) == (2 if m == 'load_rows' else 3 if m == 'load_chunks' else 1), 'wire:sent', lambda: '%s: %d executions' % (m, len(seen)))
                for args in seen:
                    for h, (c, a) in enumerate(zip(cols, args)):
                        if h in hole:
                            R.check(a is None, 'wire:null', lambda: '%s of %r: parameter %d is sent as %s' % (m, names, h, rep(a)))
                        elif isinstance(c[0], AsText):
                            R.check(a is not None and a.fmt == 0 and bytes(a) == c[0].send(c[2]), 'wire:text:' + c[0].name, lambda: '%s of %r: parameter %d is sent as %s in format %r' % (m, names, h, rep(a), getattr(a, 'fmt', None)))
                        else:
                            R.check(a is not None and (a.fmt == 1 or c[0].text) and c[0].canon(c[0].recv(bytes(a))) == c[0].canon(c[2]), 'wire:stored:' + c[0].name, lambda: '%s of %r: parameter %d is sent as %s' % (m, names, h, rep(a)))
                R.trans()
                R.state((combo, hole, m))
    for h in range(len(cols)):
        for mi, m in enumerate(WRITE):
            if len(cols) == 3 and quick and (sum(combo) + mi + h) % 4:
                continue
            if not R.case(['refuse', combo, h, m]):
                continue
            with core_quiet(R, 'wire:refuse:' + m, 10):
                x = link()
                x.srv.on_echo = lambda args: [None] * len(args)
                vals = [c[4] if g == h else c[6] for g, c in enumerate(cols)]
                before = len(x.srv.log)
                try:
                    fetch(x.db, sql, m, vals, oids)
                except X.ParameterError as e:
                    R.check('$%d' % (h + 1) in str(e), 'wire:refuse:name', lambda: '%s of %r: parameter %d: %s' % (m, names, h + 1, e))
                else:
                    R.violate('wire:accepted', '%s of %r: %s was sent' % (m, names, rep(vals)))
                usable(R, x, cols, oids)
                R.trans()
        for mi, m in enumerate(READ):
            if m.startswith('column') and len(cols) > 1:
                continue
            if len(cols) == 3 and quick and (sum(combo) + mi + h) % 4:
                continue
            for other in ('value', 'null'):
                if not R.case(['unreadable', combo, h, m, other]):
                    continue
                with core_quiet(R, 'wire:unreadable:' + m, 10):
                    x = link()
                    x.srv.on_echo = lambda args: [Raw.of(c[5], 0 if isinstance(c[0], AsText) else 1, c[0].text and not isinstance(c[0], AsText)) if g == h else
                                                  None if other == 'null' else Raw.of(c[0].send(c[2]), 0 if isinstance(c[0], AsText) else 1, c[0].text and not isinstance(c[0], AsText)) for g, c in enumerate(cols)]
                    try:
                        r = fetch(x.db, sql, m, [c[6] for c in cols], oids)
                    except X.ColumnError as e:
                        R.check('c%d' % h in str(e) or m.startswith('named') and str(h) in str(e), 'wire:unreadable:name', lambda: '%s of %r: column c%d: %s' % (m, names, h, e))
                    else:
                        R.violate('wire:unreadable', '%s of %r: %s' % (m, names, rep(r)))
                    usable(R, x, cols, oids)
                    R.trans()
                if len(cols) == 1:
                    break


def usable(R, x, cols, oids):
    x.srv.on_echo = lambda args: args
    R.check(x.srv.state == 'I' and x.db.state is not None, 'wire:state', lambda: 'transaction state %r' % x.srv.state)
    try:
        R.check(x.db.prepare('ECHO 23').first(7) == 7, 'wire:usable', 'another statement')
    except Exception as e:
        R.violate('wire:usable', first_line(e))


# -- servers with other formats ------------------------------------------
def t_legacy(R):
    "floating-point times (before 10) and intervals without days (before 8.1)"
    X = __import__('postgresql.exceptions', fromlist=['x'])
    for version, ints, noday in (('16.1', 'on', False), ('9.6.24', 'off', False), ('9.6.24', 'on', False), ('8.0.26', 'on', True), ('8.0.26', 'off', True)):
        tag = 'legacy:%s:%s' % (version, ints)
        with core_quiet(R, tag, 10):
            def server(world, attempt):
                b = pgmodel.Backend()
                b.settings.update(server_version=version, integer_datetimes=ints)
                return b
            L = Link.__new__(Link)
            L.w = wire.World(server=server)
            L.db = wire.connect(L.w)
            L.srv = L.w.server
            L.stmts, L.args = {}, None
        cat = types()
        for name in ('time', 'timetz', 'timestamp', 'timestamptz', 'interval'):
            t = cat[name]
            t.float_times = ints == 'off'
            t.noday = noday
            if t.float_times:
                t.unreadable = [pgtypes.struct.pack('!d', x) for x in {'time': (86400.0,), 'timestamp': (3e11, -7e10), 'timestamptz': (3e11, -7e10)}.get(name, ())]
            scalar(R, X, L, t, tag)


# -- other encodings ------------------------------------------------------
def t_encodings(R):
    X = __import__('postgresql.exceptions', fromlist=['x'])
    for enc, codec, chars in (('latin1', 'latin1', 'a\xe9\xff\u20ac\u0100'), ('LATIN9', 'iso8859_15', 'a\xe9\u20ac\u0153\u0100'), ('win1252', 'cp1252', 'a\xe9\u20ac\u0153\u0100'), ('EUC_JP', 'euc_jp', 'a\u3042\u30a2\xe9\u0100'), ('UTF8', 'utf8', 'a\xe9\u20ac\U0001f600\ud800'), ('sql_ascii', 'ascii', 'aZ\xe9\u20ac')):
        if not R.case([enc]) and R.only is not None and R.only[0] != enc:
            continue
        with core_quiet(R, 'encoding:' + enc, 30):
            L = Link(lambda srv: catalog(srv, types()))
            cat = types()
            L.array(cat['text'])
            L.db.settings['client_encoding'] = enc
            for k in range(4):
                for s in map(''.join, itertools.product(chars, repeat=k)):
                    try:
                        data = s.encode(codec)
                    except UnicodeEncodeError:
                        data = None
                    for oid, what, wrap in ((25, s, lambda b: b), (1009, [s], lambda b: pgtypes.send_array(25, (1,), (1,), [b])), (80001, (1, s), lambda b: pgtypes.send_record([(23, b'\0\0\0\1'), (25, b)])), (790, s, lambda b: b)):
                        answer = None if data is None else [Raw.of(wrap(data), 0 if oid == 790 else 1, oid == 25)]
                        try:
                            args, got = L.ask([oid], [what], answer)
                        except X.ParameterError:
                            R.check(data is None, 'encoding:%s:refused' % enc, lambda: '%r' % s)
                            continue
                        if not R.check(data is not None, 'encoding:%s:accepted' % enc, lambda: '%r is sent as %r' % (s, args)):
                            continue
                        R.check(bytes(args[0]) == wrap(data), 'encoding:%s:sent' % enc, lambda: '%r is sent as %r' % (s, bytes(args[0])))
                        v = got if oid in (25, 790) else got[0] if oid == 1009 else got[1]
                        R.check(v == s, 'encoding:%s:read' % enc, lambda: '%r is read as %r' % (s, v))
                        R.trans()
            # changed on the way
            L.db.settings['client_encoding'] = 'utf8'
            args, got = L.ask([25], ['\u20ac\xe9'], [Raw.of('\u20ac\xe9'.encode(), 1, True)])
            R.check(bytes(args[0]) == '\u20ac\xe9'.encode() and got == '\u20ac\xe9', 'encoding:changed', lambda: '%r %r' % (args, got))


# -- XML ------------------------------------------------------------------
def tree(e):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text or '', tuple(tree(x) for x in e), e.tail or '')


def t_xml(R):
    import xml.etree.ElementTree as ET
    frag = ['<a/>', '<b x="1">t</b>', '<c>\xe9&amp;&lt;<d/>u</c>', 'text', '\u20ac', '&amp;', '<e xmlns="urn:x"/>']
    decl = ['', '<?xml version="1.0" encoding="%s"?>', '<?xml version="1.0" standalone="yes"?>']
    for enc, codec in (('utf8', 'utf-8'), ('latin1', 'latin1')):
        with core_quiet(R, 'xml:connect', 10):
            L = Link()
            L.srv.types[142] = ('pg_catalog', 'xml', 'b', -1, 0, 0, None, True, True)
            L.db.settings['client_encoding'] = enc
        for k in range(4):
            for parts in itertools.product(range(len(frag)), repeat=k):
                s = ''.join(frag[p] for p in parts)
                try:
                    s.encode(codec)
                except UnicodeEncodeError:
                    continue
                want = ET.XML('<x>' + s + '</x>')
                for d in decl:
                    if enc != 'utf8' and not d:
                        continue        # the server sends one then
                    if not R.case([enc, parts, d]):
                        continue
                    with core_quiet(R, 'xml', 10):
                        sent = ((d % enc.upper() if '%' in d else d) + s).encode(codec)
                        args, got = L.ask([142], [s], [Raw.of(sent, 1, True)])
                        R.check(bytes(args[0]) == s.encode(codec), 'xml:sent', lambda: '%r is sent as %r' % (s, bytes(args[0])))
                        # what was read stands for the same content
                        items = got if isinstance(got, tuple) else (got,)
                        text = ''.join(x if isinstance(x, str) else ET.tostring(x, encoding='unicode') for x in items)
                        R.check(tree(ET.XML('<x>' + text + '</x>')) == tree(want), 'xml:read', lambda: '%r is read as %r: %r' % (s, got, text))
                        # and is sent as the same again
                        args, got = L.ask([142], [got], [Raw.of(sent, 1, True)])
                        again = bytes(args[0]).decode(codec)
                        R.check(tree(ET.XML('<x>' + again + '</x>')) == tree(want), 'xml:again', lambda: '%r read and sent again is %r' % (s, again))
                        R.trans()
                        R.state((enc, parts, d))
    for n, bad in enumerate((5, 1.5, object(), [1], (5,), {})):
        if R.case(['refuse', n]):
            X = __import__('postgresql.exceptions', fromlist=['x'])
            with core_quiet(R, 'xml:refuse', 10):
                try:
                    args, _ = L.ask([142], [bad], [None])
                    R.violate('xml:accepted', '%r is sent as %r' % (bad, args))
                except X.ParameterError as e:
                    R.check('$1' in str(e), 'xml:refuse:name', lambda: str(e))


# -- types without a conversion inside of others --------------------------
def t_nested(R):
    "an array or row whose elements have no binary conversion"
    X = __import__('postgresql.exceptions', fromlist=['x'])
    int8 = lambda n: pgtypes.struct.pack('!q', n)
    oid4 = lambda n: pgtypes.struct.pack('!L', n)
    cat = types()
    arr = lambda o: (lambda b: pgtypes.send_array(o, (1,), (1,), [b]), lambda b: pgtypes.recv_array(b, o)[2][0])
    row = lambda o: (lambda b: pgtypes.send_record([(o, b)]), lambda b: pgtypes.recv_record(b, [o])[0])
    for name, elem, oid, (wrap, unwrap), text, binary, py, given in (
        ('money[]', 790, 791, arr(790), b'{$123,456.78}', int8(12345678), '$123,456.78', ['12345678']),
        ('regtype[]', 2206, 2211, arr(2206), b'{integer}', oid4(23), 'integer', ['text']),
        ('row(money)', 790, 80021, row(790), b'("$123,456.78")', int8(12345678), '$123,456.78', ('12345678',)),
        ('record(money)', 790, 2249, row(790), b'("$123,456.78")', int8(12345678), '$123,456.78', None),
    ):
        for what in ('sent', 'read'):
            if given is None and what == 'sent' or not R.case([name, what]):
                continue
            sig = 'nested:%s:%s' % (name, what)
            with core_quiet(R, sig, 10):
                L = Link(lambda srv: catalog(srv, cat))
                if oid == 80021:
                    L.srv.types[oid] = ('public', 'priced', 'c', -1, 0, 81021, None, True, True)
                    L.srv.composites[81021] = [(790, 'm', False)]
                elif oid != 2249:
                    L.srv.types[oid] = ('pg_catalog', '_' + UNCONVERTED[elem], 'b', -1, elem, 0, elem, True, True)
                try:
                    if what == 'sent':
                        L.srv.echo_rows = 0
                        args = []
                        L.srv.on_echo = lambda a: args.extend(a) or [None]
                        try:
                            L.prepare([oid])(given)
                        except X.ParameterError:
                            continue
                        a = args[0]
                        if a.fmt == 1:
                            # the text of the element is no binary value of it
                            R.check(unwrap(bytes(a)) not in (given[0].encode(),), sig, lambda: '%r is sent as the binary value %r' % (given, bytes(a)))
                    else:
                        v = Raw.of(wrap(binary))
                        try:
                            _, got = L.ask([oid], [None], [v])
                        except X.FeatureError:
                            # asked for in text format
                            _, got = L.ask([oid], [None], [Raw.of(text, 0)])
                            R.check(got == text.decode(), sig, lambda: rep(got))
                            continue
                        except X.ColumnError:
                            continue
                        R.check([py] == list(got.elements() if hasattr(got, 'elements') else got), sig, lambda: 'the server value %s is read as %s' % (py, rep(got)))
                finally:
                    R.trans()
