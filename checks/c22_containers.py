"""
C22 - container types against the plain sequences and mappings they stand
for: every small shape, bound, index, slice, bit string, row and point.
"""
import copy
import itertools
import math
import pickle

from mc import core

PROPERTY = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of bounded values and operations of the container types against plain lists, mappings, strings and complex numbers'
RULE = 'an execution is one value, or pair of values, with all its operations'
ASSUMPTIONS = [
    'lower bounds do not take part in comparisons, as documented', 'elements are small integers, None and tuples',
    'a wrong number of subscripts may be an error or None', 'segments that are points, and the slope of vertical segments, are not claimed',
]


def tasks(tier):
    T = []
    for i in range(4):
        T += [('arrays', 'py', {'i': i, 'n': 4}), ('bits', 'py', {'i': i, 'n': 4, 'length': 9 if tier == 'quick' else 12})]
    T += [('bounds', 'py', {}), ('nests', 'py', {}), ('order', 'py', {}), ('rows', 'py', {}), ('bitpairs', 'py', {'length': 4 if tier == 'quick' else 6}),
          ('badbits', 'py', {}), ('points', 'py', {}), ('segments', 'py', {}), ('named', 'py', {})]
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def shapes(quick):
    yield ()
    for n in range(1, 6):
        yield (n,)
    for a, b in itertools.product(range(1, 5), range(1, 4)):
        yield (a, b)
    for s in itertools.product(range(1, 4), (1, 2), (1, 3)):
        yield s
    yield (2, 1, 2, 2)


def nested(dims, elements):
    "nested lists of the elements"
    if not dims:
        return []
    if len(dims) == 1:
        return list(elements)
    w = len(elements) // dims[0]
    return [nested(dims[1:], elements[i * w:(i + 1) * w]) for i in range(dims[0])]


def outcome(f):
    "(result, None) or (None, class of the error)"
    try:
        return f(), None
    except Exception as e:
        return None, type(e)


def plain(x):
    return x.nest() if hasattr(x, 'nest') else x


def slices(n):
    ends = [None] + list(range(-n - 1, n + 2))
    for a in ends:
        for b in ends:
            for c in (None, 1, 2, -1, -2):
                yield slice(a, b, c)


def t_arrays(R, i, n):
    from postgresql.types import Array
    k = 0
    for dims in shapes(R.tier == 'quick'):
        for lows in itertools.product((1, -1, 3) if len(dims) < 3 else (1, 0), repeat=len(dims)):
            for fill in range(3):
                k += 1
                if k % n != i or not R.case([dims, lows, fill]):
                    continue
                with R.guarded('arrays', 30):
                    count = math.prod(dims) if dims else 0
                    es = [[j, None if j % 2 else j, (j, 'x')][fill] for j in range(count)]
                    array(R, Array, dims, lows, es)


def array(R, Array, dims, lows, es):
    ref = nested(dims, es)
    ups = tuple(l + d - 1 for l, d in zip(lows, dims))
    a = Array.from_elements(es, lowerbounds=lows, upperbounds=ups)
    where = lambda: '%r with lower bounds %r' % (ref, lows)
    R.check((a.dimensions, a.lowerbounds, a.upperbounds, a.ndims) == (dims, lows, ups, len(dims)), 'array:bounds',
            lambda: '%s: %r' % (where(), (a.dimensions, a.lowerbounds, a.upperbounds, a.ndims)))
    views = [a]
    if set(lows) <= {1}:
        views.append(Array(ref))
        views.append(Array.from_nest(ref))
        views.append(Array.from_elements(iter(es), upperbounds=ups))
        if len(dims) < 2:
            views.append(Array.from_elements(es))
            views.append(Array(tuple(ref)))
    if len(dims) == 1:
        views.append(Array.from_elements(es, lowerbounds=lows))
    for b in (copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a)), Array(a)):
        views.append(b)
    for b in views:
        R.trans()
        R.check((b.dimensions, b.lowerbounds, b.upperbounds) == (dims, lows, ups), 'array:made', lambda: '%s: %r' % (where(), (b.dimensions, b.lowerbounds, b.upperbounds)))
        R.check(b.nest() == ref and list(b.elements()) == es and len(b) == len(ref), 'array:nest', lambda: '%s: %r' % (where(), b.nest()))
        R.check(b == ref and not b != ref and b == a and a == b, 'array:equal', where)
    tup = lambda x: tuple(map(tup, x)) if isinstance(x, list) else x
    R.check(a.nest(seqtype=tuple) == tup(ref), 'array:nest-tuple', where)
    R.check([plain(x) for x in a] == ref, 'array:iter', where)
    R.check([plain(x) for x in reversed(a)] == ref[::-1], 'array:reversed', where)
    import postgresql.types
    R.check(eval(repr(a), {'postgresql': postgresql}).nest() == ref, 'array:repr', lambda: repr(a))
    # indexes and slices
    for j in range(-len(ref) - 2, len(ref) + 3):
        R.trans()
        want, werr = outcome(lambda: ref[j])
        got, err = outcome(lambda: a[j])
        R.check(err == werr and (werr or plain(got) == want), 'array:index', lambda: '%s [%d]: %r %r' % (where(), j, got, err))
        if not err and len(dims) > 1:
            R.check((got.lowerbounds, got.upperbounds) == (lows[1:], ups[1:]), 'array:index-bounds', lambda: '%s [%d]: %r %r' % (where(), j, got.lowerbounds, got.upperbounds))
    for s in slices(min(len(ref), 4)):
        R.trans()
        want = ref[s]
        got, err = outcome(lambda: a[s])
        R.check(not err and [plain(x) for x in got] == want and len(got) == len(want), 'array:slice', lambda: '%s %r: %r %r' % (where(), s, got, err))
        if not err and hasattr(got, 'nest') and want:
            R.check(got.nest() == want and got.dimensions == (len(want),) + dims[1:] and got.lowerbounds[1:] == lows[1:] and got.upperbounds[1:] == ups[1:],
                    'array:slice-bounds', lambda: '%s %r: %r' % (where(), s, (got.dimensions, got.lowerbounds, got.upperbounds)))
    # addresses
    if dims and math.prod(dims) <= 24:
        for ad in itertools.product(*[range(-d - 1, d + 1) for d in dims]):
            R.trans()
            want, werr = ref, None
            for x in ad:
                want, werr = outcome(lambda: want[x])
                if werr:
                    break
            got, err = outcome(lambda: a.get_element(ad))
            R.check((err, got) == (werr, want), 'array:address', lambda: '%s at %r: %r %r' % (where(), ad, got, err))
        for ad in itertools.product(*[range(l - 2, u + 2) for l, u in zip(lows, ups)]):
            inside = all(l <= x <= u for x, l, u in zip(ad, lows, ups))
            want = None
            if inside:
                want = ref
                for x, l in zip(ad, lows):
                    want = want[x - l]
            got = a.sql_get_element(ad)
            R.check(got == want, 'array:sql-address', lambda: '%s at %r: %r' % (where(), ad, got))
            for wrong in (ad + (lows[0],), ad[:-1]):
                if wrong:
                    got, err = outcome(lambda: a.sql_get_element(wrong))
                    R.check(got is None, 'array:sql-subscripts', lambda: '%s at %r: %r' % (where(), wrong, got))
                    R.check(outcome(lambda: a.get_element(wrong))[1] == ValueError, 'array:subscripts', where)
    elif not dims:
        R.check(outcome(lambda: a.get_element((0,)))[1] == IndexError and a.sql_get_element((1,)) is None, 'array:empty-address', where)
    R.state((dims, lows))
    R.outcome((dims, len(es)))


def t_bounds(R):
    "boundaries and elements that do not fit each other"
    from postgresql.types import Array
    axes = [None, (), (1,), (2,), (0,), (1, 1), (2, 1), (3, 2)]
    for lows in axes:
        for ups in axes:
            for count in range(0, 7):
                if not R.case([lows, ups, count]):
                    continue
                with R.guarded('bounds', 10):
                    es = list(range(count))
                    got, err = outcome(lambda: Array.from_elements(es, lowerbounds=lows, upperbounds=ups))
                    R.state((lows, ups, count, err))
                    R.check(err in (None, ValueError), 'bounds:error', lambda: repr(err))
                    lo = lows if lows is not None else (1,) * len(ups) if ups is not None else (1,) if count else ()
                    if ups is not None and len(lo) == len(ups):
                        d = tuple(u - l + 1 for l, u in zip(lo, ups))
                        ok = (math.prod(d) if d else 0) == count and all(x > 0 for x in d)
                        if ok:
                            R.check(not err, 'bounds:refused', lambda: '%r %r %r: %r' % (lows, ups, count, err))
                        elif count:
                            R.check(err, 'bounds:accepted', lambda: '%r %r %r' % (lows, ups, count))
                    elif ups is not None and count:
                        R.check(err, 'bounds:axes', lambda: '%r %r %r' % (lows, ups, count))
                    if not err:
                        R.check(len(got.lowerbounds) == len(got.upperbounds) == len(got.dimensions) == got.ndims, 'bounds:axes', lambda: '%r %r %r' % (lows, ups, count))
                        R.check(all(u - l + 1 == d for l, u, d in zip(got.lowerbounds, got.upperbounds, got.dimensions)), 'bounds:dimensions',
                                lambda: '%r: %r %r %r' % (count, got.lowerbounds, got.upperbounds, got.dimensions))
                        R.check(list(got.elements()) == es and (math.prod(got.dimensions) if got.dimensions else 0) == count, 'bounds:elements', lambda: '%r %r %r' % (lows, ups, count))


def trees(depth, width):
    "nested lists, ragged ones and such with tuples included"
    if depth == 0:
        return [0, (1, 2)]
    sub = trees(depth - 1, width)
    out = [0]
    for k in range(width + 1):
        out += [list(x) for x in itertools.product(sub, repeat=k)]
    return out


def rectangular(x):
    "dimensions of nested lists, None if they are no array"
    if not isinstance(x, list):
        return ()
    ds = {rectangular(y) for y in x}
    if len(ds) != 1 or None in ds:
        return None
    return (len(x),) + ds.pop()


def t_nests(R):
    from postgresql.types import Array
    for t in trees(3, 2):
        if not isinstance(t, list) or not R.case(t):
            continue
        with R.guarded('nests', 10):
            got, err = outcome(lambda: Array(t))
            d = rectangular(t)
            if t == []:
                R.check(not err and len(got) == 0 and got.dimensions == (), 'nests:empty', lambda: repr(err))
                continue
            R.state(d)
            # only the first elements tell how deep it is: lists may be elements below
            first, deep = t, 0
            while isinstance(first, list) and first:
                first, deep = first[0], deep + 1
            if d is not None:
                R.check(not err and got.dimensions == d and got.nest() == t, 'nests:refused', lambda: '%r: %r %r' % (t, got, err))
            elif isinstance(first, list):
                R.check(err is ValueError, 'nests:empty-axis', lambda: '%r: %r %r' % (t, got, err))
            elif err:
                R.check(err is ValueError, 'nests:error', lambda: '%r: %r' % (t, err))
            else:
                R.check(got.nest() == t, 'nests:changed', lambda: '%r: %r' % (t, got.nest()))


def t_order(R):
    import operator as O
    from postgresql.types import Array
    vals = [[], [0], [1], [0, 1], [1, 0], [0, 0, 0], [[0]], [[1]], [[0, 1]], [[0], [1]], [[1], [0]], [[0, 1], [1, 0]], [[[0]]], [[[0], [1]]], [None], ['a'], [(0,)]]
    for x in vals:
        for y in vals:
            if not R.case([x, y]):
                continue
            with R.guarded('order', 10):
                for op in (O.eq, O.ne, O.lt, O.gt, O.le, O.ge):
                    want, werr = outcome(lambda: op(x, y))
                    for a, b in ((Array(x), Array(y)), (Array(x), y), (x, Array(y))):
                        R.trans()
                        got, err = outcome(lambda: op(a, b))
                        R.check((got, err) == (want, werr), 'order:' + op.__name__, lambda: '%s %r, %r: %r %r' % (op.__name__, a, b, got, err))
                R.state((x == y, len(x), len(y)))


# ---------------------------------------------------------------------------

NAMES = ['a', 'b', 'c c', 'A']


def t_rows(R):
    from postgresql.types import Row
    for width in range(0, 5):
        for names in itertools.product(NAMES, repeat=width):
            if width == 4 and len(set(names)) == 4 and names[0] != 'a':
                continue
            if not R.case(names):
                continue
            with R.guarded('rows', 20):
                keymap = {k: i for i, k in enumerate(names)}
                vals = [10 + i for i in range(width)]
                row(R, Row, names, keymap, vals)
                # the same mapping in another order says the same
                if len(keymap) > 1:
                    row(R, Row, names, dict(sorted(keymap.items(), key=lambda x: -x[1])), vals)


def row(R, Row, names, keymap, vals):
    r = Row.from_sequence(keymap, vals)
    n = len(vals)
    where = lambda: 'columns %r' % (names,)
    d = {k: vals[i] for k, i in keymap.items()}
    for s in (r, copy.copy(r), pickle.loads(pickle.dumps(r)), r.transform(), r.transform(*[None] * n)):
        R.check(tuple(s) == tuple(vals) and s == tuple(vals) and hash(s) == hash(tuple(vals)) and len(s) == n and type(s) is type(r), 'row:tuple', where)
        for i in range(-n - 2, n + 2):
            R.trans()
            R.check(outcome(lambda: s[i]) == outcome(lambda: tuple(vals)[i]), 'row:index', where)
            want = outcome(lambda: tuple(vals)[i])[0]
            R.check(s.get(i) == want, 'row:get-index', lambda: '%s: get(%d) is %r' % (where(), i, s.get(i)))
        for sl in slices(n):
            R.check(s[sl] == tuple(vals)[sl], 'row:slice', where)
        for k in NAMES + ['missing']:
            R.trans()
            R.check(outcome(lambda: s[k]) == outcome(lambda: d[k]), 'row:key', lambda: '%s: %r' % (where(), k))
            R.check(s.get(k) == d.get(k), 'row:get', where)
            R.check(s.index_from_key(k) == keymap.get(k), 'row:index-from-key', where)
        for i in range(n + 1):
            want = [k for k, j in keymap.items() if j == i]
            R.check(s.key_from_index(i) == (want[0] if want else None), 'row:key-from-index', where)
        R.check(sorted(s.keys()) == sorted(d), 'row:keys', where)
        R.check(list(s.values()) == vals, 'row:values', where)
        R.check(sorted(s.items()) == sorted(d.items()), 'row:items', lambda: '%s: %r instead of %r' % (where(), list(s.items()), d))
        R.check(s.column_names == tuple(sorted(d, key=keymap.get)), 'row:names', lambda: '%s: %r' % (where(), s.column_names))
    if len(d) == n:
        m = Row.from_mapping(keymap, d)
        R.check(tuple(m) == tuple(vals) and dict(m.items()) == d, 'row:mapping', where)
        m = Row.from_mapping(keymap, {k: v for k, v in d.items() if v != 10})
        R.check(tuple(m) == tuple(None if v == 10 else v for v in vals), 'row:mapping-missing', where)
        # transformations: none, by position, by name, both
        for choice in itertools.product((None, 'pos', 'name', 'both', 'nonepos'), repeat=n):
            args, kw = [], {}
            want = list(vals)
            for i, c in enumerate(choice):
                args.append((lambda v: v * 2) if c in ('pos', 'both') else None)
                if c in ('name', 'both'):
                    kw[names[i]] = lambda v: -v
                want[i] = -vals[i] if c in ('name', 'both') else vals[i] * 2 if c == 'pos' else vals[i]
                if c == 'nonepos':
                    kw[names[i]] = None
            while args and args[-1] is None and choice[len(args) - 1] != 'nonepos':
                args.pop()
            t = r.transform(*args, **kw)
            R.trans()
            R.check(tuple(t) == tuple(want) and t.column_names == r.column_names and tuple(r) == tuple(vals), 'row:transform', lambda: '%s %r: %r' % (where(), choice, t))
        R.check(outcome(lambda: r.transform(missing=str))[1] == KeyError, 'row:transform-key', where)
    R.state((names, tuple(keymap)))


def t_named(R):
    from postgresql.types import namedtuple as N
    names = ['a', 'b', 'c c', 'A', '1x', '_', 'class']
    for width in range(0, 4):
        for ns in itertools.product(names, repeat=width):
            if len(set(ns)) != width or not R.case(ns):
                continue
            with R.guarded('named', 10):
                vals = tuple(range(width))
                f = N.NamedTupleFactory({k: i for i, k in enumerate(ns)})
                t = f(vals)
                R.check(tuple(t) == vals, 'named:values', lambda: repr(t))
                for i, k in enumerate(ns):
                    k = k.replace(' ', '_')
                    if k.isidentifier() and not k.startswith('_') and k != 'class':
                        R.check(getattr(t, k) == i, 'named:attribute', lambda: '%r of %r' % (k, t))

                class Stmt:
                    column_names = ns

                    def chunks(self, *args):
                        yield [vals, vals]
                        yield [vals]
                got = list(N.namedtuples(Stmt())())
                R.check([tuple(x) for x in got] == [vals] * 3, 'named:statement', lambda: repr(got))
                R.state(ns)


# ---------------------------------------------------------------------------

def bitstrings(length):
    for k in range(length + 1):
        for b in itertools.product('01', repeat=k):
            yield ''.join(b)


def t_bits(R, i, n, length):
    from postgresql.types.bitwise import Varbit, Bit
    for j, s in enumerate(bitstrings(length)):
        if j % n != i or not R.case(s):
            continue
        with R.guarded('bits', 10):
            v = Varbit(s)
            data = bytes(int(s[k:k + 8].ljust(8, '0'), 2) for k in range(0, len(s), 8))
            R.check((v.bits, v.data) == (len(s), data), 'bits:data', lambda: '%s: %r' % (s, (v.bits, v.data)))
            w = Varbit.from_bits(len(s), data)
            for x in [v, w, Varbit(v)] + ([Varbit(data)] if len(s) % 8 == 0 else []):
                R.check(str(x) == s and len(x) == len(s) and x == v and v == x and x == s and not x != s, 'bits:same', lambda: '%s: %s' % (s, x))
            R.check(bool(v) == ('1' in s), 'bits:bool', lambda: '%s: %r' % (s, bool(v)))
            import postgresql.types.bitwise
            R.check(eval(repr(v), {'postgresql': postgresql}) == v, 'bits:repr', lambda: repr(v))
            for k in range(-len(s) - 2, len(s) + 2):
                R.trans()
                want, werr = outcome(lambda: s[k])
                got, err = outcome(lambda: v[k])
                R.check(err == werr and (werr or str(got) == want and got == Bit(want)), 'bits:index', lambda: '%s[%d]: %r %r' % (s, k, got, err))
                g2, e2 = outcome(lambda: v.getbit(k))
                R.check(e2 == err and (err or g2 is got), 'bits:getbit', s)
            R.check([str(x) for x in v] == list(s), 'bits:iter', s)
            for sl in slices(min(len(s), 6)):
                R.trans()
                got, err = outcome(lambda: v[sl])
                R.check(not err and str(got) == s[sl], 'bits:slice', lambda: '%s %r: %r %r' % (s, sl, got, err))
            for k in range(4):
                R.check(str(v * k) == s * k, 'bits:mul', s)
            for x in (None, 5, object(), [], 'x', '2', 1.5):
                got, err = outcome(lambda: (v == x, v != x, v in [x]))
                R.check(not err and got[0] == (len(s) == 0 and x == []) and got[1] != got[0], 'bits:other', lambda: '%s, %r: %r %r' % (s, x, got, err))
            R.state((len(s), data))


def t_bitpairs(R, length):
    from postgresql.types.bitwise import Varbit, Bit
    for s in bitstrings(length):
        for t in bitstrings(length):
            if not R.case([s, t]):
                continue
            with R.guarded('bitpairs', 10):
                v, w = Varbit(s), Varbit(t)
                for a, b in ((v, w), (v, t), (s, w)):
                    got, err = outcome(lambda: (a == b, a != b))
                    R.check(not err and got == (s == t, s != t), 'bits:compare', lambda: '%r, %r: %r %r' % (a, b, got, err))
                R.check(str(v + w) == s + t and str(v + t) == s + t, 'bits:add', lambda: '%s + %s: %s' % (s, t, v + w))
                R.state((s == t, len(s), len(t)))
    for x, want in (('0', False), ('1', True), (False, False), (True, True)):
        if R.case(['bit', repr(x)]):
            with R.guarded('bit', 10):
                b = Bit(x)
                R.check(bool(b) == want and str(b) == '01'[want] and b == Varbit('01'[want]) and len(b) == 1 and Bit(b) is b and b == x, 'bits:bit', repr(x))
    for x in ('', '2', '10', None, b'1', 'x', Varbit('10'), Varbit('')):
        if R.case(['badbit', str(x)]):
            with R.guarded('badbit', 10):
                R.check(outcome(lambda: Bit(x))[1] == ValueError, 'bits:badbit', repr(x))


def t_badbits(R):
    from postgresql.types.bitwise import Varbit
    for k in range(1, 5):
        for cs in itertools.product('01_ +-2b', repeat=k):
            for lead in ('', '0', '01010101', '0101010'):
                s = lead + ''.join(cs)
                if set(s) <= {'0', '1'} or not R.case(s):
                    continue
                with R.guarded('badbits', 10):
                    got, err = outcome(lambda: Varbit(s))
                    R.check(err is ValueError, 'bits:invalid', lambda: '%r became %r %r' % (s, got, err))
                    R.state(len(s))


# ---------------------------------------------------------------------------

def t_points(R):
    import postgresql.types.geometry as G
    P = list(itertools.product((-2, -0.5, 0, 1, 3), repeat=2))
    for a in P:
        p = G.Point(a)
        if R.case(a):
            R.check((p.x, p.y) == a and p == a and hash(p) == hash(tuple(map(float, a))) and G.Point(p) == p and eval(repr(p), {'postgresql': __import__('postgresql')}) == p,
                    'point:self', repr(p))
            for r in (0, 0.5, 3):
                c = G.Circle((a, r))
                R.check(c.center == a and c.radius == r and c == G.Circle(c) and eval(repr(c), {'postgresql': __import__('postgresql')}) == c, 'point:circle', repr(c))
            R.check(outcome(lambda: G.Circle((a, -1)))[1] is ValueError, 'point:radius', repr(a))
        for b in P:
            if not R.case([a, b]):
                continue
            with R.guarded('points', 10):
                za, zb = complex(*a), complex(*b)
                for other in (b, G.Point(b)):
                    for name, f, z in (('add', lambda: p + other, za + zb), ('sub', lambda: p - other, za - zb), ('mul', lambda: p * other, za * zb),
                                       ('div', lambda: p / other, za / zb if zb else None)):
                        R.trans()
                        got, err = outcome(f)
                        if z is None:
                            R.check(err is ZeroDivisionError, 'point:div-zero', lambda: '%r / %r: %r' % (p, b, got))
                        else:
                            R.check(not err and type(got) is G.Point and abs(complex(*got) - z) < 1e-9, 'point:' + name, lambda: '%r %s %r: %r %r' % (p, name, b, got, err))
                    R.check(abs(p.distance(other) - abs(za - zb)) < 1e-9, 'point:distance', repr((a, b)))
                x = G.Box((a, b))
                hi, lo = (max(a[0], b[0]), max(a[1], b[1])), (min(a[0], b[0]), min(a[1], b[1]))
                mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
                R.check((x.high, x.low, x.center) == (hi, lo, mid), 'box:points', lambda: '%r: %r' % ((a, b), x))
                R.check(x == G.Box((b, a)) == G.Box((hi, lo)) == G.Box(x) and eval(repr(x), {'postgresql': __import__('postgresql')}) == x, 'box:same', repr(x))
                s = G.Lseg((a, b))
                R.check((s.one, s.two, s.center) == (a, b, mid) and abs(s.length - abs(za - zb)) < 1e-9, 'lseg:points', repr(s))
                R.check(bool(s.vertical) == (a[0] == b[0]) and bool(s.horizontal) == (a[1] == b[1]), 'lseg:directions', repr(s))
                if a[0] != b[0]:
                    R.check(abs(s.slope - (b[1] - a[1]) / (b[0] - a[0])) < 1e-9, 'lseg:slope', repr(s))
                got, err = outcome(lambda: eval(repr(s), {'postgresql': __import__('postgresql')}))
                R.check(not err and got == s and G.Lseg(s) == s, 'lseg:repr', lambda: '%r: %r' % (s, err))
                R.state((a, b))


def t_segments(R):
    import postgresql.types.geometry as G
    D = [d for d in itertools.product((-2, -1, 0, 1, 2), repeat=2) if d != (0, 0)]
    for d in D:
        for e in D:
            for at in ((0, 0), (1, -2)):
                if not R.case([d, e, at]):
                    continue
                with R.guarded('segments', 10):
                    s, t = G.Lseg(((0, 0), d)), G.Lseg((at, (at[0] + e[0], at[1] + e[1])))
                    for o in (t, tuple(t)):
                        got, err = outcome(lambda: s.parallel(o))
                        R.check(not err and got == (d[0] * e[1] == d[1] * e[0]), 'lseg:parallel', lambda: '%r, %r: %r %r' % (s, t, got, err))
                        got, err = outcome(lambda: s.perpendicular(o))
                        R.check(not err and got == (d[0] * e[0] + d[1] * e[1] == 0), 'lseg:perpendicular', lambda: '%r, %r: %r %r' % (s, t, got, err))
                    R.state((d, e))
