"""
C11 - messages survive a round trip and malformed ones are refused: every
message class with every combination of small field values against the layouts
of the protocol documentation, every truncation and extension of the bodies,
and every body over a small alphabet.
"""
import itertools
import struct

from mc import wire

PROPERTY = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of field values and message bodies against a reference grammar of the protocol'
RULE = 'an execution is one message serialised and parsed, or one body parsed'
ASSUMPTIONS = [
    'strings contain no NUL byte (the protocol cannot carry one)',
    'notices and errors are parsed as far as they go, as the tests of the library require: a body without its terminator is accepted, empty fields are left out',
    'parse() of Void and of the client-side notices is not a reading of the wire',
    'values of fixed sets (format codes, authentication codes) are not verified by parse()',
]

H = struct.Struct('!H')
L = struct.Struct('!L')


class Reject(Exception):
    pass


class Reader:
    "Strict reading of a body"
    def __init__(self, data):
        self.d = data
        self.i = 0

    def take(self, n):
        if self.i + n > len(self.d):
            raise Reject('short')
        r = self.d[self.i:self.i + n]
        self.i += n
        return r

    def string(self):
        j = self.d.find(b'\0', self.i)
        if j < 0:
            raise Reject('string')
        r = self.d[self.i:j]
        self.i = j + 1
        return r

    def u(self, fmt):
        return struct.unpack('!' + fmt, self.take(struct.calcsize('!' + fmt)))[0]

    def datum(self):
        n = self.u('L')
        return None if n == 0xffffffff else self.take(n)

    def rest(self):
        r = self.d[self.i:]
        self.i = len(self.d)
        return r

    def end(self):
        if self.i != len(self.d):
            raise Reject('extra')


def datum(v):
    return b'\xff\xff\xff\xff' if v is None else L.pack(len(v)) + v


def z(s):
    return s + b'\0'


# name: (type byte, domain of the constructor's arguments, body, reader -> arguments)
STRINGS = [b'', b'a', b'SELECT 1', b'\xff\xc3\xa9', b'x' * 300]
FEW = [b'', b'a', b'n\xff']
DATA = [None, b'', b'v', b'\0\xff\0', b'\xff\xff\xff\xff', b'd' * 257]
DFEW = [None, b'', b'v\0']
U32 = [0, 1, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff]
FORMATS = [b'\0\0', b'\0\1']


def seqs(pool, n, t=tuple):
    for k in range(n + 1):
        for s in itertools.product(pool, repeat=k):
            yield t(s)


def simple(body):
    return (lambda s: (s,), lambda a: body(a[0]))


def grammar(deep):
    n = 3 if deep else 2
    g = {}

    def add(name, typ, domain, body, read):
        g[name] = (typ, domain, body, read)

    def string(name, typ, prefix=b''):
        def read(r):
            if r.take(len(prefix)) != prefix:
                raise Reject('prefix')
            return (r.string(),)
        add(name, typ, lambda: ((s,) for s in STRINGS), lambda s: prefix + z(s), read)

    string('Query', b'Q')
    string('Password', b'p')
    string('CopyFail', b'f')
    string('Complete', b'C')
    string('DescribeStatement', b'D', b'S')
    string('DescribePortal', b'D', b'P')
    string('CloseStatement', b'C', b'S')
    string('ClosePortal', b'C', b'P')
    for name, typ in (('Null', b'I'), ('NoData', b'n'), ('ParseComplete', b'1'), ('BindComplete', b'2'), ('CloseComplete', b'3'),
                      ('Suspension', b's'), ('Disconnect', b'X'), ('Flush', b'H'), ('Synchronize', b'S'), ('CopyDone', b'c')):
        add(name, typ, lambda: [()], lambda: b'', lambda r: ())
    add('Notify', b'A', lambda: itertools.product(U32, STRINGS, STRINGS),
        lambda p, c, d: L.pack(p) + z(c) + z(d), lambda r: (r.u('L'), r.string(), r.string()))
    add('ShowOption', b'S', lambda: itertools.product(STRINGS, STRINGS), lambda a, b: z(a) + z(b), lambda r: (r.string(), r.string()))
    add('Ready', b'Z', lambda: [(b'I',), (b'T',), (b'E',)], lambda s: s, lambda r: (ready(r.take(1)),))
    add('FunctionResult', b'V', lambda: ((d,) for d in DATA), datum, lambda r: (r.datum(),))
    add('AttributeTypes', b't', lambda: ((s,) for s in seqs(U32, n)),
        lambda s: H.pack(len(s)) + b''.join(map(L.pack, s)), lambda r: (tuple(r.u('L') for _ in range(r.u('H'))),))
    atts = [(b'', 0, 0, 0, 0, 0, 0), (b'name', 0xffffffff, -1, 0x80000000, -2, -1, 1), (b'n\xff', 1, 32767, 23, -32768, 0x7fffffff, 0),
            (b'x', 2, 3, 4, 5, -0x80000000, 0)]
    add('TupleDescriptor', b'T', lambda: ((s,) for s in seqs(atts, 3)),
        lambda s: H.pack(len(s)) + b''.join(z(a[0]) + struct.pack('!LhLhlh', *a[1:]) for a in s),
        lambda r: (tuple((r.string(), r.u('L'), r.u('h'), r.u('L'), r.u('h'), r.u('l'), r.u('h')) for _ in range(r.u('H'))),))
    add('Tuple', b'D', lambda: ((s,) for s in seqs(DATA, n)),
        lambda s: H.pack(len(s)) + b''.join(map(datum, s)), lambda r: (tuple(r.datum() for _ in range(r.u('H'))),))
    add('KillInformation', b'K', lambda: itertools.product(U32, U32), lambda a, b: L.pack(a) + L.pack(b), lambda r: (r.u('L'), r.u('L')))
    add('Authentication', b'R', lambda: itertools.product(U32, [b'', b'salt', b'\0\xff\0\1']), lambda a, b: L.pack(a) + b, lambda r: (r.u('L'), r.rest()))
    add('Parse', b'P', lambda: itertools.product(STRINGS, STRINGS, list(seqs(U32[:4], 2))),
        lambda a, b, s: z(a) + z(b) + H.pack(len(s)) + b''.join(map(L.pack, s)),
        lambda r: (r.string(), r.string(), tuple(r.u('L') for _ in range(r.u('H')))))

    def binds():
        for nargs in range(n + 1):
            for args in itertools.product(DATA if nargs < 2 else DFEW, repeat=nargs):
                for nf in sorted({0, 1, nargs}):
                    for af in itertools.product(FORMATS, repeat=nf):
                        for rf in seqs(FORMATS, 2 if nargs < 2 else 1):
                            for names in ([(b'', b''), (b'p', b's')] if nargs else itertools.product(FEW, FEW)):
                                yield names + (af, list(args), rf)
    add('Bind', b'B', binds,
        lambda p, s, af, args, rf: z(p) + z(s) + H.pack(len(af)) + b''.join(af) + H.pack(len(args)) + b''.join(map(datum, args)) + H.pack(len(rf)) + b''.join(rf),
        lambda r: (r.string(), r.string(), tuple(r.take(2) for _ in range(r.u('H'))), [r.datum() for _ in range(r.u('H'))],
                   tuple(r.take(2) for _ in range(r.u('H')))))
    add('Execute', b'E', lambda: itertools.product(STRINGS, U32), lambda a, b: z(a) + L.pack(b), lambda r: (r.string(), r.u('L')))

    def functions():
        for oid in U32[:3]:
            for nargs in range(n + 1):
                for args in itertools.product(DATA if nargs < 2 else DFEW, repeat=nargs):
                    for nf in sorted({0, 1, nargs}):
                        for af in itertools.product(FORMATS, repeat=nf):
                            yield (oid, af, list(args), FORMATS[nargs % 2])
    add('Function', b'F', functions,
        lambda o, af, args, rf: L.pack(o) + H.pack(len(af)) + b''.join(af) + H.pack(len(args)) + b''.join(map(datum, args)) + rf,
        lambda r: (r.u('L'), tuple(r.take(2) for _ in range(r.u('H'))), [r.datum() for _ in range(r.u('H'))], r.take(2)))
    for name, typ in (('CopyToBegin', b'H'), ('CopyFromBegin', b'G')):
        add(name, typ, lambda: itertools.product([0, 1, 255], list(seqs([0, 1, 0x102, 0xffff], n, list))),
            lambda f, s: bytes([f]) + H.pack(len(s)) + b''.join(map(H.pack, s)), lambda r: (r.u('B'), [r.u('H') for _ in range(r.u('H'))]))
    add('CopyData', b'd', lambda: ((d,) for d in DATA if d is not None), lambda d: d, lambda r: (r.rest(),))
    return g


def ready(s):
    if s not in (b'I', b'T', b'E'):
        raise Reject('state')
    return s


def fields(m):
    "What a message says, apart from its class"
    if isinstance(m, dict):
        return dict(m)
    if isinstance(m, (tuple, list)):
        return (tuple(m),)
    return tuple(getattr(m, s) for c in reversed(type(m).__mro__) for s in ([c.__dict__.get('__slots__', ())] if isinstance(c.__dict__.get('__slots__', ()), str) else c.__dict__.get('__slots__', ())))


def norm(a):
    if isinstance(a, (tuple, list)):
        return tuple(norm(x) for x in a)
    return a


def build(e, name, args):
    cls = getattr(e, name)
    return cls(*args)


def decode(read, body):
    r = Reader(body)
    try:
        a = read(r)
        r.end()
        return a
    except Reject:
        return None


def parsed(e, name, body):
    "('fields', class, fields) or ('refused', kind)"
    try:
        m = getattr(e, name).parse(body)
    except Exception as x:
        return ('refused', type(x).__name__)
    return ('fields', m)


def same_fields(name, m, args):
    if name == 'Tuple':
        return norm(tuple(m)) == norm(args[0])
    return norm(fields_of(name, m)) == norm(args)


ATTRS = {
    'Notify': 'pid channel payload', 'ShowOption': 'name value', 'Ready': 'xact_state', 'FunctionResult': 'result',
    'KillInformation': 'pid key', 'Authentication': 'request salt', 'Parse': 'name statement argtypes',
    'Bind': 'name statement aformats arguments rformats', 'Execute': 'name max', 'Function': 'oid aformats arguments rformat',
    'CopyToBegin': 'format formats', 'CopyFromBegin': 'format formats', 'CopyData': 'data', 'Query': 'data', 'Password': 'data',
    'CopyFail': 'data', 'Complete': 'data', 'DescribeStatement': 'data', 'DescribePortal': 'data', 'CloseStatement': 'data', 'ClosePortal': 'data',
    'CancelRequest': 'pid key',
}


def fields_of(name, m):
    if name in ('AttributeTypes', 'TupleDescriptor', 'Tuple'):
        return (tuple(m),)
    return tuple(getattr(m, a) for a in ATTRS.get(name, '').split())


def t_build(R, e, name):
    typ, domain, body, read = grammar(R.tier != 'quick')[name]
    for args in domain():
        if not R.case([name, args]):
            continue
        with R.guarded('build:' + name):
            want = body(*args)
            m = build(e, name, args)
            got = m.serialize()
            R.trans(3)
            R.check(got == want, 'build:' + name + ':serialize', lambda: '%r: %r, not %r' % (args, got, want))
            framed = typ + L.pack(len(want) + 4) + want
            R.check(m.bytes() == framed, 'build:' + name + ':bytes', lambda: '%r: %r' % (args, m.bytes()))
            R.check(m.type == typ, 'build:' + name + ':type', m.type)
            cat = e.cat_messages([m])
            R.check(cat == framed, 'build:' + name + ':cat', lambda: '%r: %r' % (args, cat))
            back = type(m).parse(want)
            R.check(same_fields(name, back, args), 'build:' + name + ':parse', lambda: '%r: %r' % (args, back))
            R.check(name == 'Tuple' or type(back) is type(m), 'build:' + name + ':class', type(back))
            R.check(back == m and not (back != m), 'build:' + name + ':equal', lambda: '%r: %r' % (m, back))
            R.check(back.serialize() == want if name != 'Tuple' else True, 'build:' + name + ':again', lambda: repr(back))
            repr(m)
            R.state((name, want))
            R.outcome((name, len(want)))
    # different messages are not equal
    alls = list(itertools.islice(domain(), 40))
    for a, b in itertools.combinations(alls, 2):
        if R.case([name, a, b]):
            with R.guarded('differ:' + name):
                x, y = build(e, name, a), build(e, name, b)
                R.check(not (x == y) and x != y, 'differ:' + name, lambda: '%r == %r' % (x, y))


def t_bodies(R, e, name):
    typ, domain, body, read = grammar(False)[name]
    seen = set()

    def one(b):
        if b in seen or not R.case([name, b]):
            seen.add(b)
            return
        seen.add(b)
        with R.guarded('body:' + name):
            want = decode(read, b)
            got = parsed(e, name, b)
            R.trans()
            R.state((name, b))
            R.outcome((name, got[0], want is None))
            if want is None:
                R.check(got[0] == 'refused', 'body:' + name + ':accepted', lambda: '%r was accepted as %r' % (b, got[1]))
            else:
                R.check(got[0] == 'fields', 'body:' + name + ':refused', lambda: '%r was refused: %r' % (b, got[1]))
                R.check(got[0] != 'fields' or same_fields(name, got[1], want), 'body:' + name + ':misread', lambda: '%r: %r, not %r' % (b, got[1], want))
    big = 0
    for args in domain():
        b = body(*args)
        if len(b) > 64:
            # cut at the ends only, and not too often
            big += 1
            cuts = list(range(0, 24)) + list(range(len(b) - 24, len(b))) if big < 40 else [len(b) - 1, len(b) - 2]
        else:
            cuts = range(len(b))
        for i in cuts:
            one(b[:i])
        one(b)
        for extra in (b'\0', b'x', b'\0\0', b'\0\0\0\0', b'\xff\xff\xff\xff', b'ab\0', b):
            one(b + extra)
        if len(seen) > (400000 if R.tier != 'quick' else 60000):
            break
    # every body over a small alphabet
    n = (8 if R.tier != 'quick' else 7)
    alphabet = {'Ready': b'ITE\0x'}.get(name, b'\0\1\2SP' if name.startswith(('Describe', 'Close')) else b'\0\1\2a')
    for k in range(0, n + 1 if len(alphabet) < 5 else n):
        for t in itertools.product(alphabet, repeat=k):
            one(bytes(t))


def t_special(R, e, what):
    "The messages without a type, and the ones whose fields are a mapping"
    if what == 'startup':
        head = struct.pack('!HH', 3, 0)
        pool = [b'user', b'u', b'database', b'', b'\xff']
        bodies = set()
        for k in range(0, 4):
            for names in itertools.permutations([b'user', b'database', b'x\xff', b'o'], k):
                for vals in itertools.product([b'', b'v', b'a b', None] if k < 3 else [b'v', b''], repeat=k):
                    if not R.case(['startup', list(zip(names, vals))]):
                        continue
                    with R.guarded('startup'):
                        items = list(zip(names, vals))
                        m = e.Startup(items)
                        want = head + b''.join(z(a) + z(b) for a, b in items if b is not None) + b'\0'
                        R.trans(3)
                        R.check(m.serialize() == want, 'startup:serialize', lambda: '%r: %r' % (items, m.serialize()))
                        R.check(m.bytes() == L.pack(len(want) + 4) + want, 'startup:bytes', lambda: '%r: %r' % (items, m.bytes()))
                        R.check(e.cat_messages([m]) == m.bytes(), 'startup:cat', lambda: repr(items))
                        back = e.Startup.parse(want)
                        R.check(dict(back) == {a: b for a, b in items if b is not None}, 'startup:parse', lambda: '%r: %r' % (items, back))
                        R.check((back == m) == (None not in vals) and (back != m) == (None in vals), 'startup:equal', lambda: '%r: %r' % (items, back))
                        repr(m)
                        bodies.add(want)
                        R.state(want)
        for b in sorted(bodies, key=lambda b: (len(b), b)):
            for m in [b[:i] for i in range(len(b))] + [b + x for x in (b'\0', b'x', b'x\0', b'x\0y\0\0')]:
                if m in bodies or not R.case(['startup-body', m]):
                    continue
                with R.guarded('startup-body'):
                    got = parsed(e, 'Startup', m)
                    R.trans()
                    R.check(got[0] == 'refused', 'startup:accepted', lambda: '%r was accepted as %r' % (m, got[1]))
    elif what == 'notice':
        for name, typ in (('Notice', b'N'), ('Error', b'E')):
            cls = getattr(e, name)
            codes = [b'S', b'C', b'M', b'D', b'H', b'P', b'p', b'q', b'W', b'F', b'L', b'R', b'V', b's', b't', b'c', b'd', b'n']
            for k in range(0, 4):
                for ks in itertools.permutations(codes[:6] if k > 1 else codes, k):
                    for vals in itertools.product([b'', b'v', b'\xffx'] if k < 3 else [b'v'], repeat=k):
                        if not R.case([name, list(zip(ks, vals))]):
                            continue
                        with R.guarded(name):
                            items = list(zip(ks, vals))
                            m = cls(items)
                            want = b''.join(a + z(b) for a, b in items) + b'\0'
                            R.trans(3)
                            R.check(m.serialize() == want, name + ':serialize', lambda: '%r: %r' % (items, m.serialize()))
                            R.check(m.bytes() == typ + L.pack(len(want) + 4) + want, name + ':bytes', lambda: repr(items))
                            R.check(e.cat_messages([m]) == m.bytes(), name + ':cat', lambda: repr(items))
                            back = cls.parse(want)
                            R.check(type(back) is cls and dict(back) == dict(items), name + ':parse', lambda: '%r: %r' % (items, back))
                            R.check(back == m and not back != m, name + ':equal', lambda: '%r: %r' % (items, back))
                            R.check(not back == cls(items + [(b'X', b'')]), name + ':differs', lambda: repr(items))
                            repr(m)
                            R.state((name, want))
            # every byte of a field's type and of its value
            for c in range(1, 256):
                if R.case([name, 'byte', c]):
                    with R.guarded(name):
                        b = bytes([c])
                        R.check(dict(cls.parse(b + b'text\0M' + b + b'\0\0')) == {b'M': b, b: b'text'} if b != b'M' else True, name + ':byte', c)
            R.check(e.Notice([(b'M', b'x')]) != e.Error([(b'M', b'x')]) and not e.Error([(b'M', b'x')]) == e.Notice([(b'M', b'x')]), 'notice-error')
    else:
        cancel, ssl = struct.pack('!HH', 1234, 5678), struct.pack('!HH', 1234, 5679)
        bodies = {ssl: 'ssl'}
        for a, b in itertools.product(U32, U32):
            if R.case(['cancel', a, b]):
                with R.guarded('cancel'):
                    m = e.CancelRequest(a, b)
                    want = cancel + L.pack(a) + L.pack(b)
                    bodies[want] = 'cancel'
                    R.check(m.serialize() == want and m.bytes() == L.pack(16) + want and e.cat_messages([m]) == m.bytes(), 'cancel:bytes', lambda: repr(m.bytes()))
                    back = e.CancelRequest.parse(want)
                    R.check((back.pid, back.key) == (a, b) and back == m, 'cancel:parse', lambda: repr(back))
                    R.state(want)
        if R.case(['ssl']):
            with R.guarded('ssl'):
                m = e.NegotiateSSLMessage
                R.check(m.serialize() == ssl and m.bytes() == L.pack(8) + ssl and e.cat_messages([m]) == m.bytes(), 'ssl:bytes')
                R.check(e.NegotiateSSL.parse(ssl) is m, 'ssl:parse')
        for b in sorted(bodies):
            for i in range(len(b)):
                muts = [b[:i]] + [b[:i] + bytes([b[i] ^ (1 << k)]) + b[i + 1:] for k in range(8)] + [b + b'\0', b + b'\0' * 4]
                for m in muts:
                    if R.case(['code', m]):
                        with R.guarded('code'):
                            got = parsed(e, 'CancelRequest', m)
                            valid = len(m) == 12 and m[:4] == cancel
                            R.trans(2)
                            R.check((got[0] == 'fields') == valid, 'cancel:accepted', lambda: '%r: %r' % (m, got))
                            if valid and got[0] == 'fields':
                                R.check((got[1].pid, got[1].key) == struct.unpack('!LL', m[4:]), 'cancel:misread', lambda: repr(m))
                            got = parsed(e, 'NegotiateSSL', m)
                            R.check((got[0] == 'fields') == (m == ssl), 'ssl:accepted', lambda: '%r: %r' % (m, got))
        from postgresql.protocol.version import Version, V3_0, V2_0, CancelRequestCode, NegotiateSSLCode
        edge = [-1, 0, 1, 2, 3, 255, 256, 1234, 32767, 32768, 65535, 65536]
        for a, b in itertools.product(edge, edge):
            if R.case(['version', a, b]):
                with R.guarded('version'):
                    ok = 0 <= a < 65536 and 0 <= b < 65536
                    try:
                        v = Version((a, b))
                    except ValueError:
                        R.check(not ok, 'version:refused', (a, b))
                        continue
                    R.check(ok, 'version:accepted', (a, b))
                    if ok:
                        R.check(v.bytes() == struct.pack('!HH', a, b) and int(v) == a * 65536 + b and (v.major, v.minor) == (a, b) and Version.parse(v.bytes()) == v,
                                'version:bytes', (a, b))
                        R.state(('version', a, b))
        if R.case(['versions']):
            with R.guarded('versions'):
                R.check([tuple(v) for v in (V3_0, V2_0, CancelRequestCode, NegotiateSSLCode)] == [(3, 0), (2, 0), (1234, 5678), (1234, 5679)], 'versions')


def t_seq(R, e, part):
    """
    Every sequence of messages written in one go comes out of a stream as the
    messages they are.
    """
    from postgresql.protocol.buffer import pq_message_stream
    g = grammar(False)
    names = sorted(g)
    sample = {}
    for n in names:
        alls = list(itertools.islice(g[n][1](), 200))
        sample[n] = [alls[0], alls[-1]] if len(alls) > 1 else alls
    items = [(n, a) for n in names for a in sample[n]]
    for i, x in enumerate(items):
        if i % 4 != part:
            continue
        for y in items:
            if not R.case(['seq', x, y]):
                continue
            with R.guarded('seq'):
                st = pq_message_stream()
                st.write(e.cat_messages([build(e, *x), build(e, *y)]))
                got = list(st.read())
                want = [(g[n][0], g[n][2](*a)) for n, a in (x, y)]
                R.trans()
                R.check(got == want, 'seq:read', lambda: '%r: %r' % (want, got))
                for (n, a), m in zip((x, y), got):
                    R.check(same_fields(n, getattr(e, n).parse(m[1]), a), 'seq:parse', lambda: repr((n, a)))
                R.state(('seq', x[0], y[0]))


def tasks(tier):
    r = []
    g = grammar(False)
    for v in ('c', 'py'):
        r += [('bodies', v, {'name': n}) for n in sorted(g, key=lambda n: n not in ('Bind', 'Function', 'Parse'))]
        r += [('build', v, {'name': n}) for n in sorted(g)]
        r += [('special', v, {'what': w}) for w in ('startup', 'notice', 'codes')]
        r += [('seq', v, {'part': i}) for i in range(4)]
    return r


def run(name, params, R):
    import postgresql.protocol.element3 as e
    with wire.quiet():
        globals()['t_' + name](R, e, **params)
