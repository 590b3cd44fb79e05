"""
C10 - the C accelerators behave as the portable Python code does: both are
loaded side by side, every routine is applied to every argument of its domain
(and every operation sequence, for the stateful ones), and results, types and
failures are compared. The extension is also run under AddressSanitizer, and
the references and memory it holds are counted around every call.
"""
import contextlib
import ctypes
import gc
import itertools
import struct
import sys
from collections import namedtuple

from mc import wire

PROPERTY = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive differential enumeration of both implementations over small domains, AddressSanitizer and memory accounting'
RULE = 'an execution is one routine applied to one argument, or one operation sequence of a stateful object, in both implementations'
ASSUMPTIONS = [
    'arguments have the types the library itself passes: rows are tuples of bytes and None, processors tuples of callables, chunks lists or iterables of rows, data bytes or views of bytes',
    'which exception is raised is not compared, only that one is (SystemError from the extension counts as a failure of it)',
    'a stream hands out its messages in a tuple or in a list: only their order and contents are compared',
    'the sizes given to the copy stream\'s state are at least four',
    'callables do not modify the sequences they are called for',
]

OPT = 'postgresql.port.optimized'


class World:
    "One import of the package"
    def __init__(self, accelerated):
        for k in [k for k in sys.modules if k == 'postgresql' or k.startswith('postgresql.')]:
            del sys.modules[k]
        if not accelerated:
            sys.modules[OPT] = None
        import postgresql.protocol.element3 as element3
        import postgresql.protocol.xact3 as xact3
        import postgresql.protocol.buffer as buffer
        import postgresql.python.structlib as structlib
        import postgresql.python.functools as functools
        import postgresql.copyman as copyman
        import postgresql.types.io.lib as iolib
        from postgresql.types.io import resolve
        self.accelerated = accelerated
        self.e, self.x, self.b, self.s, self.f, self.c, self.io = \
            element3, xact3, buffer, structlib, functools, copyman, iolib
        self.resolve = resolve
        if not accelerated:
            assert not hasattr(element3.pack_tuple_data, '__self__')


def canon(v, seq=False, depth=0):
    "A value with its types, comparable between the worlds"
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ('float', struct.pack('!d', v))
    if isinstance(v, (tuple, list)):
        t = type(v).__name__
        if seq and t in ('tuple', 'list'):
            t = 'seq'
        return (t, [canon(y, seq, depth + 1) for y in v])
    if isinstance(v, dict):
        return (type(v).__name__, sorted((canon(a), canon(b)) for a, b in v.items()))
    if isinstance(v, memoryview):
        return ('memoryview', v.tobytes())
    if isinstance(v, BaseException):
        return ('exception', type(v).__name__)
    slots = [a for c in type(v).__mro__ for a in getattr(c, '__slots__', ())]
    if slots and depth < 6:
        return (type(v).__name__, [(a, canon(getattr(v, a, None), seq, depth + 1)) for a in slots])
    return (type(v).__name__,)


class Bad(Exception):
    pass


def attempt(f, *a, seq=False):
    "(answer, exception)"
    try:
        r = f(*a)
        return ('value', canon(r, seq)), None
    except Exception as e:
        return ('raises',), e


# -- memory of the extension ------------------------------------------------
class mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


try:
    _mallinfo2 = ctypes.CDLL(None).mallinfo2
    _mallinfo2.restype = mallinfo
except AttributeError:
    _mallinfo2 = None


def references(obj, seen, depth=0):
    "ids and objects whose reference counts a call must leave alone"
    if isinstance(obj, (tuple, list)) and depth < 4:
        for y in obj:
            references(y, seen, depth + 1)
    if obj is None or isinstance(obj, (bool, int)):
        return
    seen[id(obj)] = obj


def leaks(f, args, rounds=24):
    """
    What `rounds` calls leave behind: (references per call, blocks per call,
    bytes of malloc per call); 0s when nothing.
    """
    def call():
        try:
            f(*args)
        except Exception:
            pass
    seen = {}
    references(args, seen)
    objs = list(seen.values()) + [Bad]
    del seen
    # a reference too few shows as a count, not as a crash
    spare = [objs] + [list(objs) for _ in range(200)]
    for _ in range(6):
        call()
    worst = None
    for attempt_ in range(3):
        gc.collect()
        r0 = [sys.getrefcount(o) for o in objs]
        b0 = sys.getallocatedblocks()
        m0 = _mallinfo2().uordblks if _mallinfo2 else 0
        for _ in range(rounds):
            call()
        gc.collect()
        m1 = _mallinfo2().uordblks if _mallinfo2 else 0
        b1 = sys.getallocatedblocks()
        r1 = [sys.getrefcount(o) for o in objs]
        refs = max([abs(y - x) for x, y in zip(r0, r1)] or [0])
        # the lists above account for less than one block per call
        now = (refs // (rounds // 2), max(0, b1 - b0) // (rounds - 6), max(0, m1 - m0) // (rounds * 8 - 8))
        if worst is None or now < worst:
            worst = now
        if not any(worst):
            break
    return worst


def compare(R, C, P, key, fc, fp, argsc, argsp=None, seq=False, leak=True):
    "One case: `fc(*argsc)` of the extension, `fp(*argsp)` of the portable code"
    if not R.case(key):
        return
    sig = key[0] + ':' + str(key[1])
    with R.guarded(sig):
        argsp = argsc if argsp is None else argsp
        held = {}
        references(argsc, held)
        held = [list(held.values()) for _ in range(50)]
        p, pe = attempt(fp, *argsp, seq=seq)
        c, ce = attempt(fc, *argsc, seq=seq)
        R.trans(2)
        R.state((key[0], p))
        R.outcome((key[0], p[0]))
        R.check(not isinstance(ce, SystemError), sig + ':system-error', lambda: '%r: %r' % (key, ce))
        R.check(c == p, sig + ':differs', lambda: '%r: the extension: %s %r, the portable code: %s %r' % (
            key, str(c)[:400], ce, str(p)[:400], pe))
        del c, p, ce, pe
        if leak and R.variant == 'c':
            l = leaks(fc, argsc)
            R.check(not any(l), sig + ':leaks', lambda: '%r: references, blocks, bytes per call: %r' % (key, l))


# -- domains --------------------------------------------------------------------
def integers():
    s = set(range(-3, 4))
    for bits in (7, 8, 15, 16, 31, 32, 63, 64, 65):
        for d in (-2, -1, 0, 1, 2):
            s.add(2 ** bits + d)
            s.add(-2 ** bits + d)
    s |= {0x0102, 0x01020304, 0x0102030405060708, 0xFFFEFDFC, 10 ** 30}
    return sorted(s)


class Index:
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n

    def __repr__(self):
        return 'Index(%d)' % self.n


class NoInt:
    def __repr__(self):
        return 'NoInt()'


OTHERS = [None, True, False, 'x', b'x', b'', (), [], 1.0, 1.5, float('nan'), NoInt(), Index(1), Index(2 ** 40), Index(-1)]

PACKERS = ['short', 'ushort', 'long', 'ulong', 'longlong', 'ulonglong', 'byte', 'double', 'float']


def datas():
    for n in range(0, 11):
        for pat in (b'\0' * n, b'\xff' * n, bytes(range(1, n + 1)), bytes(range(0x80, 0x80 + n)),
                    b'\x80' + b'\0' * (n - 1) if n else b'', b'\x7f' + b'\xff' * (n - 1) if n else b''):
            yield pat
    for i in range(8):
        for v in (1, 0x7f, 0x80, 0xff):
            yield b'\0' * i + bytes([v]) + b'\0' * (7 - i)


FORMS = [
    ('bytes', bytes), ('memoryview', memoryview), ('bytearray', bytearray),
    ('slice', lambda b: memoryview(b'\xAA' + b + b'\xAA\xAA')[1:1 + len(b)]),
]


def t_ints(R, C, P, part):
    if part == 'pack':
        for n in PACKERS:
            fc, fp = getattr(C.s, n + '_pack'), getattr(P.s, n + '_pack')
            for v in list(integers()) + OTHERS:
                compare(R, C, P, (n + '_pack', repr(v)), fc, fp, (v,))
        # every value of two bytes
        if R.case(['all-shorts']):
            with R.guarded('all-shorts'):
                for v in range(-2 ** 15, 2 ** 15):
                    R.check(C.s.short_pack(v) == P.s.short_pack(v), 'short_pack:differs', v)
                    b = P.s.short_pack(v)
                    R.check(C.s.short_unpack(b) == v, 'short_unpack:differs', v)
                    u = v & 0xffff
                    R.check(C.s.ushort_pack(u) == P.s.ushort_pack(u), 'ushort_pack:differs', u)
                    R.check(C.s.ushort_unpack(b) == u, 'ushort_unpack:differs', u)
                    R.trans(4)
    else:
        for n in PACKERS:
            fc, fp = getattr(C.s, n + '_unpack'), getattr(P.s, n + '_unpack')
            for b in datas():
                for fn, form in FORMS:
                    if R.variant != 'c' or fn in ('bytes', 'slice') or R.tier != 'quick' or len(b) in (0, 1, 4, 8):
                        compare(R, C, P, (n + '_unpack', fn, repr(b)), fc, fp, (form(b),), leak=(fn != 'slice'))
            for v in (None, 1, 'abcdefgh', (1, 2), NoInt()):
                compare(R, C, P, (n + '_unpack', repr(v)), fc, fp, (v,))
        for b in datas():
            for f in (b, b'\0\0\0\0' + b, b'\0\0\0\x01' + b, b'\0\0\0\x02' + b, b'\xff\xff\xff\xff' + b):
                compare(R, C, P, ('split_sized_data', repr(f)),
                        lambda x: list(C.s.split_sized_data(x)), lambda x: list(P.s.split_sized_data(x)), (f,))


class SubTuple(tuple):
    pass


Named = namedtuple('Named', 'a b')

VALUES = [None, b'', b'x', b'ab\0', b'y' * 300]  # (the first three are shared)
BADVALUES = ['x', 1, (), bytearray(b'x'), memoryview(b'x')]


def rows(n, values):
    for i in range(n + 1):
        yield from itertools.product(values, repeat=i)


def t_tuples(R, C, P, part):
    deep = R.tier != 'quick'
    if part == 'pack':
        for r in rows(4 if deep else 3, VALUES):
            compare(R, C, P, ('pack_tuple_data', repr(r)), C.e.pack_tuple_data, P.e.pack_tuple_data, (r,))
            compare(R, C, P, ('Tuple.bytes', repr(r)), lambda r: C.e.Tuple(r).bytes(), lambda r: P.e.Tuple(r).bytes(), (r,))
            compare(R, C, P, ('pack_tuple_data', 'sub', repr(r)), C.e.pack_tuple_data, P.e.pack_tuple_data, (SubTuple(r),))
            compare(R, C, P, ('Bind', repr(r)),
                    lambda r: C.e.Bind(b'p', b's', [b'\0\1'] * len(r), r, [b'\0\1']).bytes(),
                    lambda r: P.e.Bind(b'p', b's', [b'\0\1'] * len(r), r, [b'\0\1']).bytes(), (r,), leak=False)
        for bad in BADVALUES:
            for before, after in itertools.product(rows(1, [None, b'x']), repeat=2):
                r = before + (bad,) + after
                compare(R, C, P, ('pack_tuple_data', repr(r)), C.e.pack_tuple_data, P.e.pack_tuple_data, (r,))
        for n in (255, 256, 1000, 65535, 65536):
            compare(R, C, P, ('pack_tuple_data', 'wide', n), C.e.pack_tuple_data, P.e.pack_tuple_data, ((b'x', None) * (n // 2) + (b'',) * (n % 2),), leak=n < 1000)
        for bad in (1, None, NoInt()):
            compare(R, C, P, ('pack_tuple_data', repr(bad)), C.e.pack_tuple_data, P.e.pack_tuple_data, (bad,))
        return
    # parsing: every body of a row, cut at every place and extended
    parse = (C.e.Tuple.parse, P.e.Tuple.parse)
    bodies = [struct.pack('!H', len(r)) + b''.join(
        b'\xff\xff\xff\xff' if v is None else struct.pack('!L', len(v)) + v for v in r) for r in rows(3, VALUES[:4])]
    seen = set()
    for b in bodies:
        for m in [b[:i] for i in range(len(b) + 1)] + [b + t for t in (b'\0', b'\0\0\0\0', b'\xff\xff\xff\xff', b'\0\0\0\1')]:
            if m not in seen:
                seen.add(m)
                compare(R, C, P, ('Tuple.parse', repr(m)), parse[0], parse[1], (m,))
    # every combination of the four size bytes around the interesting ones
    for size in itertools.product((0, 1, 2, 0x7f, 0x80, 0xff), repeat=4):
        m = b'\0\1' + bytes(size) + b'ab'
        compare(R, C, P, ('Tuple.parse', repr(m)), parse[0], parse[1], (m,), leak=size[0] in (0, 0xff))
    for natts in (0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff):
        for body in (b'', b'\xff' * 4 * 3, b'\xff' * 4 * natts, b'\xff' * (4 * natts + 1), b'\0' * 4 * natts):
            m = struct.pack('!H', natts) + body
            compare(R, C, P, ('Tuple.parse', natts, len(body)), parse[0], parse[1], (m,), leak=natts < 0x100)
    for v in (None, 'abcd', 1, ()):
        compare(R, C, P, ('Tuple.parse', repr(v)), parse[0], parse[1], (v,))


def elements(e):
    "every kind of thing that is sent"
    class Custom(e.Message):
        type = b'!'

        def __init__(self, data):
            self.data = data

        def serialize(self):
            return self.data

    class NotBytes(Custom):
        type = b'!'

        def serialize(self):
            return 'text'

    class Raises(Custom):
        def serialize(self):
            raise Bad()

    class NoType:
        def serialize(self):
            return b''

    good = {
        'b0': b'', 'b1': b'x', 'b300': b'y' * 300,
        't0': (), 't1n': (None,), 't1': (b'x',), 't2': (b'', None), 't2b': (b'z' * 300, b''),
        'sync': e.SynchronizeMessage, 'flush': e.FlushMessage, 'disconnect': e.DisconnectMessage,
        'query': e.Query(b'SELECT 1'), 'query0': e.Query(b''),
        'parse': e.Parse(b'n', b'SELECT $1', (23, 25)), 'bind': e.Bind(b'p', b's', [b'\0\1'], [b'v'], [b'\0\0']),
        'execute': e.Execute(b'p', 3), 'describe': e.DescribeStatement(b's'), 'close': e.ClosePortal(b'p'),
        'password': e.Password(b'pw'), 'startup': e.Startup([(b'user', b'u')]), 'negotiate': e.NegotiateSSLMessage,
        'cancel': e.CancelRequest(1, 2), 'copydata': e.CopyData(b'line\n'), 'copyfail': e.CopyFail(b'why'),
        'copydone': e.CopyDoneMessage, 'void': e.VoidMessage, 'Tuple': e.Tuple((b'x', None)), 'custom': Custom(b'abc'),
        'function': e.Function(1, [b'\0\1'], [b'x'], b'\0\1'),
    }
    bad = {
        'str': 'x', 'int': 1, 'none': None, 'tstr': ('x',), 'tint': (b'x', 1), 'notbytes': NotBytes(b''),
        'raises': Raises(b''), 'notype': NoType(), 'list': [b'x'],
    }
    return good, bad


def t_cat(R, C, P, part):
    cg, cb = elements(C.e)
    pg, pb = elements(P.e)
    c, p = {**cg, **cb}, {**pg, **pb}

    def go(names, form=tuple, leak=True):
        if 'void' in names:
            if form is not tuple or len(names) > 1 or not R.case(('cat_messages', 'void')):
                return
            with R.guarded('cat_messages:void'):
                R.check(C.e.cat_messages([c['void']]) == P.e.cat_messages([p['void']]), 'cat_messages:void', 'the extension gives VoidMessage a size')
            return
        compare(R, C, P, ('cat_messages', form.__name__, '.'.join(names)), C.e.cat_messages, P.e.cat_messages,
                (form(c[n] for n in names),), (form(p[n] for n in names),), leak=leak)
    deep = R.tier != 'quick'
    names = sorted(cg)
    if part == 'pairs':
        for k in (0, 1, 2):
            for s in itertools.product(names, repeat=k):
                go(s, leak=k < 2 or deep)
                if k < 2:
                    go(s, list)
                    go(s, iter, leak=False)
        for s in itertools.product(sorted(cb), [()] + [(n,) for n in names]):
            go((s[0],) + s[1], leak=len(s[1]) == 0 or s[1][0] in ('b1', 't2', 'sync'))
            if s[1]:
                go(s[1] + (s[0],), leak=s[1][0] in ('b1', 't2', 'sync'))
        for bad in (1, None):
            compare(R, C, P, ('cat_messages', repr(bad)), C.e.cat_messages, P.e.cat_messages, (bad,))
    elif part == 'triples':
        some = ['b0', 'b1', 'b300', 't0', 't1n', 't2', 't2b', 'sync', 'startup', 'query', 'cancel', 'tint', 'str', 'notbytes', 'raises']
        for k in (3, 4) if not deep else (3, 4, 5):
            pool = some if k == 3 else some[:1] + ['b1', 't1n', 't2', 'sync', 'startup', 'tint'] if k == 4 else ['b1', 't2', 'sync', 'startup', 'tint']
            for s in itertools.product(pool, repeat=k):
                go(s, leak=k == 3 and ('tint' in s or 'notbytes' in s or R.tier != 'quick'))
    else:
        # the limits of the attribute count, and big data
        for n in (65534, 65535, 65536, 65537, 131072):
            compare(R, C, P, ('cat_messages', 'wide', n), C.e.cat_messages, P.e.cat_messages, ([(None,) * n],), leak=False)
            compare(R, C, P, ('cat_messages', 'wide-after', n), C.e.cat_messages, P.e.cat_messages, ([b'x', (b'',), (None,) * n],), leak=False)
        for n in (32767, 32768, 32769, 40000):
            compare(R, C, P, ('cat_messages', 'half', n), C.e.cat_messages, P.e.cat_messages, ([(None,) * n],), leak=False)
        for size in (65535, 65536, 2 ** 20, 2 ** 24 + 1):
            compare(R, C, P, ('cat_messages', 'big', size), C.e.cat_messages, P.e.cat_messages, ([b'x' * size, (b'y' * size, None), b'z'],), leak=False)
        for n in range(0, 70):
            compare(R, C, P, ('cat_messages', 'run', n), C.e.cat_messages, P.e.cat_messages, ([b'x' * i for i in range(n)] + [(b'y' * i,) * (i % 5) for i in range(n)],), leak=False)


def t_functools(R, C, P, part):
    log = []

    def rec(x):
        log.append(('rec', x))
        return ('did', x)

    def boom(x):
        log.append(('boom', x))
        raise Bad(x)

    def stop(x):
        raise StopIteration(x)

    def none(x):
        return None

    class Base(BaseException):
        pass

    def base(x):
        raise Base()

    def fail(cause, procs, tup, at):
        log.append(('fail', type(cause).__name__, getattr(cause, 'args', None), len(procs), canon(tup), at))
        raise KeyError(at) from cause

    def quiet_fail(cause, procs, tup, at):
        log.append(('quiet', at))

    fails = {'fail': fail, 'quiet': quiet_fail, 'none': None}
    procs = {'rec': rec, 'boom': boom, 'stop': stop, 'none': none, 'int': int, 'base': base, 'uncallable': 5}

    def logged(f):
        def g(*a):
            log.clear()
            try:
                r = ('value', f(*a))
            except Exception as e:
                chain = []
                while e is not None and len(chain) < 4:
                    chain.append(type(e).__name__)
                    e = e.__cause__
                # who raises for arguments of wrong kinds is not compared
                r = ('raises', chain if chain[0] in ('KeyError', 'RuntimeError') else None)
            except Base:
                r = ('base',)
            return (r, list(log))
        return g

    if part == 'tuple':
        # (neither is shared with the interpreter)
        vals = [None, bytes([0x31, 0x32]), ''.join(['x', 'y']), 2 ** 70]
        for k in range(0, 4 if R.tier != 'quick' else 3):
            for pn in itertools.product(sorted(procs), repeat=k):
                pr = tuple(procs[n] for n in pn)
                for row in itertools.product(vals, repeat=k):
                    for fn in fails if k < 2 else ('fail',):
                        compare(R, C, P, ('process_tuple', '.'.join(pn), repr(row), fn),
                                logged(C.f.process_tuple), logged(P.f.process_tuple), (pr, row, fails[fn]), leak=k < 2)
                    compare(R, C, P, ('process_tuple', 'sub', '.'.join(pn), repr(row)),
                            logged(C.f.process_tuple), logged(P.f.process_tuple), (pr, SubTuple(row), fail), leak=False)
        for a, b in itertools.product(range(4), repeat=2):
            if a != b:
                compare(R, C, P, ('process_tuple', 'sizes', a, b), logged(C.f.process_tuple), logged(P.f.process_tuple),
                        ((rec,) * a, (b'x',) * b, fail))
        for row in (None, 1, NoInt()):
            compare(R, C, P, ('process_tuple', 'row', repr(row)), logged(C.f.process_tuple), logged(P.f.process_tuple), ((rec,), row, fail))
        compare(R, C, P, ('process_tuple', 'named'), logged(C.f.process_tuple), logged(P.f.process_tuple), ((rec, rec), Named(b'1', b'2'), fail))
    elif part == 'chunk':
        rowpool = [(None, None), (bytes([0x31, 0x31]), bytes([0x32, 0x32])), (bytes([0x78, 0x78]), None), (bytes([0x31, 0x33]),), None]
        forms = [('list', list), ('tuple', tuple), ('iter', iter)]
        for pn in itertools.product(['rec', 'int', 'boom', 'none'], repeat=2):
            pr = tuple(procs[n] for n in pn)
            for k in range(0, 4):
                for rs in itertools.product(rowpool, repeat=k):
                    for fname, form in forms:
                        compare(R, C, P, ('process_chunk', '.'.join(pn), fname, repr(rs)),
                                logged(C.f.process_chunk), logged(P.f.process_chunk),
                                (pr, form(rs), fail), (pr, form(rs), fail), leak=k < 2 and fname != 'iter')
        for bad in (None, 1):
            compare(R, C, P, ('process_chunk', repr(bad)), logged(C.f.process_chunk), logged(P.f.process_chunk), ((rec,), bad, fail))
    else:
        class Ob:
            a = 0

            def __setattr__(self, n, v):
                if v == 'bad':
                    raise Bad()
                log.append((n, v))
                object.__setattr__(self, n, v)

        class Slots:
            __slots__ = ('a',)
        for name, v, mk in itertools.product(['a', 'b', 1, None], ['v', None, 'bad', 1], [Ob, Slots, object]):
            def run(f, mk=mk, name=name, v=v):
                def g():
                    ob = mk()
                    r = logged(f)(name, v, ob)
                    return (r[0][0], r[0][0] == 'value' and r[0][1] is ob, getattr(ob, 'a', None), r[1])
                return g
            compare(R, C, P, ('rsetattr', repr(name), repr(v), mk.__name__), run(C.f.rsetattr), run(P.f.rsetattr), ())
        for v in ([], ''.join(['v', 'w']), 2 ** 70, 'bad'):
            compare(R, C, P, ('rsetattr', 'direct', repr(v)), C.f.rsetattr, P.f.rsetattr, ('a', v, Slots()))
            compare(R, C, P, ('rsetattr', 'direct', repr(v), 'object'), C.f.rsetattr, P.f.rsetattr, ('a', v, object()))
        fs = {'rec': rec, 'boom': boom, 'none': none, 'len': len, 'uncallable': 5, 'base': base}
        for k in range(0, 4):
            for ns in itertools.product(sorted(fs), repeat=k):
                for v in (bytes([0x31, 0x32]), None, [1]):
                    def run(W, ns=ns, v=v):
                        comp = W.f.Composition(fs[n] for n in ns)
                        return logged(comp)
                    compare(R, C, P, ('compose', '.'.join(ns), repr(v)), run(C), run(P), (v,), leak=k < 3)


def messages():
    row = lambda *r: struct.pack('!H', len(r)) + b''.join(b'\xff' * 4 if v is None else struct.pack('!L', len(v)) + v for v in r)
    return {
        'D1': (b'D', row(b'x')), 'D2': (b'D', row(None, b'')), 'D0': (b'D', row()),
        'Dbad': (b'D', b'\0\1\0\0\0\5ab'), 'Dlong': (b'D', row(b'x') + b'!'), 'D-': (b'D', b''),
        'N': (b'N', b'SNOTICE\0C00000\0Mx\0\0'), 'A': (b'A', b'\0\0\0\1c\0p\0'), 'S': (b'S', b'n\0v\0'),
        'C': (b'C', b'SELECT 1\0'), 's': (b's', b''), 'E': (b'E', b'SERROR\0C22000\0Mx\0\0'),
        'Z': (b'Z', b'I'), 'n': (b'n', b''), '2': (b'2', b''), '3': (b'3', b''), 'T': (b'T', b'\0\0'),
    }


def t_rows(R, C, P, first):
    """
    Rows on their way through a transaction: every sequence of messages after
    Execute, delivered in one or two sets.
    """
    ms = messages()
    names = ['D1', 'D2', 'D0', 'Dbad', 'Dlong', 'N', 'A', 'S', 'C', 's', 'E', 'Z'] if R.tier != 'quick' else \
        ['D1', 'D2', 'Dbad', 'Dlong', 'N', 'C', 's', 'E', 'Z']
    depth = 4 if R.tier != 'quick' else 3
    tail = ['C', '3', 'Z']

    def run(W, sets):
        e = W.e
        got = []
        x = W.x.Instruction((
            e.Bind(b'p', b's', (), (), ()), e.Execute(b'p', 10), e.ClosePortal(b'p'), e.SynchronizeMessage,
        ), asynchook=lambda m: got.append(canon(m)))
        x.state[1]()
        out = []
        seq = tuple if W.accelerated else list
        # the types are interned, as the streams hand them out
        mt = W.e.message_types
        for s in sets:
            msgs = seq((mt[ms[n][0][0]], ms[n][1]) for n in s)
            guard = 0
            while msgs and x.state != W.x.Complete:
                guard += 1
                if guard > 50:
                    out.append('endless')
                    break
                try:
                    n = x.state[1](msgs)
                except ValueError:
                    out.append('ValueError')
                    return (out, got)
                msgs = msgs[n:]
        # which rows of the set are kept when the connection fails is not claimed
        out.append(None if x.fatal else [canon(m, True) for m in x.messages_received()])
        out.append(bool(x.state == W.x.Complete))
        out.append(canon(x.error_message) if x.error_message is not None else None)
        out.append(x.fatal)
        return (out, got)

    with wire.quiet():
        for k in range(0, depth + 1):
            for s in itertools.product(names, repeat=k):
                if (s[0] if s else '-') != first:
                    continue
                full = ['2'] + list(s) + tail
                cuts = range(1, len(full))
                for c in ([()] + [(i,) for i in cuts] + ([(i, j) for i in cuts for j in cuts if i < j] if k < 3 or R.tier != 'quick' else [])):
                    edges = (0,) + c + (len(full),)
                    sets = [full[a:b] for a, b in zip(edges, edges[1:])]
                    compare(R, C, P, ('rows', '|'.join('.'.join(x) for x in sets)),
                            lambda sets: run(C, sets), lambda sets: run(P, sets), (sets,), leak=False)


def t_stream(R, C, P, part):
    "every operation sequence on the message stream"
    pieces = {
        'full': b'D\0\0\0\6ab', 'empty': b'S\0\0\0\4', 'head': b'D\0\0\0\6', 'half': b'D\0\0', 'rest': b'ab',
        'bad': b'D\0\0\0\3', 'none': b'', 'two': b'1\0\0\0\x042\0\0\0\x05x', 'neg': b'D\xff\xff\xff\xff',
    }
    ops = ['w:' + n for n in sorted(pieces)] + ['next', 'read', 'read0', 'read1', 'read2', 'has', 'len', 'value', 'truncate', 'iter']

    def apply(W, st, op):
        if op.startswith('w:'):
            # a new object every time, so that one too many alive is seen
            return st.write(bytes(bytearray(pieces[op[2:]])))
        return {
            'next': st.next_message, 'read': st.read, 'read0': lambda: st.read(0), 'read1': lambda: st.read(1),
            'read2': lambda: st.read(2), 'has': st.has_message, 'len': lambda: len(st), 'value': st.getvalue,
            'truncate': st.truncate, 'iter': lambda: next(st, None),
        }[op]()

    def run(W, seq):
        st = W.b.pq_message_stream()
        out = []
        for op in seq:
            try:
                out.append(canon(apply(W, st, op), True))
            except SystemError:
                out.append('SystemError')
            except Exception as e:
                out.append('raises')
            try:
                out.append(canon(st.getvalue()))
            except Exception:
                out.append('unreadable')
        return out
    depth = (5 if R.tier != 'quick' else 4) if R.variant == 'c' else 3
    for k in range(0, depth + 1):
        for s in itertools.product(ops, repeat=k):
            if k and int.from_bytes(s[0].encode(), 'big') % 4 != part or not k and part:
                continue
            compare(R, C, P, ('stream', '.'.join(s)), lambda s: run(C, s), lambda s: run(P, s), (s,), leak=k <= 2)


def state_class(W):
    "the extension's class, which nothing imports, or the portable one"
    return __import__('importlib').import_module(OPT).WireState if W.accelerated else W.c.WireState


def sized(b):
    "no message of the copy has an impossible size"
    while b[:1] == b'd' and len(b) >= 5:
        n = struct.unpack('!L', b[1:5])[0]
        if n < 4:
            return False
        b = b[1 + n:]
    return True


def t_wirestate(R, C, P, part):
    "every sequence of pieces given to the copy stream's state"
    pieces = {
        'full': b'd\0\0\0\6ab', 'empty': b'd\0\0\0\4', 'head': b'd\0\0\0\6', 'd': b'd', 'd2': b'd\0', 'd3': b'd\0\0', 'rest': b'ab', 'x': b'a',
        'z': b'\0', 'zz': b'\0\0\0\5', 'end': b'c\0\0\0\4', 'full+end': b'd\0\0\0\5xc\0\0\0\4Z',
        'none': b'', 'two': b'd\0\0\0\4d\0\0\0\5x',
    }

    def run(W, s, form):
        ws = state_class(W)(lambda t: t != b'd'[0])
        out = []
        for n in s:
            try:
                r = ws.update(form(pieces[n]))
            except SystemError:
                out.append('SystemError')
                break
            except Exception:
                # nothing is claimed of it afterwards
                out.append('raises')
                break
            out.append((r, canon(ws.size_fragment), ws.remaining_bytes,
                        None if ws.final_view is None else bytes(ws.final_view)))
            if ws.final_view is not None:
                break
        return out
    depth = (5 if R.tier != 'quick' else 4) if R.variant == 'c' else 3
    names = sorted(pieces)
    for k in range(1, depth + 1):
        for s in itertools.product(names, repeat=k):
            if names.index(s[0]) % 4 != part or not sized(b''.join(pieces[n] for n in s)):
                continue
            compare(R, C, P, ('wirestate', '.'.join(s)), lambda s: run(C, s, memoryview), lambda s: run(P, s, memoryview), (s,), leak=k <= 2)


def t_cuts(R, C, P, part):
    "messages whose length has more than one significant byte, cut near their ends"
    sizes = [0, 1, 251, 252, 300, 0x10203] + ([0x7f, 0xffff, 0x10000, 0x102030] if R.tier != 'quick' else [])

    def ws(W, s, form):
        o = state_class(W)(lambda t: t != b'd'[0])
        out = []
        for x in s:
            out.append((o.update(form(x)), canon(o.size_fragment), o.remaining_bytes, None if o.final_view is None else bytes(o.final_view)))
            if o.final_view is not None:
                break
        return out

    def stream(W, s, form):
        o = W.b.pq_message_stream()
        out = []
        for x in s:
            o.write(bytes(x))
            out.append(([(t, len(b), bytes(b)[:3]) for t, b in o], canon(o.has_message())))
        return out

    for a, b in itertools.product(sizes, repeat=2):
        one, two = (b'd' + struct.pack('!L', n + 4) + b'x' * n for n in (a, b))
        data = one + two + b'c\0\0\0\4Z'
        ends = (0, len(one), len(one) + len(two))
        near = sorted({e + k for e in ends for k in range(-1, 7) if 0 < e + k < len(data)})
        k = 3 if R.tier != 'quick' and R.variant == 'c' else 2
        for n in range(1, k + 1):
            for cs in itertools.combinations(near, n):
                if (sum(cs) + n) % 4 != part:
                    continue
                bits = [data[x:y] for x, y in zip((0,) + cs, cs + (len(data),))]
                for name, f in (('wirestate', ws), ('stream', stream)):
                    compare(R, C, P, ('cuts', name, a, b) + cs, lambda s: f(C, s, memoryview), lambda s: f(P, s, memoryview), (bits,), leak=n < 2)


def t_misc(R, C, P, part):
    "what is made of the accelerated routines: the packers of the value types"
    for n in ('time_pack', 'time64_pack', 'interval_pack', 'interval64_pack', 'varbit_pack', 'net_pack', 'record_pack',
              'array_pack', 'numeric_pack', 'bit_pack', 'macaddr_pack', 'elements_pack', 'oidvector_pack', 'int2vector_pack'):
        if not hasattr(C.io, n):
            continue
        for v in [(1, 2), (0, 0), (-1, 5), (2 ** 31, 0), (1, 2, (3, 4)), (), None, [(23, b'x'), (25, None)], [1, 2, 3], (2, b'\xa0'),
                  ((1, 2, 0, 3), (4, 5)), (0, 23, [1], [0], [b'x', None]), (1, (1, 0), 23, (b'x', None))]:
            compare(R, C, P, (n, repr(v)), getattr(C.io, n), getattr(P.io, n), (v,), leak=False)
    for n in sorted(x for x in dir(C.io) if x.endswith('_unpack')):
        for b in datas():
            for more in (b'', b'\0' * 8, b'\0\0\0\x17\0\0\0\4abcd', b'\xff' * 12):
                compare(R, C, P, (n, repr(b + more)), lambda x: materialise(getattr(C.io, n)(x)), lambda x: materialise(getattr(P.io, n)(x)), (b + more,), leak=False)


def materialise(v):
    if isinstance(v, (tuple, list)):
        return type(v)(materialise(y) for y in v) if type(v) in (tuple, list) else v
    if hasattr(v, '__next__'):
        return [materialise(y) for y in v]
    return v


def tasks(tier):
    r = []
    heads = ['-', 'D1', 'D2', 'Dbad', 'Dlong', 'N', 'C', 's', 'E', 'Z'] + (['D0', 'A', 'S'] if tier != 'quick' else [])
    for v in ('c', 'asan'):
        r += [('stream', v, {'part': i}) for i in range(4)]
        r += [('wirestate', v, {'part': i}) for i in range(4)]
        r += [('cuts', v, {'part': i}) for i in range(4)]
        r += [('ints', v, {'part': p}) for p in ('pack', 'unpack')]
        r += [('tuples', v, {'part': p}) for p in ('pack', 'parse')]
        r += [('cat', v, {'part': p}) for p in ('pairs', 'triples', 'limits')]
        r += [('functools', v, {'part': p}) for p in ('tuple', 'chunk', 'other')]
        r += [('misc', v, {'part': ''})]
    r += [('rows', 'c', {'first': h}) for h in heads]
    return r


def run(name, params, R):
    P = World(False)
    C = World(True)
    assert C.accelerated and C.b.pq_message_stream.__module__ == OPT
    globals()['t_' + name](R, C, P, **params)
