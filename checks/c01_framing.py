"""
C01 - framing: the message stream that assembles wire data into messages is
compared, operation by operation, with a flat byte string that is cut by hand.

Tasks
 split   every way to cut a stream of messages into writes, times every
         reading policy
 ops     every sequence of operations (write a piece / read / read(n) /
         next_message / next() / has_message / len / getvalue / truncate) of
         the given depth
 sizes   message sizes around the block and discard thresholds of the buffer
         (512, 2048, 8192) in every order, times piece size, times policy
 types   every message type byte; every invalid length 0..3
"""
import itertools

PROPERTY = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of write partitions and operation sequences against a reference stream'
RULE = ('an execution is one stream x partition x policy (or one operation sequence); '
        'a state is a reference state (unread bytes, operations seen) after a step')
ASSUMPTIONS = ['message bodies and sizes are the listed ones', 'single-threaded use of one stream object']


def frame(t, body):
    return t + (len(body) + 4).to_bytes(4, 'big') + body


class Ref:
    "The unread bytes, cut by hand."

    def __init__(self):
        self.data = b''

    def write(self, d):
        self.data += d

    def peek(self, data=None):
        data = self.data if data is None else data
        if len(data) < 5:
            return None
        n = int.from_bytes(data[1:5], 'big')
        if n < 4:
            raise ValueError
        if len(data) < n + 1:
            return None
        return (data[:1], data[5:n + 1])

    def has(self):
        return self.peek() is not None

    def next(self):
        m = self.peek()
        if m is not None:
            self.data = self.data[5 + len(m[1]):]
        return m

    def read(self, n=None):
        r = []
        while n is None or len(r) < n:
            m = self.next()
            if m is None:
                break
            r.append(m)
        return r

    def count(self):
        d, c = self.data, 0
        while True:
            m = self.peek(d)
            if m is None:
                return c
            c += 1
            d = d[5 + len(m[1]):]


def apply(op, buf, ref, arg=None):
    "Apply one operation to both; returns (observed, expected)."
    if op == 'write':
        ref.write(arg)
        return buf.write(arg), None
    if op == 'read':
        return [tuple(x) for x in buf.read()], ref.read()
    if op in ('read0', 'read1', 'read2'):
        n = int(op[4:])
        return [tuple(x) for x in buf.read(n)], ref.read(n)
    if op == 'next_message':
        return buf.next_message(), ref.next()
    if op == 'next':
        try:
            got = next(buf)
        except StopIteration:
            got = None
        return got, ref.next()
    if op == 'has':
        return bool(buf.has_message()), ref.has()
    if op == 'len':
        return len(buf), ref.count()
    if op == 'getvalue':
        return buf.getvalue(), ref.data
    if op == 'truncate':
        buf.truncate()
        ref.data = b''
        return None, None
    raise AssertionError(op)


POLICIES = (
    ('read',), ('has', 'read'), ('len', 'has', 'next_message', 'getvalue'),
    ('next_message', 'len'), ('next', 'next', 'getvalue'), ('read1', 'has'),
    ('read0', 'len', 'getvalue'), ('read2', 'len'), (),
)

def streams(tier):
    m = [
        (b'Z', b'I'), (b'1', b''), (b'D', b'D\0\0\0\4'), (b'C', b'\0\0'), (b'd', b'\0\0\0'),
    ]
    L = [
        [m[1], m[0], m[1]],
        [m[2], m[1]],
        [m[0], m[4]],
        [m[3], m[3]],
    ]
    if tier == 'thorough':
        L += [[m[2], m[0]], [m[1], m[1], m[0]], [m[4], m[0], m[1]], [m[0], m[0], m[0]]]
    return L


def compositions(n):
    for mask in range(1 << (n - 1)):
        cuts = [i + 1 for i in range(n - 1) if mask >> i & 1] + [n]
        yield cuts


OPS = ('w1', 'w4', 'w5', 'w9', 'read', 'read1', 'next_message', 'next', 'has', 'len', 'getvalue', 'truncate')


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for i in range(len(streams(tier))):
            T.append(('split', v, {'stream': i}))
        depth = 5 if tier == 'quick' else 6
        for first in OPS[:4]:
            T.append(('ops', v, {'first': first, 'depth': depth}))
        for chunk in (1, 7, 512, 2048, 8192):
            T.append(('sizes', v, {'chunk': chunk, 'n': 2 if chunk == 1 and tier == 'quick' else 3}))
        T.append(('types', v, {}))
    return T


def step(R, buf, ref, op, arg, sig):
    got, want = apply(op, buf, ref, arg)
    R.trans()
    if got != want:
        R.violate(sig, '%s: got %r, expected %r' % (op, got, want))
        return False
    return True


def run(name, params, R):
    from postgresql.protocol.buffer import pq_message_stream as Stream
    globals()['t_' + name](Stream, R, **params)


def t_split(Stream, R, stream):
    msgs = streams(R.tier)[stream]
    data = b''.join(frame(*m) for m in msgs)
    for pi, policy in enumerate(POLICIES):
        for cuts in compositions(len(data)):
            if not R.case([stream, pi, cuts]):
                continue
            with R.guarded('split'):
                buf, ref = Stream(), Ref()
                a = 0
                ok = True
                out = []
                for b in cuts:
                    if not step(R, buf, ref, 'write', data[a:b], 'split:write'):
                        ok = False
                        break
                    a = b
                    for op in policy:
                        got, want = apply(op, buf, ref)
                        R.trans()
                        if got != want:
                            R.violate('split:' + op, 'policy %r cuts %r at %d: got %r expected %r' % (policy, cuts, b, got, want))
                            ok = False
                            break
                    R.state((stream, pi, b, ref.data))
                    if not ok:
                        break
                if ok:
                    # whatever is left comes out now, and nothing else
                    got, want = apply('read', buf, ref)
                    if got != want or ref.data or buf.getvalue() or buf.has_message() or len(buf):
                        R.violate('split:end', 'policy %r cuts %r: got %r expected %r' % (policy, cuts, got, want))
                    R.outcome((pi, len(want), len(cuts)))
        R.sample({'messages': msgs, 'policy': policy})


def t_ops(Stream, R, first, depth):
    src = b''.join(frame(*m) for m in (
        (b'Z', b'I'), (b'1', b''), (b'D', b'T\0\0\0\4'), (b'1', b''), (b'C', b'ab'))) * 4
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        if not R.case(list(seq)):
            continue
        with R.guarded('ops'):
            buf, ref = Stream(), Ref()
            pos = 0
            tr = []
            for op in seq:
                if op[0] == 'w':
                    n = int(op[1:])
                    d = src[pos:pos + n]
                    pos += n
                    r = apply('write', buf, ref, d)
                else:
                    r = apply(op, buf, ref)
                    if op == 'truncate':
                        pos = 0
                R.trans()
                tr.append(r[1])
                if r[0] != r[1]:
                    R.violate('ops:' + op, 'sequence %r: %s gave %r, expected %r' % (seq, op, r[0], r[1]))
                    break
            else:
                got, want = apply('getvalue', buf, ref)
                if got != want:
                    R.violate('ops:end', 'sequence %r leaves %r, expected %r' % (seq, got, want))
            R.state(ref.data)
            R.outcome(tr)
    R.sample({'first': first, 'depth': depth})


SIZES = (0, 507, 508, 1019, 2038, 2043, 2044, 2048, 4096, 8187, 8192)


def t_sizes(Stream, R, chunk, n):
    for sizes in itertools.product(SIZES, repeat=n):
        parts = []
        for i, s in enumerate(sizes):
            parts.append(frame(bytes([65 + i]), bytes([(j * 7 + i * 31) & 255 for j in range(min(s, 64))]) + bytes([i + 1]) * max(0, s - 64)))
        tail = b'Z\0\0'
        data = b''.join(parts) + tail
        for pi in (1, 2, 3, 5):
            if not R.case([list(sizes), pi]):
                continue
            with R.guarded('sizes'):
                buf, ref = Stream(), Ref()
                step_ = max(chunk, 1)
                for a in range(0, len(data), step_):
                    buf.write(data[a:a + step_])
                    ref.write(data[a:a + step_])
                    if chunk == 1 and not (a < 6 or a % 512 in (0, 1, 511) or a + 6 > len(data)):
                        continue
                    for op in POLICIES[pi]:
                        if op == 'getvalue' and chunk == 1:
                            continue
                        got, want = apply(op, buf, ref)
                        R.trans()
                        if got != want:
                            R.violate('sizes:' + op, 'sizes %r piece %d policy %r at byte %d' % (sizes, chunk, POLICIES[pi], a))
                            break
                    else:
                        continue
                    break
                else:
                    got, want = apply('read', buf, ref)
                    if got != want or buf.getvalue() != tail or ref.data != tail:
                        R.violate('sizes:end', 'sizes %r piece %d policy %r' % (sizes, chunk, POLICIES[pi]))
                R.state((sizes, pi, len(ref.data)))
                R.outcome((pi, len(want)))
    R.sample({'sizes': SIZES, 'piece': chunk, 'messages': n})


def t_types(Stream, R):
    for t in range(256):
        for body in (b'', b'x', b'\xff\xff\xff\xff'):
            for cut in (1, 4, 5, 100):
                if not R.case(['type', t, body, cut]):
                    continue
                with R.guarded('types'):
                    buf, ref = Stream(), Ref()
                    data = frame(bytes([t]), body) * 2
                    for a in range(0, len(data), cut):
                        apply('write', buf, ref, data[a:a + cut])
                        R.trans()
                    for op in ('has', 'len', 'next_message', 'read'):
                        got, want = apply(op, buf, ref)
                        R.check(got == want, 'types:%s' % op, 'type byte %d: %r expected %r' % (t, got, want))
                    R.state((t, body))
                    R.outcome((t, body))
    # an invalid length is an error for whoever consumes it, never a message
    for bad in (0, 1, 2, 3):
        for good in (0, 1, 2):
            for op in ('has', 'next_message', 'next', 'read', 'len'):
                if not R.case(['length', bad, good, op]):
                    continue
                with R.guarded('length'):
                    buf = Stream()
                    buf.write(frame(b'1', b'') * good + b'D' + bad.to_bytes(4, 'big') + b'xyz')
                    for i in range(good):
                        m = buf.next_message()
                        R.check(m == (b'1', b''), 'length:good', repr(m))
                    try:
                        if op == 'has':
                            r = buf.has_message()
                        elif op == 'next':
                            r = next(buf)
                        elif op == 'read':
                            r = buf.read()
                        elif op == 'len':
                            r = len(buf)
                        else:
                            r = buf.next_message()
                    except StopIteration:
                        R.violate('length:' + op, 'invalid length %d was silently treated as the end' % bad)
                    except Exception:
                        pass
                    else:
                        R.violate('length:' + op, 'invalid length %d after %d messages: %s returned %r' % (bad, good, op, r))
                    R.trans()
                    R.state(('bad', bad, good))
                    R.outcome(('bad', op))
