"""
The binary formats of PostgreSQL's types, written from the server's send and
receive functions and independent of the library under test. golden/types.json
holds what a real server sends for values of every type; `conformance` of the
check C12 compares this module with it.

A Type knows
    values(tier)   Python values of the type, as the library documents them
    send(v)        the bytes the server sends for v
    recv(b)        the value the server reads from b (canonical), or Refused
    canon(v)       what two equal values have in common
    inputs(tier)   (object accepted as a parameter, the value it stands for)
    refused(tier)  objects no value of the type stands for
    unreadable     bytes of server values Python cannot represent
    literal(v)     SQL text of the value (used to record golden/types.json)
"""
import datetime
import decimal
import ipaddress
import itertools
import json
import struct
import uuid
from fractions import Fraction

D = decimal.Decimal
dt = datetime


class Refused(Exception):
    pass


def need(data, fmt):
    try:
        return struct.unpack('!' + fmt, data)
    except struct.error as e:
        raise Refused(str(e))


class Type:
    oid = 0
    array = 0
    name = ''
    unreadable = ()
    text = False       # string format in both directions

    def canon(self, v):
        return (type(v), v)

    def inputs(self, tier):
        return ()

    def refused(self, tier):
        return ()

    def literal(self, v):
        return "'%s'::%s" % (str(v).replace("'", "''"), self.name)


# -- integers ------------------------------------------------------------
class Int(Type):
    def __init__(self, name, oid, array, fmt, lo, hi):
        self.name, self.oid, self.array, self.fmt, self.lo, self.hi = name, oid, array, fmt, lo, hi

    def values(self, tier):
        if self.fmt == 'h':
            return range(self.lo, self.hi + 1)
        s = {0, self.lo, self.hi}
        bits = (self.hi - self.lo).bit_length()
        for k in range(bits + 1):
            for d in (-2, -1, 0, 1, 2):
                for sg in (1, -1):
                    s.add(sg * (1 << k) + d)
        for k in range(20):
            for d in (-1, 0, 1):
                s.update((10 ** k + d, -10 ** k + d))
        for k in range(0, bits, 8):
            for byte in (0x01, 0x7f, 0x80, 0xff):
                s.update((byte << k, -(byte << k)))
        return sorted(x for x in s if self.lo <= x <= self.hi)

    def send(self, v):
        return struct.pack('!' + self.fmt, v)

    def recv(self, b):
        return need(b, self.fmt)[0]

    def refused(self, tier):
        return [self.lo - 1, self.hi + 1, self.lo * 2 - 5, self.hi * 2 + 1, 1 << 16, 1 << 32, 1 << 64, -(1 << 64), 1.5, 1.0, '1', b'1', 'x', [], (), {}] if self.fmt != 'q' else \
            [self.lo - 1, self.hi + 1, 1 << 64, -(1 << 64), 1 << 200, 1.5, '1', b'1', [], ()]

    def refused_filter(self, v):
        return not (type(v) is int and self.lo <= v <= self.hi)


class Tid(Type):
    name, oid, array = 'tid', 27, 1010

    def values(self, tier):
        return [(a, b) for a in (0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1) for b in (0, 1, 255, 256, 32767, 32768, 65535)]

    def send(self, v):
        return struct.pack('!LH', *v)

    def recv(self, b):
        return need(b, 'LH')

    def refused(self, tier):
        return [(1,), (1, 2, 3), (-1, 1), (1 << 32, 1), (1, 65536), (1, -1), 5, 'x', ('1', '1')]

    def literal(self, v):
        return "'(%d,%d)'::tid" % v


class Bool(Type):
    name, oid, array = 'bool', 16, 1000

    def values(self, tier):
        return (True, False)

    def send(self, v):
        return b'\1' if v else b'\0'

    def recv(self, b):
        return need(b, 'B')[0] != 0

    def refused(self, tier):
        return [2, -1, 't', 'true', b't', '', [], 0.5]

    def literal(self, v):
        return "'%s'::bool" % ('t' if v else 'f')


# -- floats --------------------------------------------------------------
def bits_of(v):
    return struct.pack('!d', v)


class Float(Type):
    def __init__(self, name, oid, array, fmt, ebits, mbits):
        self.name, self.oid, self.array, self.fmt, self.e, self.m = name, oid, array, fmt, ebits, mbits

    def values(self, tier):
        es = {0, 1, 2, (1 << self.e) // 2 - 1, (1 << self.e) // 2 - 2, (1 << self.e) // 2, (1 << self.e) - 2}
        if tier == 'thorough':
            es |= set(range(1 << self.e)) if self.e == 8 else set(range(0, (1 << self.e) - 1, 7))
        top = (1 << self.m) - 1
        ms = {0, 1, top, top >> 1, 1 << (self.m - 1), 0x155555 & top, top - 1} | {1 << k for k in range(self.m)}
        out = []
        w = 1 + self.e + self.m
        for s in (0, 1):
            for e in es:
                if e == (1 << self.e) - 1:
                    continue
                for m in ms:
                    out.append(struct.unpack('!' + self.fmt, (s << (w - 1) | e << self.m | m).to_bytes(w // 8, 'big'))[0])
        out += [float('inf'), float('-inf'), float('nan')]
        return out

    def canon(self, v):
        return (type(v), 'nan' if v != v else bits_of(v))

    def send(self, v):
        return struct.pack('!' + self.fmt, v)

    def recv(self, b):
        return need(b, self.fmt)[0]

    def inputs(self, tier):
        return [(1, 1.0), (-5, -5.0), (True, 1.0)]

    def refused(self, tier):
        r = ['1.0', b'1', 'x', [], (), 1 << 2000, 1j]
        return r + ([1e39, -1e39, 1e300] if self.fmt == 'f' else [])

    def literal(self, v):
        return "'%r'::%s" % (v, self.name)


# -- strings -------------------------------------------------------------
PIECES = ['a', 'Z', '\xe9', '\u20ac', '\U0001f600', '\\', '"', "'", '\n', ' ', ',', '{', '}', '(', 'NULL', '\t', '\x7f', '\u0301']


class Text(Type):
    text = True

    def __init__(self, name, oid, array):
        self.name, self.oid, self.array = name, oid, array

    def values(self, tier):
        if self.name == 'json':
            yield from Jsonb.TEXTS
            return
        for n in range(3 if tier == 'quick' else 4):
            for t in itertools.product(PIECES, repeat=n):
                yield ''.join(t)
        if self.name != 'json':
            yield 'x' * 70000
            yield '\xe9' * 33000

    def send(self, v):
        return v.encode('utf-8')

    def recv(self, b):
        if b'\0' in b:
            raise Refused('0x00')
        try:
            return b.decode('utf-8')
        except UnicodeDecodeError as e:
            raise Refused(str(e))

    def refused(self, tier):
        return [1, 1.5, b'bytes', [], (), '\ud800', object]

    def literal(self, v):
        return "'%s'::%s" % (v.replace("'", "''"), self.name)


class Jsonb(Text):
    text = False
    TEXTS = ['null', 'true', '0', '-1.5', '""', '"a"', '"\xe9\u20ac"', '[]', '{}', '[1, 2]', '{"a": 1}', '{"a": {"b": [null, "x"]}}', '"' + 'y' * 40000 + '"', '"\\\\ \\""']

    def values(self, tier):
        return self.TEXTS

    def send(self, v):
        return b'\1' + v.encode('utf-8')

    def recv(self, b):
        if b[:1] != b'\1':
            raise Refused('version')
        try:
            json.loads(b[1:].decode('utf-8'))
        except ValueError as e:
            raise Refused(str(e))
        return b[1:].decode('utf-8')

    unreadable = [b'\2{}', b'\0{}']

    def refused(self, tier):
        return [1, {}, [], b'{}', '\ud800']


class Bytea(Type):
    name, oid, array = 'bytea', 17, 1001

    def values(self, tier):
        al = (0, 1, 0x27, 0x5c, 0x7f, 0x80, 0xff)
        for n in range(4):
            for t in itertools.product(al, repeat=n):
                yield bytes(t)
        yield bytes(range(256))
        yield b'\xff\0' * 40000

    def send(self, v):
        return v

    def recv(self, b):
        return b

    def inputs(self, tier):
        for v in (b'', b'\0\xff', b'abc'):
            yield bytearray(v), v
            yield memoryview(v), v

    def refused(self, tier):
        return [0, 1, 5, -1, True, False, 'str', '', 1.5, None.__class__, [256], ['a']]

    def literal(self, v):
        return "'\\x%s'::bytea" % v.hex()


class Char(Bytea):
    name, oid, array = '"char"', 18, 1002

    def values(self, tier):
        return [bytes((i,)) for i in range(256)]

    def recv(self, b):
        if len(b) != 1:
            raise Refused('size')
        return b

    def inputs(self, tier):
        return [(bytearray(b'x'), b'x')]

    def refused(self, tier):
        return [0, 1, True, 'x', 'ab', b'', b'ab', 1.5]

    def literal(self, v):
        return "'\\%03o'::\"char\"" % v[0] if v[0] >= 128 else ("'%s'::\"char\"" % v.decode().replace("'", "''") if v[0] else "''::\"char\"")


# -- bits ----------------------------------------------------------------
class Bits(Type):
    def __init__(self, name, oid, array, cls, lengths):
        self.name, self.oid, self.array, self.cls, self.lengths = name, oid, array, cls, lengths

    def strings(self, tier):
        top = 9 if tier == 'quick' else 13
        for n in range(0 if self.name == 'varbit' else 1, top + 1):
            for t in itertools.product('01', repeat=n):
                yield ''.join(t)
        for n in (14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000):
            for s in ('0' * n, '1' * n, ('01' * n)[:n], '1' + '0' * (n - 1), '0' * (n - 1) + '1'):
                yield s

    def values(self, tier):
        return (self.cls(s) for s in self.strings(tier))

    def canon(self, v):
        if not isinstance(v, self.cls):
            return ('not bits', type(v), v)
        return (v.bits, bytes(v.data))

    def send(self, v):
        s = self.text_of(v)
        n = len(s)
        return struct.pack('!l', n) + int((s + '0' * (-n % 8)) or '0', 2).to_bytes((n + 7) // 8, 'big')

    def text_of(self, v):
        return ''.join('1' if v.data[i // 8] & (0x80 >> i % 8) else '0' for i in range(v.bits))

    def recv(self, b):
        if len(b) < 4:
            raise Refused('short')
        n, = struct.unpack_from('!l', b)
        if n < 0 or len(b) != 4 + (n + 7) // 8:
            raise Refused('size')
        return self.cls(''.join('1' if b[4 + i // 8] & (0x80 >> i % 8) else '0' for i in range(n)))

    def refused(self, tier):
        return [1, '0101x', 1.5, [], None.__class__]

    def literal(self, v):
        s = self.text_of(v)
        return "B'%s'::varbit" % s if self.name == 'varbit' else "B'%s'::bit(%d)" % (s, len(s))


# -- network -------------------------------------------------------------
class Mac(Type):
    name, oid, array = 'macaddr', 829, 1040

    def values(self, tier):
        al = (0, 1, 0x0f, 0x10, 0x80, 0xff)
        for i in range(6):
            for j in range(6):
                for a in al:
                    for b in al:
                        p = [0xa5] * 6
                        p[i], p[j] = a, b
                        yield '%02x:%02x:%02x:%02x:%02x:%02x' % tuple(p)

    def send(self, v):
        return bytes(int(x, 16) for x in v.split(':'))

    def recv(self, b):
        if len(b) != 6:
            raise Refused('size')
        return '%02x:%02x:%02x:%02x:%02x:%02x' % tuple(b)

    def inputs(self, tier):
        for p in ((8, 0, 0x2b, 1, 2, 3), (255,) * 6, (0,) * 6, (0xab, 0xcd, 0xef, 0x12, 0x34, 0x56)):
            v = '%02x:%02x:%02x:%02x:%02x:%02x' % p
            h = v.replace(':', '')
            for s in (v, v.replace(':', '-'), h[:6] + ':' + h[6:], h[:6] + '-' + h[6:], '.'.join((h[:4], h[4:8], h[8:])), h, '%x:%x:%x:%x:%x:%x' % p):
                yield s, v
                yield s.upper(), v

    def refused(self, tier):
        return ['', 'zz', '08:00:2b:01:02', '08:00:2b:01:02:03:04', '08:00:2b:01:02:100', '08:00:2b:01:02:-1', '08:00:2b:01:02:0x', '08:00:2b:01:02:', ':00:2b:01:02:03',
                '08002b01020', '08002b0102', '08002b010203ff', '080000b:010203', '08002b:01020', '0800.2b01.02', '0800.2b01.02034', '0800.2b01', ' 8:00:2b:01:02:03', '+8:00:2b:01:02:03',
                '0_8:00:2b:01:02:03', '\u0661\u0661:00:2b:01:02:03', 5, b'\0' * 6, None.__class__][:-1]

    lenient = ('08002b01020', '08002b:01020', '0800.2b01.02')


class Inet(Type):
    name, oid, array = 'inet', 869, 1041
    V4 = ('0.0.0.0', '0.0.0.1', '10.0.0.1', '127.0.0.1', '192.168.1.0', '255.255.255.255', '1.2.3.4', '128.0.0.0')
    V6 = ('::', '::1', 'fe80::1', 'ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff', '::ffff:1.2.3.4', '2001:db8::', '8000::', '1:2:3:4:5:6:7:8')

    def values(self, tier):
        for s in self.V4:
            yield ipaddress.IPv4Address(s)
            for p in range(32):
                yield ipaddress.IPv4Interface('%s/%d' % (s, p))
        for s in self.V6:
            yield ipaddress.IPv6Address(s)
            for p in range(0, 128):
                yield ipaddress.IPv6Interface('%s/%d' % (s, p))

    def parts(self, v):
        if isinstance(v, (ipaddress.IPv4Interface, ipaddress.IPv6Interface)):
            return v.version, v.network.prefixlen, v.packed
        return v.version, v.max_prefixlen, v.packed

    def send(self, v):
        ver, bits, packed = self.parts(v)
        return bytes((2 if ver == 4 else 3, bits, 0, len(packed))) + packed

    def fields(self, b):
        if len(b) < 4:
            raise Refused('short')
        fam, bits, flag, n = b[:4]
        size = {2: 4, 3: 16}.get(fam)
        if size is None or bits > size * 8 or n != size or len(b) != 4 + n:
            raise Refused('inet %r' % (b,))
        return bits, size * 8, b[4:]

    def recv(self, b):
        bits, top, packed = self.fields(b)
        a = ipaddress.ip_address(packed)
        return a if bits == top else ipaddress.ip_interface('%s/%d' % (a, bits))

    def canon(self, v):
        return (type(v), str(v))

    def inputs(self, tier):
        for s in self.V4 + self.V6:
            yield s, ipaddress.ip_address(s)
        return

    def refused(self, tier):
        return ['', 'x', '1.2.3', '1.2.3.256', '1.2.3.4.5', ':::', '1.2.3.4/33', '::/129', 'fe80::1%eth0', ipaddress.IPv6Address('fe80::1%eth0'), -1, 1 << 128, 1.5, []]

    def literal(self, v):
        return "'%s'::%s" % (v, self.name)


class Cidr(Inet):
    name, oid, array = 'cidr', 650, 651

    def values(self, tier):
        for s in self.V4 + self.V6:
            a = ipaddress.ip_address(s)
            for p in range(a.max_prefixlen + 1):
                yield ipaddress.ip_network('%s/%d' % (s, p), strict=False)

    def send(self, v):
        return bytes((2 if v.version == 4 else 3, v.prefixlen, 1, v.max_prefixlen // 8)) + v.network_address.packed

    def recv(self, b):
        bits, top, packed = self.fields(b)
        if int.from_bytes(packed, 'big') & ((1 << (top - bits)) - 1):
            raise Refused('value has bits set to right of mask')
        return ipaddress.ip_network('%s/%d' % (ipaddress.ip_address(packed), bits))

    def inputs(self, tier):
        for s in ('10.0.0.0/8', '0.0.0.0/0', '1.2.3.4', '1.2.3.4/32', '::/0', '::1', '2001:db8::/32'):
            yield s, ipaddress.ip_network(s)

    def refused(self, tier):
        return ['', 'x', '10.0.0.1/8', '1.2.3.4/33', '::1/64', '::/129', ipaddress.ip_network('fe80::%eth0/64'), 1.5, []]


# -- geometry ------------------------------------------------------------
def fkey(x):
    return tuple(fkey(y) for y in x) if isinstance(x, tuple) else (('nan' if x != x else bits_of(x)) if isinstance(x, float) else ('?', type(x), x))


class Geo(Type):
    FL = (0.0, -0.0, 1.5, -2.0, 1e308, -5e-324, 0.1, float('inf'), float('-inf'))

    def __init__(self, name, oid, array, cls):
        self.name, self.oid, self.array, self.cls = name, oid, array, cls

    def values(self, tier):
        fl = self.FL if tier == 'thorough' else self.FL[:2] + (1.5, -2.0, 0.1, 1e308, float('inf'))
        pts = [(a, b) for a in fl for b in fl]
        if self.name == 'point':
            for p in itertools.product(self.FL, repeat=2):
                yield self.cls(p)
        elif self.name == 'circle':
            for p in pts:
                for r in self.FL:
                    if r >= 0:
                        yield self.cls((p, r))
        else:
            for p in pts:
                for q in pts:
                    yield self.cls((p, q))

    def canon(self, v):
        if self.name == 'box' and isinstance(v, tuple):
            # which of two zeros is the higher one is not said
            v = tuple(tuple(x + 0.0 for x in p) for p in v) + (type(v[0]),)
            return v
        return (type(v), fkey(v))

    def flat(self, v):
        if self.name == 'point':
            return v
        if self.name == 'circle':
            return tuple(v[0]) + (v[1],)
        return tuple(v[0]) + tuple(v[1])

    def send(self, v):
        f = self.flat(v)
        return struct.pack('!%dd' % len(f), *f)

    def recv(self, b):
        n = {'point': 2, 'circle': 3}.get(self.name, 4)
        f = need(b, '%dd' % n)
        if self.name == 'point':
            return self.cls(f)
        if self.name == 'circle':
            if f[2] < 0:
                raise Refused('radius')
            return self.cls((f[:2], f[2]))
        if self.name == 'box':
            hx, lx = (f[2], f[0]) if f[0] < f[2] else (f[0], f[2])
            hy, ly = (f[3], f[1]) if f[1] < f[3] else (f[1], f[3])
            f = (hx, hy, lx, ly)
        return self.cls((f[:2], f[2:]))

    def inputs(self, tier):
        if self.name == 'point':
            return [((1, 2), self.cls((1.0, 2.0)))]
        if self.name == 'circle':
            return [(((1, 2), 3), self.cls(((1, 2), 3)))]
        return [(((3, 4), (1, 2)), self.cls(((3, 4), (1, 2)))), (((1, 4), (3, 2)), self.cls(((1, 4), (3, 2))) if self.name == 'lseg' else self.cls(((3, 4), (1, 2))))]

    def refused(self, tier):
        if self.name == 'point':
            return [(1,), (1, 2, 3), 'ab', 5, ('1', '2')]
        if self.name == 'circle':
            return [((1, 2), -1.0), ((1,), 1), 5, ('a', 1)]
        return [((1, 2),), ((1,), (2,)), 5, ('ab', 'cd')]

    def literal(self, v):
        f = ['Infinity' if x == float('inf') else '-Infinity' if x == float('-inf') else repr(x) for x in self.flat(v)]
        fmt = {'point': '(%s,%s)', 'lseg': '[(%s,%s),(%s,%s)]', 'box': '((%s,%s),(%s,%s))', 'circle': '<(%s,%s),%s>'}[self.name]
        return "'%s'::%s" % (fmt % tuple(f), self.name)


def decimal_text(n):
    "str(n) without the interpreter's limit"
    if n < 10 ** 4000:
        return str(n)
    k = n.bit_length() * 3 // 20
    hi, lo = divmod(n, 10 ** k)
    return decimal_text(hi) + decimal_text(lo).rjust(k, '0')


def from_text(s):
    return int(s) if len(s) <= 4000 else from_text(s[:-4000]) * 10 ** 4000 + int(s[-4000:])


# -- numeric -------------------------------------------------------------
class Numeric(Type):
    name, oid, array = 'numeric', 1700, 1231

    def values(self, tier):
        seen = set()

        def out(sg, digits, exp):
            v = D((sg, tuple(int(c) for c in digits), exp))
            k = v.as_tuple()
            if k in seen:
                return ()
            seen.add(k)
            return (v,)
        top = 5 if tier == 'quick' else 7
        for n in range(1, top + 1):
            for t in itertools.product('019', repeat=n):
                if n > 1 and t[0] == '0':
                    continue
                for e in range(-10, 11) if n < top else range(-9, 6):
                    for sg in (0, 1):
                        yield from out(sg, t, e)
        groups = ('0000', '0001', '1000', '9999', '0120')
        for n in range(1, 4 if tier == 'quick' else 6):
            for t in itertools.product(groups, repeat=n):
                for e in (-17, -16, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8):
                    yield from out(0, (''.join(t)).lstrip('0') or '0', e)
        for e in (-1000, -999, -16383, 1000, 1001, 131000):
            for dg in ('1', '12345', '10000'):
                yield from out(1, dg, e)
        yield from out(0, '7' * 2001, -1000)
        yield from out(0, '7' * 2002, 3)
        yield D('NaN')
        yield D('Infinity')
        yield D('-Infinity')

    def canon(self, v):
        "value and display scale; the server has no negative zero and no positive exponents"
        if not isinstance(v, D):
            return ('not numeric', type(v), v)
        if not v.is_finite():
            return str(v)
        t = v.as_tuple()
        n = from_text(''.join(map(str, t.digits)))
        return (-n if t.sign else n) * 10 ** max(0, t.exponent), max(0, -t.exponent)

    def send(self, v):
        c = self.canon(v)
        if isinstance(c, str):
            return struct.pack('!hhHH', 0, 0, {'NaN': 0xc000, 'Infinity': 0xd000, '-Infinity': 0xf000}[c], 0 if c == 'NaN' else 0x20)
        n, scale = c
        sign = 0x4000 if n < 0 else 0
        n = abs(n)
        pad = -scale % 4
        n *= 10 ** pad
        g = []
        w = -((scale + pad) // 4)
        while n:
            n, r = divmod(n, 10000)
            if not g and not r:
                w += 1
                continue
            g.append(r)
        weight = len(g) + w - 1 if g else 0
        g.reverse()
        return struct.pack('!hhHH%dh' % len(g), len(g), weight, sign, scale, *g)

    def recv(self, b):
        if len(b) < 8 or len(b) % 2:
            raise Refused('size')
        nd, weight, sign, scale = struct.unpack_from('!HhHH', b)
        if sign in (0xc000, 0xd000, 0xf000):
            return D({0xc000: 'NaN', 0xd000: 'Infinity', 0xf000: '-Infinity'}[sign])
        if sign not in (0, 0x4000):
            raise Refused('sign')
        if scale & 0x3fff != scale:
            raise Refused('scale')
        if len(b) != 8 + 2 * nd:
            raise Refused('digits')
        g = struct.unpack_from('!%dh' % nd, b, 8)
        if any(not 0 <= x < 10000 for x in g):
            raise Refused('digit')
        n = Fraction(0)
        for i, x in enumerate(g):
            n += x * Fraction(10000) ** (weight - i)
        n = n * 10 ** scale
        n = n.numerator // n.denominator         # trunc_var()
        digits = tuple(int(c) for c in decimal_text(n))
        if n and weight + 1 > 32768:
            raise Refused('overflow')
        return D((1 if sign and n else 0, digits, -scale))

    def expect(self, v):
        "what is read back for v: no negative zero, no positive exponent"
        return v

    def inputs(self, tier):
        for s in ('0', '1', '-1.50', '12345678901234567890.5', '1e3'):
            yield s, D(s)
        yield 5, D(5)
        yield -70000, D(-70000)
        yield 0.5, D('0.5')

    def refused(self, tier):
        return ['', 'abc', '1.2.3', D('sNaN'), D('1e600000'), b'1', {}, None.__class__]

    def literal(self, v):
        return "'%s'::numeric" % (format(v, 'f') if v.is_finite() else v)


# -- dates and times -----------------------------------------------------
US = 1000000
EPOCH = dt.datetime(2000, 1, 1)


class Shift(dt.tzinfo):
    "a time zone of the standard library's interface with a daylight saving of its own"
    def __init__(self, minutes):
        self.d = dt.timedelta(minutes=minutes)

    def utcoffset(self, x):
        return self.d + self.dst(x)

    def dst(self, x):
        return dt.timedelta(hours=1) if x is not None and 4 <= x.month < 10 else dt.timedelta(0)

    def tzname(self, x):
        return 'S'


class Date(Type):
    name, oid, array = 'date', 1082, 1182
    unreadable = [struct.pack('!l', x) for x in (-730120, -730121, 2921940, 2921941, -2451507, 2145031948)]

    def values(self, tier):
        ys = (1, 2, 4, 100, 400, 1582, 1599, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2038, 2100, 9999)
        s = set()
        for y in ys:
            for m in range(1, 13):
                for d in (1, 2, 27, 28, 29, 30, 31):
                    try:
                        s.add(dt.date(y, m, d))
                    except ValueError:
                        pass
        if tier == 'thorough':
            s |= {dt.date.fromordinal(i) for i in range(1, dt.date.max.toordinal() + 1, 3)}
        s -= {dt.date.max, dt.date.min}     # these stand for the infinities
        return sorted(s)

    INF = ((dt.date.max, 2 ** 31 - 1), (dt.date.min, -2 ** 31))

    def send(self, v):
        for x, n in self.INF:
            if v == x:
                return struct.pack('!l', n)
        return struct.pack('!l', (v - EPOCH.date()).days)

    def recv(self, b):
        n, = need(b, 'l')
        for x, k in self.INF:
            if n == k:
                return x
        if not -2451545 <= n < 2145031949:
            raise Refused('range')
        try:
            return EPOCH.date() + dt.timedelta(n)
        except OverflowError:
            raise Refused('not a Python date')

    def inputs(self, tier):
        return [('infinity', dt.date.max), ('-infinity', dt.date.min), (dt.date.max, dt.date.max), (dt.date.min, dt.date.min)]

    def refused(self, tier):
        return ['yesterday', '', 5, 1.5, dt.time(1), (2000, 1, 1), b'infinity']


def times(tier):
    hs = (0, 1, 11, 12, 13, 22, 23)
    ms = (0, 1, 30, 59)
    ss = (0, 1, 59)
    us = (0, 1, 2, 3, 10, 499999, 500000, 999998, 999999, 123456, 100000)
    if tier == 'thorough':
        hs, ms, ss = range(24), range(0, 60, 1), (0, 1, 30, 59)
    for h in hs:
        for m in ms:
            for s in ss:
                for u in us:
                    yield dt.time(h, m, s, u)


def us_of(t):
    return ((t.hour * 60 + t.minute) * 60 + t.second) * US + t.microsecond


def as_time(n):
    if not 0 <= n <= 86400 * US:
        raise Refused('range')
    if n == 86400 * US:
        raise Refused('24:00:00 is not a Python time')
    return (dt.datetime.min + dt.timedelta(microseconds=n)).time()


class Time(Type):
    name, oid, array = 'time', 1083, 1183
    unreadable = [struct.pack('!q', 86400 * US)]
    float_times = False

    def values(self, tier):
        return times(tier)

    def pack(self, us):
        return struct.pack('!d', us / 1e6) if self.float_times else struct.pack('!q', us)

    def unpack(self, b):
        if self.float_times:
            f, = need(b, 'd')
            return round(f * US)
        return need(b, 'q')[0]

    def send(self, v):
        return self.pack(us_of(v))

    def recv(self, b):
        return as_time(self.unpack(b))

    def refused(self, tier):
        return ['12:00', '', 5, 1.5, dt.date(2000, 1, 1), dt.timedelta(1), (1, 2)]


OFFSETS = (0, 1, -1, 59, 60, -60, 90, -90, 3600, -3600, 19800, -19800, 45296, -45296, 57599, -57599, 50400, -43200)


class TimeTz(Time):
    name, oid, array = 'timetz', 1266, 1270
    unreadable = [struct.pack('!ql', 86400 * US, 0)]

    def __init__(self, fixed):
        self.fixed = fixed

    def values(self, tier):
        for o in OFFSETS:
            tz = self.fixed(o)
            for t in itertools.islice(times(tier), 0, None, 1 if tier == 'thorough' else 7):
                yield t.replace(tzinfo=tz)

    def canon(self, v):
        return (type(v), v.replace(tzinfo=None), v.utcoffset())

    def send(self, v):
        o = v.utcoffset()
        return self.pack(us_of(v)) + struct.pack('!l', -(o.days * 86400 + o.seconds))

    def recv(self, b):
        if len(b) != 12:
            raise Refused('size')
        z, = struct.unpack_from('!l', b, 8)
        if not -57600 < z < 57600:
            raise Refused('zone')
        return as_time(self.unpack(b[:8])).replace(tzinfo=dt.timezone(dt.timedelta(seconds=-z)))

    def inputs(self, tier):
        for o in OFFSETS:
            for t in (dt.time(0), dt.time(23, 59, 59, 999999), dt.time(12)):
                x = t.replace(tzinfo=dt.timezone(dt.timedelta(seconds=o)))
                yield x, x

    def refused(self, tier):
        return [dt.time(12), '12:00+00', 5, dt.time(1, tzinfo=dt.timezone(dt.timedelta(microseconds=1)))]

    def literal(self, v):
        o = v.utcoffset()
        n = o.days * 86400 + o.seconds
        a = abs(n)
        return "'%s%s%02d:%02d:%02d'::timetz" % (v.replace(tzinfo=None).isoformat(), '-' if n < 0 else '+', a // 3600, a // 60 % 60, a % 60)


class Timestamp(Time):
    name, oid, array = 'timestamp', 1114, 1115
    unreadable = [struct.pack('!q', x) for x in (-63082281600 * US - 1, 252455616000 * US, -211813488000 * US, 9223371331199999999)]

    def values(self, tier):
        days = (dt.date(1, 1, 1), dt.date(1, 1, 2), dt.date(1582, 10, 15), dt.date(1899, 12, 31), dt.date(1969, 12, 31), dt.date(1970, 1, 1), dt.date(1999, 12, 31), dt.date(2000, 1, 1), dt.date(2000, 2, 29), dt.date(2004, 12, 31), dt.date(2038, 1, 19), dt.date(9999, 12, 30), dt.date(9999, 12, 31))
        for d in days:
            for t in times(tier):
                v = dt.datetime.combine(d, t)
                if v not in (dt.datetime.min, dt.datetime.max) and self.exact(v):
                    yield v

    def exact(self, v):
        "does a double hold its microseconds?"
        return not self.float_times or abs((v - EPOCH).total_seconds()) < 2 ** 31

    def inf(self):
        return ((dt.datetime.max, struct.pack('!d', float('inf')) if self.float_times else struct.pack('!q', 2 ** 63 - 1)), (dt.datetime.min, struct.pack('!d', float('-inf')) if self.float_times else struct.pack('!q', -2 ** 63)))

    def since(self, v):
        d = v - EPOCH
        return (d.days * 86400 + d.seconds) * US + d.microseconds

    def send(self, v):
        for x, n in self.inf():
            if v == x:
                return n
        return self.pack(self.since(v))

    def recv(self, b):
        if len(b) != 8:
            raise Refused('size')
        for x, n in self.inf():
            if b == n:
                return x
        try:
            return EPOCH + dt.timedelta(microseconds=self.unpack(b))
        except OverflowError:
            raise Refused('not a Python datetime')

    def inputs(self, tier):
        return [('infinity', dt.datetime.max), ('-infinity', dt.datetime.min), (dt.datetime.max, dt.datetime.max), (dt.datetime.min, dt.datetime.min)]

    def refused(self, tier):
        return ['now', '', 5, dt.time(1), dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc), dt.date(2000, 1, 1)]

    def literal(self, v):
        return "'%s'::%s" % ('infinity' if v.replace(tzinfo=None) == dt.datetime.max else '-infinity' if v.replace(tzinfo=None) == dt.datetime.min else '%04d-%02d-%02d %s' % (v.year, v.month, v.day, v.time().isoformat()) + ('' if v.tzinfo is None else '+00'), self.name)


class TimestampTz(Timestamp):
    name, oid, array = 'timestamptz', 1184, 1185

    def __init__(self, fixed):
        self.fixed = fixed

    def values(self, tier):
        utc = dt.timezone.utc
        for v in itertools.islice(super().values(tier), 0, None, 1 if tier == 'thorough' else 3):
            yield v.replace(tzinfo=utc)

    def exact(self, v):
        return super().exact(v)

    def canon(self, v):
        if v.tzinfo is None:
            return (type(v), v)
        return (type(v), v.astimezone(dt.timezone.utc).replace(tzinfo=None), 'utc')

    def since(self, v):
        return super().since(v.astimezone(dt.timezone.utc).replace(tzinfo=None))

    def send(self, v):
        if v.tzinfo is None:
            return super().send(v)
        return self.pack(self.since(v))

    def recv(self, b):
        v = super().recv(b)
        for x, n in self.inf():
            if b == n:
                return x
        return v.replace(tzinfo=dt.timezone.utc)

    def inputs(self, tier):
        yield from super().inputs(tier)
        for o in OFFSETS:
            for base in (dt.datetime(2000, 1, 1), dt.datetime(1999, 12, 31, 23, 59, 59, 999999), dt.datetime(2004, 7, 1, 12)):
                for tz in (dt.timezone(dt.timedelta(seconds=o)), self.fixed(o)):
                    v = base.replace(tzinfo=tz)
                    yield v, v
        for m in (0, 90, -300):
            for mo in (1, 4, 9, 10):
                v = dt.datetime(2001, mo, 15, 1, 2, 3, 4, tzinfo=Shift(m))
                yield v, v

    def refused(self, tier):
        return ['now', 5, dt.time(1), dt.date(2000, 1, 1), dt.datetime(1, 1, 1, 0, 30, tzinfo=dt.timezone(dt.timedelta(hours=1)))]


class Interval(Time):
    name, oid, array = 'interval', 1186, 1187
    unreadable = []
    noday = False

    def values(self, tier):
        days = (0, 1, -1, 29, 30, 31, 365, -365, 999999999, -999999999) if not (self.float_times or self.noday) else (0, 1, -1, 30, -365, 1000)
        for d in days:
            for s in (0, 1, 59, 60, 3599, 3600, 86399):
                for u in (0, 1, 2, 3, 10, 499999, 500000, 999999, 123456):
                    yield dt.timedelta(d, s, u)

    def send(self, v):
        t = v.seconds * US + v.microseconds
        if self.noday:
            return self.pack(t + v.days * 86400 * US) + struct.pack('!l', 0)
        return self.pack(t) + struct.pack('!ll', v.days, 0)

    def recv(self, b):
        if self.noday:
            m, = need(b[8:], 'l')
            d = 0
        else:
            d, m = need(b[8:], 'll')
        if m:
            raise Refused('months')
        return dt.timedelta(d, 0, self.unpack(b[:8]))

    def others(self):
        "intervals the server sends whose time is not within a day"
        if self.noday:
            return
        for d in (-1, 0, 1, 30):
            for t in (-1, -US, 86400 * US, 86400 * US * 3 + 1, -86400 * US - 1):
                yield self.pack(t) + struct.pack('!ll', d, 0), dt.timedelta(d, 0, t)

    def refused(self, tier):
        return ['1 day', 5, dt.time(1), dt.date(2000, 1, 1), 1.5]

    def literal(self, v):
        return "'%d days %d seconds %d microseconds'::interval" % (v.days, v.seconds, v.microseconds)


class Uuid(Type):
    name, oid, array = 'uuid', 2950, 2951

    def values(self, tier):
        for i in range(16):
            for a in (0, 1, 0x7f, 0x80, 0xff):
                b = bytearray(b'\x5a' * 16)
                b[i] = a
                yield uuid.UUID(bytes=bytes(b))
        yield uuid.UUID(int=0)
        yield uuid.UUID(int=(1 << 128) - 1)

    def send(self, v):
        return v.int.to_bytes(16, 'big')

    def recv(self, b):
        if len(b) != 16:
            raise Refused('size')
        return uuid.UUID(int=int.from_bytes(b, 'big'))

    def inputs(self, tier):
        for v in self.values(tier):
            yield str(v), v
            yield v.hex, v
            yield '{%s}' % str(v).upper(), v

    def refused(self, tier):
        return ['', 'zz', '0' * 31, '0' * 33, 5, b'\0' * 16]


class Hstore(Type):
    name, oid, array = 'hstore', 90100, 0

    def values(self, tier):
        ks = ['', 'a', '\xe9', 'k' * 300, '"', '=>']
        vs = [None, '', 'v', '\u20ac', 'w' * 300]
        yield {}
        for k in ks:
            for v in vs:
                yield {k: v}
        for a, b in itertools.combinations(ks, 2):
            for v in vs:
                for w in vs:
                    yield {a: v, b: w}
        yield {'k%d' % i: None if i % 2 else str(i) for i in range(300)}

    def canon(self, v):
        return (type(v), tuple(sorted(v.items())))

    def send(self, v):
        out = [struct.pack('!l', len(v))]
        for k in sorted(v, key=lambda k: (len(k.encode()), k.encode())):
            b = k.encode()
            out.append(struct.pack('!l', len(b)) + b)
            if v[k] is None:
                out.append(struct.pack('!l', -1))
            else:
                b = v[k].encode()
                out.append(struct.pack('!l', len(b)) + b)
        return b''.join(out)

    def recv(self, b):
        n, = struct.unpack_from('!l', b)
        p = 4
        r = {}
        for i in range(n):
            kv = []
            for j in 0, 1:
                l, = struct.unpack_from('!l', b, p)
                p += 4
                if l < 0:
                    if not j:
                        raise Refused('null key')
                    kv.append(None)
                    continue
                if p + l > len(b):
                    raise Refused('short')
                kv.append(b[p:p + l].decode())
                p += l
            r.setdefault(*kv)
        if p != len(b):
            raise Refused('extra')
        return r

    def inputs(self, tier):
        return [([('a', '1'), ('b', None)], {'a': '1', 'b': None})]

    def refused(self, tier):
        return [{'a': 5}, {5: 'a'}, {None: 'a'}, 5, [('a',)], 'ab', {'a': b'x'}]

    def literal(self, v):
        q = lambda s: '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')
        return "'%s'::hstore" % ','.join('%s=>%s' % (q(k), 'NULL' if x is None else q(x)) for k, x in v.items()).replace("'", "''")


# -- arrays and records (raw) --------------------------------------------
def send_array(elemoid, dims, lowers, elems):
    "elems: serialised elements or None"
    b = struct.pack('!llL', len(dims), 1 if any(e is None for e in elems) else 0, elemoid)
    for d, l in zip(dims, lowers):
        b += struct.pack('!ll', d, l)
    for e in elems:
        b += struct.pack('!l', -1) if e is None else struct.pack('!l', len(e)) + e
    return b


def recv_array(b, elemoid):
    "-> (dims, lowers, serialised elements)"
    try:
        nd, flags, oid = struct.unpack_from('!llL', b)
        if not 0 <= nd <= 6 or flags not in (0, 1):
            raise Refused('array header')
        if oid != elemoid:
            raise Refused('binary data has array element type %d instead of expected %d' % (oid, elemoid))
        p = 12
        dims, lowers = [], []
        total = 1 if nd else 0
        for i in range(nd):
            d, l = struct.unpack_from('!ll', b, p)
            p += 8
            if d < 0 or l + d - 1 > 2 ** 31 - 1:
                raise Refused('dimension')
            dims.append(d)
            lowers.append(l)
            total *= d
        if total == 0:
            dims, lowers = [], []
        out = []
        for i in range(total):
            l, = struct.unpack_from('!l', b, p)
            p += 4
            if l == -1:
                out.append(None)
            else:
                if l < 0 or p + l > len(b):
                    raise Refused('insufficient data left in message')
                out.append(b[p:p + l])
                p += l
    except struct.error as e:
        raise Refused(str(e))
    if p != len(b):
        raise Refused('extra data')
    return dims, lowers, out


def send_record(cols):
    "cols: (type oid, serialised value or None)"
    b = struct.pack('!l', len(cols))
    for o, v in cols:
        b += struct.pack('!L', o) + (struct.pack('!l', -1) if v is None else struct.pack('!l', len(v)) + v)
    return b


def recv_record(b, oids):
    try:
        n, = struct.unpack_from('!l', b)
        if n != len(oids):
            raise Refused('wrong number of columns')
        p = 4
        out = []
        for o in oids:
            t, l = struct.unpack_from('!Ll', b, p)
            p += 8
            if t != o:
                raise Refused('wrong data type')
            if l == -1:
                out.append(None)
            else:
                if l < 0 or p + l > len(b):
                    raise Refused('short')
                out.append(b[p:p + l])
                p += l
    except struct.error as e:
        raise Refused(str(e))
    if p != len(b):
        raise Refused('extra')
    return out


def catalogue():
    "every type, with the classes of the library under test"
    from postgresql.types.bitwise import Varbit
    from postgresql.types import geometry as g
    from postgresql.python.datetime import FixedOffset
    return [
        Bool(),
        Int('int2', 21, 1005, 'h', -2 ** 15, 2 ** 15 - 1),
        Int('int4', 23, 1007, 'l', -2 ** 31, 2 ** 31 - 1),
        Int('int8', 20, 1016, 'q', -2 ** 63, 2 ** 63 - 1),
        Int('oid', 26, 1028, 'L', 0, 2 ** 32 - 1),
        Int('xid', 28, 1011, 'L', 0, 2 ** 32 - 1),
        Int('cid', 29, 1012, 'L', 0, 2 ** 32 - 1),
        Tid(),
        Float('float4', 700, 1021, 'f', 8, 23),
        Float('float8', 701, 1022, 'd', 11, 52),
        Text('text', 25, 1009), Text('varchar', 1043, 1015), Text('json', 114, 199),
        Jsonb('jsonb', 3802, 3807),
        Bytea(), Char(),
        Bits('varbit', 1562, 1563, Varbit, None), Bits('bit', 1560, 1561, Varbit, None),
        Mac(), Inet(), Cidr(),
        Geo('point', 600, 1017, g.Point), Geo('lseg', 601, 1018, g.Lseg), Geo('box', 603, 1020, g.Box), Geo('circle', 718, 719, g.Circle),
        Numeric(),
        Date(), Time(), TimeTz(FixedOffset), Timestamp(), TimestampTz(FixedOffset), Interval(),
        Uuid(),
    ]
