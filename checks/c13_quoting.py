"""
C13 - quoting is reversible and splitting never cuts inside of quotes: every
text to a length over small alphabets, against an independent reader of the
server's lexical rules.
"""
import itertools

PROPERTY = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of bounded texts against a reference reader of the lexical rules'
RULE = 'an execution is one text (or list of names) given to the function'
ASSUMPTIONS = [
    'the server reads strings with standard_conforming_strings on',
    'comments are not quotes: the functions know none',
    'texts the server cannot read at all only have to be put together again',
]


def tasks(tier):
    T = []
    n = 8
    for i in range(n):
        T += [('quote', 'c', {'i': i, 'n': n}), ('names', 'c', {'i': i, 'n': n}),
              ('using', 'c', {'i': i, 'n': n}), ('raw', 'c', {'i': i, 'n': n})]
        for a in range(len(ALPHABETS)):
            T.append(('split', 'c', {'i': i, 'n': n, 'a': a}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def texts(alphabet, length, i, n):
    j = 0
    for k in range(length + 1):
        for t in itertools.product(alphabet, repeat=k):
            j += 1
            if j % n == i:
                yield ''.join(t)


# ---------------------------------------------------------------------------
# the reference: what the server reads

def word_start(c):
    return c.isalpha() or c == '_' or (ord(c) > 127 and not c.isspace())


def word_part(c):
    return word_start(c) or c.isdigit() or c == '$'


def lex(t):
    """
    [(kind, start, end, inner start, inner end, closed)] of the quoted parts,
    and whether the rest is something the server reads.
    """
    parts, sane = [], True
    i = 0
    while i < len(t):
        c = t[i]
        if c in '\'"' or c in 'eE' and t[i + 1:i + 2] == "'":
            back = c in 'eE'
            j = i + 1 + back
            q = t[j - 1]
            inner = j
            closed = False
            while j < len(t):
                if back and t[j] == '\\':
                    j += 2
                elif t[j] == q:
                    if t[j + 1:j + 2] == q:
                        j += 2
                    else:
                        closed = True
                        break
                else:
                    j += 1
            if closed:
                parts.append((t[i:inner], i, j + 1, inner, j, True))
                i = j + 1
            else:
                parts.append((t[i:inner], i, len(t), inner, len(t), False))
                return parts, sane
        elif word_start(c):
            while i < len(t) and word_part(t[i]):
                i += 1
        elif c == '$':
            j = i + 1
            if j < len(t) and word_start(t[j]):
                while j < len(t) and word_part(t[j]) and t[j] != '$':
                    j += 1
            if t[j:j + 1] == '$':
                tag = t[i:j + 1]
                k = t.find(tag, j + 1)
                if k < 0:
                    parts.append((tag, i, len(t), j + 1, len(t), False))
                    return parts, sane
                parts.append((tag, i, k + len(tag), j + 1, k, True))
                i = k + len(tag)
            else:
                if t[i + 1:i + 2].isdigit():
                    i += 1
                    while i < len(t) and t[i].isdigit():
                        i += 1
                    if i < len(t) and word_start(t[i]):
                        sane = False        # junk after a parameter
                else:
                    sane = False
                    i += 1
        elif c.isdigit():
            while i < len(t) and t[i].isdigit():
                i += 1
            if i < len(t) and word_start(t[i]):
                sane = False                # junk after a number
        else:
            i += 1
    return parts, sane


def value(part, t):
    kind, s, e, a, b, closed = part
    x = t[a:b]
    if kind in '\'"':
        return x.replace(kind * 2, kind)
    return x


def expected(t):
    parts, sane = lex(t)
    out = []
    last = 0
    for kind, s, e, a, b, closed in parts:
        out.append(t[last:s])
        out.append((kind, t[a:b]))
        last = e
        if not closed:
            return out, sane
    out.append(t[last:])
    return out, sane


def cut(t, sep):
    "the statements of a text"
    parts, sane = lex(t)
    inside = [False] * len(t)
    for p in parts:
        for i in range(p[1], p[2]):
            inside[i] = True
    out = ['']
    for c, q in zip(t, inside):
        if c == sep and not q:
            out.append('')
        else:
            out[-1] += c
    return out


# ---------------------------------------------------------------------------

QUOTE = '\'"\\$.;aA0_ \né%'


def t_quote(R, i, n):
    from postgresql import string as S
    for t in texts(QUOTE, 4 if R.tier == 'quick' else 5, i, n):
        if not R.case(t):
            continue
        with R.guarded('quote', 10):
            for name, q, kind in (
                ('quote_literal', S.quote_literal(t), "'"),
                ('quote_ident', S.quote_ident(t), '"'),
                ('escape_literal', "'" + S.escape_literal(t) + "'", "'"),
                ('escape_ident', '"' + S.escape_ident(t) + '"', '"'),
            ):
                for before, after in (('', ''), ('SELECT ', ' x'), ('(', ')'), (';', ';')):
                    w = before + q + after
                    parts, sane = lex(w)
                    ok = len(parts) == 1 and parts[0][1:3] == (len(before), len(before) + len(q))
                    ok = ok and parts[0][0] == kind and parts[0][5] and value(parts[0], w) == t
                    R.check(ok, 'quote:' + name, lambda: '%r -> %r' % (t, q))
            q = S.quote_ident_if_needed(t)
            R.check(read_ident(q) == t, 'quote:quote_ident_if_needed', lambda: '%r -> %r' % (t, q))
            R.trans(18)
            R.state(tuple(sorted(set(t) & set('\'"\\'))) + (len(t), q[:1] == '"'))
            R.outcome((q == t, len(q) - len(t)))


def read_ident(q):
    "the name the server takes the text for; None if it is not one"
    if q.startswith('"'):
        p, sane = lex(q)
        if len(p) == 1 and p[0][1:3] == (0, len(q)) and p[0][5] and p[0][0] == '"':
            return value(p[0], q)
        return None
    if not q or not word_start(q[0]) or not all(map(word_part, q)):
        return None
    # the server folds these only
    return ''.join(c.lower() if c < '\x80' else c for c in q)


KEYWORDS = 'all and any as case check column create default desc distinct do else end except false for foreign ' \
    'from grant group having in into limit not null offset on or order primary references select table then to ' \
    'true union unique user using when where with'.split()


def t_names(R, i, n):
    from postgresql import string as S
    if i == 0 and R.case('keywords'):
        with R.guarded('names', 10):
            bad = [k for k in KEYWORDS if S.quote_ident_if_needed(k) == k]
            R.check(not bad, 'names:keywords', 'not quoted: %r' % bad)
    parts = list(texts('".aA é\'', 2, 0, 1)) + ['a"b"c', '"""', 'a.b', '. .', 'a b c', ' a ', '\n', '\t"', '$a', '9a', 'a9', 'a$']
    parts = [p for p in parts if p]
    j = 0
    for k in (1, 2) if R.tier == 'quick' else (1, 2, 3):
        for names in itertools.product(parts, repeat=k):
            j += 1
            if j % n != i or not R.case(names):
                continue
            with R.guarded('names', 10):
                want = list(names)
                q = S.qname(*names)
                R.check(S.split_qname(q) == want, 'names:qname', lambda: repr((want, q)))
                for sep, f in (('.', S.split_qname), (',', S.split_ident), (' . ', S.split_qname), (', ', S.split_ident)):
                    w = sep.join(S.quote_ident(x) for x in names)
                    R.check(f(w) == want, 'names:split', lambda: repr((w, f(w))))
                    p, sane = lex(w)
                    R.check([value(x, w) for x in p] == want, 'names:read', lambda: repr(w))
                w = S.qname_if_needed(*names)
                got = []
                for x in cut(w, '.'):
                    got.append(read_ident(x))
                R.check(got == want, 'names:qname_if_needed', lambda: repr((want, w)))
                # (names that are not ASCII: split_qname folds them, the server does not)
                if all(x.isascii() for x in names):
                    R.check(S.split_qname(w) == want, 'names:split_if_needed', lambda: repr((want, w)))
                R.trans(6)
                R.state((len(q), k, w == q))
                R.outcome(len(w))


def t_raw(R, i, n):
    "lists of names as a user writes them: read right, or refused"
    from postgresql import string as S
    for t in texts('".aA b', 7 if R.tier == 'quick' else 9, i, n):
        for sep, f in (('.', S.split_qname), (',', S.split_ident)):
            w = t.replace('.', sep)
            if not R.case([w]):
                continue
            with R.guarded('raw', 10):
                want = []
                for x in cut(w, sep):
                    want.append(read_ident(x.strip()))
                try:
                    got = f(w)
                except ValueError:
                    got = None
                R.outcome((None in want, got and len(got)))
                R.state(tuple(want) if None not in want else None)
                R.trans()
                if None in want:
                    R.check(got is None, 'raw:accepted', lambda: '%r -> %r' % (w, got))
                else:
                    R.check(got == want, 'raw:wrong', lambda: '%r -> %r, not %r' % (w, got, want))


def t_using(R, i, n):
    from postgresql import string as S
    L = 7 if R.tier == 'quick' else 9
    for quote, sep in (('"', '.'), ("'", ' '), ('"', '::'), ("'", ', ')):
        for t in texts(('"', sep, 'a', ':' if len(sep) > 1 else 'b'), L, i, n):
            t = t.replace('"', quote)
            for m in (-1, 1, 2):
                if not R.case([quote, sep, t, m]):
                    continue
                with R.guarded('using', 10):
                    got = S.split_using(t, quote, sep=sep, maxsplit=m)
                    want = []
                    inside = False
                    last = k = 0
                    while k < len(t):
                        if t[k] == quote:
                            inside = not inside
                            k += 1
                        elif not inside and t.startswith(sep, k) and len(want) != m:
                            want.append(t[last:k])
                            k = last = k + len(sep)
                        else:
                            k += 1
                    want.append(t[last:])
                    R.check(got == want, 'using', lambda: '%r by %r, at most %d -> %r, not %r' % (t, sep, m, got, want))
                    R.check(sep.join(got) == t, 'using:join', lambda: repr((t, got)))
                    R.trans(len(got))
                    R.state(tuple(got))
                    R.outcome(len(got))


ALPHABETS = [
    ("'\"\\$Ea; \n", 6, 7),
    ("'\\E;e", 8, 10),
    ("$a;'\n", 8, 10),
    ("$a1;", 9, 11),
    ("\"'a;", 9, 11),
    (["'", '"', 'E\'', '$$', '$a$', '\\', ';', '\n', 'a'], 6, 7),
]


def t_split(R, i, n, a):
    from postgresql import string as S
    alphabet, quick, thorough = ALPHABETS[a]
    for t in texts(alphabet, quick if R.tier == 'quick' else thorough, i, n):
        if not R.case(t):
            continue
        with R.guarded('split', 10):
            want, sane = expected(t)
            got = list(S.split(t))
            R.check(S.unsplit(got) == t, 'split:unsplit', lambda: '%r -> %r -> %r' % (t, got, S.unsplit(got)))
            R.check(S.unsplit(iter(got)) == t, 'split:unsplit-iterator', lambda: repr(t))
            if sane:
                R.check(got == want, 'split:parts', lambda: '%r -> %r, not %r' % (t, got, want))
            for sep in (';',) if i % 2 else (';', 'a'):
                pieces = list(S.split_sql_str(t, sep=sep))
                R.check(sep.join(pieces) == t, 'split:sql-join', lambda: '%r -> %r' % (t, pieces))
                if sane:
                    R.check(pieces == cut(t, sep), 'split:sql', lambda: '%r -> %r, not %r' % (t, pieces, cut(t, sep)))
                    deep = list(S.split_sql(t, sep=sep))
                    R.check([S.unsplit(x) for x in deep] == pieces, 'split:sql-parts', lambda: '%r -> %r' % (t, deep))
                    flat = [p for x in deep for p in x if isinstance(p, tuple)]
                    R.check(flat == [p for p in want if isinstance(p, tuple)], 'split:sql-quotes', lambda: '%r -> %r' % (t, deep))
            R.trans(len(got))
            R.state(tuple(p[0] if isinstance(p, tuple) else len(p) for p in got))
            R.outcome((len(got), len(pieces), sane))
