"""
C08 - transaction blocks: every program of nested blocks up to a size, and
every short sequence of explicit calls, against an interpreter of what blocks
mean.

A program is a list of items: a letter, or (kind, [items]) for a block.
  i  insert a new row          I  insert through a prepared statement
  f  a statement fails         h  it fails and the program handles the error
  u  the program raises        v  it raises and handles it itself
  d  insert a row that violates a deferred constraint
  p  read the first part of a result whose rest cannot be produced
  s  read the first part of a result
  x  the same query failing inside a nested, handled block is ('t', ...)
  'b' block: exceptions pass; 't' block: exceptions leaving it are handled
"""
import itertools

from mc import core, scripts as S, wire

PROPERTY = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of block programs and call sequences, differential against a reference interpreter'
RULE = 'an execution is one program of at most n items in nested blocks, or one sequence of explicit calls'
ASSUMPTIONS = ['the server is mc.pgmodel', 'exceptions that leave a block derive from Exception', 'the program does not send transaction commands of its own']

LEAVES = 'ifhudps'
FEW = 'ifup'


def forests(n, leaves, depth):
    "every list of items with n nodes in all, nesting at most `depth`"
    if n == 0:
        yield []
        return
    for l in leaves:
        for rest in forests(n - 1, leaves, depth):
            yield [l] + rest
    if depth:
        for k in range(0, n):
            for body in forests(k, leaves, depth - 1):
                for rest in forests(n - 1 - k, leaves, depth):
                    for b in 'bt':
                        yield [(b, body)] + rest


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        shards = 12
        for i in range(shards):
            T.append(('blocks', v, {'i': i, 'n': shards}))
        for i in range(8):
            T.append(('calls', v, {'i': i, 'n': 8}))
            if v == 'c' or tier != 'quick':
                T.append(('nests', v, {'i': i, 'n': 8}))
        T.append(('modes', v, {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Boom(Exception):
    pass


class Err(Exception):
    "the reference's error"

    def __init__(self, code):
        self.code = code


class Ref:
    "what the program means"

    def __init__(self):
        self.rows, self.bad = [], []
        self.state = 'I'
        self.pending = None
        self.n = 0
        self.events = []

    def settle(self):
        "what is still running comes to its end before anything else"
        p, self.pending = self.pending, None
        if p and self.state == 'T':
            self.state = 'E'
            raise Err('22012')

    def statement(self, code=None, effect=None):
        self.settle()
        if self.state == 'E':
            raise Err('25P02')
        if code:
            if self.state == 'T':
                self.state = 'E'
            raise Err(code)
        if effect:
            effect()

    def leaf(self, k):
        if k in 'iI':
            self.n += 1
            n = self.n
            self.statement(effect=lambda: self.rows.append(n))
        elif k == 'f':
            self.statement('22012')
        elif k == 'h':
            try:
                self.statement('22012')
            except Err as e:
                self.events.append(e.code)
        elif k == 'u':
            raise Boom()
        elif k == 'd':
            def add():
                if self.state == 'I':
                    raise Err('23505')
                self.bad.append(1)
            self.statement(effect=add)
        elif k in 'ps':
            # outside of a block everything is computed at once
            self.statement('22012' if k == 'p' and self.state == 'I' else None)
            self.events.append([1, 2] if k == 's' else [5, 10])
            self.pending = k == 'p'

    def block(self, kind, body):
        try:
            self.settle()
            if self.state == 'E':
                raise Err('25P02')
            snap = (list(self.rows), list(self.bad), self.state)
            self.state = 'T'
            try:
                self.items(body)
                failed = None
                if self.state == 'E' :
                    failed = Err('25P02')
                else:
                    self.settle()
                    if snap[2] == 'I' and self.bad:
                        failed = Err('23505')
                if failed:
                    raise failed
            except (Err, Boom):
                self.pending = None
                self.rows, self.bad, self.state = snap[0], snap[1], snap[2]
                raise
            self.state = snap[2]
        except (Err, Boom) as e:
            if kind == 'b':
                raise
            self.events.append(getattr(e, 'code', 'boom'))

    def items(self, items):
        for x in items:
            if isinstance(x, str):
                self.leaf(x)
            else:
                self.block(*x)


class Real:
    def __init__(self, db, X):
        self.db, self.X = db, X
        self.n = 0
        self.events = []
        self.keep = []
        self.xacts = []

    def leaf(self, k):
        db = self.db
        if k == 'i':
            self.n += 1
            db.execute('INSERT INTO mct VALUES (%d)' % self.n)
        elif k == 'I':
            self.n += 1
            db.query(S.INSP, self.n)
        elif k == 'f':
            db.query(S.ERR0)
        elif k == 'h':
            try:
                db.query(S.ERR0)
            except self.X.Error as e:
                self.events.append(e.code)
        elif k == 'u':
            raise Boom()
        elif k == 'd':
            db.execute('INSERT INTO mcd VALUES (1); INSERT INTO mcd VALUES (1)')
        elif k in 'ps':
            it = iter(db.prepare(S.SN % 7 if k == 's' else S.ERR2).chunks())
            self.keep.append(it)
            first = next(it)
            self.events.append([r[0] for r in first])

    def block(self, kind, body):
        if kind == 'b':
            x = self.db.xact()
            self.xacts.append(x)
            with x:
                self.items(body)
        else:
            try:
                x = self.db.xact()
                self.xacts.append(x)
                with x:
                    self.items(body)
            except Boom:
                self.events.append('boom')
            except self.X.Error as e:
                self.events.append(e.code)

    items = Ref.items


def cases(tier):
    big, small = (4, 5) if tier == 'quick' else (5, 6)
    for n in range(0, big + 1):
        for f in forests(n, LEAVES, 3):
            yield f
    for f in forests(small, FEW, 3):
        yield f


def t_blocks(R, i, n):
    import postgresql.exceptions as X
    from postgresql.driver import pq3
    pq3.MultiXactStream.chunksize = 2
    R.sample({'shard': i})
    count = 0
    for j, f in enumerate(cases(R.tier)):
        if j % n != i:
            continue
        # statements outside of every block, except streams, follow a block too
        for prog in ([('b', f)], [('t', f), 'i'] + f[:1]):
            if not R.case(prog):
                continue
            with R.guarded('blocks', 20), wire.quiet():
                ref = Ref()
                try:
                    ref.items(prog)
                    want = None
                except Boom:
                    want = 'boom'
                except Err as e:
                    want = e.code
                w = wire.World()
                db = wire.connect(w)
                real = Real(db, X)
                try:
                    real.items(prog)
                    got = None
                except Boom:
                    got = 'boom'
                except X.Error as e:
                    got = e.code
                where = lambda: 'program %r\nserver %r' % (prog, w.server.log[-12:])
                ends = pend(prog)
                R.check(got == want, 'exception', lambda: 'raised %r, not %r; %s' % (got, want, where()))
                R.check(real.events == ref.events, 'events', lambda: '%r, not %r; %s' % (real.events, ref.events, where()))
                real.keep.clear()
                R.check(db.pq.state == b'I' or ends, 'left-open', lambda: 'client state %r; %s' % (db.pq.state, where()))
                try:
                    rows = [r[0] for r in db.query(S.TABLE)]
                except X.Error as e:
                    if not (ends and e.code == '22012'):
                        R.violate('unusable', 'the next query raises %r; %s' % (e, where()))
                    rows = [r[0] for r in db.query(S.TABLE)]
                R.check(rows == ref.rows, 'rows', lambda: '%r, not %r; %s' % (rows, ref.rows, where()))
                R.check(w.server.state == 'I' and not w.server.save, 'server-state', lambda: '%r %s' % (w.server.state, where()))
                R.check(sorted(w.server.db['mcd']) == sorted(ref.bad), 'deferred', where)
                R.outcome((got, real.events, rows))
                R.state((got, rows, tuple(x.state for x in real.xacts)))
                R.trans(len(w.server.log))
                db.close()
            count += 1
    R.note('programs', count)


def pend(prog):
    "whether the program may end with a request still running outside of a block"
    return any(isinstance(x, str) and x in 'ps' for x in prog)


# ---------------------------------------------------------------------------
# explicit calls

OPS = [(o, t) for t in 'ab' for o in ('start', 'commit', 'rollback')] + [('insert', ''), ('fail', ''), ('defer', '')]
NAMES = {'start': ('start', 'begin'), 'commit': ('commit',), 'rollback': ('rollback', 'abort')}


class CallRef:
    """
    Objects by letter; the server's savepoint stack. As documented, the object
    follows instructions: COMMIT in a failed block succeeds, and rolls back.
    """

    def __init__(self, names):
        self.rows = []
        self.state = 'I'
        self.base = None
        self.stack = []             # (name, rows, bad)
        self.bad = False            # a deferred constraint is violated
        self.obj = {t: ['initialized', None] for t in names}
        self.n = 0

    def err(self, code):
        if self.state == 'T':
            self.state = 'E'
        return code

    def release(self, t):
        if self.state == 'I':
            return '25P01'
        if self.state == 'E':
            return '25P02'
        names = [x[0] for x in self.stack]
        if t not in names:
            return self.err('3B001')
        del self.stack[len(names) - 1 - names[::-1].index(t):]

    def step(self, o, t):
        if o == 'insert':
            self.n += 1
            if self.state == 'E':
                return '25P02'
            self.rows.append(self.n)
            return
        if o == 'fail':
            if self.state == 'E':
                return '25P02'
            return self.err('22012')
        if o == 'defer':
            if self.state == 'E':
                return '25P02'
            if self.state == 'I':
                return '23505'
            self.bad = True
            return
        ob = self.obj[t]
        if o == 'start':
            if ob[0] == 'open':
                return
            if ob[0] != 'initialized':
                return '--OPE'
            if self.state == 'I':
                ob[1] = 'block'
                self.state, self.base, self.stack, self.bad = 'T', list(self.rows), [], False
            else:
                if self.state == 'E':
                    return '25P02'
                ob[1] = 'savepoint'
                self.stack.append((t, list(self.rows), self.bad))
            ob[0] = 'open'
        elif o == 'commit':
            if ob[0] == 'committed':
                return
            if ob[0] != 'open':
                return '--OPE'
            if ob[1] == 'block':
                was, self.state = self.state, 'I'
                if was == 'E' or self.bad:
                    self.rows = self.base
                self.stack = []
                if was == 'T' and self.bad:
                    ob[0] = 'aborted'
                    return '23505'
            else:
                r = self.release(t)
                if r:
                    return r
            ob[0] = 'committed'
        elif o == 'rollback':
            if ob[0] == 'aborted':
                return
            if ob[0] != 'open':
                return '--OPE'
            if ob[1] == 'block':
                if self.state != 'I':
                    self.rows = self.base
                self.state = 'I'
                self.stack = []
            else:
                names = [x[0] for x in self.stack]
                if self.state == 'I':
                    return '25P01'
                if t not in names:
                    return self.err('3B001')
                i = len(names) - 1 - names[::-1].index(t)
                self.rows = list(self.stack[i][1])
                self.bad = self.stack[i][2]
                self.state = 'T'
                del self.stack[i:]
            ob[0] = 'aborted'


def t_calls(R, i, n):
    depth = 5 if R.tier == 'quick' else 6
    j = 0
    for seq in itertools.product(OPS, repeat=depth):
        j += 1
        if j % n != i:
            continue
        # b is only interesting after a; one insert in a row is enough
        used = [t for o, t in seq if t]
        if used and used[0] == 'b' or any(x == y and x[0] in ('fail', 'defer') for x, y in zip(seq, seq[1:])):
            continue
        if R.case(seq):
            calls(R, seq, 'ab')


def nests(depth, names):
    "sequences that start several blocks, each once, and end them in any order"
    def go(seq, open_, done):
        left = depth - len(seq)
        if not left:
            yield seq
            return
        if len(open_) < len(names):
            yield from go(seq + (('start', names[len(open_)]),), open_ + names[len(open_)], done)
            if left < 2 * (len(names) - len(open_)):
                return      # all of them are to be started, and some ended
        for t in open_:
            for o in ('commit', 'rollback'):
                if done.count(t) < 2 and (o, t) not in seq[-1:]:
                    yield from go(seq + ((o, t),), open_, done + t)
        for o in ('insert', 'fail'):
            if (o, '') not in seq[-1:] and sum(x == (o, '') for x in seq) < 2 and seq:
                yield from go(seq + ((o, ''),), open_, done)
    yield from go((), '', '')


def t_nests(R, i, n):
    "three blocks, and four, ended in any order"
    for names, depth in (('abc', 7), ('abcd', 7)) if R.tier == 'quick' else (('abc', 8), ('abcd', 9), ('abcde', 9)):
        for j, seq in enumerate(nests(depth, names)):
            if j % n == i and R.case(seq):
                calls(R, seq, names)


def calls(R, seq, names):
    import postgresql.exceptions as X
    with R.guarded('calls', 20), wire.quiet():
        ref = CallRef(names)
        w = wire.World()
        db = wire.connect(w)
        obj = {t: db.xact() for t in names}
        for step, (o, t) in enumerate(seq):
            want = ref.step(o, t)
            try:
                if o == 'insert':
                    db.execute('INSERT INTO mct VALUES (%d)' % ref.n)
                elif o == 'defer':
                    db.execute('INSERT INTO mcd VALUES (1); INSERT INTO mcd VALUES (1)')
                elif o == 'fail':
                    db.query(S.ERR0)
                else:
                    alt = NAMES[o]
                    getattr(obj[t], alt[step % len(alt)])()
                got = None
            except X.Error as e:
                got = e.code
            R.check(got == want, 'calls:' + o, lambda: 'step %d of %r: %r, not %r' % (step, seq, got, want))
            R.check(w.server.state == ref.state, 'calls:state', lambda: 'step %d of %r: %r, not %r' % (step, seq, w.server.state, ref.state))
            R.check(w.server.db['mct'] == ref.rows, 'calls:rows', lambda: 'step %d of %r: %r, not %r' % (step, seq, w.server.db['mct'], ref.rows))
            R.trans()
            R.state((ref.state, tuple(map(tuple, ref.obj.values())), len(ref.stack)))
            R.outcome((o, got, ref.state))
        db.close()


def t_modes(R):
    "the options of a block reach the server, and only where they can have an effect"
    import postgresql.exceptions as X
    for iso in (None, 'SERIALIZABLE', 'READ COMMITTED'):
        for mode in (None, 'READ ONLY', 'READ WRITE'):
            for inside in (False, True):
                for kw in (False, True):
                    if not R.case([iso, mode, inside, kw]):
                        continue
                    with R.guarded('modes', 20), wire.quiet():
                        w = wire.World()
                        db = wire.connect(w)
                        if inside:
                            outer = db.xact()
                            outer.start()
                        try:
                            with (db.xact(isolation=iso, mode=mode) if kw else db.xact(iso, mode)):
                                sent = w.server.begin_mode
                            got = None
                        except X.Error as e:
                            got = e
                        if inside and (iso or mode):
                            R.check(isinstance(got, X.OperationError), 'modes:inside', repr(got))
                            R.check(w.server.state == 'T', 'modes:outer', w.server.state)
                        else:
                            R.check(got is None, 'modes:raises', repr(got))
                            if not inside:
                                want = ('ISOLATION LEVEL ' + iso + ' ' if iso else '') + (mode or '')
                                R.check(sent.split() == want.split(), 'modes:sent', sent)
                        R.outcome((iso, mode, inside))
                        R.state((iso, mode, inside))
                        db.close()
    for kw in ({'isolation': 'x; y'}, {'mode': 'x; y'}):
        if R.case(kw):
            with R.guarded('modes:inject', 20), wire.quiet():
                w = wire.World()
                db = wire.connect(w)
                n = len(w.server.log)
                try:
                    db.xact(**kw).start()
                    R.violate('modes:inject', 'accepted')
                except (ValueError, X.Error):
                    pass
                R.check(len(w.server.log) == n, 'modes:injected', '')
