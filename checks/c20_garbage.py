"""
C20 - what the driver creates on the server is freed once, and not before it
is out of use: every sequence of operations over two statements, a cursor, a
stream and blocks, up to a depth.
"""
import gc

from mc import core, scripts as S, wire

PROPERTY = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of object life cycles, checked against the statements and portals of a model server'
RULE = 'an execution is one sequence of enabled operations of the given depth'
ASSUMPTIONS = ['the server is mc.pgmodel', 'dropped objects are freed by reference counting or an explicit collection']


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for i in range(16):
            T.append(('life', v, {'i': i, 'n': 16}))
        T.append(('reuse', v, {}))
        for i in range(4):
            T.append(('named', v, {'i': i, 'n': 4}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Abs:
    "which objects the program has, for enabling operations"

    def __init__(self):
        self.a = self.b = self.n = None     # statements: None, 'live', 'closed'
        self.c = self.s = None              # cursor and stream
        self.tx = 'I'
        self.fails = 0
        self.ends = 0

    def copy(self):
        x = Abs()
        x.__dict__.update(self.__dict__)
        return x

    def enabled(self):
        e = []
        dead = self.tx == 'E'
        for k in 'ab':
            v = getattr(self, k)
            if v is None:
                e.append('prep-' + k)
            else:
                e += ['drop-' + k]
                if v == 'live':
                    e += ['close-' + k, 'call-' + k]
        if self.a == 'live' and not dead:
            if self.c is None:
                e.append('declare')
            if self.s is None:
                e.append('stream')
        if self.n is None:
            e.append('prep-n')
        elif self.n == 'live':
            e += ['drop-n', 'close-n']
        if self.c:
            e += ['drop-c']
            if self.c == 'live':
                e += ['read-c', 'close-c']
        if self.s:
            e += ['drop-s', 'read-s']
        if self.tx == 'I':
            e.append('begin')
        elif self.ends < 2:
            e += ['commit', 'rollback']
        if self.fails < 1:
            e.append('fail')
        return e

    def do(self, op):
        x = self.copy()
        dead = self.tx == 'E'
        o, _, k = op.partition('-')
        if o == 'prep':
            if not dead:
                setattr(x, k, 'live')
        elif o == 'drop':
            setattr(x, k, None)
        elif o == 'close':
            setattr(x, k, 'closed')
        elif o == 'declare':
            x.c = 'live'
        elif o == 'stream':
            x.s = 'live'
        elif o == 'begin':
            x.tx = 'T'
        elif o in ('commit', 'rollback'):
            x.tx = 'I'
            x.ends += 1
        elif o in ('fail', 'call', 'read') and o == 'fail':
            x.fails += 1
            if x.tx == 'T':
                x.tx = 'E'
        return x


def sequences(depth):
    def go(st, seq):
        if len(seq) == depth:
            yield seq
            return
        for op in st.enabled():
            yield from go(st.do(op), seq + (op,))
    # nothing happens before something is made
    yield from go(Abs(), ())


class Slot:
    pass


def t_life(R, i, n):
    import postgresql.exceptions as X
    from postgresql.driver import pq3
    for c in vars(pq3).values():
        if isinstance(c, type) and 'chunksize' in vars(c):
            c.chunksize = 1
    gc.collect()
    gc.freeze()
    depth = 6 if R.tier == 'quick' else 7
    for j, seq in enumerate(sequences(depth)):
        if j % n != i:
            continue
        if not R.case(seq):
            continue
        with R.guarded('life', 20), wire.quiet():
            one(R, X, seq, cycle=j % 5 == 0)


def one(R, X, seq, cycle=False):
    w = wire.World()
    db = wire.connect(w)
    srv = w.server
    db.execute('')
    base = (set(srv.stmts), set(srv.portals))
    obj = {}            # name -> object
    sid = {}            # name -> server-side name
    where = lambda: '%r\nstatements %r portals %r\n%r' % (seq, sorted(srv.stmts), sorted(srv.portals), srv.log[-20:])
    opened_in = {}

    def in_use():
        "server-side names of what the program still has"
        st, po = set(), set()
        for k, o in obj.items():
            if k in 'abn':
                if not o.closed or k == 'n' and o.closed is None:
                    st.add(o.statement_id)
            elif not o.closed:
                po.add(o.cursor_id)
        for k in 'cs':
            if k in obj:
                st.add(obj[k].statement.statement_id) if not obj[k].statement.closed else None
        if named[0]:
            st.add('mine')
        return st, po

    named = [False]
    older = set(), set()
    for op in list(seq) + ['probe', 'probe', 'probe']:
        st0, po0 = in_use()
        gc.collect()
        # out of use before this request: gone after it
        # (the connection itself holds the last request until the next one)
        last_s, last_p = (set(srv.stmts) - base[0] - st0 - {''}, set(srv.portals) - base[1] - po0 - {''})
        old_s, old_p = last_s & older[0], last_p & older[1]
        log0 = len(srv.log)
        o, _, k = op.partition('-')
        failed = None
        try:
            if o == 'prep':
                if k == 'n':
                    named[0] = False    # making it again replaces it
                    obj['n'] = db.prepare(S.SN % 4, statement_id='mine')
                    named[0] = True
                else:
                    obj[k] = db.prepare(S.SN % (2 if k == 'a' else 3))
            elif o == 'drop':
                x = obj.pop(k, None)
                if x is not None:
                    if cycle:
                        s = Slot()
                        s.me, s.x = s, x
                        del s, x
                        gc.collect()
                    del op
                    x = None
            elif o == 'close':
                obj[k].close() if k in obj else None
                if k == 'n':
                    named[0] = False
            elif o == 'call':
                r = [tuple(x) for x in obj[k]()] if k in obj else None
                R.check(r == [(m,) for m in range(1, (2 if k == 'a' else 3) + 1)] or k not in obj, 'life:call', where)
            elif o == 'declare':
                if 'a' in obj:
                    obj['c'] = obj['a'].declare()
                    opened_in['c'] = srv.state != 'I'
            elif o == 'stream':
                if 'a' in obj:
                    obj['s'] = obj['a'].chunks()
                    opened_in['s'] = srv.state != 'I'
                    obj['got'] = None
                    del obj['got']
            elif o == 'read':
                if k in obj:
                    try:
                        r = next(obj[k])
                    except StopIteration:
                        pass
            elif o == 'begin':
                db.execute('BEGIN')
            elif o == 'commit':
                db.execute('COMMIT')
            elif o == 'rollback':
                db.execute('ROLLBACK')
            elif o == 'fail':
                db.query(S.ERR0)
            elif o == 'probe':
                db.execute('')
        except X.Error as e:
            failed = e.code
            del e
        # errors that have a reason only
        if failed:
            ok = {'22012', '25P02', '34000'} if srv.state == 'E' or any(opened_in.values()) or 'fail' in seq else set()
            if o == 'fail':
                ok |= {'22012'}
            R.check(failed in ok, 'life:error:' + failed, lambda: '%s of %s: %s' % (failed, o, where()))
        if len(srv.log) > log0:
            # (a name may have been made anew)
            anew = {e[1] for e in srv.log[log0:] if e[0] in 'PB'}
            anew |= {x for x in old_p for e in srv.log[log0:] if e[0] == 'P' and '"%s"' % x in e[2]}
            left = old_s & set(srv.stmts) - anew
            R.check(not left, 'life:statement-left', lambda: '%r after %r: %s' % (left, o, where()))
            left = old_p & set(srv.portals) - anew
            R.check(not left, 'life:cursor-left', lambda: '%r after %r: %s' % (left, o, where()))
            older = last_s, last_p
        st, po = in_use()
        gone = st - set(srv.stmts)
        if 'n' not in obj and 'mine' in gone and not named[0]:
            gone.discard('mine')
        R.check(not gone, 'life:freed-in-use', lambda: '%r after %r: %s' % (gone, o, where()))
        # a cursor may only vanish with the transaction it belongs to
        for k in 'cs':
            if k in obj and not obj[k].closed and not opened_in[k] and obj[k].cursor_id not in srv.portals:
                R.violate('life:cursor-freed-in-use', '%r: %s' % (k, where()))
        R.trans()
        R.state((len(st), len(po), srv.state, len(srv.stmts) - len(base[0]), len(srv.portals)))
    R.outcome((sorted(srv.state), len(srv.stmts), len(srv.portals)))
    # each incarnation was closed at most once
    log = srv.log
    made = {}
    for i, e in enumerate(log):
        if e[0] == 'P' and e[1]:
            made[e[1]] = 0
        elif e[0] == 'C' and e[1] == 'S' and e[2] in made:
            nxt = log[i + 1] if i + 1 < len(log) else ('',)
            if nxt[0] == 'P' and nxt[1] == e[2]:
                continue        # the precaution before it is made
            made[e[2]] += 1
            R.check(made[e[2]] <= 1, 'life:closed-twice', where)
    obj.clear()
    r = None
    gc.collect()
    db.execute('')
    gc.collect()
    db.execute('')
    R.check(set(srv.stmts) - {''} - base[0] <= ({'mine'} if named[0] else set()), 'life:left-at-end', where)
    if srv.state == 'I':
        R.check(not set(srv.portals) - base[1], 'life:portals-at-end', where)
    R.check('mine' in srv.stmts or not named[0], 'life:named-freed', where)
    db.close()


NAMED = ['adopt-s', 'use-s', 'close-s', 'drop-s', 'adopt-c', 'use-c', 'close-c', 'drop-c', 'begin', 'end', 'fail']


def t_named(R, i, n):
    "objects for a statement and a cursor that exist already, and have a name"
    import itertools
    import postgresql.exceptions as X
    depth = 4 if R.tier == 'quick' else 5
    gc.collect()
    gc.freeze()
    runs = [(seq, 'Ext "s"', 'Ext "c"') for seq in itertools.product(NAMED, repeat=depth)]
    # names as the driver makes them are names all the same
    runs += [(seq, 'py:0x7f', 'py:mine') for seq in itertools.product(NAMED, repeat=depth - 1)]
    for j, (seq, sname, cname) in enumerate(runs):
        if j % n != i or not enabled(seq) or not R.case([sname] + list(seq)):
            continue
        with R.guarded('named', 20), wire.quiet():
            w = wire.World()
            db = wire.connect(w)
            srv = w.server
            db.prepare(S.SN % 3, statement_id=sname)
            db.execute('BEGIN')
            db.execute('DECLARE "%s" INSENSITIVE SCROLL CURSOR WITH HOLD FOR ' % cname.replace('"', '""') + S.SN % 3)
            db.execute('COMMIT')
            obj = {}
            there = {'s': True, 'c': True}
            where = lambda: '%r\nstatements %r portals %r\n%r' % (seq, sorted(srv.stmts), sorted(srv.portals), srv.log[-20:])
            for op in seq + ('probe', 'probe'):
                gc.collect()
                o, _, k = op.partition('-')
                dead = srv.state == 'E'
                try:
                    if o == 'adopt':
                        obj[k] = db.statement_from_id(sname) if k == 's' else db.cursor_from_id(cname)
                    elif o == 'drop':
                        del obj[k]
                    elif o == 'close':
                        obj[k].close()
                        there[k] = False
                    elif o == 'use':
                        if k == 's':
                            r = [tuple(x) for x in obj[k]()]
                            want = [(1,), (2,), (3,)]
                        else:
                            obj[k].seek(0)
                            r = [tuple(x) for x in obj[k].read(2)]
                            want = [(1,), (2,)]
                        R.check(r == want, 'named:result', lambda: repr(r) + where())
                    elif o == 'begin':
                        db.execute('BEGIN')
                    elif o == 'end':
                        db.execute('COMMIT')
                    elif o == 'fail':
                        db.query(S.ERR0)
                    else:
                        db.execute('')
                except X.Error as e:
                    ok = {'25P02'} if dead else {'22012'} if o == 'fail' else set()
                    R.check(e.code in ok, 'named:error:%s' % e.code, where)
                    if o == 'adopt':
                        obj.pop(k, None)
                        # (needed by what comes)
                        del e
                        break
                R.trans()
            have = {'s': sname in srv.stmts, 'c': cname in srv.portals}
            for k in 'sc':
                if o == 'probe' or there[k]:
                    R.check(have[k] == there[k], 'named:%s-%s' % (k, 'freed' if there[k] else 'left'), where)
            R.state((have['s'], have['c'], len(obj), srv.state))
            R.outcome((have['s'], have['c']))
            obj.clear()
            db.close()


def enabled(seq):
    have = {}
    tx = 0
    for op in seq:
        o, _, k = op.partition('-')
        if o == 'adopt':
            if k in have or have.get(k + 'gone'):
                return False
            have[k] = 'live'
        elif o == 'drop':
            if have.pop(k, None) is None:
                return False
        elif o == 'close':
            if have.get(k) != 'live':
                return False
            have[k] = 'closed'
            have[k + 'gone'] = True
        elif o == 'use':
            if have.get(k) != 'live':
                return False
        elif o == 'begin':
            if tx:
                return False
            tx = 1
        elif o == 'end':
            if not tx:
                return False
            tx = 0
    return True


def t_reuse(R):
    "an object made where another one was: its statement is its own"
    import postgresql.exceptions as X
    for order in range(64):
        for errors in (False, True):
            if not R.case([order, errors]):
                continue
            with R.guarded('reuse', 20), wire.quiet():
                w = wire.World()
                db = wire.connect(w)
                seen = set()
                live = []
                for i in range(6):
                    n = 1 + i % 3
                    ps = db.prepare(S.SN % n)
                    reused = ps.statement_id in seen
                    seen.add(ps.statement_id)
                    R.note('reused_names', int(reused))
                    c = ps.declare()
                    if order >> i & 1:
                        ps.close()
                        c.close()
                    else:
                        live.append((n, ps, c))
                    del ps, c
                    if errors:
                        try:
                            db.query(S.ERR0)
                        except X.Error:
                            pass
                    for m, q, d in live:
                        R.check([tuple(x) for x in q()] == [(j,) for j in range(1, m + 1)], 'reuse:call', repr((order, i)))
                        d.seek(0)
                        R.check([tuple(x) for x in d.read()] == [(j,) for j in range(1, m + 1)], 'reuse:read', repr((order, i)))
                    if len(live) == 3:
                        del live[0]
                R.state((order, errors, len(seen)))
                R.outcome(len(w.server.stmts))
                R.trans(len(w.server.log))
                live.clear()
                m = q = d = None
                gc.collect()
                db.execute('')
                gc.collect()
                db.execute('')
                R.check(not [x for x in w.server.portals], 'reuse:portals', repr(w.server.portals))
                db.close()
