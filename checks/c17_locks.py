"""
C17 - advisory lock objects hold what they say they hold: every sequence of
operations over two lock objects and a competing session, and every
interleaving of two sessions whose threads wait for each other.
"""
import itertools
import threading

from mc import core, pgmodel, wire

PROPERTY = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation sequences, and of thread interleavings up to a preemption bound, against the lock table of a model server'
RULE = 'an execution is one sequence of operations, or one interleaving of two programs'
ASSUMPTIONS = ['the server is mc.pgmodel; its locks are not queued fairly', 'a lock object is used by one thread']

# identifiers of two lock objects of one session
SETS = [((1, 2), (2, (1, 2))), ((1,), (1,)), (((0, 1), 1), (1, (0, 1), 1)), ((3, (3, 3), 3), ((3, 3),)), ((), (5,)), ((-1, 1 << 40), ((-1, -2), -1))]
MODES = ['xx', 'xs', 'ss']


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for n in range(len(SETS)):
            for m in MODES:
                if v == 'py' and (n + MODES.index(m)) % 3:
                    continue
                T.append(('single', v, {'n': n, 'modes': m, 'depth': 4 if tier == 'quick' else 5}))
    for n, m in ((0, 'xs'), (2, 'xx'), (3, 'ss'), (1, 'xs')) if tier == 'quick' else itertools.product(range(len(SETS)), MODES):
        T.append(('single', 'c', {'n': n, 'modes': m, 'depth': 5 if tier == 'quick' else 6, 'ops': 'locks'}))
    for i in range(8):
        T.append(('threads', 'c', {'i': i, 'n': 8}))
    for sh in (False, True):
        for f in range(len(KEYS)):
            T.append(('lists', 'c', {'shared': sh, 'first': f, 'depth': 4 if tier == 'quick' else 5}))
    T.append(('lists', 'py', {'shared': False, 'first': 0, 'depth': 3}))
    T.append(('errors', 'c', {}))
    T.append(('errors', 'py', {}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def counts(locks, sess):
    return {k: tuple(c[sess]) for k, c in locks.held.items() if sess in c and c[sess] != [0, 0]}


class Ref:
    "what the objects of one session hold"

    def __init__(self, ids, shared):
        self.ids, self.shared, self.n = ids, shared, 0

    def keys(self):
        return {(k, self.shared) for k in self.ids} if self.n else set()


def held(c):
    return {(k, bool(sh)) for k, xs in c.items() for sh in (0, 1) if xs[sh]}


OPS = ['acq-a', 'try-a', 'rel-a', 'with-a', 'acq-b', 'try-b', 'rel-b', 'with-b', 'other-1', 'begin', 'fail', 'rollback', 'close']


def plans(depth, menu):
    "sequences whose operations do something, judged by counting alone"
    def go(n, seq, tx, other, closed):
        if len(seq) == depth:
            yield seq
            return
        for op in menu:
            o, _, k = op.partition('-')
            if closed and o not in ('rel', 'acq', 'try'):
                continue
            if closed and len(seq) - closed > 2:
                continue
            tx2, other2, closed2 = tx, other, closed
            n2 = dict(n)
            if o in ('acq', 'try'):
                if n[k] >= 3:
                    continue
                n2[k] += 1
            elif o == 'rel':
                if n[k] <= -1:
                    continue
                n2[k] -= 1
            elif o == 'with' and seq and seq[-1] == op:
                continue
            elif op == 'other-1':
                other2 = not other
            elif o == 'begin':
                if tx:
                    continue
                tx2 = 'T'
            elif o == 'fail':
                if tx != 'T':
                    continue
                tx2 = 'E'
            elif o == 'rollback':
                if not tx:
                    continue
                tx2 = ''
            elif o == 'close':
                if not seq or not (n['a'] or n['b']):
                    continue
                closed2 = len(seq) + 1
            yield from go(n2, seq + (op,), tx2, other2, closed2)
    yield from go({'a': 0, 'b': 0}, (), '', False, 0)


def t_single(R, n, modes, depth, ops='all'):
    import postgresql.exceptions as X
    from postgresql import alock
    ids = dict(zip('ab', SETS[n]))
    shared = dict(zip('ab', (m == 's' for m in modes)))
    for seq in plans(depth, OPS if ops == 'all' else [o for o in OPS if o[-2] == '-']):
        if not R.case(seq):
            continue
        with R.guarded('single', 20), wire.quiet():
            if not single(R, X, alock, seq, ids, shared) or R.executions % 40 == 0:
                del PLACE[:]


PLACE = []      # a connection nothing is left on


def place():
    if not PLACE:
        locks = pgmodel.Locks()
        w = wire.World(server=lambda world, attempt: pgmodel.Backend(locks=locks, pid=attempt))
        PLACE.append((locks, w, wire.connect(w)))
    return PLACE[0]


def single(R, X, alock, seq, ids, shared):
    "-> whether the connection is as it was"
    locks, w, db = place()
    srv = w.server
    w.steps = 0
    del srv.log[:]
    locks.held.clear()
    rival = object()
    cls = lambda s: alock.ShareLock if s else alock.ExclusiveLock
    L = {k: cls(shared[k])(db, *ids[k]) for k in 'ab'}
    ref = {k: Ref(ids[k], shared[k]) for k in 'ab'}
    rivals = False
    where = lambda: '%r: identifiers %r modes %r\nserver %r' % (seq, ids, shared, counts(locks, srv))
    closed = False
    tx = ''
    for op in seq:
        o, _, k = op.partition('-')
        r = ref.get(k)
        free = lambda: all(locks.can(srv, x, r.shared) for x in r.ids)
        before = r.n if r else 0
        try:
            if op == 'other-1':
                # another session holds the first key of a, or gives it back
                key = (ids['a'] or ids['b'])[-1]
                if rivals:
                    locks.drop(rival, key, shared['a'])
                    rivals = False
                else:
                    rivals = locks.take(rival, key, shared['a'])
                continue
            if o in ('acq', 'with') and r.n == 0 and not free():
                # it would wait for the other session
                continue
            if o == 'acq':
                got = L[k].acquire()
                r.n += 1
                R.check(got is True, 'single:acquire:value', lambda: '%s: %r' % (where(), got))
            elif o == 'try':
                can = r.n > 0 or free()
                got = L[k].acquire(blocking=False)
                R.check(got is can, 'single:try:value', lambda: '%s: try gives %r' % (where(), got))
                r.n += 1 if can else 0
            elif o == 'rel':
                L[k].release()
                R.check(before > 0, 'single:release:unheld', where)
                r.n -= 1
            elif o == 'with':
                with L[k] as x:
                    r.n += 1
                    R.check(x is L[k], 'single:enter', where)
                    look(R, L, ref, locks, srv, closed, where)
                    if before % 2 == 0:
                        # errors leave the block the same way
                        try:
                            raise KeyError(1)
                        finally:
                            r.n -= 1
                    r.n -= 1
                R.check(before % 2 == 1, 'single:with:error', where)
            elif o == 'begin':
                db.execute('BEGIN')
                tx = 'T'
            elif o == 'fail':
                tx = 'E'
                db.execute('SELECT 1/0')
            elif o == 'rollback':
                db.execute('ROLLBACK')
                tx = ''
            elif o == 'close':
                db.close()
                closed = True
        except RuntimeError:
            R.check(o == 'rel' and before < 1, 'single:release:error', where)
        except KeyError:
            R.check(o == 'with', 'single:error', where)
        except X.Error as e:
            if closed:
                R.check(o != 'rel', 'single:closed', lambda: '%s %r' % (where(), e))
            else:
                R.check(tx == 'E' or o == 'fail', 'single:error', lambda: '%s: %r' % (where(), e))
                if o == 'with':
                    # entered, and the server refused to release it
                    pass
        R.trans()
        look(R, L, ref, locks, srv, closed, where)
        if R.violations:
            return False
    # every lock can be given back
    if not closed:
        if tx:
            db.execute('ROLLBACK')
        for k in 'ab':
            while ref[k].n:
                L[k].release()
                ref[k].n -= 1
            look(R, L, ref, locks, srv, closed, where)
        R.check(not counts(locks, srv), 'single:left', where)
        # given back, a rival gets them
        R.check(all(locks.can(rival, x, False) for k in 'ab' for x in ids[k]) or rivals, 'single:rival', where)
    R.state((tuple(sorted((k, r.n) for k, r in ref.items())), tx, rivals, closed))
    return not closed and srv.state == 'I'


def look(R, L, ref, locks, srv, closed, where):
    want = set()
    for k in 'ab':
        want |= ref[k].keys()
        should = ref[k].n > 0 and not closed
        R.check(L[k].locked() is should, 'single:locked', lambda: '%s: %s.locked() is %r, held %d times' % (where(), k, L[k].locked(), ref[k].n))
        R.check(L[k].state == ('locked' if should else 'unlocked'), 'single:state', where)
    if closed:
        want = set()
    R.check(held(counts(locks, srv)) == want, 'single:server', lambda: '%s: the objects hold %r' % (where(), sorted(want, key=repr)))
    R.check(not srv_unheld(srv), 'single:unlock', lambda: '%s: unlocked what was not held: %r' % (where(), srv.log[-6:]))


def srv_unheld(srv):
    return getattr(srv, 'unheld', 0)


# -- every list of identifiers, every set of keys that others hold ---------
KEYS = [1, 2, (1, 2), (2, 1)]


def t_lists(R, shared, first, depth):
    from postgresql import alock
    cls = alock.ShareLock if shared else alock.ExclusiveLock
    for n in range(depth):
        for rest in itertools.product(KEYS, repeat=n):
            ids = (KEYS[first],) + rest
            for taken in itertools.product((None, 'x', 's'), repeat=len(KEYS)):
                if any(t and k not in ids for k, t in zip(KEYS, taken)):
                    continue
                if not R.case([ids, taken]):
                    continue
                with R.guarded('lists', 20), wire.quiet():
                    if R.executions % 40 == 0:
                        del PLACE[:]
                    locks, w, db = place()
                    srv = w.server
                    w.steps = 0
                    del srv.log[:]
                    locks.held.clear()
                    rival = object()
                    for k, t in zip(KEYS, taken):
                        if t:
                            locks.take(rival, k, t == 's')
                    can = all(t is None or (t == 's' and shared) or k not in ids for k, t in zip(KEYS, taken))
                    want = {}
                    for k in ids:
                        x, h = want.get(k, (0, 0))
                        want[k] = (x, h + 1) if shared else (x + 1, h)
                    where = lambda: 'identifiers %r, others hold %r, %s: %r' % (ids, taken, cls.__name__, counts(locks, srv))
                    l = cls(db, *ids)
                    for how in ('try', 'acquire', 'try'):
                        if how == 'try':
                            got = l.acquire(blocking=False)
                        elif can:
                            got = l.acquire()
                        else:
                            continue
                        R.check(got is can and l.locked() is can, 'lists:value', lambda: '%s %s gives %r' % (where(), how, got))
                        R.check(counts(locks, srv) == (want if can else {}), 'lists:held', lambda: '%s after %s' % (where(), how))
                        R.trans()
                        if can:
                            l.release()
                            R.check(not counts(locks, srv) and not l.locked(), 'lists:released', lambda: '%s after %s and release' % (where(), how))
                    R.check(not srv_unheld(srv), 'lists:unlock', where)
                    R.state((ids, taken))
                    if R.violations:
                        del PLACE[:]


# -- a wait that ends with an error ---------------------------------------
def t_errors(R):
    import postgresql.exceptions as X
    from postgresql import alock
    for ids in ((1,), (1, 2), (1, (1, 2), 3), (2, 2), ((1, 1), (1, 2))):
        for bad in range(len(ids)):
            for pre in (None, 'begin', 'held', 'nested'):
                for how in ('acquire', 'with'):
                    if not R.case([ids, bad, pre, how]):
                        continue
                    with R.guarded('errors', 10), wire.quiet():
                        locks = pgmodel.Locks()
                        w = wire.World(server=lambda world, attempt: pgmodel.Backend(locks=locks))
                        db = wire.connect(w)
                        srv = w.server
                        rival = object()
                        locks.take(rival, ids[bad], False)
                        l = alock.ExclusiveLock(db, *ids)
                        o = alock.ExclusiveLock(db, *[k for k in ids if k != ids[bad]])
                        if pre == 'begin':
                            db.execute('BEGIN')
                        elif pre in ('held', 'nested'):
                            o.acquire()
                        base = counts(locks, srv)
                        where = lambda: '%r key %d is not to be had, %s, %s: before %r after %r' % (ids, bad, pre, how, base, counts(locks, srv))
                        try:
                            if how == 'acquire':
                                l.acquire()
                            else:
                                with l:
                                    pass
                        except X.DeadlockError:
                            pass
                        else:
                            R.violate('errors:silent', where())
                        R.check(not l.locked(), 'errors:locked', where)
                        R.check(o.locked() is (pre in ('held', 'nested')), 'errors:other', where)
                        now = counts(locks, srv)
                        if now != base:
                            # known: those taken before the failure
                            part = dict(base)
                            for k in ids[:bad]:
                                if k == ids[bad]:
                                    break
                                x, h = part.get(k, (0, 0))
                                part[k] = (x + 1, h)
                            R.check(now != part, 'errors:kept-prefix', where)
                            R.check(now == part, 'errors:kept', where)
                        try:
                            l.release()
                            R.violate('errors:release', where())
                        except RuntimeError:
                            pass
                        R.check(counts(locks, srv) == now, 'errors:release', where)
                        if pre == 'begin':
                            db.execute('ROLLBACK')
                        locks.drop(rival, ids[bad], False)
                        # it is usable afterwards
                        l.acquire()
                        R.check(l.locked() and held(counts(locks, srv)) >= {(k, False) for k in ids}, 'errors:again', where)
                        l.release()
                        R.check(counts(locks, srv) == now, 'errors:again', where)
                        R.trans()
                        R.state((ids, bad, pre, how))


# -- two sessions ------------------------------------------------------------
class Dead(Exception):
    pass


class Sched:
    "one thread runs at a time; the chooser says which"

    def __init__(self, chooser):
        self.ch = chooser
        self.sem = {}
        self.waiting = {}       # thread: condition
        self.over = set()
        self.cur = None
        self.victim = None
        self.error = None

    def runnable(self):
        return [t for t in self.sem if t not in self.over and (t not in self.waiting or self.waiting[t]())]

    def point(self):
        "called by the thread that runs"
        me = self.cur
        r = self.runnable()
        if me in r:
            r.remove(me)
            r.insert(0, me)
        if not r:
            live = [t for t in self.sem if t not in self.over]
            if not live:
                return
            # a deadlock: the server picks the one who closed the circle
            self.victim = t = me if me in live else live[0]
        else:
            t = self.ch.choose(r, 'run') if len(r) > 1 else r[0]
        if t is not me:
            self.cur = t
            self.sem[t].release()
            if me in self.over:
                return
            self.sem[me].acquire()
        if self.error:
            raise Dead()

    def block(self, cond):
        "-> False when it waits in a circle"
        me = self.cur
        while not cond():
            self.waiting[me] = cond
            self.point()
            if self.victim == me:
                self.victim = None
                del self.waiting[me]
                return False
            self.waiting.pop(me, None)
        return True

    def run(self, programs):
        ts = []
        for n, p in enumerate(programs):
            self.sem[n] = threading.Semaphore(0)

            def body(n=n, p=p):
                self.sem[n].acquire()
                try:
                    if not self.error:
                        p()
                except Dead:
                    pass
                except BaseException as e:
                    self.error = self.error or e
                self.over.add(n)
                if self.error:
                    for s in self.sem.values():
                        s.release()
                        s.release()
                    return
                self.point()
            ts.append(threading.Thread(target=body, daemon=True))
        for t in ts:
            t.start()
        self.cur = None
        r = list(self.sem)
        t = self.ch.choose(r, 'first')
        self.cur = t
        self.sem[t].release()
        for t in ts:
            t.join()
        if self.error:
            raise self.error


class SLocks(pgmodel.Locks):
    sched = None

    def take(self, sess, key, shared):
        if self.sched:
            self.sched.point()
        return super().take(sess, key, shared)

    def wait(self, sess, key, shared):
        if self.sched:
            self.sched.point()
            if not self.sched.block(lambda: self.can(sess, key, shared)):
                return False
        return pgmodel.Locks.take(self, sess, key, shared)

    def drop(self, sess, key, shared):
        if self.sched:
            self.sched.point()
        return super().drop(sess, key, shared)


# programs of one thread: over lock p (keys 1 2) and q (keys 2 1)
PROGRAMS = ['with-p', 'with-q', 'with-1', 'try-p', 'try-q', 'nest-p', 'p-in-1', '1-in-2', 'share-p', 'share-try', 'try-hold', 'two', 'nest-try', 'share-up']


def t_threads(R, i, n):
    from postgresql import alock
    import postgresql.exceptions as X
    j = 0
    bound = 2 if R.tier == 'quick' else 3
    for a, b in itertools.combinations_with_replacement(PROGRAMS, 2):
        j += 1
        if j % n != i:
            continue

        def once(ch, a=a, b=b):
            with R.guarded('threads', 30), wire.quiet():
                pair(R, alock, X, ch, a, b)
        wire.explore(R, [a, b], once, bound)


def pair(R, alock, X, ch, a, b):
    locks = SLocks()
    S = Sched(ch)
    w = wire.World(server=lambda world, attempt: pgmodel.Backend(locks=locks, pid=attempt))
    dbs = [wire.connect(w), wire.connect(w)]
    for db in dbs:
        # statements are prepared outside of the schedule
        for c in (alock.ExclusiveLock, alock.ShareLock):
            l = c(db, 99)
            l.acquire()
            l.release()
            l.acquire(blocking=False)
            l.release()
    srvs = [s.srv for s in w.sockets[-2:]]
    locks.held.clear()
    locks.sched = S
    inside = [[], []]       # what each program believes to hold
    where = lambda: '%s with %s: schedule %r\nserver %r' % (a, b, ch.schedule, [counts(locks, s) for s in srvs])
    deadlocks = []

    def believe(n, keys, shared):
        inside[n].append((keys, shared))
        for k in keys:
            mine = locks.count(srvs[n], k)
            R.check(mine[1 if shared else 0] > 0, 'threads:held', lambda: '%s: session %d in its block does not hold %r' % (where(), n, k))
            for ks, sh in inside[1 - n]:
                R.check(k not in ks or shared and sh, 'threads:exclusion', lambda: '%s: both sessions hold %r' % (where(), k))

    def done(n):
        inside[n].pop()

    def program(n, name):
        db = dbs[n]
        E, Sh = alock.ExclusiveLock, alock.ShareLock
        p, q, one, two = E(db, 1, 2), E(db, 2, 1), E(db, 1), E(db, 2)
        s = Sh(db, 1, 2)

        def block(l, keys, shared=False, then=None):
            with l:
                believe(n, keys, shared)
                S.point()
                if then:
                    then()
                done(n)

        def attempt(l, keys, shared=False, then=None):
            if l.acquire(blocking=False):
                believe(n, keys, shared)
                S.point()
                if then:
                    then()
                done(n)
                l.release()
                return True
            R.check(not l.locked(), 'threads:try', where)
            return False

        def go():
            if name == 'with-p':
                block(p, (1, 2))
                block(p, (1, 2))
            elif name == 'with-q':
                block(q, (2, 1))
            elif name == 'with-1':
                block(one, (1,))
                block(two, (2,))
            elif name == 'try-p':
                attempt(p, (1, 2))
                attempt(p, (1, 2))
            elif name == 'try-q':
                attempt(q, (2, 1))
            elif name == 'nest-p':
                block(p, (1, 2), then=lambda: block(p, (1, 2)))
            elif name == 'p-in-1':
                block(one, (1,), then=lambda: block(p, (1, 2)))
            elif name == '1-in-2':
                block(two, (2,), then=lambda: block(one, (1,)))
            elif name == 'share-p':
                block(s, (1, 2), True)
            elif name == 'share-try':
                attempt(s, (1, 2), True)
                attempt(p, (1, 2))
            elif name == 'try-hold':
                block(two, (2,), then=lambda: attempt(p, (1, 2)))
            elif name == 'two':
                block(one, (1,), then=lambda: block(two, (2,)))
            elif name == 'nest-try':
                attempt(p, (1, 2), then=lambda: attempt(p, (1, 2)))
            elif name == 'share-up':
                block(s, (1, 2), True, then=lambda: block(one, (1,)))
        try:
            go()
            R.check(not counts(locks, srvs[n]), 'threads:left', lambda: '%s: session %d is done' % (where(), n))
        except X.DeadlockError:
            # the lock object that waited may keep what it got (known); the
            # session ends
            deadlocks.append(n)
            inside[n].clear()
            locks.sched = None
            db.close()
            locks.sched = S
    S.run([lambda: program(0, a), lambda: program(1, b)])
    R.check(not any(counts(locks, s) for s in srvs), 'threads:left', where)
    R.check(not any(srv_unheld(s) for s in srvs), 'threads:unlock', where)
    R.outcome((a, b, tuple(deadlocks)))
    R.state((a, b, ch.schedule))
    if deadlocks:
        R.note('deadlocks')
