"""
C21 - settings against the session: every sequence of settings operations and
transactions, scoped changes and errors among them, what the settings
interface says against what the server has.

A program is a sequence of steps; blocks are opened and closed by steps:
  set:K=V  settings[K] = V            del:K    del settings[K]
  sql:S    the statement S            err      a statement that fails
  upd:N    settings.update(UPDATES[N])         boom     -
  xact(    enter a transaction block  in:K=V   enter settings(K = V)
  )        leave the innermost block  )!       leave it with an exception
"""
import itertools
import re
import sys

from mc import core, wire

PROPERTY = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sequences of settings operations, transactions and errors, differential against a reference interpreter and the state of the server'
RULE = 'an execution is one sequence of steps, observed after each of them or at its end'
ASSUMPTIONS = [
    'the server is mc.pgmodel', 'values with units may be shown in either unit', 'transaction commands in texts do not begin or end blocks around them',
    'what the server reports without a request is seen with the next request', 'None, and the settings of custom names nobody set, are not claimed',
]

KEYS = {
    'search_path': ('"$user", public', 'search_path', 'SEARCH_PATH'),
    'application_name': ('', 'application_name', 'Application_Name'),
    'TimeZone': ('UTC', 'TimeZone', 'timezone', 'TIMEZONE'),
    'work_mem': ('4MB', 'work_mem'),
    'client_encoding': ('UTF8', 'client_encoding'),
    'my.var': (None, 'my.var'),
}
UPDATES = {
    'two': {'search_path': 'u', 'application_name': 'v'},
    'bad': {'search_path': 'b', 'TimeZone': 'BAD'},
    'bad2': {'application_name': 'b', 'search_path': 'BAD'},
    'pairs': [('application_name', 'p'), ('search_path', 'q'), ('application_name', 'r')],
    'inbad': {'application_name': 'b', 'search_path': 'BAD'},
    'none': {},
    'case': {'TIMEZONE': 'CET', 'work_mem': '8192'},
}
BASIC = ['set:%s=x', 'set:%s=y', 'del:%s', 'sql:SET %s = y', 'sql:SET LOCAL %s = x', 'err', 'xact(', 'in:%s=x', ')', ')!']
NAMES = ['set:timezone=CET', 'set:TimeZone=UTC', 'del:TIMEZONE', 'in:timezone=CET', 'sql:SET TimeZone = EST', 'sql:RESET ALL', 'xact(', ')', ')!']
MIXED = ['upd:two', 'upd:bad', 'upd:bad2', 'upd:pairs', 'upd:none', 'upd:case', 'set:work_mem=8MB', 'set:work_mem=100', 'in:work_mem=1MB', 'set:my.var=x', 'sql:SET my.var = y',
         'set:nothing=x', 'in:nothing=x', 'in:search_path=BAD', 'in2', 'inbad', 'sql:RESET ALL', 'set:client_encoding=LATIN1', 'in:client_encoding=LATIN1', 'err', 'xact(', ')', ')!']


def tasks(tier):
    deep = tier != 'quick'
    T = []
    for i in range(8):
        T.append(('programs', 'c', {'ops': [o.replace('%s', 'search_path') for o in BASIC], 'depth': 5 if deep else 4, 'i': i, 'n': 8}))
        for early in (False, True):
            T.append(('programs', 'c', {'ops': [o.replace('%s', 'application_name') for o in BASIC], 'depth': 5 if deep else 4, 'early': early, 'i': i, 'n': 8}))
        T.append(('programs', 'c', {'ops': NAMES, 'depth': 4 if deep else 3, 'i': i, 'n': 8}))
        T.append(('programs', 'py' if i % 2 else 'c', {'ops': MIXED, 'depth': 4 if deep else 3, 'i': i, 'n': 8}))
    for v in ('c', 'py'):
        T += [('paths', v, {}), ('subscribers', v, {}), ('startup', v, {})]
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


class Boom(Exception):
    pass


class Failed(Exception):
    "the reference's error"


class Ref:
    "what the session has"

    def __init__(self, defaults):
        self.now = dict(defaults)
        self.session = dict(defaults)
        self.defaults = dict(defaults)
        self.blocks = []        # ('x', snapshot) or ('s', {key: old value})
        self.failed = False

    def intx(self):
        return any(b[0] == 'x' for b in self.blocks)

    def name(self, k):
        for x in self.defaults:
            if x.lower() == k.lower():
                return x
        raise Failed(k)

    def fail(self):
        for b in reversed(self.blocks):
            if b[0] == 'x':
                self.failed = True
                self.now, self.session = dict(b[1][0]), dict(b[1][1])
                break
        raise Failed()

    def put(self, pairs, local=False):
        if self.failed:
            raise Failed()
        try:
            pairs = [(self.name(k), v) for k, v in pairs]
            if any(v == 'BAD' for k, v in pairs):
                raise Failed()
        except Failed:
            self.fail()
        for k, v in pairs:
            if local and not self.intx():
                continue
            v = self.defaults[k] if v is None else v
            self.now[k] = v
            if not local:
                self.session[k] = v

    def step(self, op):
        kind, _, arg = op.partition(':')
        if kind == 'set':
            self.put([arg.split('=', 1)])
        elif kind == 'upd':
            self.put(dict(UPDATES[arg]).items())
        elif kind == 'del':
            self.put([(arg, None)])
        elif kind == 'err':
            if self.failed:
                raise Failed()
            self.fail()
        elif kind == 'sql':
            if arg == 'RESET ALL':
                self.put([(k, None) for k in self.defaults])
            else:
                m = re.match('SET (LOCAL )?([a-zA-Z_.]+) = (.*)', arg)
                self.put([(m.group(2), m.group(3))], bool(m.group(1)))
        elif op == 'xact(':
            if self.failed:
                raise Failed()
            self.blocks.append(('x', (dict(self.now), dict(self.session))))
        elif kind in ('in', 'in2', 'inbad'):
            pairs = [arg.split('=', 1)] if kind == 'in' else list(UPDATES['two' if kind == 'in2' else kind].items())
            if self.failed:
                raise Failed()
            try:
                old = {self.name(k): self.now[self.name(k)] for k, v in pairs}
            except Failed:
                raise           # a KeyError, nothing was done
            self.put(pairs)
            self.blocks.append(('s', old))
        elif op in (')', ')!'):
            t, what = self.blocks.pop()
            if t == 'x':
                top = not self.intx()
                if self.failed or op == ')!':
                    self.now, self.session = dict(what[0]), dict(what[1])
                    self.failed, was = False, self.failed
                    if was and op == ')':
                        raise Failed()
                elif top:
                    self.now = dict(self.session)
            elif self.failed:
                if op == ')':
                    raise Failed()
            else:
                self.put(what.items())


def same(k, a, b):
    if k == 'work_mem' and a is not None and b is not None:
        kb = lambda s: int(s[:-2]) * 1024 if s.endswith('MB') else int(s.removesuffix('kB'))
        return kb(a) == kb(b)
    if k == 'my.var':
        return (a or '') == (b or '')
    return a == b


def programs(ops, depth):
    "sequences whose blocks are opened before they are closed, each as long as it goes"
    def go(prefix, open_):
        if len(prefix) == depth:
            yield prefix
            return
        for o in ops:
            if o in (')', ')!'):
                if not open_:
                    continue
                yield from go(prefix + [o], open_ - 1)
            else:
                yield from go(prefix + [o], open_ + (o == 'xact(' or o.startswith('in')))
    return go([], 0)


def t_programs(R, ops, depth, i, n, early=False):
    j = 0
    for prog in programs(ops, depth):
        for often in (True, False):
            j += 1
            if j % n != i or not R.case([prog, often, early]):
                continue
            with R.guarded('programs', 30), wire.quiet():
                program(R, prog, often, early)


def program(R, prog, often, early):
    w = wire.World()
    db = wire.connect(w)
    w.server.early = early
    srv = w.server
    ref = Ref({k: srv.settings.get(k) for k in KEYS})
    open_ = []
    where = lambda: ' '.join(prog)
    keys = {k for k in KEYS if any(a.lower() in ' '.join(prog).lower() for a in KEYS[k][1:])}
    if any('upd' in o or o in ('in2', 'inbad') or 'ALL' in o for o in prog):
        keys |= {'search_path', 'application_name', 'TimeZone'}
    wire_err = None
    for at, op in enumerate(list(prog) + [None] * 9):
        if op is None:
            if not open_:
                break
            op = ')'
        if op in (')', ')!') and not open_:
            break           # a block was not entered
        R.trans()
        want = got = None
        try:
            ref.step(op)
        except Failed as e:
            want = e
        try:
            act(db, op, open_)
        except Boom:
            pass
        except Exception as e:
            got = e
        if (want is None) != (got is None):
            R.violate('error:' + op.split(':')[0], '%s: step %d (%s) %s' % (where(), at, op, 'raised %r' % (got,) if got is not None else 'raised nothing'))
            return
        R.check({k: v for k, v in srv.settings.items() if k in keys} == {k: v for k, v in ref.now.items() if k in keys and (v is not None)} or
                all(same(k, srv.settings.get(k), ref.now[k]) for k in keys), 'effect:' + op.split(':')[0],
                lambda: '%s: after step %d (%s) the session has %r instead of %r' % (where(), at, op, {k: srv.settings.get(k) for k in keys}, {k: ref.now[k] for k in keys}))
        if often:
            observe(R, db, w.server, ref, keys, where, at)
    if not often:
        observe(R, db, w.server, ref, keys, where, 'the last')
    R.state(tuple(sorted((k, v or '') for k, v in ref.now.items())) + (ref.failed,))


def act(db, op, open_):
    kind, _, arg = op.partition(':')
    if kind == 'set':
        k, v = arg.split('=', 1)
        db.settings[k] = v
    elif kind == 'upd':
        db.settings.update(UPDATES[arg])
    elif kind == 'del':
        del db.settings[arg]
    elif kind == 'err':
        db.execute('BROKEN')
    elif kind == 'sql':
        db.execute(arg)
    elif op == 'xact(':
        x = db.xact()
        x.__enter__()
        open_.append(x)
    elif kind in ('in', 'in2', 'inbad'):
        x = db.settings(**(dict([arg.split('=', 1)]) if kind == 'in' else UPDATES['two' if kind == 'in2' else kind]))
        x.__enter__()
        open_.append(x)
    elif op == ')':
        open_.pop().__exit__(None, None, None)
    elif op == ')!':
        try:
            raise Boom()
        except Boom:
            open_.pop().__exit__(*sys.exc_info())


def observe(R, db, srv, ref, keys, where, at):
    S = db.settings
    failed = ref.failed
    for k in sorted(keys):
        want = ref.now[k]
        for alias in KEYS[k][1:]:
            for how, f in (('item', lambda: S[alias]), ('get', lambda: S.get(alias, 'DEFAULT')), ('getset', lambda: S.getset([alias])[alias])):
                R.trans()
                try:
                    got = f()
                except Exception as e:
                    if failed and 'abort' in str(e) or want in (None, '') and isinstance(e, KeyError):
                        continue
                    R.violate('read:' + how, '%s: after step %s, %s %r raised %r' % (where(), at, how, alias, e))
                    return
                if want is None and got == 'DEFAULT':
                    continue
                if not R.check(same(k, got, want), 'read:' + how, lambda: '%s: after step %s, %s %r is %r, the session has %r' % (where(), at, how, alias, got, want)):
                    return
    if failed:
        return
    R.check(S.get('nothing') is None and S.get('nothing', 7) == 7, 'read:default', where)
    names = [k for k in sorted(keys) if k != 'my.var']
    got = S.getset(names)
    R.check(set(got) == set(names) and all(same(k, got[k], ref.now[k]) for k in names), 'read:getset-all', lambda: '%s: %r' % (where(), got))
    for missing in (['nothing'], ['nothing', 'none'], ['nothing'] + names):
        try:
            got = S.getset(missing)
        except KeyError as e:
            R.check(set(e.args[0]) == set(missing) - set(names), 'read:getset-missing', lambda: '%s: %r' % (where(), e))
        else:
            R.violate('read:getset-missing', '%s: %r' % (where(), got))
    items = dict((k, v) for k, v in S.items())
    R.check(all(same(k, items[k], ref.now[k]) for k in names), 'read:items', lambda: '%s: %r' % (where(), items))
    R.check(list(S) == list(S.keys()) == list(items) and list(S.values()) == list(items.values()) and len(S) == len(items), 'read:mapping', where)
    if 'client_encoding' in keys:
        text = 'h\xe9'
        code = 'latin1' if ref.now['client_encoding'] == 'LATIN1' else 'utf-8'
        seen = []
        srv.on_echo = lambda args: seen.append(args) or args
        got = db.prepare('ECHO 25').first(text)
        R.check(got == text and seen == [[text.encode(code)]], 'read:encoding', lambda: '%s: %r %r' % (where(), got, seen))


PATHS = [[], ['a'], ['a', 'b'], ['$user', 'public'], ['a"b'], ['a,b', 'c'], ['A'], [' x '], ['a', '', 'b'], ['"']]


def t_paths(R):
    for first in PATHS:
        for second in PATHS:
            if not R.case([first, second]):
                continue
            with R.guarded('paths', 20), wire.quiet():
                w = wire.World()
                db = wire.connect(w)
                S = db.settings
                R.check(list(S.path) == ['$user', 'public'], 'path:default', lambda: repr(S.path))
                for p in (first, second):
                    R.trans()
                    S.path = p
                    want = ','.join('"%s"' % x.replace('"', '""') for x in p)
                    R.check(w.server.settings['search_path'].replace(' ', '') == want.replace(' ', ''), 'path:set', lambda: '%r: %r' % (p, w.server.settings['search_path']))
                    R.check(list(S.path) == p, 'path:get', lambda: '%r became %r' % (p, S.path))
                    with db.xact():
                        S.path = ['inner']
                        R.check(S.path == ['inner'], 'path:inner', repr(p))
                        db.execute('SET search_path = third')
                        R.check(S.path == ['third'], 'path:sql', repr(p))
                try:
                    with db.xact():
                        S.path = ['undone']
                        S.path
                        raise Boom()
                except Boom:
                    pass
                R.check(list(S.path) == ['third'], 'path:rollback', lambda: repr(S.path))
                del S.path
                R.check(list(S.path) == ['$user', 'public'], 'path:del', lambda: repr(S.path))
                R.state((tuple(first), tuple(second)))


def t_startup(R):
    "settings of the connection request are what a reset goes back to"
    for given in ({}, {'search_path': 'mine'}, {'search_path': 'mine', 'application_name': 'me'}, {'TimeZone': 'EST', 'application_name': 'me'}):
        for ops in itertools.product((0, 1, 2, 3), repeat=2):
            if not R.case([given, ops]):
                continue
            with R.guarded('startup', 20), wire.quiet():
                w = wire.World()
                db = wire.connect(w, settings=dict(given))
                start = {k: given.get(k, d[0]) for k, d in KEYS.items() if k != 'my.var'}
                ref = Ref(start)
                for o in ops:
                    for k in ('search_path', 'application_name', 'TimeZone'):
                        op = ('set:%s=z' % k, 'del:%s' % k, 'sql:RESET ALL', 'sql:SET %s = y' % k)[o]
                        ref.step(op)
                        act(db, op, [])
                        observe(R, db, w.server, ref, set(start), lambda: '%r %s' % (given, op), op)
                R.state((tuple(given.items()), ops))


def t_subscribers(R):
    "each subscriber is told each report of the settings it asked for, whatever the others do"
    hooks = ['key', 'all', 'raises', 'leaves', 'other']
    steps = ['set:application_name=x', 'sql:SET application_name = y', 'set:TimeZone=CET', 'roll', 'unsub']
    for r in range(1, 4):
        for subs in itertools.permutations(hooks, r):
            for prog in itertools.product(steps, repeat=3 if R.tier == 'quick' else 4):
                for early in (False, True):
                    if not R.case([subs, prog, early]):
                        continue
                    with R.guarded('subscribers', 20), wire.quiet():
                        subscribers(R, subs, prog, early)


def subscribers(R, subs, prog, early):
    w = wire.World()
    db = wire.connect(w)
    w.server.early = early
    calls, want = {s: [] for s in subs}, {s: [] for s in subs}
    gone = set()
    keyof = {'key': 'application_name', 'all': None, 'raises': 'application_name', 'leaves': 'application_name', 'other': 'TimeZone'}
    fns = {}

    def make(s):
        def f(c, k, v):
            calls[s].append((c is db, k, v))
            if s == 'leaves':
                db.settings.unsubscribe(keyof[s], f)
            if s == 'raises':
                raise Boom()
        return f
    for s in subs:
        fns[s] = make(s)
        db.settings.subscribe(keyof[s], fns[s])
        db.settings.subscribe(keyof[s], fns[s])     # once is enough
    reports = []
    feed = w.server.feed

    def listen(data):
        out = feed(data)
        for m in out:
            if m[:1] == b'S' and len(m) > 5:
                k, v = m[5:-1].split(b'\0')
                reports.append((k.decode(), v.decode()))
        return out
    w.server.feed = listen
    hook, sys.excepthook = sys.excepthook, lambda *a: None
    try:
        for op in prog:
            R.trans()
            del reports[:]
            if op == 'roll':
                try:
                    with db.xact():
                        db.settings['application_name'] = 'gone'
                        raise Boom()
                except Boom:
                    pass
            elif op == 'unsub':
                if 'key' in subs:
                    db.settings.unsubscribe(keyof['key'], fns['key'])
                    gone.add('key')
            else:
                act(db, op, [])
            for k, v in reports:
                for s in subs:
                    if s in gone or keyof[s] not in (None, k):
                        continue
                    # a failing subscriber may keep the ones after it from being told
                    want[s].append((True, k, v))
                    if s == 'leaves':
                        gone.add(s)
            for s in subs:
                if 'raises' in subs and s != 'raises':
                    R.check(set(calls[s]) <= set(want[s]), 'subscriber:calls', lambda: '%s of %r: %r instead of %r' % (s, prog, calls[s], want[s]))
                    if s == 'leaves':
                        return
                else:
                    R.check(calls[s] == want[s], 'subscriber:calls', lambda: '%s of %r: %r instead of %r' % (s, prog, calls[s], want[s]))
            for k in ('application_name', 'TimeZone'):
                R.check(db.settings[k] == w.server.settings[k], 'subscriber:value', lambda: '%r %r: %s is %r, the session has %r' % (subs, prog, k, db.settings[k], w.server.settings[k]))
        R.state((subs, tuple(map(len, calls.values()))))
    finally:
        sys.excepthook = hook
