"""
Driver-level programs: each is a list of (label, operation) run in order on
one connection; the outcome of an operation is its value or its exception.
"""
from . import scripts as S


def val(x):
    "a result as plain data"
    if isinstance(x, (str, bytes, int, float)) or x is None:
        return x
    if isinstance(x, dict):
        return {k: val(v) for k, v in x.items()}
    try:
        return [val(v) for v in x]
    except TypeError:
        return repr(x)


class Ctx:
    def __init__(self, db):
        self.db = db
        self.v = {}


class UserError(Exception):
    pass


def block(c, *sqls, fail=False):
    with c.db.xact():
        r = [c.db.query(s) if not callable(s) else s(c) for s in sqls]
        if fail:
            raise UserError()
    return r


def nested(c, inner_fail):
    with c.db.xact():
        c.db.query('INSERT INTO mct VALUES (31)')
        try:
            with c.db.xact():
                c.db.query('INSERT INTO mct VALUES (32)')
                if inner_fail:
                    raise UserError()
        except UserError:
            pass
        c.db.query('INSERT INTO mct VALUES (33)')


def load(c, rows, n):
    c.db.prepare(S.INSP).load_rows(rows, chunksize=n)


def stream(c, sql, n=2, method='chunks'):
    ps = c.db.prepare(sql)
    it = getattr(ps, method)()
    return [val(x) for x in it]


def small_chunks(c, sql, n, inside):
    from postgresql.driver import pq3
    ps = c.db.prepare(sql)
    it = ps.chunks()
    return [val(x) for x in it]


def take(c, key, it, n):
    if it is not None:
        c.v[key] = iter(it(c))
    out = []
    for i in range(n):
        try:
            out.append(val(next(c.v[key])))
        except StopIteration:
            out.append('STOP')
            break
    return out


TABLE = ('table', lambda c: val(c.db.query(S.TABLE)))


def programs():
    d = {}
    d['queries'] = [
        ('prepare', lambda c: c.v.__setitem__('ps', c.db.prepare(S.S5))),
        ('call', lambda c: val(c.v['ps']())),
        ('first', lambda c: val(c.v['ps'].first())),
        ('rows', lambda c: val(c.v['ps'].rows())),
        ('column', lambda c: val(c.v['ps'].column())),
        ('param', lambda c: val(c.db.query(S.SP, 2))),
        ('close', lambda c: c.v['ps'].close()),
        ('again', lambda c: val(c.db.query.first(S.ST))),
    ]
    d['errors'] = [
        ('err', lambda c: val(c.db.query(S.ERR2))),
        ('bad', lambda c: c.db.prepare(S.BAD)),
        ('ins', lambda c: val(c.db.query(S.INS))),
        ('dup', lambda c: val(c.db.query(S.INS))),
        TABLE,
    ]
    d['load'] = [
        ('load', lambda c: load(c, [(1,), (2,), (3,), (4,), (5,)], 2)),
        ('load-dup', lambda c: load(c, [(7,), (8,), (7,), (9,)], 2)),
        TABLE,
    ]
    d['copy'] = [
        ('copy-in', lambda c: c.db.prepare(S.COPYIN).load_chunks([[b'1\n', b'2\n'], [b'3\n']])),
        ('copy-bad', lambda c: c.db.prepare(S.COPYIN).load_chunks([[b'4\n', b'x\n'], [b'5\n']])),
        ('copy-out', lambda c: val(c.db.prepare(S.COPYOUT)())),
        ('copy-stream', lambda c: val(c.db.prepare(S.COPYOUT).rows())),
        TABLE,
    ]
    d['block'] = [
        ('commit', lambda c: val(block(c, S.INS, S.TABLE))),
        ('abort', lambda c: block(c, 'INSERT INTO mct VALUES (2)', fail=True)),
        ('error', lambda c: block(c, 'INSERT INTO mct VALUES (1)')),
        ('nested', lambda c: nested(c, True)),
        ('nested2', lambda c: nested(c, False)),
        TABLE,
    ]
    d['cursor'] = [
        ('declare', lambda c: c.v.__setitem__('c', c.db.prepare(S.S5).declare())),
        ('read2', lambda c: val(c.v['c'].read(2))),
        ('seek', lambda c: val(c.v['c'].seek(0))),
        ('readall', lambda c: val(c.v['c'].read())),
        ('close', lambda c: c.v['c'].close()),
        TABLE,
    ]
    d['stream'] = [
        ('begin', lambda c: c.db.execute('BEGIN')),
        ('open', lambda c: take(c, 'a', lambda c: c.db.prepare(S.SN % 5).chunks(), 1)),
        ('other', lambda c: val(c.db.query(S.SN % 2))),
        ('more', lambda c: take(c, 'a', None, 3)),
        ('copy', lambda c: take(c, 'b', lambda c: c.db.prepare(S.COPYOUT).rows(), 1)),
        ('copy2', lambda c: take(c, 'b', None, 4)),
        ('commit', lambda c: c.db.execute('COMMIT')),
    ]
    d['settings'] = [
        ('get', lambda c: c.db.settings['work_mem']),
        ('set', lambda c: c.db.settings.__setitem__('work_mem', '8MB')),
        ('get2', lambda c: c.db.settings['work_mem']),
        ('with', lambda c: within(c)),
        ('app', lambda c: c.db.settings.__setitem__('application_name', 'x')),
        ('get3', lambda c: c.db.settings['application_name']),
    ]
    d['notify'] = [
        ('listen', lambda c: c.db.listen('ch')),
        ('notify', lambda c: c.db.notify('ch')),
        ('payload', lambda c: c.db.notify(ch='p')),
        ('drain', lambda c: [(x[0], x[1]) for x in c.db.iternotifies(0)]),
        ('channels', lambda c: sorted(val(c.db.listening_channels()))),
        ('unlisten', lambda c: c.db.unlisten('ch')),
    ]
    return d


def within(c):
    with c.db.settings(work_mem='1MB'):
        return c.db.settings['work_mem']


def run_program(c, prog, after=None):
    """
    [(label, 'ok', value) or (label, 'exc', class name, code)]; `after` is
    called with each outcome.
    """
    import postgresql.exceptions as X
    out = []
    for label, op in prog:
        try:
            r = (label, 'ok', op(c))
        except UserError:
            r = (label, 'user', None)
        except X.Error as e:
            r = (label, 'exc', type(e).__name__, e.code, e)
        except KeyError as e:
            # an operation on an object whose creation failed before
            if e.args and e.args[0] in ('ps', 'c', 'a', 'b'):
                r = (label, 'missing', e.args[0])
            else:
                raise
        out.append(r[:4])
        if after:
            after(len(out) - 1, r)
    return out
