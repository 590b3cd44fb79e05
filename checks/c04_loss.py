"""
C04 - the connection dies: at every receive (nothing more, reset, or only a
part arrives), at every send (refused, swallowed, or a part arrives), in every
script of the protocol layer and every program of the driver.
"""
from mc import core, pgmodel, programs as P, scripts as S, wire

PROPERTY = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive fault injection at every socket call over listed exchanges, differential against the undisturbed run'
RULE = 'an execution is one script or program x one point and way of dying (thorough: preceded by one schedule deviation)'
ASSUMPTIONS = ['a dead socket answers every receive with end of file or a reset and every send with a broken pipe', 'operating system errors carry an errno']


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        names = list(S.scripts(tier))
        for kill in (False, True):
            for mode in ('complete', 'step', 'mixed'):
                for i in range(0, len(names), 6):
                    T.append(('script', v, {'names': names[i:i + 6], 'mode': mode, 'kill': kill}))
            for n in P.programs():
                T.append(('program', v, {'name': n, 'kill': kill}))
        T.append(('closing', v, {}))
    return T


def world(R, ch, kill):
    if kill:
        return wire.World(ch, kill=pgmodel.error_msg(pgmodel.PgError('57P01', 'terminating connection', b'FATAL')),
                          sched=R.tier == 'thorough')
    return wire.World(ch, faults=True, sched=R.tier == 'thorough', fine=R.tier == 'thorough')


def lost(code, kill):
    if isinstance(code, bytes):
        code = code.decode()
    return (code or '')[:2] == '08' or kill and code == '57P01'


def run(name, params, R):
    globals()['t_' + name](R, **params)


def t_script(R, names, mode, kill):
    for name in names:
        script = S.scripts(R.tier)[name]
        base = {}

        def once(ch):
            sig = 'lost:' + name
            with R.guarded(sig, 20), wire.quiet():
                w = world(R, ch, kill)
                r = S.Run(w, script, mode).go()
                where = lambda: '%s %s %r %r\n%r\nbase %r' % (name, mode, ch.schedule, [ch.labels[i] for i, a in ch.schedule], r.obs, base['obs'])
                if not ch.schedule:
                    base['obs'] = r.obs
                    return
                failed = False
                for got, want in zip(r.obs, base['obs']):
                    R.outcome(got)
                    if got == 'dead':
                        R.check(failed, sig + ':dead', where)
                        continue
                    if failed:
                        R.violate(sig + ':after', where())
                        break
                    R.check(got[3], sig + ':incomplete', where)
                    if got == want:
                        continue
                    failed = True
                    R.check(got[2] is True, sig + ':not-fatal', where)
                    code = dict(got[1] or ()).get(b'C')
                    R.check(lost(code, kill), sig + ':error', where)
                    # what it reports is a part of what there was
                    R.check(got[0] == want[0][:len(got[0])], sig + ':messages', where)
                if w.dead() and not failed:
                    # it died after everything was answered
                    R.check(r.obs == base['obs'], sig + ':differs', where)
                if failed:
                    R.check(r.pq.xact is not None and r.pq.xact.fatal is True, sig + ':alive', where)
                R.state((name, failed, len(r.obs), tuple(o == 'dead' for o in r.obs)))
        if R.only is not None:
            once(wire.Chooser())
        n = wire.explore(R, [name, mode, kill], once, 1 if R.tier == 'quick' or not kill and len(script) > 3 else 2)
        R.sample({'script': name, 'mode': mode, 'deaths': n})


# iterators: the operation that continues reading -> the one that opened it
ITER = {'more': 'open', 'copy2': 'copy'}


def local_ok(got, want, obs, kill):
    """
    Operations that may be answered from what was received before the loss:
    the rest of a stream (its end may be reported if its error was), settings
    already known and notifications already received.
    """
    label = got[0]
    by = {o[0]: o for o in obs}
    if label == 'close':
        return got == want
    if label in ITER:
        if got[1] == 'exc':
            return lost(got[3], kill)
        if got[1] != 'ok':
            return False
        rows = [x for x in got[2] if x != 'STOP']
        full = [x for x in want[2] if x != 'STOP']
        if got[2] == want[2]:
            return True
        return by[ITER[label]][1] == 'exc' and rows == full[:len(rows)]
    if label == 'get2':
        return got[1] == 'ok' and (got[2] == '8MB' or (by['set'][1] == 'exc' and got[2] == '4MB'))
    if label == 'get3':
        return got[1] == 'ok' and (got[2] == 'x' or (by['app'][1] == 'exc' and got[2] == ''))
    if label == 'drain':
        return got[1] == 'ok' and got[2] == want[2][:len(got[2])]
    return False


def t_program(R, name, kill):
    import postgresql.exceptions as X
    prog = P.programs()[name]
    base = {}

    def once(ch):
        sig = 'driver:' + name
        with R.guarded(sig, 20), wire.quiet():
            w = world(R, ch, kill)
            db = wire.connect(w)
            c = P.Ctx(db)
            dead_at = []

            def after(i, r):
                if w.dead() and not dead_at:
                    dead_at.append(i)
                if r[1] == 'exc' and lost(r[4].code, kill):
                    R.check(db.closed is True, sig + ':open', lambda: 'after %s raised %r: closed is %r' % (r[0], r[4], db.closed))
                    R.check('closed' in db.state or db.state == 'closed', sig + ':state', lambda: db.state)
            obs = P.run_program(c, prog, after)
            where = lambda: '%s %r %r\n got %r\nbase %r' % (name, ch.schedule, [ch.labels[i] for i, a in ch.schedule], obs, base['obs'])
            if not ch.schedule:
                base['obs'] = obs
                w.armed = False
                # the probe must work on a healthy connection
                R.check([tuple(x) for x in db.query(S.SN % 1)] == [(1,)], sig + ':probe')
            else:
                failed = None
                for i, (got, want) in enumerate(zip(obs, base['obs'])):
                    R.outcome(got)
                    if failed is None:
                        if got == want:
                            continue
                        failed = i
                        if got[0] == 'drain':
                            R.check(local_ok(got, want, obs, kill), sig + ':first', where)
                            continue
                        R.check(got[1] == 'exc' and lost(got[3], kill), sig + ':first', where)
                        R.check(bool(dead_at), sig + ':no-reason', where)
                    elif got[1] == 'missing':
                        pass
                    elif local_ok(got, want, obs, kill):
                        pass
                    else:
                        R.check(got[1] == 'exc' and lost(got[3], kill), sig + ':later', where)
                if w.dead():
                    # a request that needs the server fails
                    try:
                        r = db.query(S.SN % 1)
                    except X.Error as e:
                        R.check(lost(e.code, kill), sig + ':probe-error', lambda: repr(e.code))
                    else:
                        R.violate(sig + ':probe', 'a query on a dead connection returned %r' % (r,))
                    R.check(db.closed is True, sig + ':closed', where)
            w.armed = False
            try:
                db.close()
            except Exception as e:
                R.violate(sig + ':close', 'close() raised %r' % (e,))
            R.check(all(s.closed for s in w.sockets), sig + ':socket', where)
            R.check(db.closed is True or not ch.schedule, sig + ':closed2', where)
            # closing again is safe
            db.close()
            R.state((name, tuple(o[1] for o in obs)))
    if R.only is not None:
        once(wire.Chooser())
    n = wire.explore(R, ['program', name, kill], once, 1 if R.tier == 'quick' or not kill else 2)
    R.sample({'program': name, 'deaths': n})



def t_closing(R):
    "closing, in every state of the session, over a connection that dies at any point of it"
    import postgresql.exceptions as X
    opens = {
        'idle': lambda c: None,
        'block': lambda c: c.db.execute('BEGIN'),
        'failed': lambda c: (c.db.execute('BEGIN'), swallow(lambda: c.db.query(S.BAD))),
        'stream': lambda c: c.v.__setitem__('it', c.db.prepare(S.SN % 9).chunks()),
        'copy': lambda c: c.v.__setitem__('it', c.db.prepare(S.COPYOUT).chunks()),
        'cursor': lambda c: c.v.__setitem__('it', c.db.prepare(S.SN % 9).declare()),
        'garbage': lambda c: c.db.query(S.SN % 9),
    }

    def swallow(f):
        try:
            f()
        except X.Error:
            pass

    for name, op in opens.items():
        for kill in (False, True):
            def once(ch):
                sig = 'closing:' + name
                with R.guarded(sig, 20), wire.quiet():
                    w = world(R, ch, kill)
                    w.armed = False
                    db = wire.connect(w)
                    c = P.Ctx(db)
                    op(c)
                    w.armed = True
                    db.close()
                    R.check(all(s.closed for s in w.sockets), sig + ':socket', repr(ch.schedule))
                    R.check(db.closed is True, sig + ':closed')
                    if not ch.schedule:
                        R.check(w.server.terminated, sig + ':terminate')
                    db.close()
                    w.armed = False
                    try:
                        r = db.query(S.SN % 1)
                    except X.Error as e:
                        R.check(lost(e.code, kill), sig + ':error', lambda: repr(e.code))
                    else:
                        R.violate(sig + ':works', 'a query on a closed connection returned %r' % (r,))
                    R.check(len(w.sockets) == 1, sig + ':reconnect')
                    R.state((name, w.dead()))
            wire.explore(R, ['closing', name, kill], once, 1)
