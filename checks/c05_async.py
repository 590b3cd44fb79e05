"""
C05 - notices, notifications and parameter reports may arrive anywhere.

Every script and program is run once undisturbed and then with every placement
of one group of asynchronous messages (thorough: two) at every boundary of the
server's messages, also while nothing is under way, times read splits. What
is delivered is compared with what the server sent, and the rest with the
undisturbed run.
"""
from mc import core, pgmodel as M, programs as P, scripts as S, wire

PROPERTY = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive placement of asynchronous messages at every message boundary, differential against the undisturbed run'
RULE = 'an execution is one script or program x placement of message groups x read splits, within the bound of deviations'
ASSUMPTIONS = ['asynchronous messages arrive after start-up, at message boundaries']

NOTICE = M.notice_msg('01000', 'one')
NOTICE2 = M.notice_msg('00000', 'two "é"', b'INFO')
NOTIFY = M.notify_msg(77, b'inj', b'pay')
NOTIFY2 = M.notify_msg(78, b'inj', b'')
PARAM = M.param_msg(b'mc_param', b'v1')
ENCODING = M.param_msg(b'client_encoding', b'UTF-8')
PARAM2 = M.param_msg(b'mc_param', b'v2')
MENU = [(NOTICE,), (NOTIFY,), (PARAM,), (NOTICE, NOTICE), (NOTIFY, NOTIFY), (NOTICE, NOTICE2, NOTICE), (NOTIFY, PARAM, NOTIFY2), (ENCODING,), (PARAM, PARAM2, PARAM)]
SMALL = [(NOTICE,), (NOTIFY, NOTIFY), (PARAM, NOTICE)]


def tasks(tier):
    T = []
    for v in ('c', 'py'):
        names = list(S.scripts(tier))
        for mode in ('complete', 'step', 'mixed'):
            for i in range(0, len(names), 6):
                T.append(('script', v, {'names': names[i:i + 6], 'mode': mode}))
        for n in P.programs():
            for hook in ('keep', 'pass', 'raise'):
                T.append(('program', v, {'name': n, 'hook': hook}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def is_async(m):
    return m[:1] in b'NSA'


def t_script(R, names, mode):
    for name in names:
        script = S.scripts(R.tier)[name]
        for hook in (None, 'raise'):
            for menu, sched, bound in (
                (MENU, False, 1),
                (SMALL, 1, 1), (SMALL, 2, 1), (SMALL, 3, 1),
                (SMALL[:2] if R.tier == 'quick' else SMALL, False, 2),
                (SMALL[1:2], True, 2 if R.tier != 'quick' else 1 if mode != 'complete' else 2),
            ):
                if R.tier == 'quick' and (hook or mode == 'mixed') and bound == 2:
                    continue
                if type(sched) is int and sched and hook:
                    continue
                if bound == 2 and len(script) > (2 if sched and R.tier == 'quick' else 4):
                    continue
                one_script(R, name, script, mode, menu, sched, bound, hook)


def raiser(run, m):
    raise ValueError('handler')


def one_script(R, name, script, mode, menu, sched, bound, hook):
    base = {}

    def once(ch):
        sig = 'async:' + name
        with R.guarded(sig, 20), wire.quiet():
            w = wire.World(ch, sched=sched is True, pieces=sched if sched is not True else 0, asyncs=menu, idle=True)
            r = S.Run(w, script, mode, hook=raiser if hook else None)
            sock = w.sockets[-1]
            begin = len(sock.out)
            r.go()
            w.armed = False
            # read what is still on its way
            r.script = [([('S',)], None)]
            r.mode = 'complete'
            r.go()
            where = lambda: '%s %s %r %r' % (name, mode, ch.schedule, w.injected)
            sent = [wire_async(m) for m in sock.out[begin:] if is_async(m)]
            got = [content(m) for m in r.asyncs]
            R.check(sorted(got) == sorted(sent), sig + ':delivery', lambda: '%s\nsent %r\ngot %r' % (where(), sent, got))
            R.check(got == sent, sig + ':order', lambda: '%s\nsent %r\ngot %r' % (where(), sent, got))
            res = {'obs': r.obs, 'state': r.pq.state, 'server': (sock.srv.state, sock.srv.db, sock.srv.log)}
            if not ch.schedule:
                base.update(res)
            for k in res:
                R.check(res[k] == base[k], sig + ':' + k, lambda: '%s\n got %r\nbase %r' % (where(), res[k], base[k]))
            R.state((name, tuple(w.injected), len(ch.trace)))
            R.outcome((name, got))
    if R.only is not None:
        once(wire.Chooser())
    n = wire.explore(R, [name, mode, len(menu), sched, bound, hook], once, bound)
    R.sample({'script': name, 'mode': mode, 'placements': n})


def wire_async(m):
    t, body = m[:1], m[5:]
    if t == b'N':
        return (t,) + tuple((p[:1], p[1:]) for p in body.split(b'\0') if p)
    if t == b'A':
        return (t, int.from_bytes(body[:4], 'big')) + tuple(body[4:].split(b'\0')[:2])
    return (t,) + tuple(body.split(b'\0')[:2])


def content(m):
    if m.type == b'N':
        return (m.type,) + tuple(m.items())
    if m.type == b'A':
        return (m.type, m.pid, m.channel, m.payload)
    return (m.type, m.name, m.value)


def t_program(R, name, hook):
    import postgresql.sys as psys
    prog = P.programs()[name]
    for menu, sched, bound in ((MENU, False, 1), (SMALL[:1], True, 1)):
        if R.tier != 'quick':
            bound = 2
            menu = SMALL
        if hook != 'keep' and (sched or R.tier == 'quick' and len(menu) > 3):
            menu = SMALL
        if hook != 'keep' and sched:
            continue
        one_program(R, name, prog, hook, menu, sched, bound)


def one_program(R, name, prog, hook, menu, sched, bound):
    import postgresql.sys as psys
    base = {}

    def once(ch):
        sig = 'driver:' + name
        fell = []
        old = psys.msghook
        def last(m):
            fell.append(m)
            old(m)
        psys.msghook = last
        try:
            with R.guarded(sig, 20), wire.quiet():
                shown = []
                w = wire.World(ch, sched=sched, asyncs=menu, idle=True)
                db = wire.connect(w)
                sock = w.sockets[-1]
                begin = len(sock.out)
                kept = []

                def msghook(m):
                    kept.append(m)
                    # looking at a message has no effects
                    shown.append(str(m))
                    if hook == 'raise':
                        raise ValueError('handler')
                    return hook == 'keep'
                db.msghook = msghook
                obs = P.run_program(P.Ctx(db), prog)
                w.armed = False
                db.query(S.SN % 1)
                db.query(S.SN % 1)
                drained = [tuple(x) for x in db.iternotifies(0)]
                out = sock.out[begin:]
                where = lambda: '%s %r %r' % (name, ch.schedule, w.injected)
                # notices
                want = []
                for m in out:
                    if m[:1] == b'N':
                        f = {p[:1]: p[1:].decode('utf-8') for p in m[5:].split(b'\0') if p}
                        want.append((f[b'C'], f[b'M'], f[b'S']))
                got = [(m.code, m.message, m.details.get('severity')) for m in kept]
                R.check(got == want, sig + ':notices', lambda: '%s\nsent %r\ngot %r' % (where(), want, got))
                R.check(all(m in x for (c, m, s), x in zip(want, shown)), sig + ':shown', lambda: '%s: %r' % (where(), shown))
                R.check(len(fell) == (len(want) if hook == 'pass' else 0), sig + ':fallback',
                        lambda: '%s: %d of %d went to the last hook' % (where(), len(fell), len(want)))
                # notifications
                want = []
                for m in out:
                    if m[:1] == b'A':
                        c, p = m[9:].split(b'\0')[:2]
                        want.append((c.decode(), p.decode()))
                got = []
                for o in obs:
                    if o[0] == 'drain':
                        got += [tuple(x) for x in o[2]]
                got += [(x[0], x[1]) for x in drained]
                R.check(got == want, sig + ':notifications', lambda: '%s\nsent %r\ngot %r' % (where(), want, got))
                pids = {x[0]: x[2] for x in drained if x[0] == 'inj' and x[1]}
                R.check(pids in ({}, {'inj': 77}), sig + ':pid', lambda: repr(pids))
                # parameters
                vals = [m[5:].split(b'\0')[1].decode() for m in out if m[:1] == b'S' and m[5:].startswith(b'mc_param\0')]
                if vals:
                    R.check(db.settings['mc_param'] == vals[-1], sig + ':parameter', where)
                if ENCODING in out:
                    R.check(db.settings['client_encoding'] == 'UTF-8', sig + ':encoding', where)
                res = {'obs': [o for o in obs if o[0] != 'drain'], 'closed': db.closed, 'server': (sock.srv.state, sock.srv.db)}
                if not ch.schedule:
                    base.update(res)
                for k in res:
                    R.check(res[k] == base[k], sig + ':' + k, lambda: '%s\n got %r\nbase %r' % (where(), res[k], base[k]))
                db.close()
                R.state((name, tuple(w.injected), len(ch.trace)))
                R.outcome((name, got))
        finally:
            psys.msghook = old
    if R.only is not None:
        once(wire.Chooser())
    n = wire.explore(R, ['program', name, hook, len(menu), sched, bound], once, bound)
    R.sample({'program': name, 'hook': hook, 'placements': n})
