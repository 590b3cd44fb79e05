"""
C02 - the outcome of protocol transactions does not depend on how the socket
schedules I/O.

Every script is run on the real protocol code over the model server, once
with a socket that sends and receives everything at once, and then with every
schedule of at most d deviations (a short send, a short receive, 'try again',
'interrupted', at any socket call). The bytes the server gets, the messages
reported and the state of the connection must be those of the first run.
"""
import re

from mc import core, programs as P, scripts as S, wire

PROPERTY = 'C02'
LEVEL = 'model_checking'
TECHNIQUE = 'deviation-bounded exploration of socket schedules, differential against the undisturbed run'
RULE = 'an execution is one script x way of running x schedule of at most 2 deviations (1 in the longest scripts; thorough: 3 and 2)'
ASSUMPTIONS = ['a socket answers with a count, data, EAGAIN, EINTR or ETIMEDOUT', 'the server is mc.pgmodel']

def tasks(tier):
    T = []
    for v in ('c', 'py'):
        for n in S.scripts(tier):
            for mode in ('complete', 'step', 'mixed'):
                T.append(('script', v, {'name': n, 'mode': mode}))
        T.append(('startup', v, {}))
        for n in P.programs():
            T.append(('program', v, {'name': n}))
    return T


def run(name, params, R):
    globals()['t_' + name](R, **params)


def result(r, w):
    sock = w.sockets[-1]
    return {
        'observed': r.obs, 'sent': sock.sent, 'asyncs': [wire.canon(m) for m in r.asyncs],
        'server': (sock.srv.state, sorted(sock.srv.db['mct']), sock.srv.log),
        'sockets': len(w.sockets), 'open': [s.closed for s in w.sockets],
        'xact': r.pq.xact is None, 'state': r.pq.state,
    }


def differential(R, name, mode, key, bound, startup=False, fine=True):
    script = S.scripts(R.tier)[name]
    base = {}

    def once(ch):
        sig = 'schedule:%s' % name
        with R.guarded(sig, 20), wire.quiet():
            w = wire.World(ch, sched=True, fine=fine)
            r = S.Run(w, script, mode, startup=startup)
            r.go()
            res = result(r, w)
            if not ch.schedule:
                if not base:
                    base.update(res)
            for k in res:
                if not R.check(res[k] == base.get(k, res[k]), sig + ':' + k,
                               lambda: '%s, %s, schedule %r (%s)\n got %r\nbase %r' % (
                                   name, mode, ch.schedule, [ch.labels[i] for i, a in ch.schedule], res[k], base[k])):
                    break
            R.state((name, len(ch.trace), res['state']))
            R.outcome(res['observed'])

    if R.only is not None:
        once(wire.Chooser())    # the reference of a replay
    return wire.explore(R, key, once, bound)


def t_script(R, name, mode):
    script = S.scripts(R.tier)[name]
    # length of the undisturbed run decides the bound
    ch = wire.Chooser()
    with wire.quiet():
        S.Run(wire.World(ch, sched=True, fine=True), script, mode).go()
    space = sum(n - 1 for n in ch.trace)
    deep = 45 if R.tier == 'quick' else 110
    bound = 2 if space < (400 if R.tier == 'thorough' else 140) else 1
    if R.tier == 'thorough' and space < 60:
        bound = 3
    n = differential(R, name, mode, [name, mode], bound)
    R.note('scripts_bound_%d' % bound)
    R.sample({'script': name, 'mode': mode, 'bound': bound, 'alternatives': space, 'executions': n})


def t_startup(R):
    "the start-up exchange itself"
    for name in ('ext', 'simple-error'):
        n = differential(R, name, 'complete', ['startup', name], 1 if R.tier == 'quick' else 2, startup=True, fine=False)
    R.sample({'startup': n})


GENERATED = re.compile(r'(?:[a-z]+[:(])?0x[0-9a-f]{6,}')


def names(log):
    "the log of the server with the generated names numbered; a closed one may come back as another"
    seen, out, n = {}, [], 0
    for i, entry in enumerate(log):
        text = repr(entry)
        for name in GENERATED.findall(text):
            if 'SAVEPOINT "' in text and 'ROLLBACK' not in text:
                seen.pop(name, None)
            if name not in seen:
                seen[name] = n
                n += 1
        out.append(GENERATED.sub(lambda m: '#%d' % seen[m.group(0)], text))
        if entry[0] == 'C' and not (i + 1 < len(log) and log[i + 1][:2] == ('P', entry[2])):
            seen.pop(entry[2], None)
    return out


def t_program(R, name):
    "the driver on top of it"
    prog = P.programs()[name]
    base = {}

    def once(ch):
        sig = 'program:' + name
        with R.guarded(sig, 20), wire.quiet():
            w = wire.World(ch, sched=True)
            db = wire.connect(w)
            obs = P.run_program(P.Ctx(db), prog)
            res = {'obs': obs, 'server': (w.server.state, w.server.db, names(w.server.log))}
            if not ch.schedule:
                base.update(res)
            for k in res:
                R.check(res[k] == base[k], sig + ':' + k, lambda: '%s, schedule %r (%s)\n got %r\nbase %r' % (
                    name, ch.schedule, [ch.labels[i] for i, a in ch.schedule], res[k], base[k]))
            w.armed = False
            db.close()
            R.state((name, len(ch.trace)))
            R.outcome(res['obs'])
    if R.only is not None:
        once(wire.Chooser())
    n = wire.explore(R, ['program', name], once, 1 if R.tier == 'quick' else 2)
    R.sample({'program': name, 'executions': n})
