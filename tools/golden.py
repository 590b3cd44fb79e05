"""
Record golden/types.json from a real server: for the values of every type of
mc/pgtypes.py, what the server's send functions return for their SQL literals.
Usage: golden.py HOST PORT (psql of a server with hstore installed). Prints the
values mc/pgtypes.py encodes differently; all values are compared, a sample is kept.
"""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get('VERIF_REPO', '/repo')]
from mc import pgtypes

SEND = {'bool': 'boolsend', '"char"': 'charsend', 'tid': 'tidsend', 'json': 'json_send', 'jsonb': 'jsonb_send', 'varbit': 'varbit_send', 'bit': 'bit_send', 'text': 'textsend', 'varchar': 'varcharsend', 'bytea': 'byteasend',
        'int2': 'int2send', 'int4': 'int4send', 'int8': 'int8send', 'oid': 'oidsend', 'xid': 'xidsend', 'cid': 'cidsend', 'float4': 'float4send', 'float8': 'float8send'}


def psql(sql):
    p = subprocess.run(['/opt/pgtest/bin/psql', '-h', sys.argv[1], '-p', sys.argv[2], '-U', 'postgres', '-At', '-q', '-v', 'ON_ERROR_STOP=1'], input=sql, text=True, capture_output=True)
    if p.returncode:
        raise SystemExit(p.stderr[:500])
    return p.stdout.split('\n')[:-1]


out = {}
for t in pgtypes.catalogue() + [pgtypes.Hstore()]:
    vals = [v for v in t.values('quick')]
    vals += [x for _, x in t.inputs('quick')] if t.name not in ('macaddr', 'timetz', 'timestamptz') else []
    if t.name.startswith('float'):
        pass
    lits = [t.literal(v) for v in vals]
    fn = SEND.get(t.name, t.name + '_send')
    got = []
    for i in range(0, len(lits), 2000):
        got += psql("set timezone='UTC'; set extra_float_digits=3; set standard_conforming_strings=on;\n" + ''.join('select encode(%s(%s), \'hex\');\n' % (fn, l) for l in lits[i:i + 2000]))
    assert len(got) == len(lits), (t.name, len(got), len(lits))
    bad = [(l, t.send(v).hex(), g) for v, l, g in zip(vals, lits, got) if t.send(v).hex() != g]
    print(t.name, len(vals), 'values', len(bad), 'differ', [(a[:60], b[:80], c[:80]) for a, b, c in bad[:3]])
    rt = [l for v, l, g in zip(vals, lits, got) if t.canon(t.recv(bytes.fromhex(g))) != t.canon(v)]
    if rt:
        print('   recv differs', rt[:3])
    step = max(1, len(vals) // 250)
    out[t.name] = {l: g for l, g in list(zip(lits, got))[::step] if len(g) < 2000}
json.dump(out, open(os.path.join(V, 'golden', 'types.json'), 'w'), indent=0, sort_keys=True)
