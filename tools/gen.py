#!/usr/bin/env python3
"""
Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py
and the modules of /verif/checks: python3 /verif/tools/gen.py
"""
import json
import os
import re
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
from props import PROPS, NOT_APPLICABLE, NOTES

checks = {}
for n in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
    m = re.match(r'(c\d+)_.*\.py$', n)
    if m:
        checks[m.group(1).upper()] = n

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

import importlib
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import sys; assert sys.version_info[:2] == (3, 12)" && gcc --version >/dev/null',
    'checks': [], 'not_applicable': [],
}
for p in PROPS:
    i = p['id']
    if i in checks:
        mod = importlib.import_module('checks.' + checks[i][:-3])
        man['checks'].append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'model checking: ' + mod.TECHNIQUE,
            'level': mod.LEVEL,
            'level_note': mod.RULE,
        })
    else:
        man['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check registered yet')})
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')

V = '/opt/veriftools/pyvenv/bin/python'
print(len(PROPS), 'properties,', len(man['checks']), 'checks')

# the table of planted bugs in DESIGN.md
rows = ['| planted bug | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    with open(os.path.join(VERIF, 'seeded', d, 'meta.json')) as f:
        m = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = os.path.join(VERIF, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- seeds -->'), s.index('<!-- /seeds -->')
with open(p, 'w') as f:
    f.write(s[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + s[b:])
