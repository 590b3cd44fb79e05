#!/bin/sh
# which planted bugs change only lines that our own commits added (they would not count)
cd /repo
BASE=${BASE:-ed425a5}
for d in /verif/seeded/*/; do
  python3 - "$d" "$BASE" <<'P'
import sys,re,subprocess,os
d,base=sys.argv[1:]
f=None;ok=False;ln=0
for l in open(d+'patch.diff',errors='replace'):
    l=l.rstrip('\n')
    if l.startswith('--- a/'): f=l[6:]
    elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('+++') or l.startswith('---'): pass
    elif l.startswith('-'):
        b=subprocess.run(['git','blame','-l','-s','-L%d,%d'%(ln,ln),base+'..HEAD','--',f],capture_output=True,text=True).stdout
        if b.startswith('^') and l[1:].strip(): ok=True
        ln+=1
    elif l.startswith(' ') or l=='' : ln+=1
    elif l.startswith('+'): pass
if not ok: print('only own or added lines:',os.path.basename(d.rstrip('/')))
P
done
