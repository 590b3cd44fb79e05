# m.sh FILE 'python expr replacing s' CHECK...
F=$1; X=$2; shift 2
D=$(mktemp -d /tmp/m-XXXXXX); git -C /repo archive HEAD | tar -x -C $D
python3 - "$D/$F" "$X" <<'P' || exit 1
import sys
p=sys.argv[1]; s=open(p).read(); a,b=sys.argv[2].split('=>',1)
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
assert s.count(a)>=1,(a,s.count(a)); open(p,'w').write(s.replace(a,b,1))
P
cd /verif; for c in "$@"; do MC_EVIDENCE=$D/ev VERIF_REPO=$D timeout 900 /opt/venv/bin/python run.py $c --tier quick 2>&1 | grep -E "executions|VIOLATION|ERROR|^  \[" | cut -c1-200 | head -${LM:-4}; done; rm -rf $D
