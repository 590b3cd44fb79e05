#!/bin/bash
# tools/mkseed.sh ID PROP NEEDS BREAKS FILE 'old=>>new' [FILE 'old=>>new'...]   demo.py on stdin
ID=$1 PROP=$2 NEEDS=$3 BREAKS=$4; shift 4
D=$(mktemp -d /tmp/mks-XXXXXX); git -C ${SRC:-/repo} archive HEAD | tar -x -C $D; cd $D; git init -q .; git add -A >/dev/null; git -c user.name=x -c user.email=x@x commit -qm x
while [ $# -gt 0 ]; do python3 - "$D/$1" "$2" <<'P' || { rm -rf $D; exit 1; }
import sys
p=sys.argv[1]; s=open(p).read(); a,b=sys.argv[2].split('=>>',1)
a=a.encode('latin-1','backslashreplace').decode('unicode_escape') if '\\' in a and 'RAW' not in sys.argv else a
b=b.encode('latin-1','backslashreplace').decode('unicode_escape') if '\\' in b else b
if s.count(a)!=1: print('count',s.count(a),repr(a)); sys.exit(1)
open(p,'w').write(s.replace(a,b))
P
shift 2; done
O=/verif/seeded/$ID; mkdir -p $O; git diff > $O/patch.diff; cd /; rm -rf $D
cat > $O/demo.py
if grep -q "from mc" $O/demo.py; then mkdir -p $O/mc; for x in __init__ core pgmodel wire real; do cp /verif/mc/$x.py $O/mc/; done; fi
printf '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD:$D" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$D/demo.py"\n' > $O/demo.sh; chmod +x $O/demo.sh
python3 - "$O/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
bash /verif/tools/seeddemo.sh $ID
