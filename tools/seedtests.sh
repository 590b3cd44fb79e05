#!/bin/bash
# tools/seedtests.sh ID...   stable tests with each patch applied (scratch copy); never two at once
for ID in "$@"; do
 D=$(mktemp -d /tmp/st-XXXXXX); chmod 755 $D; git -C /repo archive HEAD | tar -x -C $D; (cd $D; git init -q .; git apply /verif/seeded/$ID/patch.diff) || echo "$ID DOES NOT APPLY"
 (cd $D; CFLAGS=-Wno-deprecated-declarations /opt/venv/bin/python setup.py -q build_ext --inplace --force >/dev/null 2>&1)
 sed -e "s#/repo#$D#g" -e '/build.sh ext/d' /opt/vp/test.sh > $D/test.sh
 bash $D/test.sh $D/out.json > $D/log 2>&1
 python3 - $ID $D/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[2]))
m=sorted(b-set(o['passed']))
print(sys.argv[1],'tests', 'ok' if not m else 'FAIL %d %s'%(len(m),m[:4]), flush=True)
P
 rm -rf $D
done
