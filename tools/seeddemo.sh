#!/bin/bash
# tools/seeddemo.sh ID...   demo on the clean and on the patched tree (scratch copies)
D=$(mktemp -d /tmp/sd-XXXXXX); git -C ${SRC:-/repo} archive HEAD | tar -x -C $D; cp /repo/postgresql/port/optimized*.so $D/postgresql/port/
for ID in "$@"; do
 cd $D; S=/verif/seeded/$ID
 bash $S/demo.sh > $D/clean.out 2>&1; A=$?
 git apply $S/patch.diff 2>/dev/null || patch -sp1 < $S/patch.diff || echo "$ID DOES NOT APPLY"
 C=0; grep -q _optimized $S/patch.diff && C=1
 [ $C = 1 ] && CFLAGS=-Wno-deprecated-declarations /opt/venv/bin/python setup.py -q build_ext --inplace --force >/dev/null 2>&1
 bash $S/demo.sh > $D/bad.out 2>&1; B=$?
 patch -sRp1 < $S/patch.diff
 [ $C = 1 ] && { rm -rf $D/build; cp /repo/postgresql/port/optimized*.so $D/postgresql/port/; }
 echo "$ID clean=$A patched=$B $([ $A = 0 -a $B != 0 ] && echo ok || echo BAD)"
 [ $A = 0 ] || tail -5 $D/clean.out
 [ $B != 0 -a -z "$Q" ] && tail -2 $D/bad.out
done
cd /; rm -rf $D
