#!/bin/bash
# tools/fixed.sh PROPERTY N: record the last N commits of /repo as repairs of PROPERTY
git -C /repo log -n "$2" --reverse --format='%h %s' | sed 's/^\([0-9a-f]*\) fix: /\1 /' | while read h m; do echo "fixed: property=$1 $h $m"; done >> /verif/known_findings.txt
tail -n "$2" /verif/known_findings.txt
