#!/bin/bash
# tools/fixed2.sh PROPERTY FROM..TO: record a range of commits of /repo as repairs of PROPERTY
git -C /repo log --reverse --format='%h %s' "$2" | sed 's/^\([0-9a-f]*\) fix: /\1 /' | while read h m; do echo "fixed: property=$1 $h $m"; done | tee -a /verif/known_findings.txt
