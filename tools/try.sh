#!/bin/bash
# tools/try.sh PATCH CHECK...   run checks (quick) on a scratch copy of /repo with PATCH applied
# PATCH: a file, or -REV to revert a commit of /repo
P="$1"; shift
D=$(mktemp -d /tmp/try-XXXXXX)
git -C /repo archive HEAD | tar -x -C "$D"
cd "$D" && git init -q . >/dev/null
case "$P" in
 -*) git -C /repo show "${P#-}" | git apply -R - || { echo "does not revert"; rm -rf "$D"; exit 2; } ;;
 *) git apply "$P" || { echo "does not apply"; rm -rf "$D"; exit 2; } ;;
esac
cd /verif
for c in "$@"; do
  MC_EVIDENCE="$D/ev" VERIF_REPO="$D" timeout 900 /opt/venv/bin/python run.py "$c" --tier ${TIER:-quick} 2>&1 | grep -E "executions|VIOLATION|ERROR|^  \[" | cut -c1-160 | head -${LINES_MAX:-4}
done
rm -rf "$D"
