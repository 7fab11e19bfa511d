#!/bin/bash
# dbg.sh ID [tier]: run a check, print failures briefly
V=$(cd "$(dirname "$0")/.." && pwd)
VERIF_KEEP=1 VERIF_VERBOSE=1 $V/check "$@" >/tmp/dbg.out 2>&1; rc=$?
d=$(grep '^kept' /tmp/dbg.out | cut -d' ' -f2)
grep -h -E "rc=[^0]|cases|^KNOWN|^VIOL|^INCONC|note:" /tmp/dbg.out | cut -c1-300 | head -14
for f in $(ls $d/*/log.txt 2>/dev/null); do
  n=$((n+1)); [ $n -gt ${FILES_MAX:-40} ] && break; if ! grep -q "^PASS" $f; then m=$((m+1)); [ $m -gt ${FAILS_MAX:-2} ] && break; echo "== $f"; grep -h -v "rapid\] draw" $f | head -${LINES_MAX:-10} | cut -c1-${COLS_MAX:-350}; fi
done
rm -rf "$d"; exit $rc
