#!/bin/bash
# tst.sh PKG ARGS...: build one harness package and run it by hand
V=$(cd "$(dirname "$0")/.." && pwd); export V; T=${TSTDIR:-/tmp/tst}; export T
cd $V && python3 - "$1" <<'P' || exit 1
import importlib.util,importlib.machinery,sys,os
l=importlib.machinery.SourceFileLoader("check",os.environ["V"]+"/check");s=importlib.util.spec_from_loader("check",l);m=importlib.util.module_from_spec(s);l.exec_module(m)
os.makedirs(os.environ["T"],exist_ok=True)
try: m.build_pkg(os.environ["T"],sys.argv[1],race=os.environ.get("RACE")=="1")
except m.Infra as e: print(str(e)[:4000]); sys.exit(1)
P
p=$1; shift; f=$T/${p//\//_}.test; [ "$RACE" = 1 ] && f=$T/${p//\//_}.race.test
cd $T && VERIF_KNOWN=$V/known-findings.txt $f -test.run "$@" 2>&1 | grep -v "rapid\] draw\|^\s*$" | head -${LINES_MAX:-40} | cut -c1-${COLS_MAX:-400}
