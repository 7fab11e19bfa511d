#!/usr/bin/env python3
"""Plants bugs: plant.bug(id, prop, edits, pkg, demo, needs, breaks, mysql=…) writes seeded/<id> and confirms, in a
scratch copy of the repository, that the change touches lines of the original repository, builds, passes the stable
tests, and that the demonstration passes without it and fails with it. Then it runs the property's check on the copy.
usage: python3 tools/seedsN.py [-c] [id…]   (-c: only the check)"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_REPO', '/repo')
GO = '/opt/veriftools/go1.25.14/bin'
ENV = dict(os.environ, PATH=GO + ':' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly')
DEMO = '''#!/bin/bash
# Runs in the repository: exit 0 if the property holds in this demonstration.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
export TMPDIR="$T"
cat > "$T/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$D/demo_test.go"}}
EOF
%(run)sgo test -vet=off %(flags)s-overlay "$T/overlay.json" -count=1 -timeout 200s -run '^TestZZDemo' ./%(pkg)s
'''
BUGS = []

def bug(id, prop, edits, pkg, demo, needs, breaks, mysql=False, flags=''):
    BUGS.append(dict(locals()))

def sh(cmd, cwd, **k):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **k)
    return p.returncode, p.stdout + p.stderr

def original(scr, base):
    """Does every removed line of the change come from the base commit?"""
    bad = []
    for f in subprocess.check_output(['git', '-C', scr, 'diff', '--name-only'], text=True).split():
        d = subprocess.check_output(['git', '-C', scr, 'diff', '-U0', '--', f], text=True)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for i in range(a, a + n):
                b = subprocess.check_output(['git', '-C', scr, 'blame', '-s', '-l', '-L', f'{i},{i}', 'HEAD', '--', f], text=True)
                if not b.lstrip('^').startswith(base[:39].lstrip('^')) and base[:30] not in b:
                    bad.append(f'{f}:{i}')
    return bad

def make(b, only_check):
    id = b['id']; d = f'{HERE}/seeded/{id}'; scr = f'/tmp/plant.{id}'; log = []
    subprocess.run(['rm', '-rf', scr]); subprocess.check_call(['git', 'clone', '-q', SRC, scr])
    try:
        base = subprocess.check_output(['git', '-C', scr, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
        if not only_check:
            os.makedirs(d, exist_ok=True)
            open(d + '/demo_test.go', 'w').write(b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=b['pkg'], run='python3 "$D/mysql.py" ' if b['mysql'] else '', flags=b['flags'] + ' ' if b['flags'] else ''))
            os.chmod(d + '/demo.sh', 0o755)
            if b['mysql']: shutil.copy(HERE + '/tools/demo_mysql.py', d + '/mysql.py')
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            rc, out = sh([d + '/demo.sh'], scr)
            if rc: return id, 'DEMO FAILS ON CLEAN TREE ' + out[-1800:]
        for f, x, y in b['edits']:
            s = open(f'{scr}/{f}').read()
            if s.count(x) != 1: return id, f'EDIT matches {s.count(x)}: {f}: {x}'
            open(f'{scr}/{f}', 'w').write(s.replace(x, y))
        if not only_check:
            open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', scr, 'diff'], text=True))
            o = original(scr, base)
            if o: log.append('NOT ORIGINAL: ' + ' '.join(o))
            rc, out = sh(['go', 'build', './...'], scr)
            if rc: return id, 'BUILD ' + out[-1500:]
            rc, out = sh([d + '/demo.sh'], scr)
            if rc == 0 or not ('--- FAIL' in out or 'panic' in out): return id, 'DEMO DOES NOT FAIL ' + out[-1500:]
            rc, out = sh(['bash', HERE + '/tools/nstest.sh', scr, f'/tmp/plant.{id}.json'], scr)
            subprocess.run(['rm', '-f', f'/tmp/plant.{id}.json'])
            log.append(out.strip().splitlines()[-1] if out.strip() else '?')
        if os.environ.get('NOCHECK'): return id, ' | '.join(log)
        e = dict(ENV, VERIF_REPO=scr, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        p = subprocess.run([HERE + '/check', b['prop'], os.environ.get('TIER', 'quick')], cwd=HERE, capture_output=True, text=True, env=e)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        log.append(('CAUGHT ' if p.returncode == 1 and v else f'MISSED rc={p.returncode} ') + (v[0][:120] if v else p.stdout[-300:] if p.returncode else ''))
        return id, ' | '.join(log)
    finally:
        subprocess.run(['rm', '-rf', scr])

def main():
    a = sys.argv[1:]; only = '-c' in a; ids = [x for x in a if x != '-c']
    todo = [b for b in BUGS if not ids or b['id'] in ids]
    with ThreadPoolExecutor(int(os.environ.get('PAR', '3'))) as ex:
        for id, r in ex.map(lambda b: make(b, only), todo):
            print(f"{id}: {r}", flush=True)
