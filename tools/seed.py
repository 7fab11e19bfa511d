#!/usr/bin/env python3
"""Makes planted bugs: seed.mk(id, prop, edits, pkg, demo_src, needs, breaks) writes /verif/seeded/<id>
and confirms in a scratch copy of /repo that the demonstration passes without and fails with the change."""
import json, os, subprocess
SCR = '/tmp/seedrepo'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.25.14/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOPROXY='off', GOFLAGS='-mod=readonly')
DEMO = '''#!/bin/bash
# Runs in the repository: exit 0 if the property holds in this demonstration.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
export TMPDIR="$T"
cat > "$T/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$D/demo_test.go"}}
EOF
go test -vet=off -overlay "$T/overlay.json" -count=1 -timeout 200s -run '^TestZZDemo' ./%(pkg)s
'''

def sync():
    if os.path.exists(SCR):
        subprocess.check_call(['git', '-C', SCR, 'checkout', '-q', '--', '.'])
        subprocess.check_call(['git', '-C', SCR, 'pull', '-q'])
    else:
        subprocess.check_call(['git', 'clone', '-q', '/repo', SCR])

def mk(id, prop, edits, pkg, demo, needs, breaks, demosh=None):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo_test.go', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(demosh or DEMO % dict(pkg=pkg))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    sync()
    r = subprocess.run([d + '/demo.sh'], cwd=SCR, env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN TREE', (r.stdout + r.stderr)[-1500:]); return False
    for f, a, b in edits:
        p = f'{SCR}/{f}'
        s = open(p).read()
        if s.count(a) != 1:
            print(id, 'edit matches', s.count(a), f, a); return False
        open(p, 'w').write(s.replace(a, b))
    patch = subprocess.check_output(['git', '-C', SCR, 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(patch)
    r = subprocess.run(['go', 'build', './...'], cwd=SCR, env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        print(id, 'BUILD', r.stderr[-1500:]); return False
    r = subprocess.run([d + '/demo.sh'], cwd=SCR, env=ENV, capture_output=True, text=True)
    ok = r.returncode != 0 and ('--- FAIL' in r.stdout or 'panic' in r.stdout)
    print(id, 'ok' if ok else 'DEMO DOES NOT FAIL: ' + (r.stdout + r.stderr)[-1500:])
    subprocess.check_call(['git', '-C', SCR, 'checkout', '-q', '--', '.'])
    return ok
