#!/bin/bash
# nstest.sh REPO OUT.json [CPUS]: runs the repository's stable tests on a copy of it, in namespaces of their own
# (several can run at the same time), and tells which stable tests do not pass.
R=$(realpath "$1"); O=$(realpath -m "$2"); rm -f "$O"
W=$(mktemp -d /tmp/nstest.XXXXXX); mkdir $W/work $W/mnt $W/run $W/shm
unshare -Urmnpf --mount-proc bash -c "
 mount --bind $R /repo && mount --bind $W/work /opt/vp/work && mount -t tmpfs none /mnt && mount -t tmpfs none /var/run && mkdir /var/run/mysqld && mount -t tmpfs none /dev/shm && ip link set lo up
 sed 's/rm -rf \"\$WORK\"/rm -rf \"\$WORK\"\/*/' /opt/vp/test.sh > $W/test.sh
 bash $W/test.sh $W/out.json" > $W/log 2>&1
cp $W/out.json "$O" 2>/dev/null || tail -5 $W/log
rm -rf $W
python3 - "$O" <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try: h = set(json.load(open(sys.argv[1]))['passed'])
except Exception as e: print('no result', e); sys.exit(2)
m = sorted(b - h)
print('all stable tests pass' if not m else 'NOT PASSING: ' + ' '.join(m[:8]))
sys.exit(bool(m))
P
