#!/usr/bin/env python3
"""Runs a command with a private MySQL server (in a scratch folder) that is told to it with DEMO_SOCK and MYSQL_*."""
import os, shutil, socket, subprocess, sys, tempfile, time
os.environ['PATH'] += ':/usr/sbin:/usr/local/sbin:/sbin'
d = tempfile.mkdtemp(prefix='demo-mysql.', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
p, rc = None, 1
try:
    os.makedirs('/mnt/data/tmp', exist_ok=True)
    os.makedirs(d + '/tmp')
    open(d + '/my.cnf', 'w').write(f'''[mysqld]
user = root
bind-address = 127.0.0.1
port = {port}
socket = {d}/s
pid-file = {d}/pid
mysqlx = OFF
max_allowed_packet = 1G
secure_file_priv = /mnt/data/tmp/
innodb_page_size = 64KB
innodb_buffer_pool_size = 256M
innodb_redo_log_capacity = 128M
innodb_flush_method = nosync
innodb_doublewrite = OFF
innodb_flush_log_at_trx_commit = 0
max_connections = 500
skip-log-bin
sync_binlog = 0
performance_schema = OFF
datadir = {d}/data
tmpdir = {d}/tmp
log-error = {d}/log
''')
    subprocess.run(['mysqld', f'--defaults-file={d}/my.cnf', '--initialize-insecure'], check=True, capture_output=True)
    p = subprocess.Popen(['mysqld', f'--defaults-file={d}/my.cnf'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    for _ in range(600):
        if subprocess.run(['mysqladmin', '-u', 'root', '--protocol=socket', f'--socket={d}/s', 'ping'], capture_output=True).returncode == 0: break
        time.sleep(0.1)
    env = dict(os.environ, DEMO_SOCK=d + '/s', MYSQL_USER='root', MYSQL_PASSWORD='', MYSQL_HOST='127.0.0.1', MYSQL_PORT=str(port))
    rc = subprocess.run(sys.argv[1:], env=env).returncode
finally:
    if p: p.kill(); p.wait()
    shutil.rmtree(d, ignore_errors=True)
sys.exit(rc)
