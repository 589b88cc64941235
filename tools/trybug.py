#!/usr/bin/env python3
"""trybug.py <id> [check ids...]: apply seeded/<id>/patch.diff to /repo, build, stable tests, demo, checks; then undo.
Development aid only; no check uses it."""
import subprocess, sys, json, os
if not os.environ.get('TRYBUG_NS'):      # work on a private copy of /repo
    import tempfile, shutil
    t = tempfile.mkdtemp(prefix='rc', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', t])
        rc = subprocess.call(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && exec python3 "$@"' % t, 'x'] + sys.argv, env=dict(os.environ, TRYBUG_NS='1'))
    finally: shutil.rmtree(t)
    sys.exit(rc)
bid = sys.argv[1]; d = '/verif/seeded/' + bid
meta = json.load(open(d + '/meta.json'))
checks = sys.argv[2:] or [meta['property']]
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
def names(b):
    if isinstance(b, dict):
        for k in ('passed', 'stable', 'tests'):
            if k in b: return set(b[k])
    return set(b)
r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stderr[-2000:]
r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo on unchanged tree: rc', r.returncode)
if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
r = sh('git -C /repo apply --check %s/patch.diff' % d); assert r.returncode == 0, r.stderr
try:
    sh('git -C /repo apply %s/patch.diff' % d)
    r = sh('bash /opt/vp/build.sh'); print('build rc', r.returncode)
    if r.returncode: print(r.stderr[-1500:])
    r = sh('bash /opt/vp/test.sh /tmp/tb%d.json' % os.getpid() + '')
    got = json.load(open('/tmp/tb%d.json' % os.getpid())); miss = names(base) - set(got['passed'])
    print('stable tests missing:', sorted(miss)[:5], len(miss))
    r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo with bug: rc', r.returncode, (r.stdout + r.stderr)[-200:].strip())
    for c in checks:
        r = sh('cd /verif && python3-vt check.py %s' % c); print(c, 'rc', r.returncode); print(r.stdout[-900:])
finally:
    print(sh('git -C /repo checkout -- . && bash /opt/vp/build.sh').returncode)
