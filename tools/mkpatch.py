#!/usr/bin/env python3
"""mkpatch.py <id> <file> <<< 'old===>new' : make seeded/<id>/patch.diff from textual replacement (LF in input, CRLF kept)"""
import sys, subprocess, os
if not os.environ.get('TRYBUG_NS'):
    import tempfile, shutil
    t = tempfile.mkdtemp(prefix='rc', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', t])
        rc = subprocess.call(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && exec python3 "$@"' % t, 'x'] + sys.argv, env=dict(os.environ, TRYBUG_NS='1'))
    finally: shutil.rmtree(t)
    sys.exit(rc)
bid, files = sys.argv[1], None
txt = sys.stdin.read()
d = '/verif/seeded/' + bid; os.makedirs(d, exist_ok=True)
saved = {}
try:
    for part in txt.split('@@@@\n'):
        if not part.strip(): continue
        head, rest = part.split('\n', 1)
        head, _, occ = head.strip().partition('#'); f = '/repo/' + head; old, new = rest.split('\n====\n'); new = new.rstrip('\n'); old = old.rstrip('\n')
        s = open(f, newline='').read()
        saved.setdefault(f, s)
        crlf = '\r\n' in s
        if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        if occ:
            parts = s.split(old); k = int(occ)
            s2 = old.join(parts[:k]) + new + old.join(parts[k:])
        else:
            assert s.count(old) == 1, (f, s.count(old))
            s2 = s.replace(old, new)
        open(f, 'w', newline='').write(s2)
    r = subprocess.run(['git', '-C', '/repo', 'diff', '--binary'], capture_output=True)
    open(d + '/patch.diff', 'wb').write(r.stdout)
finally:
    for f, s in saved.items(): open(f, 'w', newline='').write(s)
print(len(r.stdout))
