"""plant.py ID PROP FILE  (stdin: old\n=====\nnew) : make seeded/ID/patch.diff from one text replacement in FILE.
Repeat with the same ID to add another site."""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, prop, path = sys.argv[1:4]
old, new = sys.stdin.read().split('\n=====\n')
new = new.rstrip('\n')
d = os.path.join(R, 'seeded', ID)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='plant')
try:
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'])
    pd = os.path.join(d, 'patch.diff')
    if os.path.exists(pd):
        subprocess.check_call(['git', '-C', t + '/w', 'apply', pd])
    f = os.path.join(t, 'w', path)
    s = open(f, newline='').read()
    assert s.count(old) == 1, s.count(old)
    open(f, 'w', newline='').write(s.replace(old, new))
    open(pd, 'w').write(subprocess.check_output(['git', '-C', t + '/w', 'diff']).decode())
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
    shutil.rmtree(t)
ds = os.path.join(d, 'demo.sh')
if not os.path.exists(ds):
    open(ds, 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH=$PYTHONPATH:/repo/sumo-api\n'
                        'exec timeout 250 "$PY" -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(ds, 0o755)
m = os.path.join(d, 'meta.json')
if not os.path.exists(m):
    json.dump({'property': prop, 'needs': '', 'what_it_breaks': ''}, open(m, 'w'), indent=1)
