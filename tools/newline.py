"""newline.py ID PROPERTY FILE LINE OLD NEW [FILE LINE OLD NEW ...]: patch of seeded/ID from replacements in given lines of /tmp/pl/repo."""
import json, os, subprocess, sys
R = '/tmp/pl/repo'
ID, prop = sys.argv[1:3]
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
a = sys.argv[3:]
for f, n, old, new in zip(a[::4], a[1::4], a[2::4], a[3::4]):
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    L = open(os.path.join(R, f)).read().split('\n')
    i = int(n) - 1
    assert old in L[i], L[i]
    L[i] = L[i].replace(old, new, 1)
    open(os.path.join(R, f), 'w').write('\n'.join(L))
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
if not os.path.exists(d + '/meta.json'):
    json.dump({'property': prop, 'needs': '', 'what_it_breaks': ''}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
