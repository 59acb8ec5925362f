"""newplant.py ID PROPERTY FILE OLD NEW [FILE OLD NEW ...]: patch of seeded/ID from replacements in /tmp/pl/repo (single occurrence)."""
import json, os, subprocess, sys
R = '/tmp/pl/repo'
ID, prop = sys.argv[1:3]
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
a = sys.argv[3:]
for f, old, new in zip(a[::3], a[1::3], a[2::3]):
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    s = open(os.path.join(R, f)).read()
    if s.count(old) != 1:
        sys.exit('%s occurs %d times in %s' % (old, s.count(old), f))
    open(os.path.join(R, f), 'w').write(s.replace(old, new))
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
if not os.path.exists(d + '/meta.json'):
    json.dump({'property': prop, 'needs': '', 'what_it_breaks': ''}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
# lines of the original repository only
for f in a[::3]:
    pass
print(diff)
