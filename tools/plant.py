"""Dev helper: plant.py ID PROPERTY FILE OLD NEW  (needs/what from stdin, two lines) -> seeded/ID/patch.diff + meta.json."""
import json, os, subprocess, sys
ID, prop, path, old, new = sys.argv[1:6]
needs, what = sys.stdin.read().strip().split('\n')[:2]
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
p = '/repo/' + path
s = open(p, encoding='utf-8', newline='').read()
pairs = list(zip(old.split('@@'), new.split('@@')))
o = s
for a, b in pairs:
    assert s.count(a) == 1, (a, s.count(a))
    s = s.replace(a, b)
assert s != o
assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout == '', 'repo not clean'
try:
    open(p, 'w', encoding='utf-8', newline='').write(s)
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True, capture_output=True)
open(d + '/patch.diff', 'wb').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Exit 0 when the property holds, nonzero when it is broken.\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nD="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python "$D/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
# lines of fixes must not be touched: show the blame of the removed lines
for a, _ in pairs:
    n = o[:o.index(a)].count('\n') + 1
    m = n + a.count('\n')
    print(subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, m), path], capture_output=True, text=True).stdout)
