#!/usr/bin/env python3
"""Development aid: make seeded/<id>/patch.diff from textual edits.
usage: mkbug.py ID PROPERTY SPEC.py   (SPEC defines edits=[(file, old, new, count)], needs, breaks)"""
import json, os, subprocess, sys
bid, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
wt = '/tmp/wt/r'
subprocess.run(['git', '-C', wt, 'fetch', '-q'], check=True)
subprocess.run(['git', '-C', wt, 'reset', '-q', '--hard', 'origin/HEAD'], check=True)
for f, old, new, *n in ns['edits']:
    p = os.path.join(wt, f); s = open(p).read()
    idx = n[0] if n else 0          # which occurrence
    if not n and s.count(old) != 1:
        sys.exit(f'{f}: {s.count(old)} occurrences of {old!r}')
    pos = -1
    for _ in range(idx + 1):
        pos = s.find(old, pos + 1)
    assert pos >= 0, (f, old)
    s = s[:pos] + new + s[pos+len(old):]
    open(p, 'w').write(s)
d = os.environ.get('SEEDED', '/verif/seeded') + '/' + bid; os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True, check=True).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
print(diff)
