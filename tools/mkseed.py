#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines seeds = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=go source)]."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['seeds']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo_test.go', 'w').write(s['demo'])
    subprocess.run(['git', '-C', '/tmp/sw', 'checkout', '-q', '.'])
    bad = False
    for f, old, new in s['edits']:
        t = open('/tmp/sw/' + f).read()
        if t.count(old) != 1: print(s['id'], 'edit matches', t.count(old), 'times:', old); bad = True; break
        open('/tmp/sw/' + f, 'w').write(t.replace(old, new))
    if bad: continue
    subprocess.run(['/verif/tools/seed.sh', s['id']])
