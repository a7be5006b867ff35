#!/usr/bin/env python3
"""tryseeds.py [id...]: runs the check of each planted bug's property on a scratch copy with the bug."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
V = mkseed.V
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    mkseed.refresh()
    r = subprocess.run(['git', '-C', mkseed.W, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY', r.stderr); continue
    p = json.load(open(d + '/meta.json'))['property']
    r = subprocess.run(['python3', V + '/check.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=mkseed.W, VERIF_EVDIR='/tmp/seedw/ev'))
    vl = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    fo = [l[:160] for l in r.stdout.split('\n') if l.startswith('failed obligation')]
    print(i, p, 'exit', r.returncode, vl, fo[:2], r.stdout[-600:] if not vl else '', flush=True)
mkseed.refresh()
