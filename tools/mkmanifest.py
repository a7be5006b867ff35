#!/usr/bin/env python3
# writes /verif/MANIFEST.json from properties.jsonl and checks.json
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cfg = json.load(open(V + '/checks.json'))
NA = json.load(open(V + '/tools/not_applicable.json'))
# level notes: the table of section 2 of DESIGN.md
NOTES = {}
for l in open(V + '/DESIGN.md'):
    m = re.match(r'\| (C\d\d) \| (.*) \| (.*?) ?\|$', l.strip())
    if m:
        NOTES[m.group(1)] = ('proved for all inputs: ' + m.group(2) + ('. Bounded or assumed: ' + m.group(3) if m.group(3) else '') + '. Dependencies (file systems, JSON, hashes, logging) have assumed contracts, listed in the evidence.').replace('`', '')
checks, na = [], []
for p in props:
    i = p['id']
    if i in cfg:
        c = cfg[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': c.get('technique', 'contract-based deductive verification of the Go source (govc: go/ssa to SMT verification conditions, Z3 and cvc5); failing inputs searched with the real code'),
                       'level': c.get('level', 'proof'), 'level_note': c.get('note', NOTES.get(i, ''))})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'contracts are in /verif/contracts, keyed by function; nothing in /repo is annotated'}, open(V + '/MANIFEST.json', 'w'), indent=1)
