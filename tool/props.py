#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; not needed by the checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
from rules import REGISTRY
B = 'src/DRAMPower/DRAMPower/'
P = []      # claimed
NA = []     # (property, reason)


def p(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), na=None):
    a = {'files': [B + f if not f.startswith('src/') else f for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': w} for n, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a))
    if na:
        NA.append({'property': id, 'reason': na})
        return
    CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py ' + id, 'thorough_cmd': 'python3 check.py %s thorough' % id,
                   'evidence_file': 'evidence/%s.json' % id, 'technique': technique, 'level': 'other', 'level_note': note})


CHECKS = []
exec(open(V + '/tool/proplist.py').read())

ids = [x['id'] for x in P]
assert len(ids) == len(set(ids)), 'duplicate id'
claimed = {c['property'] for c in CHECKS}
assert claimed == set(REGISTRY), (claimed ^ set(REGISTRY))
for x in P:
    assert len(x['title']) <= 80, x['title']
with open(V + '/properties.jsonl', 'w') as fh:
    for x in P:
        fh.write(json.dumps(x) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bash tool/setup.sh', 'checks': CHECKS, 'not_applicable': NA,
           'notes': 'Pure static analysis: tool/dpx (clang front end) exports the type-checked program of /repo, sa/ summarises functions and decides the rules of sa/rules; nothing of /repo is executed. No hooks are used.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(CHECKS), 'claimed,', len(NA), 'not applicable')
