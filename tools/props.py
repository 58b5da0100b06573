#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []; NA = []
def prop(id, title, statement, text, why, files, mech, note='', over=('inputs',), level='proof'):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note, level))
def na(id, title, statement, text, why, files, mech, reason, over=('inputs',)):
    prop(id, title, statement, text, why, files, mech, None, over); NA.append((id, reason))
exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())
NOTE = ('Every obligation generated from the LLVM IR of the current source is discharged for all sizes and all real values; doubles are treated as reals, '
        'Kokkos views and loops by assumed contracts (listed in the evidence). ')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, note, level in PROPS: f.write(json.dumps(p) + '\n')
for p, note, level in PROPS:
    if note is None: continue
    man['checks'].append({'property': p['id'], 'quick_cmd': 'bash check %s' % p['id'], 'thorough_cmd': 'bash check %s --tier thorough' % p['id'],
        'technique': 'function contracts on the real code, verification conditions from its LLVM IR, discharged by polynomial normalisation, z3 and cvc5',
        'level': level, 'level_note': NOTE + note})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
for p, _, _ in PROPS:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, p['id']
