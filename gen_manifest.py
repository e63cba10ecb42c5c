#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, harness/ and the notes below"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
meta = json.load(open(HERE + '/harness/meta.json'))
checks, na = [], []
for p in props:
    i = p['id']
    m = meta.get(i, {})
    if m.get('not_applicable'):
        na.append({'property': i, 'reason': m['not_applicable']})
        continue
    if not os.path.exists(HERE + '/harness/%s.cpp' % i.lower()):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check %s' % i,
        'thorough_cmd': './check %s --thorough' % i,
        'technique': m.get('technique', 'symbolic execution of the library templates from source with SMT (z3, nonlinear real arithmetic), bounded'),
        'level': 'other',
        'level_note': m.get('level_note', 'Bounded: every assertion holds for all real values of the symbolic inputs on every path of the enumerated '
                     'structures (the bounds are printed in the evidence file). Real arithmetic is exact: rounding, overflow and signed zero are not '
                     'covered. Trusts the symbolic scalar type and explorer (engine/), z3 and g++; counterexamples are replayed on double and long double.'),
    })
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks are needed in /repo: the templates are instantiated from the headers as they are.'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
