#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'posydon/binary_evol/'; U = 'posydon/utils/'; P = 'posydon/popsyn/'; G = 'posydon/grids/'; I = 'posydon/interpolation/'
props = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, claimed=True, note='', na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    props.append((d, claimed, note, na))
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in props:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d, claimed, note, r in props:
    if claimed and not os.path.exists(os.path.join(V, 'contracts', d['id'].lower() + '.py')): claimed, r = False, 'contracts not written yet'
    if claimed:
        checks.append(dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'],
            evidence_file='evidence/%s.json' % d['id'], technique='contract-based deductive verification (symbolic execution of the real code against pre/postconditions, obligations to z3/cvc5)',
            level='proof', level_note=note or 'All obligations of the contracts discharged for all inputs under the stated preconditions; floats treated as reals; trusted base and bounded stand-ins listed in the evidence file and DESIGN.md.'))
    else: na.append(dict(property=d['id'], reason=r))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='No hooks in /repo. Checks load /repo\'s current sources through an import hook (pyvc/loader.py) on every run.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
