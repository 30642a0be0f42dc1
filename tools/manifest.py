#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of check modules present (run from /verif)."""
import ast, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
import props
NA = {}
checks, na = [], []
for d in props.P:
    i = d['id']
    f = os.path.join(root, 'mc', 'checks', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        ns = {}
        for st in ast.parse(open(f).read()).body:
            if isinstance(st, ast.Assign) and st.targets[0].id in ('TECHNIQUE', 'NOTE') if isinstance(st, ast.Assign) and hasattr(st.targets[0], 'id') else False:
                ns[st.targets[0].id] = ast.literal_eval(st.value)
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i,
                           thorough_cmd='./run.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=ns['TECHNIQUE'], level='model_checking', level_note=ns['NOTE']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the check is not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: every check drives the public API of the working tree in /repo. '
                     'Counterexamples are replayed with ./run.sh --replay FILE.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
