#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props_data.py; a property is claimed when pbt/props/<id>.py exists."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_data import P
try:
    from level_notes import NOTES
except ImportError:
    NOTES = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'] or ['public functions and methods of the module'], hook_needed=None))) + '\n')
        if os.path.exists(f"{V}/pbt/props/{p['id'].lower()}.py"):
            checks.append(dict(property=p['id'], quick_cmd=f"./check {p['id']} --tier quick",
                thorough_cmd=f"./check {p['id']} --tier thorough",
                technique=NOTES.get(p['id'], {}).get('technique', 'property-based testing (Hypothesis) against a reference model'),
                level='exploration',
                level_note=NOTES.get(p['id'], {}).get('note',
                    'Held on every generated case (and every case of the bounded enumerations); absence of violations beyond the explored cases is not established. Trusts the oracle in pbt/props/' + p['id'].lower() + '.py.')))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="One entry script (./check ID). No hooks in /repo: every property is judged at the public API.")
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'claimed')
