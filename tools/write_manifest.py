#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
checks, na = [], []
PY = '/opt/venv/bin/python'
for p in props:
    i = p['id']
    f = os.path.join(V, 'mc', 'props', i + '.py')
    if os.path.exists(f) and i in NOTES:
        lvl = re.search(r"^LEVEL = '(\w+)'", open(f).read(), re.M).group(1)
        checks.append(dict(property=i, quick_cmd='%s run.py %s --tier quick' % (PY, i), thorough_cmd='%s run.py %s --tier thorough' % (PY, i),
                           technique=NOTES[i]['technique'], level=lvl, level_note=NOTES[i]['note'], evidence_file='evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='%s -c "import sys; sys.dont_write_bytecode=True; sys.path.insert(0, \'/repo\'); import mdp, bimdp"' % PY,
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
