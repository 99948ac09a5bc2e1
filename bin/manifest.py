#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the notes in checks/notes.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(ROOT, 'checks', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
ch, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')) and i in notes:
        n = notes[i]
        ch.append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='python3 bin/check.py %s --thorough' % i,
                       technique=n['technique'], level=n.get('level', 'model_checking'), level_note=n['note']))
    else:
        na.append(dict(property=i, reason=notes.get('na', {}).get(i, 'not built yet')))
m = dict(version=1, setup_cmd='python3 harness/build.py', checks=ch, not_applicable=na,
         notes='No hooks in /repo: the harness links the sources of /repo with its own fixtures and a recording transport (see DESIGN.md).')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(ch), 'claimed', [x['property'] for x in na])
