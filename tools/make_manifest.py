#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
TECH = {}
exec(open(os.path.join(HERE, 'tools', 'techniques.py'), encoding='utf-8').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        tech, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f'./run.py {i} quick', thorough_cmd=f'./run.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique='property-based testing: ' + tech,
                           level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason='planned (property-based testing applies), check not built yet'))
m = dict(version=1, setup_cmd='./run.py --selftest', hooks=dict(guard='none', enable='no hooks are needed: checks import /repo as it is', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Pure Python: every check imports the current working tree of /repo (bytecode caches are not read).')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(na), 'not applicable')
