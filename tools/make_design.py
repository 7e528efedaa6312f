#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design/head.md, the check modules, the planted bugs and tools/design/tail.md."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda p: open(os.path.join(HERE, p), encoding='utf-8').read()
TECH = {}
exec(r('tools/techniques.py'))
seeded = {}
for m in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    d = json.load(open(m))
    seeded.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
out = r('tools/design/head.md').rstrip('\n') + '\n\n## Properties\n'
for l in r('properties.jsonl').split('\n'):
    if not l:
        continue
    p = json.loads(l)
    i = p['id']
    tree = ast.parse(r(f'checks/{i.lower()}.py'))
    rule, ass, facets = '', [], []
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == 'RULE':
                rule = ast.literal_eval(n.value)
            if n.targets[0].id == 'ASSUMPTIONS':
                ass = ast.literal_eval(n.value)
            if n.targets[0].id == 'FACETS' and isinstance(n.value, ast.Dict):
                for k, v in zip(n.value.keys, n.value.values):
                    q = v.args[1].value if isinstance(v, ast.Call) and len(v.args) > 1 and isinstance(v.args[1], ast.Constant) else None
                    if isinstance(k, ast.Constant):
                        facets.append(k.value + (f' {q}' if q else ''))
    out += f"\n### {i} {p['title']}\n\n"
    out += f'*How:* {TECH[i][0]}.\n*Generated, and what is non-trivial:* {rule}.\n'
    if facets:
        out += f"*Facets (cases of a quick run):* {', '.join(facets)}.\n"
    out += f'*Bounds:* {TECH[i][1]}\n'
    if ass:
        out += f"*Assumptions:* {'; '.join(ass)}.\n"
    if i in seeded:
        out += '*Planted bugs caught by it:* ' + ', '.join(x for x, d in seeded[i]) + '.\n'
out += '\n' + r('tools/design/tail.md')
open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8').write(out)
print(len(out.split('\n')), 'lines')
