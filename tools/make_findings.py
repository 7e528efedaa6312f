#!/usr/bin/env python3
"""Authoring source of KNOWN_FINDINGS.txt: maps the fix commits of /repo (by subject) to properties."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.rstrip('\n').split('\t') for l in open(os.path.join(HERE, 'tools', 'fixed.tsv'), encoding='utf-8') if l.strip()]
FINDINGS = [l.rstrip('\n') for l in open(os.path.join(HERE, 'tools', 'findings.txt'), encoding='utf-8') if l.strip()]
log = dict(reversed(l.split(' ', 1)) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
used = set()
with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt'), 'w', encoding='utf-8') as f:
    f.write('# finding: property=<id> key=<pinned reproduction in checks/<id>.py KNOWN> <what fails>\n'
            '# fixed: property=<id> <commit in /repo> <what failed>   (inert: suppresses nothing)\n')
    for x in FINDINGS:
        f.write('finding: ' + x + '\n')
    for prop, subject, what in FIXED:
        h = next(h for s, h in log.items() if s.startswith('fix: ' + subject))
        used.add(h)
        f.write(f'fixed: property={prop} {h} {what}\n')
for s, h in log.items():
    if s.startswith('fix:') and h not in used:
        print('NOT RECORDED', h, s)
