#!/usr/bin/python3
"""Rewrites the generated part of DESIGN.md: the properties, and the planted
bugs with the checks that catch them (results.json of lib/bugs.py)."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import properties  # noqa: E402
MARK = '<!-- Generated by lib/gen_design.py below this line. -->\n'
path = os.path.join(VERIF, 'DESIGN.md')
text = open(path, encoding='utf-8').read().split(MARK)[0].rstrip() + '\n\n'
out = [MARK, '## The properties\n']
for id, p in properties.PROPERTIES.items():
    out.append(f"### {id}. {p['title']}\n")
    out.append(p['statement'] + '\n')
    out.append('*Quantifier*: ' + p['quantifier']['text'] + '\n')
    out.append('*Why the tests cannot settle it*: ' + p['why_tests_cant'] + '\n')
    if id in properties.MANIFEST:
        m = properties.MANIFEST[id]
        out.append('*Decided by*: ' + m['technique'] + '.  Harness: ' + ', '.join(
            '`harness/' + h + '`' for s in properties.SPECS[id]['parts']
            for h in s['harness']) + '.  ' + m['level_note'] + '\n')
        for s in properties.SPECS[id]['parts']:
            if s.get('rule'):
                out.append('*Enumerated*: ' + s['rule'] + '\n')
            for a in s.get('assumptions', []):
                out.append('*Assumes*: ' + a + '\n')
    else:
        out.append('*Not applicable*: ' + properties.NOT_APPLICABLE[id] + '\n')
out.append('## Defects of Principia\n')
out.append('Found by the checks on the original code.  Those that are repaired are in '
           '"fix:" commits of /repo; those that are not are reported as '
           'KNOWN-FINDING, and only the specific failure is tolerated.\n')
with open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf-8') as f:
    for line in f:
        if line.startswith(('fixed: ', 'known: ')):
            status, property, key, what = line.rstrip().split(' ', 3)
            out.append(f'* {property[9:]}, '
                       + ('fixed by ' + key if status == 'fixed:'
                          else 'not fixed (' + key + ')') + ': ' + what + '.')
out.append('\n## Planted bugs\n')
res = {}
rp = os.path.join(VERIF, 'lib', 'bugs.json')
if os.path.exists(rp):
    res = json.load(open(rp, encoding='utf-8'))
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
seeded = os.path.join(VERIF, 'seeded')
for b in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
    mp = os.path.join(seeded, b, 'meta.json')
    if os.path.exists(mp):
        m = json.load(open(mp, encoding='utf-8'))
        c = res.get(b)
        caught = ('not run' if c is None else ', '.join(c) or 'not caught')
        out.append(f"| {b} | {m['property']} | {m['needs']} | {caught} |")
with open(path, 'w', encoding='utf-8') as f:
    f.write(text + '\n'.join(out) + '\n')
