#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, the checker's rules, claims.py, known_findings.txt, seeded/ and notes.py."""
import json, os, re, glob, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
from claims import CLAIMS, NOT_APPLICABLE
from notes import INTRO, NOTES, GENERAL, REFACTORINGS
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl')) if l.strip()]
rules = {}
for f in sorted(glob.glob(os.path.join(root, 'checker', 'c[0-9][0-9].go'))):
    i = os.path.basename(f)[:-3].upper()
    rules[i] = re.findall(r'c\.Rule\("([^"]+)", "((?:[^"\\]|\\.)*)"\)', open(f).read())
fixed, known = {}, {}
for l in open(os.path.join(root, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.setdefault(m[1], []).append((m[2], m[3]))
    m = re.match(r'finding: property=(\S+) (.*)', l)
    if m: known.setdefault(m[1], []).append(m[2])
seeds = {}
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
out = [INTRO]
out.append('## Properties\n')
for p in props:
    i = p['id']
    out.append('### %s — %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if i not in CLAIMS:
        out.append('Not applicable: ' + NOT_APPLICABLE.get(i, 'not built') + '.\n')
        continue
    t, d = CLAIMS[i]
    out.append('*Method.* ' + t.replace('static analysis: ', '') + '. ' + d + '\n')
    if rules.get(i):
        out.append('*Obligations.*\n')
        for n, x in rules[i]:
            out.append('- `%s`: %s' % (n, x.replace('\\"', '"')))
        out.append('')
    if i in NOTES:
        out.append(NOTES[i].strip() + '\n')
    if fixed.get(i):
        out.append('*Defects found and repaired.* ' + '; '.join('%s (%s)' % (b, a) for a, b in fixed[i]) + '.\n')
    if known.get(i):
        out.append('*Recorded findings.* ' + '; '.join(known[i]) + '.\n')
    if seeds.get(i):
        out.append('*Planted.* ' + '; '.join('`%s`: %s' % (n, d['what_it_breaks']) for n, d in seeds[i]) + '.\n')
out.append(GENERAL)
out.append('## Planted bugs and which check reports them\n')
out.append('| bug | property whose check reports it | needs |\n|---|---|---|')
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append('| `%s` | %s%s | %s |' % (n, d['property'], '' if not d.get('missed') else ' (missed)', d['needs'].replace('|', '/').replace('\n', ' ')))
out.append('')
out.append(REFACTORINGS)
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(open(os.path.join(root, 'DESIGN.md')).read()), 'bytes')
