#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, and for each property its rules (from the
last run's evidence/), how they are decided, and the planted changes."""
import json, os, glob
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(base + '/properties.jsonl')]
exec(open(base + '/tools/claims.py').read())
exec(open(base + '/tools/design.py').read())
out = [PRE.strip(), '', '## The properties', '']
seeds = {}
for d in sorted(glob.glob(base + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    seeds.setdefault(m['property'], []).append((os.path.basename(d), m['what_it_breaks']))
fixed = {}
for l in open(base + '/known_findings.txt'):
    if l.startswith('fixed: property='):
        i, rest = l[len('fixed: property='):].strip().split(' ', 1)
        fixed.setdefault(i, []).append(rest)
for p in props:
    i = p['id']
    out.append('### %s  %s' % (i, p['title']))
    out.append('')
    if i in NA:
        out.append('Not claimed: ' + NA[i] + '.')
        out.append('')
        continue
    out.append(HOW[i].strip())
    out.append('')
    out.append('Rules (each instance is one obligation, reported with its place):')
    out.append('')
    e = json.load(open(base + '/evidence/%s.json' % i))
    n = e['coverage']['instances_per_rule']
    for r in e['coverage']['rules']:
        name, text = r.split(': ', 1)
        out.append('- `%s`: %s' % (name, text))
    out.append('')
    out.append('On the present tree: %d obligations over %s.' % (e['coverage']['obligations'],
               '%d entry points and %d functions' % (len(e['coverage']['roots']), len(e['coverage']['functions']))))
    for c in fixed.get(i, []):
        out.append('')
        out.append('Defect repaired: %s.' % c)
    for s in seeds.get(i, []):
        out.append('')
        out.append('Planted, caught by this check: `%s` (%s).' % s)
    out.append('')
out.append(POST.strip())
open(base + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
