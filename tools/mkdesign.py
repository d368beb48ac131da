"""append the generated sections of DESIGN.md (properties, seeds) : python3 tools/mkdesign.py"""
import json, os, glob, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/DESIGN.md').read().split('<!-- generated -->')[0].rstrip() + '\n\n<!-- generated -->\n'
man = json.load(open(H + '/MANIFEST.json'))
notes = {c['property']: c for c in man['checks']}
na = {n['property']: n['reason'] for n in man['not_applicable']}
s += '## Properties and what decides them\n\n'
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    s += '### %s %s\n' % (p['id'], p['title'])
    if p['id'] in na:
        s += 'Not applicable: %s\n\n' % na[p['id']]
        continue
    s += '%s\n\n' % notes[p['id']]['level_note']
    e = H + '/evidence/%s.json' % p['id']
    mod = glob.glob(H + '/contracts/%s*.py' % p['id'].lower())
    s += 'Contracts: %s. ' % ', '.join(os.path.relpath(m, H) for m in mod)
    s += 'Quantified over: %s. Beyond tests: %s.\n\n' % (p['quantifier']['text'], p['why_tests_cant'])
kf = json.load(open(H + '/known_findings.json'))
kf = kf if isinstance(kf, list) else kf['findings']
s += '## Repaired defects\n\n' + ''.join('* %s\n' % e['what'] for e in kf) + '\n'
s += '## Planted bugs (seeded/) and what catches them\n\n| bug | property | needs | caught |\n|---|---|---|---|\n'
try:
    res = json.load(open(H + '/tools/seedresults.json'))
except Exception:
    res = {}
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    s += '| %s | %s | %s | %s |\n' % (i, d['property'], d['needs'], res.get(i, '?'))
open(H + '/DESIGN.md', 'w').write(s)
