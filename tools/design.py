"""Writes DESIGN.md from tools/design_head.md, tools/props.py, the check
modules, the planted bugs and the known-findings file."""
import ast
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA
ROOT = os.path.dirname(HERE)


def mod(p):
    t = ast.parse(open('%s/sa/checks/%s.py' % (ROOT, p.lower())).read())
    out = {'doc': ' '.join((ast.get_docstring(t) or '').split())}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ('ASSUMPTIONS', 'EXPLANATION',
                                        'LIMITS', 'MIN_OBLIGATIONS'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


o = open(HERE + '/design_head.md').read().rstrip() + '\n\n'
o += '## Properties and how each is decided\n\n'
catch = json.load(open(HERE + '/catch.json'))
known = [json.loads(l) for l in open(ROOT + '/known_findings.jsonl')
         if l.strip()]
for p in sorted(PROPS, key=lambda p: p['id']):
    m = mod(p['id'])
    o += '### %s  %s\n\n' % (p['id'], p['title'])
    o += '* **What is analysed**: ' + ', '.join(
        '`%s`' % n for n, w in p['mech']) + ' and everything they call.\n'
    o += '* **How**: %s\n' % (m.get('EXPLANATION') or m['doc'])
    o += '* **Bounds**: %s.\n' % p['forall']
    if m.get('LIMITS'):
        o += '* **Not decided**: %s\n' % '; '.join(m['LIMITS'])
    o += '* **Trusted**: %s.\n' % '; '.join(m.get('ASSUMPTIONS', []))
    o += '* **Why tests cannot settle it**: %s\n' % p['why']
    b = sorted(n for n, r in catch.items() if r['property'] == p['id'])
    o += '* **Planted bugs**: %s.\n\n' % (', '.join(b) or 'none')
if NA:
    o += '## Not applicable to static analysis\n\n'
    for p in NA:
        o += '* **%s  %s**: %s\n' % (p['id'], p['title'], p['reason'])
    o += '\n'
o += '## Which check catches which planted bug\n\n'
o += 'Written from the property text before looking at the check; all are '
o += 'kept under `seeded/`. "rule" is what the check reports.\n\n'
o += '| planted bug | property | needs | caught by rule |\n|---|---|---|---|\n'
for n, r in sorted(catch.items(), key=lambda x: (x[1]['property'], x[0])):
    md = json.load(open('%s/seeded/%s/meta.json' % (ROOT, n)))
    o += '| %s | %s | %s | %s |\n' % (
        n, r['property'], md['needs'],
        ', '.join(r['rules'][:2]) if r['rc'] == 1 else '**missed**')
o += '\n## Genuine defects found\n\nRepaired (one `fix:` commit each):\n\n'
for k in known:
    if k['status'] == 'fixed':
        o += '* %s %s: %s\n' % (
            k['property'], k['commit'][:10],
            k['what'].split(k['commit'][:10], 1)[-1].strip())
o += '\nRecorded, not repaired (`known_findings.jsonl`):\n\n'
for k in known:
    if k['status'] == 'known':
        o += '* %s `%s`: %s\n' % (k['property'], k['key'], k['what'])
o += '\n' + open(HERE + '/design_tail.md').read()
open(ROOT + '/DESIGN.md', 'w').write(o)
