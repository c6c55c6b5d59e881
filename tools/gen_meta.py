#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py and contracts/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from meta import META                                  # noqa: E402
from contracts import PROPERTIES                       # noqa: E402
import contracts.all                                   # noqa: E402,F401

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for m in META:
        f.write(json.dumps(dict(id=m['id'], title=m['title'], statement=m['statement'],
                                quantifier=dict(over=m.get('over', ['inputs']), text=m['quant']), why_tests_cant=m['why'],
                                anchors=dict(files=['pydatastructs/' + x for x in m['files']],
                                             mechanism=[dict(name=a, where='pydatastructs/' + b) for a, b in m['mech']]))) + '\n')
ids = {m['id'] for m in META}
assert set(PROPERTIES) <= ids, set(PROPERTIES) - ids
checks, na = [], []
for m in META:
    p = PROPERTIES.get(m['id'])
    if p is None:
        na.append(dict(property=m['id'], reason=m.get('na', 'not yet built')))
        continue
    checks.append(dict(property=m['id'], quick_cmd='python3-vt check.py %s' % m['id'], thorough_cmd='python3-vt check.py %s --thorough' % m['id'],
                       technique=p.get('technique') or ('contract-based deductive verification: VCs generated from the Python source, discharged by z3/cvc5'
                                  + ('' if p['level'] == 'proof' else '; bounded stand-in for the functions named in the note')),
                       level=p['level'], level_note=p['note']))
man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
           notes='Each check generates proof obligations from the current source of the functions under contract and discharges them with SMT solvers; '
                 'a failed obligation starts a search for a failing input on a scratch build of the same tree. See DESIGN.md.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), sc)
    for l in META:
        assert l['statement'].count('. ') <= 2, (l['id'], 'more than three sentences')
except ImportError:
    pass
print('%d properties, %d checks, %d not applicable' % (len(META), len(checks), len(na)))
# DESIGN.md: generated parts
import re                                              # noqa: E402
from contracts import REGISTRY                         # noqa: E402
D = os.path.join(HERE, 'DESIGN.md')
text = open(D).read()
rows = []
for m in META:
    p = PROPERTIES.get(m['id'])
    if p is None:
        continue
    fns = []
    for k in p['contracts']:
        n = REGISTRY[k].name.split(':')[-1]
        if n not in fns:
            fns.append(n)
    rows.append('### %s %s (level: %s)\n%s\n\n*Under contract:* %s.\n\n*How:* %s\n' % (m['id'], m['title'], p['level'], p['note'], ', '.join('`%s`' % f for f in fns) or 'none', p['explanation']))
seeds = []
S = os.path.join(HERE, 'seeded')
for s in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    j = json.load(open(os.path.join(S, s, 'meta.json')))
    seeds.append('* **%s** (%s) %s — needs %s.' % (s, j['property'], j['what_it_breaks'], j['needs']))
cf = os.path.join(HERE, 'tools', 'caught.json')
caught = json.load(open(cf)) if os.path.exists(cf) else {}
seeds = [x + (' %s.' % caught[s] if s in caught else '') for x, s in zip(seeds, sorted(os.listdir(S)) if os.path.isdir(S) else [])]


def put(name, body):
    global text
    text = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, body, name), text, flags=re.S)


put('table', '\n'.join(rows))
put('seeded', '\n'.join(seeds))
put('na', '\n'.join('* **%s** %s' % (x['property'], x['reason']) for x in na) or 'None.')
open(D, 'w').write(text)
