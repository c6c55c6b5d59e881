#!/usr/bin/env python3
"""development helper: run the concrete targets of modules against a cached scratch build with /repo's current .py files
   conc.py [-b BUDGET] [-s SEED] MODULE..."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from bounded import search
from bounded.build import scratch_build
args = sys.argv[1:]
budget, seed = 5, 1
repo = os.environ.get('VERIF_REPO', '/repo')
while args and args[0].startswith('-'):
    o = args.pop(0)
    if o == '-b': budget = float(args.pop(0))
    if o == '-s': seed = int(args.pop(0))
D = '/tmp/pdsdev'
if not os.path.exists(D):
    d = scratch_build(repo)
    os.rename(d, D)
for root, _, fs in os.walk(repo + '/pydatastructs'):
    for f in fs:
        if f.endswith('.py'):
            p = os.path.join(root, f)
            q = D + p[len(repo):]
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(p, q)
rows = search.list_targets([a.split(':')[0] for a in args], D)
sel = {a for a in args if ':' in a}
if sel:
    rows = [r for r in rows if '%s:%s' % (r[0], r[1]) in sel]
res = search.run_targets(rows, D, seed, budget, 8, stop_on_first=False)
for k, v in sorted(res.items()):
    print('%-6s %-28s evals=%-7d distinct=%-7d exh=%s %.1fs %s' % (k[0], k[1], v['evals'], v.get('distinct', 0), v.get('exhaustive_small'), v['s'], ''))
    if v['violation']:
        print('   BAD', v['violation']['msg'][:600], '\n      ', str(v['violation']['case'])[:400])
