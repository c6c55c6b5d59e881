#!/usr/bin/env python3
"""kf.py PROPERTY 'what failed' -- record the last /repo commit as a repair"""
import json, subprocess, sys, os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P))
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short=7', 'HEAD']).decode().strip()
d['findings'].append(dict(id='F%02d' % (len(d['findings']) + 1), status='fixed', property=sys.argv[1], note='fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2])))
open(P, 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')
