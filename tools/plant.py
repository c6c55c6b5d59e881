"""Helper to plant a bug: makes a scratch copy of /repo, applies edits, keeps the patch when it builds, passes the stable
tests and its demonstration tells the two trees apart; then runs the property's check against the copy."""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def tests(copy):
    out = copy + '.xml'
    rc, o = sh('PYTHONPATH=%s %s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 4 --doctest-modules '
               '--ignore-glob="*/tests/benchmarks" -o junit_family=xunit2 --junitxml=%s pydatastructs' % (copy, PY, out), copy)
    rc, o2 = sh('/usr/bin/python3 /opt/vp/results.py %s junit:%s' % (copy + '.json', out), '/')
    r = json.load(open(copy + '.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok = set(r['passed'])
    return [x for x in base if x not in ok], o


def plant(id, prop, needs, breaks, edits, demo, check=True):
    copy = '/tmp/plant_' + id
    if os.path.exists(copy):
        shutil.rmtree(copy)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    d = os.path.join(HERE, 'seeded', id)
    try:
        for f, a, b in edits:
            p = os.path.join(copy, 'pydatastructs', f)
            s = open(p).read()
            assert s.count(a) == 1, '%s: %d matches for %r' % (id, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', copy, 'diff'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo: exit 0 when the property holds for the demonstrated case\n'
                                        'exec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % d, '/repo')
        rc1, o1 = sh('bash %s/demo.sh' % d, copy)
        bad, o = tests(copy)
        print('%s: demo clean rc=%d patched rc=%d (%s); tests failing: %s' % (id, rc0, rc1, o1.strip().split('\n')[-1][:200], bad[:5]))
        if rc0 != 0:
            print(o0[-1500:])
        if rc0 or not rc1 or bad:
            shutil.rmtree(d)
            print('   DROPPED')
            return
        if check:
            rc, o = sh('python3-vt check.py %s' % prop, HERE, env=dict(VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick'))
            print('   check rc=%d' % rc)
            print('   | ' + '\n   | '.join(x[:260] for x in o.strip().split('\n')[-8:]))
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        for e in ('.xml', '.json'):
            if os.path.exists(copy + e):
                os.unlink(copy + e)
        sys.stdout.flush()
