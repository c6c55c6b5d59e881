"""Runs the concrete targets of a property against a scratch build (in parallel, with hang/crash detection)."""
import json
import os
import subprocess
import sys
import tempfile
import time
from .build import PYBIN

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env_for(scratch):
    e = dict(os.environ, PYTHONPATH=scratch + ':' + HERE, PDS_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return e


def list_targets(mods, scratch):
    code = ('import sys,json\nfrom bounded import h\nout=[]\n'
            'for m in %r:\n'
            '    ts,_=h.load(m)\n'
            '    out+=[[m,n,t.standin,list(t.covers),t.what,t.case_s,t.weight] for n,t in ts.items()]\n'
            'print(json.dumps(out))' % (list(mods),))
    p = subprocess.run([PYBIN, '-c', code], cwd='/', env=env_for(scratch), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError('cannot load the package or the targets: ' + p.stderr.decode(errors='replace')[-1500:])
    return json.loads(p.stdout.decode().strip().split('\n')[-1])


def replay(mod, tn, case, scratch, timeout=60):
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(case, f)
    try:
        p = subprocess.run([PYBIN, '-m', 'bounded.h', '--replay', mod, tn, f.name], cwd='/', env=env_for(scratch),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        try:
            return json.loads(p.stdout.decode().strip().split('\n')[-1])['violation']
        except Exception:
            return 'crashes (exit %s)' % p.returncode
    except subprocess.TimeoutExpired:
        return 'hangs'
    finally:
        os.unlink(f.name)


def run_targets(targets, scratch, seed, budget, workers, known=(), stop_on_first=True):
    """targets: rows of list_targets; total wall about budget*len/workers"""
    tmp = tempfile.mkdtemp(prefix='pds_state_')
    pend = list(targets)
    running = []
    results = {}
    try:
        while pend or running:
            while pend and len(running) < workers:
                row = pend.pop(0)
                m, n, case_s = row[0], row[1], row[5]
                sf = os.path.join(tmp, '%s.%s' % (m, n))
                p = subprocess.Popen([PYBIN, '-m', 'bounded.h', m, n, str(seed), str(budget * row[6]), sf] + list(known), cwd='/', env=env_for(scratch),
                                     stdout=subprocess.DEVNULL, stderr=open(sf + '.err', 'w'))
                running.append([row, sf, p, time.time()])
            for x in list(running):
                row, sf, p, t0 = x
                rc = p.poll()
                key = (row[0], row[1])
                if rc is None:
                    lim = row[5] + 8
                    try:
                        last = os.stat(sf + '.case').st_mtime
                    except OSError:
                        last = t0
                    if time.time() - max(last, t0) > lim + (15 if last == t0 else 0):
                        p.kill()
                        p.wait()
                        results[key] = {'evals': 0, 'distinct': 0, 'samples': [], 'known': {}, 's': time.time() - t0,
                                        'violation': {'case': cur_case(sf), 'msg': 'does not terminate (native code)'}}
                        running.remove(x)
                    continue
                running.remove(x)
                try:
                    results[key] = json.load(open(sf))
                except Exception:
                    err = open(sf + '.err').read()[-600:]
                    c = cur_case(sf)
                    if c is None:
                        raise RuntimeError('target %s failed to start (exit %s): %s' % (key, rc, err))
                    results[key] = {'evals': 0, 'distinct': 0, 'samples': [], 'known': {}, 's': time.time() - t0,
                                    'violation': {'case': c, 'msg': 'crashes the interpreter (exit %s) %s' % (rc, err)}}
                if stop_on_first and results[key]['violation']:
                    pend = []
            time.sleep(.02)
    finally:
        for x in running:
            x[2].kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def cur_case(sf):
    try:
        return json.loads(open(sf + '.case').read().split('\n')[0])
    except Exception:
        return None
