#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]      decide one property on /repo's current working tree
   check.py --replay <replay file>                     re-run a recorded failing input on /repo's current tree
   check.py --unit <contract key> [-v]                 generate and discharge one contract (development)"""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/bin/python'
try:
    import z3                                                        # noqa: F401
except ImportError:
    if os.path.exists(VT) and os.environ.get('PYVC_REEXEC') != '1':
        os.environ['PYVC_REEXEC'] = '1'
        os.execv(VT, [VT] + sys.argv)
    raise
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from bounded import search                                           # noqa: E402
from bounded.build import scratch_build, BuildError                  # noqa: E402

GEN_LIMIT = 240          # seconds of symbolic execution per contract variant


def gen_unit(arg):
    """(contract key, variant) -> picklable obligations"""
    key, variant, q = arg
    t0 = time.time()
    try:
        from contracts import REGISTRY
        import contracts.all                                         # noqa: F401
        from contracts.lemmas import LEMMAS
        from pyvc.program import Program
        from pyvc.spec import generate
        from pyvc import solve
        r = generate(REGISTRY[key], variant, REGISTRY, Program())
        obls = [(o.name, o.line, o.cover, t) for o, t in zip(r.obls, solve.all_texts(r.obls, r.axioms))]
        lem = sorted(x.lstrip('@') for x in r.lemmas if x.lstrip('@') in LEMMAS)
        out = dict(key=key, variant=variant, error=r.error, obls=obls, trusted=sorted(r.trusted), inlined=sorted(r.inlined),
                   used=sorted(r.used), lemmas=lem, novariant=sorted(r.novariant), name=REGISTRY[key].name, loops=r.loops,
                   assumes=list(REGISTRY[key].assumes), gen_s=time.time() - t0)
    except BaseException as e:                                       # fail closed: reported as an undischarged contract
        out = dict(key=key, variant=variant, error='engine: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]), obls=[],
                   trusted=[], inlined=[], used=[], lemmas=[], novariant=[], name=key, loops=0, assumes=[], gen_s=time.time() - t0)
    q.put(out)


def closure(keys, registry):
    todo, seen = list(keys), []
    while todo:
        k = todo.pop(0)
        if k in seen:
            continue
        seen.append(k)
        for u in registry[k].uses:
            u = u if isinstance(u, str) else u.key
            todo.append(u)
    return [k for k in seen if registry[k].verify_self]


def generate_all(units, workers):
    ctx = mp.get_context('fork')
    pend, run, out = list(units), [], {}
    while pend or run:
        while pend and len(run) < workers:
            u = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=gen_unit, args=((u[0], u[1], q),), daemon=True)
            p.start()
            run.append((u, p, q, time.time()))
        for x in list(run):
            u, p, q, t0 = x
            if not q.empty():
                out[u] = q.get()
                p.join()
                run.remove(x)
            elif not p.is_alive() or time.time() - t0 > GEN_LIMIT:
                if not q.empty():
                    continue
                p.kill()
                why = 'symbolic execution exceeds %d s' % GEN_LIMIT if p.is_alive() else 'engine process died'
                out[u] = dict(key=u[0], variant=u[1], error=why, obls=[], trusted=[], inlined=[], used=[], lemmas=[], novariant=[], name=u[0],
                              loops=0, assumes=[], gen_s=time.time() - t0)
                run.remove(x)
        time.sleep(.005)
    return out


def prove(keys, registry, workers=8, deadline=None, verbose=False):
    """-> report dict"""
    from pyvc import solve
    from contracts.lemmas import LEMMAS
    units = [(k, v) for k in closure(keys, registry) for v in registry[k].variants]
    gens = generate_all(units, workers)
    jobs, meta = [], {}
    errors, trusted, lemmas = [], set(), set()
    for u in units:
        g = gens[u]
        if g['error']:
            errors.append((u, g['error']))
        trusted.update(g['trusted'])
        trusted.update(g['assumes'])
        lemmas.update(g['lemmas'])
        seen = {}
        for n, line, cover, text in g['obls']:
            c = seen[n] = seen.get(n, 0) + 1
            kid = (u[0], u[1], n if c == 1 else '%s~%d' % (n, c)) + (('cover',) if cover else ())
            meta[kid] = (line, cover, g['name'])
            jobs.append((kid, text))
    for ln in sorted(lemmas):
        L = LEMMAS[ln]
        if L.trusted:
            trusted.add('lemma %s: %s' % (ln, L.trusted))
        try:
            lobls = L.obls()
        except Exception as e:
            errors.append((('lemma', ln), 'lemma obligations: %s: %s' % (type(e).__name__, e)))
            continue
        for n, hyps, goal in lobls:
            from pyvc.engine import Obl
            from pyvc.spec import base_axioms
            kid = ('lemma', ln, n)
            meta[kid] = (0, False, 'lemma ' + ln)
            jobs.append((kid, solve.to_smt2(Obl(n, hyps, goal), base_axioms() + list(L.axioms))))
    prior = load_hints()
    res = solve.discharge(jobs, workers=workers, deadline=deadline, hints=prior)
    if os.environ.get('PYVC_WRITE_HINTS'):                           # development (tools/mkhints.py)
        for kid, r in res.items():
            k = '/'.join(kid)
            if r[0] == 'unsat' and r[1] not in (solve.LADDER[0][0], 'syntactic'):
                prior[k] = r[1]
            elif r[0] == 'unsat' and not prior.get(k, '').startswith('z3-new/') and r[2] < 3:
                prior.pop(k, None)
        json.dump(prior, open(os.path.join(HERE, 'hints.json'), 'w'), indent=0, sort_keys=True)
    failed, backends, stime = [], {}, 0.0
    nob = nd = ncov = 0
    for kid, text in jobs:
        st = res[kid]
        text = text[0] if isinstance(text, tuple) else text
        line, cover, fname = meta[kid]
        stime += st[2]
        if cover:
            ncov += 1
            if st[0] == 'unsat':
                failed.append(dict(unit='/'.join(kid[:2]), function=fname, obligation='/'.join(kid[2:]), line=line, status='VACUOUS (precondition or path condition unsatisfiable)',
                                   history=st[3], text=text))
            continue
        nob += 1
        if st[0] == 'unsat':
            nd += 1
            backends[st[1]] = backends.get(st[1], 0) + 1
        else:
            failed.append(dict(unit='/'.join(kid[:2]), function=fname, obligation='/'.join(kid[2:]), line=line, status=st[0], history=st[3], text=text))
    for u, e in errors:
        failed.append(dict(unit='/'.join(u), function=registry[u[0]].name if u[0] in registry else '/'.join(u), obligation='generation', line=0, status=e, history=[], text=''))
    for u in units:
        if not gens[u]['error'] and not [o for o in gens[u]['obls'] if not o[2]]:
            failed.append(dict(unit='/'.join(u), function=registry[u[0]].name, obligation='nonempty', line=0, status='no obligations generated', history=[], text=''))
    return dict(units=units, gens=gens, obligations=nob, discharged=nd, covers=ncov, failed=failed, backends=backends, solver_s=round(stime, 2),
                trusted=sorted(trusted), lemmas=sorted(lemmas), res=res)


def load_hints():
    try:
        return json.load(open(os.path.join(HERE, 'hints.json')))
    except Exception:
        return {}


def load_findings():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    except FileNotFoundError:
        return []


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return do_replay(a[1])
    from contracts import REGISTRY, PROPERTIES
    import contracts.all                                             # noqa: F401
    if a and a[0] == '--unit':
        return do_unit(a[1:], REGISTRY)
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--thorough' in a:
        tier = 'thorough'
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PROPERTIES[pid]
    keys, mods, budget, level = P['contracts'], P['bounded'], P['budget'], P['level']
    if tier == 'thorough':
        budget = budget * 12
    sh = {}

    def concrete():
        try:
            sh['scratch'] = scratch_build(REPO)
            rows = search.list_targets(mods, sh['scratch'])
            sh['rows'] = rows
            findings = [f for f in load_findings() if f['property'] == pid and f['status'] == 'known']
            sh['findings'] = []
            for f in findings:
                m = search.replay(f['module'], f['target'], f['case'], sh['scratch'])
                sh['findings'].append((f, m))
            known = [f['id'] for f in findings]
            w = 2 if keys else 7
            # budget is seconds of search per target; bounded to a total wall time
            sh['out'] = search.run_targets(rows, sh['scratch'], seed, budget, w, known)
        except Exception as e:
            sh['err'] = '%s: %s' % (type(e).__name__, e)
    th = threading.Thread(target=concrete)
    th.start()
    rep = None
    try:
        if keys:
            rep = prove(keys, REGISTRY, workers=7, deadline=t0 + 420)
    finally:
        th.join()
    try:
        return finish(pid, tier, seed, t0, P, sh, rep, budget)
    finally:
        if sh.get('scratch'):
            shutil.rmtree(sh['scratch'], ignore_errors=True)


def finish(pid, tier, seed, t0, P, sh, rep, budget):
    failed = rep['failed'] if rep else []
    out = dict(sh.get('out') or {})
    viol = [(k, r['violation']) for k, r in out.items() if r['violation']]
    if failed and not viol and 'err' not in sh:
        # undischarged obligations: search longer for a failing input, related targets first
        names = {f['function'].split(':')[-1].split('.')[-1] for f in failed}
        rows = sorted(sh['rows'], key=lambda r: 0 if names & set(x.split('.')[-1] for x in r[3]) else 1)
        rel = [r for r in rows if names & set(x.split('.')[-1] for x in r[3])] or rows
        known = [f['id'] for f, m in sh['findings']]
        left = max(20, min(100, 640 - (time.time() - t0)))
        per = max(4, min(30, left * 7 / max(1, len(rel))))
        more = search.run_targets(rel, sh['scratch'], seed + 1000, per, 7, known)
        for k, r in more.items():
            o = out.get(k)
            if o:
                r['evals'] += o['evals']
                r['distinct'] += o['distinct']
            out[k] = r
        viol = [(k, r['violation']) for k, r in out.items() if r['violation']]
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    nviol = 0
    rc = 0
    replay = os.path.join(rd, '%s.json' % pid)
    fsum = [{k: v for k, v in f.items() if k != 'text'} for f in failed]
    if viol:
        (m, tn), v = viol[0]
        again = search.replay(m, tn, v['case'], sh['scratch']) if v['case'] is not None else None
        json.dump(dict(property=pid, module=m, target=tn, case=v['case'], message=v['msg'], replayed=again, failed_obligations=fsum,
                       how='check.py --replay <this file> re-runs the case on the current tree'), open(replay, 'w'), indent=1, default=str)
        print('property %s is violated: %s.%s: %s' % (pid, m, tn, v['msg'][:600]))
        print('  case: %s' % json.dumps(v['case'])[:600])
        for f in fsum[:10]:
            print('  failed obligation: %s %s (line %s): %s' % (f['unit'], f['obligation'], f['line'], str(f['status'])[:200]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        rc, nviol = 1, len(viol)
    elif failed or 'err' in sh:
        json.dump(dict(property=pid, case=None, failed_obligations=fsum, search_error=sh.get('err'),
                       verifier_output=[dict(unit=f['unit'], obligation=f['obligation'], solvers=f['history'], smt2=f['text'][:200000]) for f in failed[:3]]),
                  open(replay, 'w'), indent=1, default=str)
        for f in fsum[:20]:
            print('  failed obligation: %s %s (line %s): %s %s' % (f['unit'], f['obligation'], f['line'], str(f['status'])[:400], ' '.join(f['history'])))
        if 'err' in sh:
            print('  the concrete runs could not be made: %s' % sh['err'][:800])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        rc, nviol = 1, 1
    known_lines = 0
    for f, m in sh.get('findings', []):
        if m:
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, f['what'], f['id']))
            known_lines += 1
        else:
            print('note: known finding %s no longer reproduces' % f['id'])
    write_evidence(pid, tier, seed, t0, P, sh, rep, out, nviol, fsum)
    if rc == 0:
        print('%s: held; %s obligations discharged, %d concrete evaluations, %.1f s' % (
            pid, '%d/%d' % (rep['discharged'], rep['obligations']) if rep else 'no', sum(r['evals'] for r in out.values()), time.time() - t0))
    return rc


def write_evidence(pid, tier, seed, t0, P, sh, rep, out, nviol, fsum):
    rows = sh.get('rows', [])
    stand = [dict(target=r[0] + '.' + r[1], covers=r[3], what=r[4], **pick(out.get((r[0], r[1])))) for r in rows if r[2]]
    cross = [dict(target=r[0] + '.' + r[1], covers=r[3], **pick(out.get((r[0], r[1])))) for r in rows if not r[2]]
    cov = {}
    if rep:
        fn = {}
        for u in rep['units']:
            g = rep['gens'][u]
            d = fn.setdefault(g['name'], dict(variants=[], obligations=0, inlined=set(), loops=g['loops']))
            d['variants'].append('%s/%s' % u)
            d['obligations'] += len([o for o in g['obls'] if not o[2]])
            d['inlined'].update(g['inlined'])
            if g['novariant']:
                d['loops_without_termination_argument'] = g['novariant']
        for d in fn.values():
            d['inlined'] = sorted(d['inlined'])
        cov.update(obligations=rep['obligations'], discharged=rep['discharged'], checker_cmd='python3-vt /verif/check.py %s' % pid,
                   trusted_base=TB, reachability_covers=rep['covers'], backends=rep['backends'], solver_s=rep['solver_s'],
                   functions_under_contract=fn, lemmas=rep['lemmas'],
                   samples=[dict(unit='%s/%s' % u, obligation=o[0], line=o[1]) for u in rep['units'][:3] for o in rep['gens'][u]['obls'][:2]])
    cov['explanation'] = P['explanation']
    cov['bounded_standins'] = stand
    cov['contract_cross_checks_on_real_code'] = cross
    cov['evaluations'] = sum(r['evals'] for r in out.values())
    cov['distinct_nontrivial'] = sum(r['distinct'] for r in out.values())
    cov['rule'] = 'concrete cases: exhaustive small inputs first, then random ones steered by literals of the source; non-trivial = the case is non-empty'
    if fsum:
        cov['failed_obligations'] = fsum[:30]
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=(rep['trusted'] if rep else []) + list(P['assumptions']), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


TB = ['pyvc (the verification-condition generator in /verif/pyvc: Python subset semantics, see DESIGN.md)',
      'SMT back ends z3-new, z3, cvc5 (an obligation is accepted when one of them answers unsat)',
      'Python integers are mathematical; elements are uninterpreted values with None-ness, an integer comparison rank and an occurrence tag']


def pick(r):
    if not r:
        return dict(evaluations=0)
    d = dict(evaluations=r['evals'], distinct_nontrivial=r['distinct'], samples=r['samples'], exhaustive_small_space_completed=r.get('exhaustive_small'), seconds=r.get('s'))
    if r.get('known'):
        d['known_findings_hit'] = r['known']
    return d


def do_replay(path):
    d = json.load(open(path))
    if d.get('case') is None:
        print('no failing input recorded; failed obligations:')
        for f in d.get('failed_obligations', []):
            print(' ', f['unit'], f['obligation'], f['status'])
        return 1
    s = scratch_build(REPO)
    try:
        m = search.replay(d['module'], d['target'], d['case'], s)
    finally:
        shutil.rmtree(s, ignore_errors=True)
    print('violation: %s' % m if m else 'the case passes on the current tree')
    return 1 if m else 0


def do_unit(a, registry):
    verbose = '-v' in a
    keys = [x for x in a if not x.startswith('-')]
    if '--closure' not in a:
        only = set(keys)
        for k in registry.values():
            k.verify_self_ = k.verify_self
            k.verify_self = k.key in only
    t0 = time.time()
    r = prove(keys, registry, workers=8)
    for u in r['units']:
        g = r['gens'][u]
        print('%s/%s: %d obligations, gen %.1fs, inlined %s, used %s, lemmas %s, no variant: %s' % (u[0], u[1], len(g['obls']), g['gen_s'], g['inlined'], g['used'], g['lemmas'], g['novariant']))
        if g['trusted']:
            print('   trusted: %s' % g['trusted'])
    for f in r['failed']:
        print('  FAILED %s %s line %s: %s %s' % (f['unit'], f['obligation'], f['line'], f['status'], f['history']))
        if '--dump' in a:
            fn = '/tmp/fail_%s_%s.smt2' % (f['unit'].replace('/', '_'), f['obligation'].replace('/', '_').replace(':', '_'))
            open(fn, 'w').write(f['text'])
            print('     ', fn)
    if verbose:
        for k, v in r['res'].items():
            print('   ', k, v[0], v[1], '%.1f' % v[2])
    slow = sorted(((v[2], k) for k, v in r['res'].items()), reverse=True, key=lambda x: x[0])[:3]
    print('%d/%d discharged, %d covers, wall %.1fs, solver %.1fs %s; slowest %s' % (r['discharged'], r['obligations'], r['covers'], time.time() - t0, r['solver_s'], r['backends'], slow))
    return 1 if r['failed'] else 0


if __name__ == '__main__':
    try:
        rc = main()
    except KeyError as e:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
