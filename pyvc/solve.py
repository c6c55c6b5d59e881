"""Parallel discharge of obligations by external SMT solvers."""
import os
import pickle
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor, as_completed
import z3

Z3N, Z3O, CVC5 = 'z3-new', 'z3', 'cvc5'
TRIM, TRIML = 'z3-new/trim', 'z3-new/trim-lin'


def to_smt2(obl, axioms, extra=''):
    s = z3.Solver()
    used = relevant_axioms(axioms, list(obl.hyps) + [obl.goal])
    for a in used:
        s.add(a)
    for h in obl.hyps:
        s.add(h)
    s.add(z3.Not(obl.goal))
    return s.to_smt2()

HYP = 'the goal is one of the hypotheses (syntactically)'


def all_texts(obls, axioms, workers=6):
    """texts of many obligations, written by forked processes"""
    if len(obls) < 300:
        return [texts(o, axioms) for o in obls]
    kids = []
    for w in range(workers):
        r, out = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(out, 'wb') as f:
                    pickle.dump([texts(o, axioms) for o in obls[w::workers]], f)
            finally:
                os._exit(0)
        os.close(out)
        kids.append((pid, r))
    res = [None] * len(obls)
    for w, (pid, r) in enumerate(kids):
        with os.fdopen(r, 'rb') as f:
            res[w::workers] = pickle.loads(f.read())
        os.waitpid(pid, 0)
    return res


def texts(obl, axioms):
    """the obligation, and a weaker set of hypotheses for it (without the quantified ones about states before the innermost loop head:
    the loop invariant normally carries what the body needs). unsat of either discharges the obligation."""
    from .engine import Obl, has_quant
    if not obl.cover:
        ids = {h.get_id() for h in obl.hyps}
        parts = obl.goal.children() if z3.is_and(obl.goal) else [obl.goal]
        if all(g.get_id() in ids for g in parts):
            return HYP
    full = to_smt2(obl, axioms)
    if not obl.cut or obl.cover:
        return full
    hy = [h for i, h in enumerate(obl.hyps) if i >= obl.cut or not has_quant(h)]
    if len(hy) == len(obl.hyps):
        return full
    return (full, to_smt2(Obl(obl.name, hy, obl.goal), axioms))


def decls(t, acc, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d.name())
            stack.extend(x.children())
    return acc


def relevant_axioms(axioms, terms):
    acc, seen = set(), set()
    for t in terms:
        decls(t, acc, seen)
    out, rest = [], [(a, decls(a, set(), set())) for a in axioms]
    changed = True
    while changed:
        changed = False
        for a, d in list(rest):
            if d & acc or not d:
                out.append(a)
                acc |= d
                rest.remove((a, d))
                changed = True
    return out


def run(cmd, text, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = out.strip().split('\n')[0].strip() if out.strip() else ''
    if first not in ('sat', 'unsat', 'unknown'):
        m = re.search(r'^(sat|unsat|unknown)$', out, re.M)
        first = m.group(1) if m and 'error' not in out else ('timeout' if 'timeout' in out else 'error:' + out[:200])
    return first, time.time() - t0


def attempt(text, backend, timeout, seed=0):
    if backend in (TRIM, TRIML):
        backend = Z3N if backend == TRIM else 'z3-new/lin'
    if backend == Z3N or backend == Z3O:
        cmd = [backend, '-in', '-T:%d' % timeout]
        if seed:
            cmd += ['smt.random_seed=%d' % seed, 'sat.random_seed=%d' % seed]
        if backend == Z3O:
            cmd += []
        return run(cmd, text, timeout)
    if backend == 'z3-new/nombqi':
        return run([Z3N, '-in', '-T:%d' % timeout, 'smt.mbqi=false', 'smt.auto_config=false'], text, timeout)
    if backend == 'z3-new/lin':          # products of variables stay uninterpreted (sound for unsat)
        return run([Z3N, '-in', '-T:%d' % timeout, 'smt.arith.nl=false'], text, timeout)
    if backend == CVC5:
        return run([CVC5, '--lang=smt2', '--tlimit=%d' % (timeout * 1000), '--arrays-exp'], '(set-logic ALL)\n' + text, timeout)
    raise ValueError(backend)


COVER = [(Z3N, 2, 0)]
LADDER = [(Z3N, 4, 0), (TRIM, 4, 0), ('z3-new/lin', 6, 0), ('z3-new/nombqi', 10, 0), (TRIML, 8, 0), (Z3O, 15, 0), (CVC5, 25, 0), (TRIM, 20, 5), (Z3N, 30, 7), (Z3O, 40, 3)]

if os.environ.get('PYVC_FAST'):      # development
    LADDER = [(Z3N, int(os.environ['PYVC_FAST']), 0), (TRIM, int(os.environ['PYVC_FAST']), 0), ('z3-new/lin', int(os.environ['PYVC_FAST']), 0), ('z3-new/nombqi', int(os.environ['PYVC_FAST']), 0), (CVC5, int(os.environ['PYVC_FAST']), 0)]


def discharge_one(text, ladder=None):
    if text == HYP:
        return 'unsat', 'syntactic', 0.0, []
    hist = []
    tot = 0
    full, trim = text if isinstance(text, tuple) else (text, None)
    for be, to, seed in (ladder or LADDER):
        if be in (TRIM, TRIML) and trim is None:
            continue
        r, t = attempt(trim if be in (TRIM, TRIML) else full, be, to, seed)
        tot += t
        hist.append('%s:%s:%.1fs' % (be, r, t))
        if r == 'unsat':
            return 'unsat', be, tot, hist
        if r == 'sat' and be not in ('z3-new/nombqi', 'z3-new/lin', TRIM, TRIML):
            return 'sat', be, tot, hist
    return 'unknown', None, tot, hist


def discharge(jobs, workers=8, ladder=None, progress=None, deadline=None, hints=None):
    """jobs: [(key, smt2 text)] -> {key: (status, backend, time, hist)}"""
    out = {}

    def one(k, t):
        if deadline is not None and time.time() > deadline:
            return k, ('unknown', None, 0.0, ['deadline'])
        if isinstance(k, tuple) and k[-1] == 'cover':
            return k, discharge_one(t, COVER)
        lad = ladder or LADDER
        h = (hints or {}).get('/'.join(k) if isinstance(k, tuple) else k)
        if h:     # back end that solved this obligation before goes first (order only; nothing is cached)
            first = [x for x in lad if x[0] == h] or []
            lad = [(h, 20, first[0][2] if first else 0)] + list(lad)
        return k, discharge_one(t, lad)
    with ThreadPoolExecutor(max_workers=workers) as ex:
        futs = [ex.submit(one, k, t) for k, t in jobs]
        for f in as_completed(futs):
            k, r = f.result()
            out[k] = r
            if progress:
                progress(k, r)
    return out
