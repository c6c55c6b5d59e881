"""Concrete cross-check / stand-in harness.  Runs inside a scratch copy of the package (PYTHONPATH), with the
interpreter that runs the project's tests.  One process per target.

   python -m bounded.h MODULE TARGET SEED BUDGET_S STATEFILE [known ids]
   python -m bounded.h --replay MODULE TARGET CASEJSON
"""
import ast
import importlib
import json
import os
import random
import signal
import sys
import time


class Bad(Exception):
    """the code under test violates the property on this case"""


class Skip(Exception):
    """case outside the property's precondition"""


class CaseTimeout(BaseException):
    pass


TARGETS = {}


def target(cls):
    """register a Target class under (module short name, class name)"""
    TARGETS.setdefault(cls.__module__.split('.')[-1], {})[cls.__name__] = cls()
    return cls


class Target:
    standin = False        # True: bounded stand-in for code outside the verifier's reach
    covers = ()            # names of the functions exercised
    files = ()             # sources whose integer literals steer sizes/values
    case_s = 10
    what = ''
    weight = 1

    def small(self):
        return ()

    def gen(self, r):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def known(self, case):
        return None

    def nontrivial(self, case):
        return bool(case)


class Hist(Target):
    """histories of operations: case = dict(init=..., ops=[[name, args...], ...])"""
    maxlen = 4
    mx = 25
    inits = (None,)

    def alphabet(self):
        return ()

    def small(self):
        import itertools
        al = list(self.alphabet())
        for n in range(0, self.maxlen + 1):
            for i in self.inits:
                for o in itertools.product(al, repeat=n):
                    yield dict(init=i, ops=[list(x) for x in o])

    def init(self, r):
        return r.choice(list(self.inits))

    def op(self, r, c):
        raise NotImplementedError

    def gen(self, r):
        c = dict(init=self.init(r), ops=[])
        for _ in range(r.size(self.mx)):
            c['ops'].append(self.op(r, c))
        return c

    def nontrivial(self, case):
        return len(case['ops']) > 1


def raises(exc, f, *a, **k):
    """-> (True, None) if f raised exc, else (False, result)"""
    try:
        return False, f(*a, **k)
    except exc:
        return True, None


def must_raise(exc, what, f, *a, **k):
    try:
        v = f(*a, **k)
    except exc:
        return
    raise Bad('%s did not raise %s but returned %r' % (what, getattr(exc, '__name__', exc), v))


class R(random.Random):
    consts = ()

    def size(self, mx=12):
        """mostly small; sometimes around a literal of the source"""
        x = self.random()
        if x < 0.65:
            return self.randint(0, min(mx, 8))
        if x < 0.9:
            return self.randint(0, mx)
        c = [k for k in self.consts if 2 <= k <= 400]
        if c and x < 0.96:
            return max(0, self.choice(c) + self.randint(-2, 2))
        return self.randint(0, 4 * mx)

    def val(self, lo=-5, hi=9):
        x = self.random()
        if x < 0.8 or not self.consts:
            return self.randint(lo, hi)
        if x < 0.9:
            v = self.choice(self.consts) + self.randint(-1, 1)
            return v if self.random() < .7 or lo >= 0 else -v
        return self.randint(lo * 1000 if lo < 0 else lo, hi * 1000)

    def chance(self, p):
        return self.random() < p

    def ints(self, n, lo=-5, hi=9):
        x = self.random()
        if x < .5:
            return [self.randint(lo, hi) for _ in range(n)]
        if x < .65:
            return [self.randint(lo, lo + 2) for _ in range(n)]
        if x < .9:
            return [self.val(lo, hi) for _ in range(n)]
        l = sorted(self.val(lo, hi) for _ in range(n))
        if x < .95:
            l.reverse()
        return l


def harvest(files):
    out = set()
    root = os.environ.get('PDS_SCRATCH', '.')
    import re
    for f in files:
        p = os.path.join(root, 'pydatastructs', f)
        ps = [p]
        if os.path.isdir(p):
            ps = [os.path.join(p, x) for x in os.listdir(p)]
        for q in ps:
            try:
                src = open(q, errors='replace').read()
            except OSError:
                continue
            if q.endswith('.py'):
                try:
                    for n in ast.walk(ast.parse(src)):
                        if isinstance(n, ast.Constant) and type(n.value) is int and 1 < abs(n.value) <= 100000:
                            out.add(abs(n.value))
                except SyntaxError:
                    pass
            elif q.endswith(('.cpp', '.hpp')):
                out.update(int(x) for x in re.findall(r'(?<![\w.])(\d{1,5})(?![\w.])', src) if int(x) > 1)
    return sorted(out)


def load(mod):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    importlib.import_module('bounded.' + mod)
    me = importlib.import_module('bounded.h')
    return me.TARGETS[mod], me


def eq(got, want, msg):
    if got != want:
        raise Bad('%s: got %r, expected %r' % (msg, got, want))


def check(c, msg):
    if not c:
        raise Bad(msg)


def guarded(t, case, me):
    """-> None or violation message"""
    def onalarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, t.case_s)
    try:
        t.run(case)
    except me.Bad as e:
        return str(e)
    except me.Skip:
        return 'SKIP'
    except CaseTimeout:
        return 'does not terminate within %d s' % t.case_s
    except MemoryError:
        return 'MemoryError'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return 'raises %s: %s (at %s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def main():
    if sys.argv[1] == '--replay':
        ts, me = load(sys.argv[2])
        t = ts[sys.argv[3]]
        case = json.loads(open(sys.argv[4]).read())
        m = guarded(t, case, me)
        m = None if m == 'SKIP' else m
        print(json.dumps({'violation': m}))
        return 1 if m else 0
    mod, tn, seed, budget, statef = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    knownids = set(sys.argv[6:])
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ts, me = load(mod)
    t = ts[tn]
    r = me.R('%d/%s/%s' % (seed, mod, tn))
    r.consts = me.harvest(t.files)
    fd = os.open(statef + '.case', os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    t0 = time.time()
    st = {'evals': 0, 'distinct': 0, 'samples': [], 'known': {}, 'violation': None, 'exhaustive_small': False}
    seen = set()

    def cases():
        done = True
        for c in t.small():
            yield c
            if time.time() - t0 > budget * .6:
                done = False
                break
        st['exhaustive_small'] = done
        while True:
            yield t.gen(r)
    for case in cases():
        if time.time() - t0 > budget:
            break
        js = json.dumps(case)
        case = json.loads(js)
        b = js.encode()
        os.pwrite(fd, b + b'\n', 0)
        m = guarded(t, case, me)
        if m == 'SKIP':
            continue
        st['evals'] += 1
        if t.nontrivial(case) and len(seen) < 200000:
            seen.add(hash(js))
        if len(st['samples']) < 2 and st['evals'] in (40, 400):
            st['samples'].append(case)
        if m is None:
            continue
        k = t.known(case)
        if k in knownids:
            st['known'][k] = st['known'].get(k, 0) + 1
            continue
        st['violation'] = {'case': case, 'msg': m}
        break
    st['distinct'] = len(seen)
    st['s'] = round(time.time() - t0, 2)
    if not st['samples'] and st['evals']:
        st['samples'] = [case]
    with open(statef, 'w') as f:
        json.dump(st, f)
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
