"""Counting, bucket and radix sort against sorted()."""
import itertools
from .h import *

F = ['linear_data_structures/algorithms.py', 'linear_data_structures/arrays.py']


class Item(int):
    pass


class Dist(Target):
    files = F
    neg = True
    fn = None

    def small(self):
        vs = [0, 1, 3, None] + ([-2] if self.neg else [])
        for n in range(0, 5):
            for vals in itertools.product(vs, repeat=n):
                yield dict(kind='oda', vals=list(vals))
        for n in range(0, 4):
            for vals in itertools.product([0, 1, 2], repeat=n):
                for k in range(n + 1):
                    yield dict(kind='doda', vals=list(vals), dele=list(range(k)))
        yield dict(kind='oda', vals=list(range(300, 0, -1)))

    def gen(self, r):
        n = r.size(16)
        if r.chance(.1):
            n = r.randint(250, 300)
        lo, hi = r.choice([(-6, 6), (0, 9), (0, 120), (95, 1005), (-300, 300), (0, 2)])
        if not self.neg:
            lo = max(lo, 0)
        vals = [r.randint(lo, hi) for _ in range(n)]
        if r.chance(.2) and self.fn != 'counting_sort':
            vals = [max(0, r.val()) * 10 ** r.randint(0, 3) + r.randint(0, 2) for _ in range(n)]
        c = dict(kind=r.choice(['oda', 'oda', 'doda']), vals=vals)
        if c['kind'] == 'oda':
            if n and r.chance(.4):
                for _ in range(r.randint(0, n)):
                    vals[r.randrange(n)] = None
        else:
            c['dele'] = r.sample(range(n), r.choice([0, r.randint(0, n), n])) if n else []
        if n and self.fn != 'counting_sort' and r.chance(.4):
            c['rng'] = sorted([r.randrange(n), r.randrange(n)])
        return c

    def run(self, c):
        import pydatastructs as p
        from pydatastructs.linear_data_structures import algorithms as alg
        f = getattr(alg, self.fn)
        vals = [None if v is None else Item(v) for v in c['vals']]
        if c['kind'] == 'oda':
            a = p.OneDimensionalArray(Item, len(vals))
            for i, v in enumerate(vals):
                a[i] = v
        else:
            a = p.DynamicOneDimensionalArray(Item, 0)
            for v in vals:
                a.append(v)
            for i in c.get('dele', []):
                if i <= a._last_pos_filled:
                    a.delete(i)
        before = list(a._data)
        n = len(before)
        kw, lo, hi = {}, 0, n - 1
        if 'rng' in c:
            lo, hi = c['rng']
            hi = min(hi, n - 1)
            lo = min(lo, hi)
            if hi < 0:
                raise Skip()
            kw.update(start=lo, end=hi)
        out = f(a, **kw)
        seg = before[lo:hi + 1]
        nn = sorted(v for v in seg if v is not None)
        if self.fn == 'counting_sort':
            check(list(a._data) == before and all(x is y for x, y in zip(a._data, before)), 'counting_sort changed its input')
            if not nn:
                check(all(v is None for v in out._data), 'counting_sort invents elements')
                return
            got = list(out._data)
            if c['kind'] == 'doda':
                got = [v for v in got if v is not None]
            check(out is not a, 'counting_sort returned its input')
            eq(got, nn, 'counting_sort of %r' % (before,))
            eq(sorted(map(id, got)), sorted(map(id, nn)), 'the elements')
            if c['kind'] == 'doda':
                self.book(out)
            return
        check(out is a, 'the array is not returned')
        after = list(a._data)
        full = before[:lo] + nn + [None] * (len(seg) - len(nn)) + before[hi + 1:]
        if len(after) != n:
            check(c['kind'] == 'doda', 'length changed')
            k = sum(v is not None for v in full)
            eq([v for v in full if v is not None] + [None] * (len(after) - k), after, 'after compaction')
        else:
            eq(after, full, 'result of %s on %r' % (self.fn, before))
        for i in list(range(lo)) + list(range(hi + 1, n)):
            if len(after) == n:
                check(after[i] is before[i], 'position %d outside the range changed' % i)
        eq(sorted(id(v) for v in after if v is not None), sorted(id(v) for v in before if v is not None), 'the elements')
        if c['kind'] == 'doda':
            self.book(a)

    def book(self, a):
        d = a._data
        eq(a._num, sum(v is not None for v in d), 'element count of the dynamic array')
        eq(a._last_pos_filled, max([i for i, v in enumerate(d) if v is not None], default=-1), 'last filled position')
        eq(a.size, len(d), 'size')

    def nontrivial(self, c):
        return len(c['vals']) > 1


for s in ('counting_sort', 'bucket_sort', 'radix_sort'):
    target(type(s, (Dist,), {'__module__': __name__, 'fn': s, 'neg': s != 'radix_sort', 'covers': (s, '_' + s + '_helper')}))
