"""Comparison sorts (pure Python backend): concrete runs of the real functions against sorted()."""
import itertools
from .h import *

F = ['linear_data_structures/algorithms.py', 'linear_data_structures/arrays.py']
SORTS = ['bubble_sort', 'selection_sort', 'insertion_sort', 'cocktail_shaker_sort', 'brick_sort', 'brick_sort_parallel',
         'shell_sort', 'quick_sort', 'intro_sort', 'merge_sort_parallel', 'heapsort']
NOCOMP = ('intro_sort', 'heapsort')


class Item(int):
    """int subclass: equal values are distinguishable by identity"""


def comps(name):
    return {'le': lambda u, v: u <= v, 'ge': lambda u, v: u >= v, 'mod3': lambda u, v: u % 3 <= v % 3, 'abs': lambda u, v: abs(u) <= abs(v)}[name]


KEY = {'le': lambda u: u, 'ge': lambda u: -u, 'mod3': lambda u: u % 3, 'abs': abs}


def order(vals, comp):
    return [KEY[comp](v) for v in vals]


class SortT(Target):
    files = F
    weight = 1

    def small(self):
        for n in range(0, 5):
            for vals in itertools.product([0, 1, 2], repeat=n):
                yield dict(kind='oda', vals=list(vals))
        for n in range(1, 4):
            for vals in itertools.product([0, 1, None], repeat=n):
                yield dict(kind='oda', vals=list(vals))
        for n in range(0, 4):
            for dele in itertools.product([0, 1], repeat=n):
                yield dict(kind='doda', vals=[3, 1, 2][:n], dele=[i for i in range(n) if dele[i]])
        for p in itertools.permutations(range(6)):
            yield dict(kind='oda', vals=list(p))

    def gen(self, r):
        n = r.size(14)
        kind = 'doda' if r.chance(.35) else 'oda'
        if self.fn == 'intro_sort' and r.chance(.5):
            n = r.randint(15, 70)
        vals = r.ints(n)
        c = dict(kind=kind, vals=vals)
        if kind == 'oda' and r.chance(.4) and n:
            for _ in range(r.randint(0, n)):
                vals[r.randrange(n)] = None
        if kind == 'doda':
            m = r.choice([0, r.randint(0, n), n])
            c['dele'] = r.sample(range(n), m) if n else []
            c['lf'] = r.choice([.25, .25, .5, 0.1, 0.9])
        if n and r.chance(.4):
            c['rng'] = sorted([r.randrange(n), r.randrange(n)])
        if self.fn not in NOCOMP and r.chance(.4):
            c['comp'] = r.choice(['ge', 'mod3', 'abs', 'le'])
        if self.fn == 'quick_sort' and r.chance(.5):
            c['pivot'] = r.choice(['low', 'mid', 'high', 'rand'])
        if self.fn == 'intro_sort' and r.chance(.5):
            c['ins'] = r.choice([0, 1, 2, 3, 5, 16])
            if r.chance(.6):
                c['depth'] = r.randint(0, 4)
        if 'parallel' in self.fn:
            c['threads'] = r.choice([1, 2, 5])
        return c

    def run(self, c):
        import pydatastructs as p
        from pydatastructs.linear_data_structures import algorithms as alg
        f = getattr(p, self.fn)
        comp = c.get('comp', 'le')
        vals = [None if v is None else Item(v) for v in c['vals']]
        if c['kind'] == 'oda':
            a = p.OneDimensionalArray(Item, len(vals))
            for i, v in enumerate(vals):
                a[i] = v
        else:
            a = p.DynamicOneDimensionalArray(Item, 0, load_factor=c.get('lf', .25))
            for v in vals:
                a.append(v)
            for i in c.get('dele', []):
                if i <= a._last_pos_filled:
                    a.delete(i)
        before = list(a._data)
        n = len(before)
        kw = {}
        lo, hi = 0, n - 1
        if 'rng' in c:
            lo, hi = c['rng']
            hi = min(hi, n - 1)
            lo = min(lo, hi)
            kw.update(start=lo, end=hi)
        if comp != 'le' or 'comp' in c:
            kw['comp'] = comps(comp)
        if 'pivot' in c:
            import random
            rr = random.Random(5)
            kw['pick_pivot_element'] = {'low': lambda l, h, x: x[l], 'mid': lambda l, h, x: x[(l + h) // 2], 'high': lambda l, h, x: x[h],
                                        'rand': lambda l, h, x: x[rr.randint(l, h)]}[c['pivot']]
        if 'ins' in c:
            kw['ins_threshold'] = c['ins']
        if 'depth' in c:
            kw['maxdepth'] = c['depth']
        args = [a] + ([c.get('threads', 2)] if 'parallel' in self.fn else [])
        f(*args, **kw)
        after = list(a._data)
        seg = before[lo:hi + 1]
        nn = sorted((v for v in seg if v is not None), key=KEY[comp])
        want = [KEY[comp](v) for v in nn] + [None] * (len(seg) - len(nn))
        if c['kind'] == 'doda' and len(after) != n:
            # compaction: the surviving elements, in order, then Nones
            full = before[:lo] + nn + [None] * (len(seg) - len(nn)) + before[hi + 1:]
            exp = [v for v in full if v is not None]
            check(len(after) >= len(exp), 'array shrank below its contents')
            got = after[:len(exp)]
            check(all(v is not None for v in got) and all(v is None for v in after[len(exp):]), 'compaction left holes: %r' % (after,))
            pre = [v for v in before[:lo] if v is not None]
            mid = got[len(pre):len(pre) + len(nn)]
            eqid(got[:len(pre)], pre, 'elements before the range')
            eqid(got[len(pre) + len(nn):], [v for v in before[hi + 1:] if v is not None], 'elements after the range')
        else:
            eq(len(after), n, 'length')
            eqid(after[:lo], before[:lo], 'positions before the range')
            eqid(after[hi + 1:], before[hi + 1:], 'positions after the range')
            mid = after[lo:hi + 1]
            eq([None if v is None else KEY[comp](v) for v in mid], want, 'order of the sorted range')
            mid = [v for v in mid if v is not None]
        eq([KEY[comp](v) for v in mid], [KEY[comp](v) for v in nn], 'order of the sorted range')
        eq(sorted(map(id, mid)), sorted(map(id, nn)), 'elements are a rearrangement')
        if c['kind'] == 'doda':
            d = a._data
            num = sum(v is not None for v in d)
            eq(a._num, num, 'element count of the dynamic array')
            last = max([i for i, v in enumerate(d) if v is not None], default=-1)
            eq(a._last_pos_filled, last, 'last filled position')
            eq(a.size, len(d), 'size')


def eqid(got, want, msg):
    if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
        raise Bad('%s changed: got %r, expected %r' % (msg, got, want))


for s in SORTS:
    target(type(s, (SortT,), {'__module__': __name__, 'fn': s, 'covers': (s,), 'standin': s in ('quick_sort', 'intro_sort', 'merge_sort_parallel', 'heapsort'),
                              'what': 'random and small exhaustive arrays (length mostly <= 14, up to ~70), with None, sub-ranges and comparators'}))
