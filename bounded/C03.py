"""Searches, bounds, is_ordered (Python backend) against brute force."""
import itertools
from .h import *

F = ['linear_data_structures/algorithms.py']


class Base(Target):
    files = F
    excl = False
    srt = True

    def small(self):
        for n in range(0, 5):
            for vals in itertools.product(range(0, 4), repeat=n):
                if self.srt and list(vals) != sorted(vals):
                    continue
                for v in range(-1, 5):
                    yield dict(vals=list(vals), v=v)
        for n in range(0, 5):
            vals = [0, 2, 4, 6][:n]
            for lo in range(n):
                for hi in range(lo - 1, n):
                    for v in range(-1, 8):
                        yield dict(vals=vals, v=v, rng=[lo, hi + (1 if self.excl else 0)])

    def gen(self, r):
        n = r.size(30)
        vals = r.ints(n, -4, max(3, n))
        if self.srt:
            vals.sort()
        v = r.choice(vals) if vals and r.chance(.6) else r.val(-6, n + 4)
        c = dict(vals=vals, v=v)
        if n and r.chance(.6):
            lo, hi = sorted([r.randrange(n), r.randrange(n)])
            c['rng'] = [lo, hi + (1 if self.excl else 0)]
            if not self.srt or r.chance(.3):
                pass
            if r.chance(.3):      # unsorted outside the range: must not matter
                for i in list(range(0, lo)) + list(range(hi + 1, n)):
                    vals[i] = r.randint(-9, 30)
        if r.chance(.4):
            c['rev'] = True
            if self.srt:
                vals.reverse()
                if 'rng' in c:
                    a, b = c['rng']
                    if self.excl:
                        b -= 1
                    c['rng'] = [n - 1 - b, n - 1 - a + (1 if self.excl else 0)]
        return c

    def setup(self, c, strict):
        import pydatastructs as p
        a = p.OneDimensionalArray(int, list(c['vals']))
        kw = {}
        n = len(c['vals'])
        lo, hi = 0, n - (0 if self.excl else 1)
        if 'rng' in c:
            lo, hi = c['rng']
            kw.update(start=lo, end=hi)
        if c.get('rev'):
            kw['comp'] = (lambda x, y: x > y) if strict else (lambda x, y: x >= y)
        idx = range(lo, hi + (0 if self.excl else 1))
        if self.srt:
            seg = [c['vals'][i] for i in idx]
            if seg != sorted(seg, reverse=bool(c.get('rev'))):
                raise Skip()
        return p, a, kw, idx, hi


class Find(Base):
    def run(self, c):
        p, a, kw, idx, hi = self.setup(c, self.fn == 'jump_search')
        if self.fn == 'linear_search':
            kw.pop('comp', None)
        got = getattr(p, self.fn)(a, c['v'], **kw)
        hits = [i for i in idx if c['vals'][i] == c['v']]
        if got is None:
            check(not hits, 'returned None but index %r holds the value' % hits[:1])
        else:
            check(got in hits, 'returned index %r; matching indices in the range are %r' % (got, hits))
            if self.fn == 'linear_search':
                eq(got, hits[0], 'first matching index')
        eq(list(a._data), c['vals'], 'array after the search')


class Bound(Base):
    excl = True

    def run(self, c):
        p, a, kw, idx, hi = self.setup(c, True)
        got = getattr(p, self.fn)(a, c['v'], **kw)
        less = (lambda x, y: x > y) if c.get('rev') else (lambda x, y: x < y)
        f = (lambda x: not less(x, c['v'])) if self.fn == 'lower_bound' else (lambda x: less(c['v'], x))
        want = next((i for i in idx if f(c['vals'][i])), hi)
        eq(got, want, self.fn)


@target
class IsOrdered(Base):
    srt = False
    covers = ('is_ordered',)

    def gen(self, r):
        c = super().gen(r)
        if r.chance(.5):
            c['vals'].sort(reverse=bool(c.get('rev')))
        n = len(c['vals'])
        if n and r.chance(.3):
            c['vals'][r.randrange(n)] = r.randint(0, 9)
        for _ in range(r.choice([0, 0, 1, 2])):
            if n:
                c['none'] = c.get('none', []) + [r.randrange(n)]
        c['strict'] = r.chance(.4)
        return c

    def run(self, c):
        p, a, kw, idx, hi = self.setup(c, False)
        vals = list(c['vals'])
        for i in c.get('none', []):
            a[i] = None
            vals[i] = None
        if c.get('strict'):
            kw['comp'] = (lambda x, y: x > y) if c.get('rev') else (lambda x, y: x < y)
        want = True
        for i in list(idx)[1:]:
            x, y = vals[i - 1], vals[i]
            if x is None or y is None:
                continue
            if (y > x) if c.get('rev') else (y < x):
                want = False
        eq(p.is_ordered(a, **kw), want, 'is_ordered')


for s in ('linear_search', 'binary_search', 'jump_search'):
    target(type(s, (Find,), {'__module__': __name__, 'fn': s, 'covers': (s,), 'srt': s != 'linear_search'}))
for s in ('lower_bound', 'upper_bound'):
    target(type(s, (Bound,), {'__module__': __name__, 'fn': s, 'covers': (s,)}))
