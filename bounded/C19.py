"""Interval segment tree against direct stabbing."""
from .h import *
from collections import Counter


@target
class Stab(Target):
    files = ['trees/space_partitioning_trees.py']
    covers = ('OneDimensionalSegmentTree',)

    def small(self):
        import itertools
        iv = [(a, b) for a in range(4) for b in range(a, 4)]
        for n in (1, 2):
            for s in itertools.product(iv, repeat=n):
                yield dict(s=[list(x) for x in s])
        for s in itertools.product(iv[:6], repeat=3):
            yield dict(s=[list(x) for x in s])

    def gen(self, r):
        n = 1 + r.size(12)
        hi = r.choice([3, 8, 30])
        s = []
        for _ in range(n):
            a = r.randint(-hi, hi)
            b = a + r.choice([0, 1, r.randint(0, hi)])
            s.append([b, a] if r.chance(.2) else [a, b])
        if r.chance(.15):
            s = [[x + .5, y + .5] for x, y in s]
        return dict(s=s, eager=r.choice([0, 1]), kind=r.choice(['list', 'tuple', 'mixed']))

    def run(self, c):
        import pydatastructs as p
        segs = [tuple(x) if c.get('kind') == 'mixed' and i % 2 else list(x) for i, x in enumerate(c['s'])]
        arg = tuple(segs) if c.get('kind') == 'tuple' else segs
        before = [list(x) for x in segs]
        t = p.OneDimensionalSegmentTree(arg)
        if c.get('eager'):
            t.build()
        iv = [sorted(x) for x in c['s']]
        pts = sorted({x + d for i in iv for x in i for d in (-1, -.5, 0, .5, 1)} | {iv[0][0] - 100, iv[0][1] + 100})
        for rnd in (0, 1):
            for q in pts:
                got = t.query(q)
                check(len(got) == len({id(x) for x in got}), 'an interval is reported twice')
                eq(Counter((x.key[1], x.key[2]) for x in got), Counter(tuple(i) for i in iv if i[0] <= q <= i[1]), 'intervals at %r of %r' % (q, iv))
            t.build()
        eq([list(x) for x in segs], before, 'the given intervals')
        for x, y in zip(arg, segs):
            check(x is y, 'entries of the given collection were replaced')
