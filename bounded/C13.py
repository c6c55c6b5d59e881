"""Multiset against a Counter."""
from collections import Counter
from .h import *


@target
class Multiset(Hist):
    files = ['miscellaneous_data_structures/multiset.py', 'trees/binary_trees.py']
    covers = ('Multiset',)
    maxlen = 4
    mx = 30
    inits = ([], [1, 1, 2], [3, 1])

    def alphabet(self):
        for k in (1, 2, 3):
            yield ['add', k]
            yield ['remove', k]

    def init(self, r):
        return [r.randint(0, 9) for _ in range(r.size(8))]

    def op(self, r, c):
        n = r.choice([4, 12])
        return [r.choice(['add', 'add', 'remove', 'remove'] if len(c['ops']) // 8 % 2 else ['add', 'add', 'remove']), r.randint(0, n)]

    def run(self, c):
        import pydatastructs as p
        m = p.Multiset(*c['init'])
        ref = Counter(c['init'])
        self.inv(m, ref, 'after construction')
        for op in c['ops']:
            if op[0] == 'add':
                m.add(op[1])
                ref[op[1]] += 1
            else:
                m.remove(op[1])
                if ref[op[1]]:
                    ref[op[1]] -= 1
            self.inv(m, ref, 'after %r' % (op,))

    def inv(self, m, ref, w):
        eq(len(m), sum(ref.values()), w + ': length')
        pres = sorted(k for k in ref if ref[k])
        for x in sorted(set(ref) | {-1, 0, 5, 13}):
            eq(m.count(x), ref[x], w + ': count(%d)' % x)
            eq(x in m, ref[x] > 0, w + ': membership of %d' % x)
            eq(m.lower_bound(x), next((k for k in pres if k >= x), None), w + ': lower_bound(%d)' % x)
            eq(m.upper_bound(x), next((k for k in pres if k > x), None), w + ': upper_bound(%d)' % x)
