"""Binary indexed tree against plain sums."""
from .h import *


@target
class Fenwick(Hist):
    files = ['trees/binary_trees.py']
    covers = ('BinaryIndexedTree',)
    maxlen = 2
    inits = ([1], [3, -1], [1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 7, 8])

    def alphabet(self):
        for i in (0, 1, 2, 4, 6):
            yield ['u', i, 10]
            yield ['u', i, -3]

    def init(self, r):
        n = 1 + r.size(40)
        if r.chance(.3):
            n = max(1, 2 ** r.randint(0, 7) + r.randint(-1, 1))
        x = r.ints(n)
        if r.chance(.2):
            x = [v / 2 + .25 for v in x]
        return x

    def op(self, r, c):
        n = len(c['init'])
        if r.chance(.6):
            v = r.val()
            return ['u', r.randrange(n), v + .5 if type(c['init'][0]) is float else v]
        i, j = sorted((r.randrange(n), r.randrange(n)))
        return ['s', i, j]

    def run(self, c):
        import pydatastructs as p
        a = list(c['init'])
        if any(o[1] >= len(a) for o in c['ops']):
            raise Skip()
        t = p.BinaryIndexedTree(list(a))
        self.inv(t, a, 'after construction')
        for o in c['ops']:
            if o[0] == 'u':
                t.update(o[1], o[2])
                a[o[1]] = o[2]
                self.inv(t, a, 'after update(%d, %r)' % (o[1], o[2]), False)
            else:
                eq(t.get_sum(o[1], o[2]), sum(a[o[1]:o[2] + 1]), 'get_sum(%d, %d) of %r' % (o[1], o[2], a))
        self.inv(t, a, 'at the end')

    def inv(self, t, a, w, full=True):
        s = 0
        for i, v in enumerate(a):
            s += v
            eq(t.get_prefix_sum(i), s, '%s: get_prefix_sum(%d) of %r' % (w, i, a))
        if full and len(a) < 20:
            for i in range(len(a)):
                for j in range(i, len(a)):
                    eq(t.get_sum(i, j), sum(a[i:j + 1]), '%s: get_sum(%d, %d) of %r' % (w, i, j, a))
        elif full:
            for i in range(0, len(a), 3):
                for j in range(i, len(a), 4):
                    eq(t.get_sum(i, j), sum(a[i:j + 1]), '%s: get_sum(%d, %d)' % (w, i, j))
