"""Disjoint set forest against a partition."""
from .h import *


@target
class DisjointSet(Hist):
    files = ['miscellaneous_data_structures/disjoint_set.py']
    covers = ('DisjointSetForest',)
    maxlen = 3
    mx = 30
    inits = (0, 3, 5)

    def alphabet(self):
        yield ['make', 2]
        for a, b in ((0, 1), (1, 2), (2, 0), (3, 4), (2, 3)):
            yield ['union', a, b]
        for a in (0, 1, 2, 3):
            yield ['root', a]
            yield ['find', a]

    def init(self, r):
        return r.size(10)

    def op(self, r, c):
        n = max(c['init'], 1) + 1
        k = lambda: r.randrange(n)
        return r.choice([['make', k()]] + [['union', k(), k()]] * 5 + [['root', k()]] * 2 + [['find', k()], ['size', k()], ['sets']])

    def run(self, c):
        import pydatastructs as p
        t = p.DisjointSetForest()
        cls = {}
        for op in [['make', i] for i in reversed(range(c['init']))] + c['ops']:
            o, a = op[0], op[1] if len(op) > 1 else None
            if o == 'make':
                t.make_set(a, -a)
                cls.setdefault(a, {a})
            elif o == 'sets':
                pass
            elif a not in cls or (o == 'union' and op[2] not in cls):
                f = dict(union=t.union, root=t.make_root, find=t.find_root, size=t.find_size)[o]
                must_raise(KeyError, '%r with an unknown key' % (op,), f, *op[1:])
            elif o == 'union':
                t.union(a, op[2])
                m = cls[a] | cls[op[2]]
                for k in m:
                    cls[k] = m
            elif o == 'root':
                t.make_root(a)
                eq(t.find_root(a).key, a, 'representative after make_root(%d)' % a)
            elif o == 'find':
                check(t.find_root(a).key in cls[a], 'root of %d is outside its class' % a)
            else:
                eq(t.find_size(a), len(cls[a]), 'find_size(%d)' % a)
            if o in ('sets', 'root', 'union') or op is c['ops'][-1:]:
                self.inv(t, cls, op)
        self.inv(t, cls, 'end')

    def inv(self, t, cls, w):
        import pydatastructs as p       # query a copy: path compression must not be driven by the checks themselves
        u = p.DisjointSetForest()
        new = {}
        for k, x in t.tree.items():
            y = u.tree[k] = new[id(x)] = p.utils.Set(x.key, x.data)
            y.size = x.size
        for k, x in t.tree.items():
            u.tree[k].parent = new[id(x.parent)]
        want = sorted({tuple(sorted(s)) for s in cls.values()})
        for k in cls:
            eq(u.find_size(k), len(cls[k]), 'find_size(%d) after %r' % (k, w))
        eq([tuple(s) for s in u.disjoint_sets()], want, 'disjoint_sets after %r' % (w,))
        for s in want:
            eq(len({u.find_root(k).key for k in s}), 1, 'number of roots of class %r after %r' % (s, w))
