"""One-dimensional and multi-dimensional fixed arrays against plain lists / dicts."""
import itertools
from .h import *


class Base(Hist):
    files = ['linear_data_structures/arrays.py']


@target
class OneDimensional(Base):
    covers = ('OneDimensionalArray.__new__', '__getitem__', '__setitem__', 'fill', '__len__')
    maxlen = 2
    inits = ([0, []], [1, []], [0, [4, 5, 6]], [1, [4, 5]], [2, [7, 8]], [3, [1, 2, 3]], [4, [0] * 3], [5, [9] * 2], [6, [3, '4', 5.0]])

    def alphabet(self):
        for i in (-1, 0, 1, 2, 3):
            yield ['get', i]
        for i in (0, 1, 2, 3):
            yield ['set', i, 11]
            yield ['set', i, None]
        yield ['set', 0, '12']
        yield ['fill', 5]
        yield ['fill', '6']

    def init(self, r):
        return [r.randrange(6), [r.randint(-9, 9) for _ in range(r.size(10))]]

    def op(self, r, c):
        n = len(c['init'][1])
        k = r.random()
        if k < .4:
            return ['get', r.randint(-3, n + 2)]
        if k < .9:
            return ['set', r.randint(0, n + 2), r.choice([None, r.randint(-9, 9), str(r.randint(0, 9)), 2.0])]
        return ['fill', r.randint(-5, 5)]

    def run(self, c):
        import pydatastructs as p
        form, data = c['init']
        A = p.OneDimensionalArray
        n = len(data)
        ref = [int(x) for x in data]
        if form == 0:
            a = A(int, list(data))
        elif form == 1:
            a = A(int, tuple(ref))
        elif form == 2:
            a = A(int, list(data), n)
        elif form == 3:
            a = A(int, n, list(data))
        elif form == 4:
            a = A(int, n)
            ref = [None] * n
        elif form == 5:
            a = A(int, n, init=7)
            ref = [7] * n
        else:
            a = A(int, list(data))
        self.same(a, ref, 'after construction')
        for op in c['ops']:
            if op[0] == 'get':
                i = op[1]
                if 0 <= i < n:
                    eq(a[i], ref[i], 'a[%d]' % i)
                else:
                    must_raise(IndexError, 'reading index %d of %d' % (i, n), a.__getitem__, i)
            elif op[0] == 'set':
                i, v = op[1:]
                if 0 <= i < n:
                    a[i] = v
                    ref[i] = None if v is None else int(v)
                else:
                    must_raise(IndexError, 'writing index %d of %d' % (i, n), a.__setitem__, i, v)
            else:
                a.fill(op[1])
                ref = [int(op[1])] * n
            self.same(a, ref, 'after %r' % (op,))
        if n:
            must_raise(ValueError, 'conflicting size', A, int, n + 1, [int(x or 0) for x in ref])
            must_raise(ValueError, 'conflicting size', A, int, [int(x or 0) for x in ref], n - 1)

    def same(self, a, ref, w):
        eq(len(a), len(ref), 'length ' + w)
        got = [a[i] for i in range(len(ref))]
        check([(type(x), x) for x in got] == [(type(x), x) for x in ref], '%s: contents %r, expected %r' % (w, got, ref))


@target
class MultiDimensional(Base):
    covers = ('MultiDimensionalArray',)
    maxlen = 2
    inits = ([1], [3], [1, 1], [2, 3], [3, 2], [2, 2, 2], [2, 3, 2], [1, 3, 2], [3, 1, 2])

    def small(self):
        for sh in self.inits + ([4, 3, 2], [2, 1, 3, 2]):
            cells = list(itertools.product(*[range(d) for d in sh]))
            yield dict(init=sh, ops=[['set', list(c), k] for k, c in enumerate(cells)] + [['get', list(c)] for c in cells])
            for idx in itertools.product(*[(0, d - 1, d, d + 1, 2 * d, -1) for d in sh]):
                yield dict(init=sh, ops=[['get', list(idx)], ['set', list(idx), 5], ['fill', 3], ['get', list(idx)]])
            for bad in ([0] * (len(sh) + 1), [0] * (len(sh) - 1)):
                if bad and not (len(bad) == 1):
                    yield dict(init=sh, ops=[['get', bad], ['set', bad, 1]])

    def init(self, r):
        return [r.randint(1, 4) for _ in range(r.randint(1, 4))]

    def op(self, r, c):
        sh = c['init']
        idx = [r.randrange(d) for d in sh]
        if r.chance(.2):
            k = r.randrange(len(sh))
            idx[k] = r.choice([sh[k], sh[k] + 1, sh[k] * 2, -1, -sh[k]])
        if r.chance(.05):
            idx.append(0)
        k = r.random()
        if k < .45:
            return ['set', idx, r.randint(-9, 9)]
        if k < .95:
            return ['get', idx]
        return ['fill', r.randint(0, 9)]

    def run(self, c):
        import pydatastructs as p
        sh = c['init']
        a = p.MultiDimensionalArray(int, *sh)
        ref = {x: None for x in itertools.product(*[range(d) for d in sh])}
        eq(tuple(a.shape), tuple(sh), 'shape')
        for op in c['ops']:
            if op[0] == 'fill':
                a.fill(op[1])
                ref = {x: op[1] for x in ref}
            else:
                idx = tuple(op[1])
                arg = idx[0] if len(idx) == 1 else idx
                if idx in ref:
                    if op[0] == 'get':
                        eq(a[arg], ref[idx], 'cell %r' % (idx,))
                    else:
                        a[arg] = op[2]
                        ref[idx] = op[2]
                elif op[0] == 'get':
                    must_raise(IndexError, 'reading cell %r of shape %r' % (idx, sh), a.__getitem__, arg)
                else:
                    must_raise(IndexError, 'writing cell %r of shape %r' % (idx, sh), a.__setitem__, arg, op[2])
            for x, v in ref.items():
                eq(a[x[0] if len(x) == 1 else x], v, 'cell %r after %r' % (x, op))
