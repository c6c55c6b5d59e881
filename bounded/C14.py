"""Range queries against the fold."""
from .h import *
from functools import reduce


def nt(f):
    def g(t):
        if len(t) == 1:
            return t[0]
        x, y = t
        return x if y is None else y if x is None else f(x, y)
    return g


def funcs():
    import math
    import pydatastructs.utils.misc_util as u
    return dict(min=(u.minimum, min), gcd=(u.greatest_common_divisor, math.gcd), sum=(u.summation, lambda x, y: x + y), max=(nt(max), max),
                left=(nt(lambda x, y: x), lambda x, y: x), right=(nt(lambda x, y: y), lambda x, y: y),
                cat=(nt(lambda x, y: x * 10 ** len(str(y)) + y), lambda x, y: x * 10 ** len(str(y)) + y))     # associative, not commutative


FN = ('min', 'gcd', 'sum', 'max', 'left', 'right', 'cat')


class Range(Target):
    files = ['miscellaneous_data_structures/algorithms.py', 'miscellaneous_data_structures/sparse_table.py', 'miscellaneous_data_structures/segment_tree.py']
    ds = None
    dyn = False

    def small(self):
        for n in range(0, 18):
            for f in ('cat', 'sum', 'min'):
                yield dict(a=[(i * 7 + 3) % 9 + 1 for i in range(n)], f=f, ops=[])

    def gen(self, r):
        f = r.choice(FN)
        n = r.size(40) + (1 if r.chance(.95) else 0)
        lo = 1 if f in ('cat', 'gcd') else -9
        a = r.ints(n, lo, 9)
        if lo == 1:
            a = [max(1, x) for x in a]
        ops = []
        for _ in range(r.randint(0, 12)):
            if n == 0:
                break
            if self.dyn and r.chance(.5):
                ops.append(['u', r.randrange(n), max(1, r.val(1, 9)) if lo == 1 else r.val()])
            else:
                i, j = r.randrange(n), r.randrange(n)
                if r.chance(.9):
                    i, j = min(i, j), max(i, j)
                    if r.chance(.06):
                        i, j = r.choice([(i, n), (-1, j), (i, n + 3), (j + 1, j), (-2, -1)])
                ops.append(['q', i, j])
        return dict(a=a, f=f, ops=ops)

    def nontrivial(self, c):
        return len(c['a']) > 1

    def run(self, c):
        import pydatastructs as p
        F, f2 = funcs()[c['f']]
        a = list(c['a'])
        mk = p.RangeQueryDynamic if self.dyn else p.RangeQueryStatic
        arr = p.OneDimensionalArray(int, list(a))
        if not a:
            must_raise(ValueError, 'an empty array', mk, arr, F, data_structure=self.ds)
            return
        rq = mk(arr, F, data_structure=self.ds)

        def query(i, j):
            if i > j:
                must_raise(ValueError, 'query(%d, %d)' % (i, j), rq.query, i, j)
            elif i < 0 or j >= len(a):
                must_raise(IndexError, 'query(%d, %d) on %d elements' % (i, j, len(a)), rq.query, i, j)
            else:
                eq(rq.query(i, j), reduce(f2, a[i:j + 1]), '%s query(%d, %d) on %r' % (c['f'], i, j, a))

        def every():
            n = len(a)
            for i in range(n):
                for j in range(i, n):
                    if n <= 12 or (i + j) % 5 == 0 or j - i < 2 or i == 0 or j == n - 1:
                        query(i, j)
        if len(a) <= 18:
            every()
        for op in c['ops']:
            if op[0] == 'u':
                rq.update(op[1], op[2])
                a[op[1]] = op[2]
            else:
                query(op[1], op[2])
        if len(a) <= 18:
            every()
        eq([arr[i] for i in range(len(a))], a, 'the array')


@target
class StaticArray(Range):
    covers = ('RangeQueryStatic', 'RangeQueryStaticArray')
    ds = 'array'


@target
class StaticSparse(Range):
    covers = ('RangeQueryStaticSparseTable', 'SparseTable')
    ds = 'sparse_table'


@target
class DynamicArray(Range):
    covers = ('RangeQueryDynamic', 'RangeQueryDynamicArray')
    ds, dyn = 'array', True


@target
class DynamicTree(Range):
    covers = ('RangeQueryDynamicSegmentTree', 'OneDimensionalArraySegmentTree')
    ds, dyn = 'segment_tree', True
