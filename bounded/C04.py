"""Subsequences, permutations, matrix product against brute force."""
import itertools
from .h import *

F = ['linear_data_structures/algorithms.py']


def subseq(s, t):
    it = iter(t)
    return all(x in it for x in s)


@target
class LCS(Target):
    files = F
    covers = ('longest_common_subsequence',)

    def small(self):
        for n in range(0, 5):
            for m in range(0, 5):
                for a in itertools.product('ab', repeat=n):
                    for b in itertools.product('abc' if m < 4 else 'ab', repeat=m):
                        yield [list(a), list(b)]

    def gen(self, r):
        al = r.choice(['ab', 'abc', 'abcdef'])
        return [[r.choice(al) for _ in range(r.size(14))] for _ in range(2)]

    def run(self, c):
        import pydatastructs as p
        a, b = c
        A, B_ = p.OneDimensionalArray(str, list(a)), p.OneDimensionalArray(str, list(b))
        o = p.longest_common_subsequence(A, B_)
        got = [o[i] for i in range(len(o))]
        check(subseq(got, a), '%r is not a subsequence of %r' % (got, a))
        check(subseq(got, b), '%r is not a subsequence of %r' % (got, b))
        L = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
        for i in range(len(a)):
            for j in range(len(b)):
                L[i + 1][j + 1] = L[i][j] + 1 if a[i] == b[j] else max(L[i][j + 1], L[i + 1][j])
        eq(len(got), L[-1][-1], 'length of the subsequence of %r and %r' % (a, b))
        eq([list(A._data), list(B_._data)], [a, b], 'the inputs')

    def nontrivial(self, c):
        return len(c[0]) > 1 and len(c[1]) > 1


@target
class LIS(Target):
    files = F
    covers = ('longest_increasing_subsequence', 'lower_bound')

    def small(self):
        for n in range(0, 6):
            for a in itertools.product(range(4), repeat=n):
                yield list(a)
        for a in itertools.permutations(range(6)):
            yield list(a)

    def gen(self, r):
        a = r.ints(r.size(20), -9, 30)
        return [x + .5 for x in a] if r.chance(.1) else a

    def run(self, a):
        import pydatastructs as p
        A = p.OneDimensionalArray(type(a[0]) if a else int, list(a))
        o = p.longest_increasing_subsequence(A)
        got = [o[i] for i in range(len(o))]
        check(subseq(got, a), '%r is not a subsequence of %r' % (got, a))
        check(all(x < y for x, y in zip(got, got[1:])), '%r is not strictly increasing' % got)
        best = []
        for i, x in enumerate(a):
            best.append(1 + max([best[j] for j in range(i) if a[j] < x], default=0))
        eq(len(got), max(best, default=0), 'length of the increasing subsequence of %r' % a)
        eq(list(A._data), a, 'the input')


class Perm(Target):
    files = F
    covers = ('_permutation_util', 'next_permutation', 'prev_permutation')
    fn = None

    def small(self):
        for n in range(0, 6):
            for a in itertools.product(range(3) if n > 3 else range(4), repeat=n):
                yield dict(a=list(a))
        for a in itertools.permutations(range(5)):
            yield dict(a=list(a))

    def gen(self, r):
        n = r.randint(0, 7)
        a = [r.randint(0, r.choice([2, 6])) for _ in range(n)]
        x = r.random()
        if x < .3:
            a.sort(reverse=x < .15)
        elif x < .5 and n > 2:
            k = r.randint(1, n - 1)
            a = a[:k] + sorted(a[k:], reverse=x < .4)
        c = dict(a=a)
        if n and r.chance(.4):
            c['rng'] = sorted([r.randrange(n), r.randrange(n)])
        if r.chance(.3):
            c['comp'] = 'gt'
        if r.chance(.1):
            c['a'] = [v + .5 for v in a]
        return c

    def run(self, c):
        import pydatastructs as p
        a = c['a']
        A = p.OneDimensionalArray(type(a[0]) if a else int, list(a))
        kw, seg = {}, a
        if 'rng' in c:
            kw = dict(start=c['rng'][0], end=c['rng'][1])
            seg = a[c['rng'][0]:c['rng'][1] + 1]
        if 'comp' in c:
            kw['comp'] = lambda x, y: x > y
        ok, out = getattr(p, self.fn)(A, **kw)
        got = [out[i] for i in range(len(out))]
        if len(seg) > 7:
            raise Skip()
        allp = sorted(set(itertools.permutations(seg)))
        if ('comp' in c) != (self.fn == 'prev_permutation'):
            allp.reverse()
        i = allp.index(tuple(seg))
        want = (True, list(allp[i + 1])) if i + 1 < len(allp) else (False, list(allp[0]))
        eq((ok, got), want, '%s of %r' % (self.fn, seg))
        eq(list(A._data), a, 'the input')

    def nontrivial(self, c):
        return len(c['a']) > 1


for s in ('next_permutation', 'prev_permutation'):
    target(type(s, (Perm,), {'__module__': __name__, 'fn': s}))


@target
class MatMul(Target):
    files = F
    covers = ('matrix_multiply_parallel', '_matrix_multiply_helper')

    def small(self):
        for n in range(1, 4):
            for m in range(1, 4):
                for k in range(1, 4):
                    yield dict(a=[[i * 3 + j - 2 for j in range(m)] for i in range(n)], b=[[i - 2 * j + 1 for j in range(k)] for i in range(m)], t=2)

    def gen(self, r):
        n, m, k = r.randint(1, 5), r.randint(1, 5), r.randint(1, 5)
        if r.chance(.3):
            m = k = n
        d = dict(a=[r.ints(m) for _ in range(n)], b=[r.ints(k) for _ in range(m)], t=r.choice([1, 2, 4]))
        if r.chance(.1):
            d['b'].append(r.ints(k))
        return d

    def run(self, c):
        from pydatastructs.linear_data_structures.algorithms import matrix_multiply_parallel as f
        a, b = c['a'], c['b']
        if len(a[0]) != len(b):
            must_raise(ValueError, 'a size mismatch', f, a, b, c['t'])
            return
        want = [[sum(a[i][x] * b[x][j] for x in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
        a2, b2 = [x[:] for x in a], [x[:] for x in b]
        eq(f(a, b, c['t']), want, 'product of %r and %r' % (a, b))
        eq((a, b), (a2, b2), 'the inputs')
