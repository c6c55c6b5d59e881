"""Skip list against a sorted list, for scripted coin sequences."""
import bisect
from .h import *


@target
class SkipList(Hist):
    files = ['linear_data_structures/linked_lists.py']
    covers = ('SkipList.insert', 'SkipList.extract', 'SkipList.search')
    maxlen = 4
    inits = ([], [3, 1, 5])

    def alphabet(self):
        for k in (1, 2, 3):
            yield ['insert', k, 0]
            yield ['insert', k, 1]
            yield ['insert', k, 3]
            yield ['extract', k]

    def init(self, r):
        return [r.randint(0, 9) for _ in range(r.size(8))]

    def op(self, r, c):
        if r.chance(.55):
            return ['insert', r.randint(0, 9), r.choice([0, 0, 1, 1, 2, 3, 5])]
        return ['extract', r.randint(0, 9)]

    def run(self, c):
        import pydatastructs as p
        import random as rnd
        coins = [0]
        orig = rnd.getrandbits

        def bits(k):
            coins[0] -= 1
            return 0 if coins[0] >= 0 else 1
        rnd.getrandbits = bits
        try:
            s = p.SkipList()
            ref = []          # (key, data), equal keys newest first
            for n, op in enumerate([['insert', k, i % 3] for i, k in enumerate(c['init'])] + c['ops']):
                k = op[1]
                keys = [x[0] for x in ref]
                j = bisect.bisect_left(keys, k)
                if op[0] == 'insert':
                    coins[0] = op[2]
                    s.insert(k, n)
                    ref.insert(j, (k, n))
                elif k in keys:
                    x = s.extract(k)
                    eq((x.key, x.data), ref.pop(j), 'extracted node')
                else:
                    must_raise(KeyError, 'extract of absent %d' % k, s.extract, k)
                self.inv(s, ref, 'after %r' % (op,))
        finally:
            rnd.getrandbits = orig

    def inv(self, s, ref, w):
        eq(s.size, len(ref), w + ': size')
        keys = {x[0] for x in ref}
        for k in range(-1, 11):
            eq(s.search(k), k in keys, w + ': search(%d)' % k)
        levels, h = [], s.head
        while h is not None:
            row, x = [], h.next
            while x is not None and x.next is not None:
                row.append(x)
                x = x.next
                check(len(row) < 1000, 'cyclic level')
            levels.append(row)
            h = h.down
        eq(s.levels, len(levels), w + ': number of levels')
        check(len(levels) >= 1, w + ': no level left')
        eq([(x.key, x.data) for x in levels[-1]], ref, w + ': bottom level')
        for up, lo in zip(levels, levels[1:]):
            it = iter([x.key for x in lo])
            check(all(any(k == y for y in it) for k in [x.key for x in up]), w + ': upper level %r is not part of %r' % (
                [x.key for x in up], [x.key for x in lo]))
            for x in up:
                check(x.down is not None and x.down.key == x.key, w + ': down link of %r' % x.key)
        str(s)
