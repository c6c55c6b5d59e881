"""d-ary heaps and priority queues against a list."""
from .h import *


class HeapBase(Hist):
    files = ['trees/heaps.py', 'linear_data_structures/arrays.py']
    maxlen = 4
    mx = 30
    inits = ([0, 2, []], [1, 2, []], [0, 2, [3, 1, 2]], [0, 3, [5, 4, 3, 2, 1]], [1, 3, [1, 2, 3, 4, 5]], [0, 4, [9, 8, 7, 6, 5, 4, 3, 2, 1]], [1, 5, [2, 2, 1]], [0, 1, [3, 2, 1]])

    def alphabet(self):
        for k in (1, 2, 3):
            yield ['insert', k]
        yield ['extract']

    def init(self, r):
        return [r.randrange(2), r.choice([1, 2, 2, 3, 3, 4, 4, 5, 7]), r.ints(r.size(25), -9, 9)]

    def op(self, r, c):
        ph = len(c['ops']) // 7 % 2
        return ['insert', r.randint(-9, 15)] if r.chance(.65 if ph else .3) else ['extract']

    def run(self, c):
        import pydatastructs as p
        mx, d, elems = c['init']
        hp = 'max' if mx else 'min'
        nodes = [p.utils.TreeNode(k, 1000 + i) for i, k in enumerate(elems)]
        arg = nodes if elems else None
        if d == 2:
            h = p.BinaryHeap(arg, hp)
        elif d == 3:
            h = p.TernaryHeap(arg, hp)
        else:
            h = p.DHeap(arg, hp, d)
        ref = [(k, 1000 + i) for i, k in enumerate(elems)]
        self.inv(h, ref, mx, d, 'after construction')
        for n, op in enumerate(c['ops']):
            if op[0] == 'insert':
                h.insert(op[1], n)
                ref.append((op[1], n))
            elif not ref:
                must_raise(IndexError, 'extract from an empty heap', h.extract)
            else:
                x = h.extract()
                best = (max if mx else min)(k for k, _ in ref)
                eq(x.key, best, 'extracted key')
                check((x.key, x.data) in ref, 'extracted %r which is not in the heap' % ((x.key, x.data),))
                ref.remove((x.key, x.data))
            self.inv(h, ref, mx, d, 'after %r' % (op,))

    def inv(self, h, ref, mx, d, w):
        n = len(ref)
        eq(h.is_empty, n == 0, w + ': emptiness')
        live = [h.heap[i] for i in range(len(h.heap)) if h.heap[i] is not None]
        eq(sorted((x.key, x.data) for x in live), sorted(ref), w + ': contents')
        for i in range(n):
            check(h.heap[i] is not None, w + ': hole at %d' % i)
            if i:
                a, b = h.heap[(i - 1) // d].key, h.heap[i].key
                check(a >= b if mx else a <= b, w + ': parent key %r above child key %r' % (a, b))
        want = []
        for i in range(n):
            want.append((h.heap[i].key, h.heap[i].data, list(range(d * i + 1, min(d * i + d + 1, n)))))
        eq(str(h), str(want), w + ': string form')


@target
class DHeap(HeapBase):
    covers = ('DHeap.insert', 'DHeap.extract', 'DHeap._build', 'DHeap._heapify')


class PQBase(Hist):
    files = ['miscellaneous_data_structures/queue.py', 'trees/heaps.py', 'linear_data_structures']
    impl = 'linked_list'
    maxlen = 5
    inits = (0,)
    mx = 30

    def alphabet(self):
        for k in (1, 2, 3):
            yield ['push', k]
        yield ['pop']

    def init(self, r):
        return 0 if self.impl == 'binomial_heap' else r.randrange(2)

    def op(self, r, c):
        ph = len(c['ops']) // 7 % 2
        return ['push', r.randint(0, 9)] if r.chance(.65 if ph else .4) else ['pop']

    def run(self, c):
        import pydatastructs as p
        kw = {'comp': lambda u, v: u > v} if c['init'] else {}
        q = p.PriorityQueue(implementation=self.impl, **kw)
        ref = []
        best = (max if c['init'] else min)
        for n, op in enumerate(c['ops'] + [['pop']] * (len(c['ops']) + 1)):
            if op[0] == 'push':
                q.push('v%d' % n, op[1])
                ref.append((op[1], 'v%d' % n))
            elif not ref:
                must_raise(IndexError, 'pop of an empty priority queue', q.pop)
            else:
                pk = q.peek
                b = best(k for k, _ in ref)
                check((pk.key, pk.data) in ref and pk.key == b, 'peek %r with contents %r' % ((pk.key, pk.data), ref))
                v = q.pop()
                hit = [x for x in ref if x[1] == v]
                check(hit and hit[0][0] == b, 'pop returned %r with contents %r' % (v, ref))
                ref.remove(hit[0])
            eq(q.is_empty, not ref, 'emptiness after %r' % (op,))


for k in ('linked_list', 'binary_heap', 'binomial_heap'):
    target(type('PQ_' + k, (PQBase,), {'__module__': __name__, 'impl': k, 'covers': ('PriorityQueue(%s)' % k,)}))
