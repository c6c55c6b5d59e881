"""Linked lists of all four kinds against a Python list, with a full walk of the links after every step."""
from .h import *


class Base(Hist):
    files = ['linear_data_structures/linked_lists.py']
    kind = 'SinglyLinkedList'
    maxlen = 3
    mx = 20
    inits = (0, 1, 2, 4)

    @property
    def circ(self):
        return 'Circular' in self.kind

    @property
    def dbl(self):
        return 'Doubly' in self.kind

    def alphabet(self):
        yield ['append']
        yield ['appendleft']
        yield ['popleft']
        yield ['popright']
        for i in (-2, 1, -1, -5, 2, 5):
            yield ['insert_at', i]
        for i in (1, -2, -6, 3, 2):
            yield ['extract', i]
        yield ['insert_after', 0]
        yield ['insert_after', -1]
        if self.dbl:
            yield ['insert_before', 0]
            yield ['insert_before', -1]

    def init(self, r):
        return r.size(6)

    def op(self, r, c):
        return r.choice([['append'], ['appendleft'], ['popleft'], ['popright'], ['insert_at', r.randint(-7, 8)], ['extract', r.randint(-7, 7)],
                         ['insert_at', r.randint(0, 3)], ['insert_after', r.randint(0, 9)]] +
                        ([['insert_before', r.randint(0, 9)]] if self.dbl else []))

    def run(self, c):
        import pydatastructs as p
        l = getattr(p, self.kind)()
        ref = []
        ops = [['append'] for _ in range(c['init'])] + c['ops']
        self.inv(l, ref, 'new list')
        for k, op in enumerate(ops):
            o, n = op[0], len(ref)
            key, dat = k + 10, -k
            if o == 'append':
                l.append(key, dat)
                ref.append((key, dat))
            elif o == 'appendleft':
                l.appendleft(key, dat)
                ref.insert(0, (key, dat))
            elif o in ('popleft', 'popright', 'extract'):
                i = {'popleft': 0, 'popright': -1}.get(o) if o != 'extract' else op[1]
                f = getattr(l, o)
                args = () if o != 'extract' else (i,)
                if not n:
                    must_raise(ValueError, o + ' of an empty list', f, *args)
                elif not -n <= i < n:
                    must_raise(IndexError, '%s of index %d, length %d' % (o, i, n), f, *args)
                else:
                    x = f(*args)
                    eq((x.key, x.data), ref.pop(i), 'node returned by %s' % (op,))
            elif o == 'insert_at':
                i = op[1]
                if n == 0 and i == -1:
                    i = 0
                if not -n <= i <= n:
                    must_raise(IndexError, 'insert_at(%d), length %d' % (op[1], n), l.insert_at, op[1], key, dat)
                else:
                    l.insert_at(op[1], key, dat)
                    ref.insert(i, (key, dat))
            else:
                if not n:
                    continue
                i = op[1] % n
                getattr(l, o)(l[i], key, dat)
                ref.insert(i + (1 if o == 'insert_after' else 0), (key, dat))
            self.inv(l, ref, 'after %r' % (op,))

    def inv(self, l, ref, w):
        n = len(ref)
        eq((len(l), l.size, l.is_empty), (n, n, n == 0), w + ': length')
        if not n:
            check(l.head is None and l.tail is None, w + ': head and tail of the empty list')
        nodes, x = [], l.head
        while x is not None and len(nodes) <= n:
            nodes.append(x)
            x = x.next
            if x is l.head and self.circ:
                break
        eq([(x.key, x.data) for x in nodes], ref, w + ': forward order')
        if n:
            check(l.head is nodes[0] and l.tail is nodes[-1], w + ': head or tail is not the real end (tail key %r)' % (getattr(l.tail, 'key', None),))
            check(nodes[-1].next is (nodes[0] if self.circ else None), w + ': link behind the last node')
            if self.dbl:
                for i, x in enumerate(nodes):
                    want = nodes[i - 1] if i or self.circ else None
                    check(x.prev is want, w + ': backward link of position %d leads to %r' % (i, getattr(x.prev, 'key', None)))
            for i in range(-n, n):
                check(l[i] is nodes[i], w + ': indexing %d' % i)
            check(l.search(ref[n // 2][0]) is nodes[n // 2], w + ': search of a present key')
        eq(l.search(-1), None, w + ': search of an absent key')
        eq(str(l), str([str(x) for x in ref]), w + ': string form')
        must_raise(IndexError, w + ': indexing %d' % n, l.__getitem__, n)
        must_raise(IndexError, w + ': indexing %d' % (-n - 1), l.__getitem__, -n - 1)


for k in ('SinglyLinkedList', 'DoublyLinkedList', 'SinglyCircularLinkedList', 'DoublyCircularLinkedList'):
    target(type(k, (Base,), {'__module__': __name__, 'kind': k, 'covers': (k,), 'case_s': 4}))
