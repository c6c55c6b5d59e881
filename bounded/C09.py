"""Stacks, queues and deques against a Python list."""
from .h import *


class Base(Hist):
    files = ['miscellaneous_data_structures', 'linear_data_structures/arrays.py']
    impl = 'array'
    mx = 40

    def init(self, r):
        return None if r.chance(.4) else [r.randint(1, 99) for _ in range(r.randint(1, 12))]

    def val(self, k, ref):
        """the next element: its type is chosen anew whenever the container is empty"""
        x = 100 + k
        if not ref:
            self.typ = str if k % 2 == 0 and self.impl == 'array' else int
        return self.typ(x)

    typ = int

    def key(self, x):
        return x if self.impl == 'array' else (None if x is None else x.key)

    def op(self, r, c):
        ph = len(c['ops']) // 8 % 2
        return [r.choice((self.adds * (3 if ph else 1) + self.rems * (1 if ph else 2)))]

    def alphabet(self):
        return [[x] for x in self.adds + self.rems]


class StackBase(Base):
    adds, rems = ('push',), ('pop',)
    maxlen = 8
    inits = (None, [1], [1, 2, 3], [5, 4])

    def run(self, c):
        import pydatastructs as p
        s = p.Stack(implementation=self.impl, items=None if c['init'] is None else list(c['init']))
        ref = list(c['init'] or [])
        self.typ = int
        for k, op in enumerate([['']] + c['ops']):
            if op[0] == 'push':
                x = self.val(k, ref)
                s.push(x)
                ref.append(x)
            elif op[0] == 'pop':
                if ref:
                    eq(self.key(s.pop()), ref.pop(), 'popped element')
                else:
                    must_raise(IndexError, 'pop of an empty stack', s.pop)
            eq(len(s), len(ref), 'length after %r' % (op,))
            eq(s.is_empty, not ref, 'emptiness after %r' % (op,))
            if ref:
                eq(self.key(s.peek), ref[-1], 'peek after %r' % (op,))
        got = []
        while not s.is_empty:
            got.append(self.key(s.pop()))
        eq(got, ref[::-1], 'remaining elements popped')


@target
class ArrayStack(StackBase):
    covers = ('ArrayStack.push', 'ArrayStack.pop', 'peek', '__len__', 'is_empty')


@target
class LinkedListStack(StackBase):
    impl = 'linked_list'
    covers = ('LinkedListStack.push', 'LinkedListStack.pop')


class QueueBase(Base):
    dbl = False
    adds, rems = ('append',), ('popleft',)
    maxlen = 8
    inits = (None, [1], [1, 2, 3], [5, 4, 3, 2, 1])

    def run(self, c):
        import pydatastructs as p
        kw = {} if c['init'] is None else {'items': list(c['init'])}
        q = p.Queue(implementation=self.impl, double_ended=self.dbl, **kw)
        ref = list(c['init'] or [])
        self.typ = int
        for k, op in enumerate([['']] + c['ops']):
            o = op[0]
            if o == 'append':
                x = self.val(k, ref)
                q.append(x)
                ref.append(x)
            elif o == 'appendleft':
                x = self.val(k, ref)
                q.appendleft(x)
                ref.insert(0, x)
            elif o in ('popleft', 'pop'):
                if ref:
                    eq(self.key(getattr(q, o)()), ref.pop(0 if o == 'popleft' else -1), 'element returned by ' + o)
                else:
                    must_raise(IndexError, o + ' of an empty queue', getattr(q, o))
            eq(len(q), len(ref), 'length after %r' % (op,))
            eq(q.is_empty, not ref, 'emptiness after %r' % (op,))
            if self.impl == 'array':
                if ref:
                    eq((q.items[q.front], q.items[q.rear]), (ref[0], ref[-1]), 'front and rear after %r' % (op,))
                eq(str(q), str(ref) if ref else str(q), 'string form after %r' % (op,))
            else:
                eq((self.key(q.front), self.key(q.rear)), (ref[0], ref[-1]) if ref else (None, None), 'front and rear after %r' % (op,))
        if not self.dbl:
            must_raise(NotImplementedError, 'appendleft on a plain queue', q.appendleft, 1)
            must_raise(NotImplementedError, 'pop on a plain queue', q.pop)
        got = []
        while not q.is_empty:
            got.append(self.key(q.popleft()))
        eq(got, ref, 'remaining elements')


@target
class ArrayQueue(QueueBase):
    covers = ('ArrayQueue.append', 'ArrayQueue.popleft')


@target
class LinkedListQueue(QueueBase):
    impl = 'linked_list'
    covers = ('LinkedListQueue.append', 'LinkedListQueue.popleft')


@target
class ArrayDeque(QueueBase):
    dbl = True
    adds, rems = ('append', 'appendleft'), ('popleft', 'pop')
    maxlen = 5
    covers = ('ArrayQueue.appendleft', 'ArrayQueue.pop')


@target
class LinkedListDeque(QueueBase):
    impl = 'linked_list'
    dbl = True
    adds, rems = ('append', 'appendleft'), ('popleft', 'pop')
    maxlen = 5
    covers = ('LinkedListQueue.appendleft', 'LinkedListQueue.pop')
