"""Stacks and queues seen through their sequence: at call sites of other modules the operations of the library's stack and
queue classes act on one list of items.  This is the semantics proved for the implementations under C09 (contracts
AStack_*, LStack_*, AQueue_*, LQueue_*); nodes and arrays of the containers are private to them."""
from .common import *
from pyvc.builtins_ import list_append, list_method
from . import register

TEXT = 'stack and queue operations are used through their sequence semantics (proved under C09); their nodes and arrays are private'


class _Abs(Contract):
    verify_self = False

    def seq(self, eng, st, args):
        return st.store[args[0].id].f['%seq']

    def wrapped(self, eng, st, v):
        return eng.new_cell(st, ObjRec('LinkedListNode', {'key': v})) if self.linked else v

    def apply(self, eng, st, args, kw, node):
        eng.unit.trust(TEXT)
        return self.run(eng, st, args, kw, node)


class _New(_Abs):
    def run(self, eng, st, args, kw, node):
        impl = args[1] if len(args) > 1 else kw.get('implementation', 'array')
        if impl not in ('array', 'linked_list'):
            raise Unsupported('implementation %r' % (impl,))
        cls = ('Array' if impl == 'array' else 'LinkedList') + self.what
        q = eng.new_cell(st, ConcList([]))
        return [(st, eng.new_cell(st, ObjRec(cls, {'%seq': q})))]


class _Push(_Abs):
    left = False

    def run(self, eng, st, args, kw, node):
        if isinstance(args[1], VOpt) and not eng.feasible(st, args[1].isn):
            args = [args[0], args[1].val]
        if self.left:
            return list_method(eng, st, 'insert', self.seq(eng, st, args), eng.rec(st, self.seq(eng, st, args)), [0, args[1]], {}, node)
        list_append(eng, st, self.seq(eng, st, args), args[1], node)
        return [(st, None)]


class _Pop(_Abs):
    front = False

    def run(self, eng, st, args, kw, node):
        q = self.seq(eng, st, args)
        r = list_method(eng, st, 'popleft' if self.front else 'pop', q, eng.rec(st, q), [], {}, node)
        return [(s, self.wrapped(eng, s, v)) for s, v in r]


class _Peek(_Abs):
    front = False

    def run(self, eng, st, args, kw, node):
        q = self.seq(eng, st, args)
        r = eng.rec(st, q)
        n = len(r.items) if isinstance(r, ConcList) else r.len
        eng.safe('peek-empty', st, I(n) > 0, node)
        i = 0 if self.front else (n - 1)
        return [(s, self.wrapped(eng, s, v)) for s, v in eng.get_item(st, q, i, node)]


class _Len(_Abs):
    def run(self, eng, st, args, kw, node):
        r = eng.rec(st, self.seq(eng, st, args))
        n = len(r.items) if isinstance(r, ConcList) else r.len
        return [(st, self.of(n))]

    def of(self, n):
        return n


class _Empty(_Len):
    def of(self, n):
        return n == 0


ABS = []


def mk(key, name, *bases, **kw):
    register(type(key, bases, dict(name=name, key=key, **kw)))
    ABS.append(key)


S, Q = 'miscellaneous_data_structures.stack:', 'miscellaneous_data_structures.queue:'
mk('Abs_Stack', S + 'Stack.__new__', _New, what='Stack')
mk('Abs_Queue', Q + 'Queue.__new__', _New, what='Queue')
for cls, linked in (('ArrayStack', False), ('LinkedListStack', True)):
    mk('Abs_%s_push' % cls, S + cls + '.push', _Push)
    mk('Abs_%s_pop' % cls, S + cls + '.pop', _Pop, linked=linked)
    mk('Abs_%s_peek' % cls, S + cls + '.peek', _Peek, linked=linked)
    mk('Abs_%s_len' % cls, S + cls + '.__len__', _Len)
    mk('Abs_%s_empty' % cls, S + cls + '.is_empty', _Empty)
for cls, linked in (('ArrayQueue', False), ('LinkedListQueue', True)):
    mk('Abs_%s_append' % cls, Q + cls + '.append', _Push)
    mk('Abs_%s_popleft' % cls, Q + cls + '.popleft', _Pop, front=True, linked=linked)
    mk('Abs_%s_len' % cls, Q + cls + '.__len__', _Len)
    mk('Abs_%s_empty' % cls, Q + cls + '.is_empty', _Empty)
