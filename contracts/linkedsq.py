"""Constructors of the linked lists; linked-list stack, queue and priority queue over the contracts of the lists."""
from .common import *
from .linked import L, _LL, LL, REF, LIST_KEYS, KINDS, RA
from . import register

ST = 'miscellaneous_data_structures.stack:LinkedListStack.'
QU = 'miscellaneous_data_structures.queue:LinkedListQueue.'
PQ = 'miscellaneous_data_structures.queue:LinkedListPriorityQueue.'


class _New(_LL):
    def setup(self, x):
        return [x.eng.prog.find_class(self.cls)], {}

    def pre(self, c):
        return []

    def modifies(self, c):
        return []

    def result(self, c):
        def mk(eng, st):
            return eng.new_cell(st, ObjRec(self.cls, {'head': VRef(fresh_const('head', IntS), 'LinkedListNode'), 'tail': VRef(fresh_const('tail', IntS), 'LinkedListNode'),
                                                      'size': fresh_const('size', IntS), '@S': fresh_const('S0', RA), '@Q': fresh_const('Q0', RA)}))
        return mk

    def post(self, c):
        s = c.res
        return [('empty', And(I(s.size) == 0, s.head.t == 0, s.tail.t == 0))]


for short, cls, dbl, circ in KINDS:
    t = type(short + '_new', (_New,), dict(name=LL + ('DoublyLinkedList' if dbl else 'SinglyLinkedList') + '.__new__', cls=cls, key=short + '_new'))
    register(t)
    LIST_KEYS[short].append(short + '_new')


class _Box(Contract):
    """a container whose only state is a singly linked list in field `fld`"""
    fields = _LL.fields
    heap_classes = _LL.heap_classes
    fld = 'stack'
    cls = 'LinkedListStack'
    cs = '@'

    def extra(self, x):
        return {}

    def me(self, x):
        l = x.obj('SinglyLinkedList', head=x.ref('head', 'LinkedListNode'), tail=x.ref('tail', 'LinkedListNode'), size=x.int('size'),
                  **{'@S': z3.Const('S', RA), '@Q': z3.Const('Q', RA)})
        return x.obj(self.cls, **{self.fld: l}, **self.extra(x))

    def lst(self, c, st, h):
        s = getattr(wrap(c.eng, st, c.params['self']), self.fld)
        x = L.__new__(L)
        x.S, x.Q = s.g_S, s.g_Q
        x.size, x.head, x.tail = I(s.size), s.head.t, s.tail.t
        x.nx, x.pv, x.nxt, x.key, x.data = h('next'), None, st.nxt, h('key'), h('data')
        x.v = s.v
        return x

    def lo(self, c):
        return self.lst(c, c.old, c.oheap)

    def ln(self, c):
        return self.lst(c, c.new, c.nheap)

    def setup(self, x):
        return [self.me(x)], {}

    def pre(self, c):
        return self.lo(c).closed(False)

    def modifies(self, c):
        s = self.lo(c).v
        return [('fld', s, 'head', REF), ('fld', s, 'tail', REF), ('fld', s, 'size'), ('fld', s, '@S', 'ghost'), ('fld', s, '@Q', 'ghost'),
                ('heap', 'next'), ('heap', 'prev'), ('heap', 'key'), ('heap', 'data'), ('nxt',)]

    def empty(self, c):
        return self.lo(c).size == 0

    def seq(self, c, cnt, key):
        """the keys in order are key(0) .. key(cnt-1)"""
        n = self.ln(c)
        return [('sequence', And(n.size == cnt, fa('k', lambda k: Implies(rng(0, k, cnt), n.key[n.S[k]] == key(k)), lambda k: n.S[k])))] + n.closed(False)

    def elem(self, c):
        return c.eng.encode(c.old, c.raw('x'), 'elem')

    def okey(self, c):
        o = self.lo(c)
        return lambda k: o.key[o.S[k]]


class _Push(_Box):
    at = 0

    def setup(self, x):
        return [self.me(x), z3.Const('x', E)], {}

    def post(self, c):
        o, t, e = self.lo(c), self.okey(c), self.elem(c)
        if self.at == 0:
            return self.seq(c, o.size + 1, lambda k: If(k == 0, e, t(k - 1)))
        return self.seq(c, o.size + 1, lambda k: If(k == o.size, e, t(k)))


class _Pop(_Box):
    at = 0

    def raises(self, c):
        return {'IndexError': self.empty(c)}

    def result(self, c):
        return REF

    def post(self, c):
        o, t, n = self.lo(c), self.okey(c), self.ln(c)
        p = IntVal(0) if self.at == 0 else o.size - 1
        return [('right-node', And(c.res.t == o.S[p], n.key[c.res.t] == t(p)))] + self.seq(c, o.size - 1, lambda k: t(k + 1) if self.at == 0 else t(k))


class _Peek(_Box):
    at = 0

    def result(self, c):
        return REF

    def modifies(self, c):
        return []

    def post(self, c):
        o = self.lo(c)
        return [('node-or-none', c.res.t == If(o.size == 0, 0, o.S[0 if self.at == 0 else o.size - 1]))]


class _Len(_Box):
    def modifies(self, c):
        return []

    def result(self, c):
        return 'int'

    def post(self, c):
        return [('length', c.res == self.lo(c).size)]


class _Empty(_Len):
    def result(self, c):
        return 'bool'

    def post(self, c):
        return [('empty', c.res == self.empty(c))]


class _QMix:
    fld, cls = 'queue', 'LinkedListQueue'

    def extra(self, x):
        return dict(_double_ended=z3.Bool('double_ended'))


class _DE:
    def raises(self, c):
        d = c.o('self')._double_ended
        r = {'NotImplementedError': Not(d)}
        for k, v in super().raises(c).items():
            r[k] = And(d, v)
        return r


class _BoxNew(_Box):
    def setup(self, x):
        return [x.eng.prog.find_class(self.cls)], {}

    def pre(self, c):
        return []

    def modifies(self, c):
        return []

    def result(self, c):
        def mk(eng, st):
            l = eng.new_cell(st, ObjRec('SinglyLinkedList', {'head': VRef(fresh_const('head', IntS), 'LinkedListNode'), 'tail': VRef(fresh_const('tail', IntS), 'LinkedListNode'),
                                                             'size': fresh_const('size', IntS), '@S': fresh_const('S0', RA), '@Q': fresh_const('Q0', RA)}))
            return eng.new_cell(st, ObjRec(self.cls, {self.fld: l}))
        return mk

    def post(self, c):
        s = getattr(c.res, self.fld)
        return [('empty', And(I(s.size) == 0, s.head.t == 0, s.tail.t == 0))]


def mk(nm, name, *bases, **kw):
    register(type(nm, bases, dict(name=name, key=nm, **kw)))
    SQ_KEYS.append(nm)


SQ_KEYS = []
mk('LStack_new', ST + '__new__', _BoxNew, uses=('SLL_new',))
mk('LStack_push', ST + 'push', _Push, uses=('SLL_appendleft',))
mk('LStack_pop', ST + 'pop', _Pop, uses=('SLL_popleft',))
mk('LStack_peek', ST + 'peek', _Peek)
mk('LStack_len', ST + '__len__', _Len)
mk('LStack_empty', ST + 'is_empty', _Empty)
mk('LQueue_new', QU + '__new__', _QMix, _BoxNew, uses=('SLL_new',))
mk('LQueue_append', QU + 'append', _QMix, _Push, at=1, uses=('SLL_append',))
mk('LQueue_appendleft', QU + 'appendleft', _DE, _QMix, _Push, uses=('SLL_appendleft',))
mk('LQueue_popleft', QU + 'popleft', _QMix, _Pop, uses=('SLL_popleft',))
mk('LQueue_pop', QU + 'pop', _DE, _QMix, _Pop, at=1, uses=('SLL_popright',))
mk('LQueue_front', QU + 'front', _QMix, _Peek)
mk('LQueue_rear', QU + 'rear', _QMix, _Peek, at=1)
mk('LQueue_len', QU + '__len__', _QMix, _Len)
mk('LQueue_empty', QU + 'is_empty', _QMix, _Empty)
