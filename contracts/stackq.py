"""Array-backed stack and queue over the contracts of the dynamic array."""
from .common import *
from .doda import doda, contig, first, _Contig
from . import register

ST = 'miscellaneous_data_structures.stack:ArrayStack.'
QU = 'miscellaneous_data_structures.queue:ArrayQueue.'


def seq_is(n, f, cnt, term):
    """the entries of dynamic array n are first(n)=f .. and element number k (0-based) is term(k)"""
    return And(n._num == cnt, fa('i', lambda i: Implies(rng(f, i, f + cnt), n._data.arr[i] == term(i - f)), lambda i: n._data.arr[i]))


class _Box(Contract):
    cls = None
    uses = ('ODA_getitem', 'DODA_append_c', 'DODA_delete_c')

    def me(self, x):
        return x.obj(self.cls, items=doda(x), **self.extra(x))

    def extra(self, x):
        return {}

    def setup(self, x):
        return [self.me(x)], {}

    def wf(self, s):
        return contig(s.items)

    def pre(self, c):
        return self.wf(c.o('self'))

    def modifies(self, c):
        s = c.o('self').items
        return [('list', s._data.v, 'arr'), ('fld', s.v, '_data', ('list', 'elem')), ('fld', s.v, '_size'), ('fld', s.v, '_last_pos_filled'), ('fld', s.v, '_num')]

    def old_seq(self, c):
        o = c.o('self').items
        a, f = o._data.arr, first(o)
        return o._num, lambda k: a[f + k]

    def new_is(self, c, cnt, term):
        n = c.n('self').items
        return [('sequence', seq_is(n, first(n), cnt, term))] + self.wf(c.n('self'))

    def empty(self, c):
        return c.o('self').items._num == 0


class _Stack(_Box):
    cls = 'ArrayStack'

    def wf(self, s):
        return contig(s.items) + [('starts-at-zero', first(s.items) == 0)]


@register
class AStack_push(_Stack):
    name = ST + 'push'

    def setup(self, x):
        e = z3.Const('x', E)
        x.assume(And(Not(isNone(e)), tyok(e)))
        return [self.me(x), e], {}

    def modifies(self, c):
        return super().modifies(c) + [('fld', c.o('self').items.v, '_dtype', 'opaque')]

    def post(self, c):
        cnt, t = self.old_seq(c)
        e = c.eng.encode(c.old, c.raw('x'), 'elem')
        return self.new_is(c, cnt + 1, lambda k: If(k == cnt, e, t(k)))


@register
class AStack_pop(_Stack):
    name = ST + 'pop'

    def raises(self, c):
        return {'IndexError': self.empty(c)}

    def result(self, c):
        return 'elem'

    def post(self, c):
        cnt, t = self.old_seq(c)
        return [('last-in-first-out', c.res == t(cnt - 1))] + self.new_is(c, cnt - 1, t)


@register
class AStack_peek(_Stack):
    name = ST + 'peek'

    def raises(self, c):
        return {'IndexError': self.empty(c)}

    def result(self, c):
        return 'elem'

    def modifies(self, c):
        return []

    def post(self, c):
        cnt, t = self.old_seq(c)
        return [('top', c.res == t(cnt - 1))]


@register
class AStack_len(_Stack):
    name = ST + '__len__'

    def result(self, c):
        return 'int'

    def modifies(self, c):
        return []

    def post(self, c):
        return [('length', c.res == self.old_seq(c)[0])]


@register
class AStack_empty(_Stack):
    name = ST + 'is_empty'

    def result(self, c):
        return 'bool'

    def modifies(self, c):
        return []

    def post(self, c):
        return [('empty', c.res == self.empty(c))]


class _Queue(_Box):
    cls = 'ArrayQueue'

    def extra(self, x):
        return dict(_front=x.int('front'), _rear=x.int('rear'), _double_ended=z3.Bool('double_ended'))

    def wf(self, s):
        it = s.items
        return contig(it) + [('ends', If(it._num == 0, And(s._front == -1, s._rear == -1), And(s._front == first(it), s._rear == it._last_pos_filled)))]

    def modifies(self, c):
        s = c.o('self').v
        return super().modifies(c) + [('fld', s, '_front'), ('fld', s, '_rear')]

    de = False

    def dbl(self, c, d):
        if not self.de:
            return d
        r = {'NotImplementedError': Not(c.o('self')._double_ended)}
        r.update({k: And(c.o('self')._double_ended, v) for k, v in d.items()})
        return r


@register
class AQueue_append(_Queue):
    name = QU + 'append'

    def setup(self, x):
        e = z3.Const('x', E)
        x.assume(And(Not(isNone(e)), tyok(e)))
        return [self.me(x), e], {}

    def modifies(self, c):
        return super().modifies(c) + [('fld', c.o('self').items.v, '_dtype', 'opaque')]

    def post(self, c):
        cnt, t = self.old_seq(c)
        e = c.eng.encode(c.old, c.raw('x'), 'elem')
        return self.new_is(c, cnt + 1, lambda k: If(k == cnt, e, t(k)))


@register
class AQueue_popleft(_Queue):
    name = QU + 'popleft'

    def raises(self, c):
        return self.dbl(c, {'IndexError': self.empty(c)})

    def result(self, c):
        return 'elem'

    def post(self, c):
        cnt, t = self.old_seq(c)
        return [('first-in-first-out', c.res == t(0))] + self.new_is(c, cnt - 1, lambda k: t(k + 1))


@register
class AQueue_pop(AQueue_popleft):
    name = QU + 'pop'
    de = True

    def post(self, c):
        cnt, t = self.old_seq(c)
        return [('last', c.res == t(cnt - 1))] + self.new_is(c, cnt - 1, t)


@register
class AQueue_appendleft(_Queue):
    name = QU + 'appendleft'
    de = True
    uses = ('DODA_new',)
    loops = {1: LoopSpec(inv=lambda v: [('length', v.temp.len == 1 + v.i - v.self._front), ('first', v.temp[0] == v.eng.encode(v.st, v.raw('x'), 'elem')),
                                        ('copied', fa('k', lambda k: Implies(rng(1, k, v.temp.len), v.temp.arr[k] == v.self.items._data.arr[k - 1 + v.self._front]), lambda k: v.temp.arr[k]))],
                         kinds={'temp': ('list', 'elem')})}

    def setup(self, x):
        e = z3.Const('x', E)
        x.assume(And(Not(isNone(e)), tyok(e)))
        return [self.me(x), e], {}

    def raises(self, c):
        return self.dbl(c, {})

    def modifies(self, c):
        s = c.o('self').v
        return super().modifies(c) + [('fld', c.o('self').items.v, '_dtype', 'opaque'), ('fld', s, 'items', 'obj')]

    def post(self, c):
        cnt, t = self.old_seq(c)
        e = c.eng.encode(c.old, c.raw('x'), 'elem')
        return self.new_is(c, cnt + 1, lambda k: If(k == 0, e, t(k - 1)))


@register
class AQueue_len(_Queue):
    name = QU + '__len__'
    result = AStack_len.result
    post = AStack_len.post

    def modifies(self, c):
        return []


@register
class AQueue_empty(AQueue_len):
    name = QU + 'is_empty'
    result = AStack_empty.result
    post = AStack_empty.post
