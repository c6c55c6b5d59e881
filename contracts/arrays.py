from .common import *
from . import register

ARR = 'linear_data_structures.arrays:'


def oda(x, name='a0', cls='OneDimensionalArray', n=None, kind='elem', **extra):
    n = z3.Int(name + '_n') if n is None else n
    x.assume(n >= 0)
    data = x.list(name, kind, n)
    return x.obj(cls, _size=n, _data=data, _dtype=VOpaque('dtype'), **extra)


class _ODA(Contract):
    variants = ('oda', 'doda')

    def setup_self(self, x):
        if x.variant == 'doda':
            lf = z3.Real('load_factor')
            s = oda(x, 'd', 'DynamicOneDimensionalArray', _load_factor=lf, _num=x.int('num'), _last_pos_filled=x.int('last'))
            return s
        return oda(x, 'd')


@register
class ODA_getitem(_ODA):
    name = ARR + 'OneDimensionalArray.__getitem__'

    def setup(self, x):
        return [self.setup_self(x), x.int('i')], {}

    def pre(self, c):
        s = c.o('self')
        return [('wf', s._size == s._data.len)]

    def raises(self, c):
        s = c.o('self')
        return {'IndexError': Or(c.o('i') < 0, c.o('i') >= s._size)}

    def result(self, c):
        return 'elem'

    def post(self, c):
        return [('value', c.res == c.o('self')._data[c.o('i')])]


@register
class ODA_getitem_in(ODA_getitem):
    """the same contract restricted to in-range calls (no exceptional branch at call sites)"""
    def pre(self, c):
        s = c.o('self')
        return [('wf', s._size == s._data.len), ('index-in-range', And(0 <= I(c.o('i')), c.o('i') < s._size))]

    def raises(self, c):
        return {}


@register
class ODA_len(_ODA):
    name = ARR + 'OneDimensionalArray.__len__'

    def setup(self, x):
        return [self.setup_self(x)], {}

    def result(self, c):
        return 'int'

    def post(self, c):
        return [('size', c.res == c.o('self')._size)]

    def apply(self, eng, st, args, kw, node):
        eng.used_contracts.add(self.name)
        return [(st, st.store[args[0].id].f['_size'])]


@register
class ODA_setitem(_ODA):
    name = ARR + 'OneDimensionalArray.__setitem__'

    def setup(self, x):
        return [self.setup_self(x), x.int('i'), z3.Const('v', E)], {}

    def pre(self, c):
        s = c.o('self')
        i = I(c.o('idx'))
        return [('wf', s._size == s._data.len), ('index-in-range', And(0 <= i, i < s._size))]

    def modifies(self, c):
        return [('list', c.o('self')._data.v, 'arr')]

    def post(self, c):
        e = c.o('elem')
        stored = If(isNone(e), none0, If(tyok(e), e, conv(e)))
        old = c.o('self')._data.arr
        i = I(c.o('idx'))
        new = c.n('self')._data.arr
        return [('elem', If(isNone(e), And(isNone(new[i])), new[i] == stored)),
                ('others', fa('k', lambda k: Implies(And(rng(0, k, c.o('self')._size), k != i), new[k] == old[k]), lambda k: new[k]))]

    def opaque_call_hook(self, eng, st, f, args, kw, node):
        if f.name == 'dtype':
            return [(st, conv(eng.encode(st, args[0], 'elem')))]


@register
class ODA_setitem_x(ODA_setitem):
    """the same with the exceptional outcome"""
    implicit = {'index': 'IndexError'}

    def pre(self, c):
        return [('wf', c.o('self')._size == c.o('self')._data.len), ('index-not-negative', I(c.o('idx')) >= 0)]

    def raises(self, c):
        return {'IndexError': I(c.o('idx')) >= c.o('self')._size}


@register
class ODA_fill(_ODA):
    name = ARR + 'OneDimensionalArray.fill'
    opaque_call_hook = ODA_setitem.opaque_call_hook

    def setup(self, x):
        return [self.setup_self(x), z3.Const('v', E)], {}

    def pre(self, c):
        return [('wf', c.o('self')._size == c.o('self')._data.len)]

    def modifies(self, c):
        return [('list', c.o('self')._data.v, 'arr')]

    def post(self, c):
        s = c.n('self')
        return [('filled', fa('k', lambda k: Implies(rng(0, k, s._size), s._data.arr[k] == conv(c.o('elem'))), lambda k: s._data.arr[k]))]

    loops = {1: LoopSpec(inv=lambda v: [('filled', fa('k', lambda k: Implies(rng(0, k, v.i), v.self._data.arr[k] == v.elem), lambda k: v.self._data.arr[k]))])}


@register
class ODA_setitem_t(ODA_setitem):
    """client view: the stored value is already of the array's dtype (or None), so no conversion happens.
    Functional form: the new contents are Store(old, i, v)."""
    verify_self = True

    def pre(self, c):
        e = c.o('elem')
        p = super().pre(c)
        if e is None or isinstance(e, P):
            return p
        return p

    def post(self, c):
        e = c.raw('elem')
        e = c.eng.encode(c.new, e, 'elem')
        old = c.o('self')._data.arr
        i = I(c.o('idx'))
        new = c.n('self')._data.arr
        return [('store', fa('k', lambda k: Implies(rng(0, k, c.o('self')._size), new[k] == Store(old, i, e)[k]), lambda k: new[k]))]

    def setup(self, x):
        a, k = super().setup(x)
        v = z3.Const('v', E)
        x.assume(Implies(isNone(v), v == none0) if False else Or(isNone(v), tyok(v)))
        x.assume(Implies(isNone(v), v == none0))
        return a, k

    def apply(self, eng, st, args, kw, node):
        from pyvc.spec import CallView
        f = eng.prog.func(self.name)
        params = eng.bind_args(st, f, args, kw, node)
        c = CallView(eng, params, st, st)
        for n, g in self.pre(c):
            eng.oblige('pre:__setitem__:%s' % n, st, B(g), getattr(node, 'lineno', 0))
            st.assume(B(g))
        eng.unit.trust('values written into an array are None or instances of its dtype (they come from the same array or are int)')
        d = st.store[params['self'].id].f['_data']
        r = eng.as_arr(st, eng.rec(st, d), 'elem')
        e = eng.encode(st, params['elem'], 'elem')
        eng.set_rec(st, d, ArrRec(r.len, Store(r.arr, I(c.o('idx')), e), 'elem'))
        return [(st, None)]


@register
class ODA_fill_t(ODA_fill):
    """client view: filling with a value that already is of the array's dtype"""
    def setup(self, x):
        a, k = super().setup(x)
        x.assume(conv(a[1]) == a[1])
        return a, k

    def pre(self, c):
        if not isinstance(c.eng.unit.k, ODA_fill):
            c.eng.unit.trust('int(n) == n for an int n')
        return super().pre(c)

    def post(self, c):
        s = c.n('self')
        e = c.eng.encode(c.old, c.raw('elem'), 'elem')
        return [('filled', fa('k', lambda k: Implies(rng(0, k, s._size), s._data.arr[k] == e), lambda k: s._data.arr[k]))]
