"""Dynamic arrays.  Ghost state: C, the number of live entries in front of every position, and L, the sequence of live
elements; the operations change L by appending or removing one element, and resizing does not change it."""
from .common import *
from .arrays import oda, ARR
from . import register

CA = z3.ArraySort(IntS, IntS)
EA = z3.ArraySort(IntS, E)
DODA = ARR + 'DynamicOneDimensionalArray.'


def live(a, i):
    return Not(isNone(a[i]))


def wf(a, ln, size, last, num, C, L, upto_last=True):
    """representation invariant: list [(name, formula)]"""
    out = [('size', And(size == ln, size >= 0)),
           ('counts', And(C[0] == 0, fa('i', lambda i: Implies(rng(0, i, size), C[i + 1] == C[i] + If(isNone(a[i]), 0, 1)), lambda i: C[i], lambda i: a[i]))),
           ('counts-monotone', fa('i j', lambda i, j: Implies(And(0 <= i, i <= j, j <= size), C[i] <= C[j]), lambda i, j: (C[i], C[j]))),
           ('num-is-live-count', And(num == C[size], num >= 0)),
           ('live-sequence', fa('i', lambda i: Implies(And(rng(0, i, size), live(a, i)), a[i] == L[C[i]]), lambda i: a[i]))]
    if upto_last:
        out += [('all-live-up-to-last', fa('i', lambda i: Implies(And(last < i, i <= size), C[i] == num), lambda i: C[i])),
                ('last-in-range', And(-1 <= last, last < size)),
                ('nothing-beyond-last', fa('i', lambda i: Implies(And(last < i, i < size), isNone(a[i])), lambda i: a[i]))]
    return out


def doda(x, name='d', wf_=True, n=None, kind='elem', **over):
    """symbolic dynamic array with ghosts x['C'], x['L']"""
    n = z3.Int(name + '_n') if n is None else n
    x.assume(n >= 0)
    data = x.list(name, kind, n)
    f = dict(_size=n, _data=data, _dtype=VOpaque('dtype'), _load_factor=z3.Real('load_factor'), _num=z3.Int(name + '_num'), _last_pos_filled=z3.Int(name + '_last'))
    f.update(over)
    return x.obj('DynamicOneDimensionalArray', **f)


class _DODA(Contract):
    uses = ('ODA_getitem_in', 'ODA_setitem_t')

    def me(self, x):
        x['C'], x['L'] = z3.Const('C0', CA), z3.Const('L0', EA)
        return doda(x)

    def wf_of(self, s, C, L, full=True):
        return wf(s._data.arr, s._data.len, s._size, s._last_pos_filled, s._num, C, L, full)

    def ghosts(self, c):
        """ghost state of the array before this call (inside another operation: the one it announces for its call)"""
        if c.eng.unit.k is not self and 'callC' in c.cx.sym:
            return c.cx['callC'], c.cx['callL']
        return c.cx['C'], c.cx['L']

    def announce(self, x, C, L):
        x['callC'], x['callL'] = x.define('callC', C), x.define('callL', L)

    def modifies(self, c):
        s = c.raw('self')
        return [('list', c.o('self')._data.v, 'arr'), ('fld', s, '_data', ('list', 'elem')), ('fld', s, '_size'), ('fld', s, '_last_pos_filled'), ('fld', s, '_num')]


@register
class DODA_modify(_DODA):
    name = DODA + '_modify'
    variants = ('plain', 'force')

    def setup(self, x):
        return [self.me(x)] + ([True] if x.variant == 'force' else []), {}

    def pre(self, c):
        C, L = self.ghosts(c)
        return self.wf_of(c.o('self'), C, L, c.raw('force') is False)

    def modifies(self, c):
        s = c.raw('self')
        return [('fld', s, '_data', ('list', 'elem')), ('fld', s, '_size'), ('fld', s, '_last_pos_filled')]

    def post(self, c):
        C, L = self.ghosts(c)
        o, n = c.o('self'), c.n('self')
        shrink = And(o._size > 0, z3.ToReal(I(o._num)) < o._load_factor * z3.ToReal(I(o._size)))
        C2 = c.ghost('C', lambda i: If(shrink, If(i <= o._num, i, o._num), C[i]))
        same = fa('i', lambda i: Implies(rng(0, i, o._size), n._data.arr[i] == o._data.arr[i]), lambda i: n._data.arr[i])
        return ([('only-shrinks-below-load-factor', If(shrink, n._size == 2 * o._num + 1, And(n._size == o._size, same)))]
                + [('live-elements-kept', fa('k', lambda k: Implies(And(shrink, rng(0, k, o._num)), And(n._data.arr[k] == L[k], live(n._data.arr, k))), lambda k: n._data.arr[k]))]
                + self.wf_of(n, C2, L))

    def lemmas_post(self, c):
        return []

    SCAN = LoopSpec(inv=lambda v: [('none-live-beyond', fa('k', lambda k: Implies(And(v.i < k, k <= v.self._size), v.c['C'][k] == v.self._num), lambda k: v.c['C'][k])),
                                   ('range', And(-1 <= v.i, v.i < v.self._size)),
                                   ('nothing-beyond', fa('k', lambda k: Implies(And(v.i < k, k < v.self._size), isNone(v.self._data.arr[k])), lambda k: v.self._data.arr[k]))],
                    variant=lambda v: v.i + 1)
    COPY = LoopSpec(inv=lambda v: [('position', v.j == v.c['C'][v.i]),
                                   ('compacted', fa('k', lambda k: Implies(rng(0, k, v.j), And(v.arr_new._data.arr[k] == v.c['L'][k], live(v.arr_new._data.arr, k))), lambda k: v.arr_new._data.arr[k])),
                                   ('rest-empty', fa('k', lambda k: Implies(And(v.j <= k, k < 2 * v.self._num + 1), isNone(v.arr_new._data.arr[k])), lambda k: v.arr_new._data.arr[k]))])

    def loops(self, u):
        return {1: self.SCAN, 2: self.COPY} if u.variant == 'force' else {1: self.COPY}


GROW = LoopSpec(inv=lambda v: [('copied', fa('k', lambda k: Implies(rng(0, k, v.i), v.arr_new._data.arr[k] == v.self._data.arr[k]), lambda k: v.arr_new._data.arr[k])),
                                        ('rest-empty', fa('k', lambda k: Implies(And(v.i <= k, k < 2 * v.self._size + 1), isNone(v.arr_new._data.arr[k])), lambda k: v.arr_new._data.arr[k]))])


@register
class DODA_append(_DODA):
    name = DODA + 'append'
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'DODA_modify')

    def setup(self, x):
        e = z3.Const('el', E)
        x.assume(And(Not(isNone(e)), tyok(e)))
        d = self.me(x)
        s, C, L = x.P(d), x['C'], x['L']
        at = s._last_pos_filled + 1
        self.announce(x, lambda i: If(i <= at, C[i], s._num + 1), Store(L, s._num, e))
        return [d, e], {}

    def pre(self, c):
        C, L = self.ghosts(c)
        return self.wf_of(c.o('self'), C, L)

    def post(self, c):
        C, L = self.ghosts(c)
        o, n = c.o('self'), c.n('self')
        L2 = c.ghost('L', Store(L, o._num, c.o('el')))
        at = o._last_pos_filled + 1
        sz = If(at == o._size, 2 * o._size + 1, o._size)
        shrink = z3.ToReal(I(o._num) + 1) < o._load_factor * z3.ToReal(sz)
        C2 = c.ghost('C', lambda i: If(shrink, If(i <= o._num + 1, i, o._num + 1), If(i <= at, C[i], o._num + 1)))
        return [('one-more', n._num == o._num + 1)] + self.wf_of(n, C2, L2)

    loops = {1: GROW}


@register
class DODA_delete(_DODA):
    name = DODA + 'delete'
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'DODA_modify')

    def setup(self, x):
        d, idx = self.me(x), x.int('idx')
        s, C, L = x.P(d), x['C'], x['L']
        self.announce(x, lambda i: If(i <= idx, C[i], C[i] - 1), lambda k: If(k >= C[idx], L[k + 1], L[k]))
        return [d, idx], {}

    def pre(self, c):
        C, L = self.ghosts(c)
        return self.wf_of(c.o('self'), C, L)

    def post(self, c):
        C, L = self.ghosts(c)
        o, n = c.o('self'), c.n('self')
        idx = I(c.o('idx'))
        hit = And(0 <= idx, idx <= o._last_pos_filled, live(o._data.arr, idx))
        L2 = c.ghost('L', lambda k: If(And(hit, k >= C[idx]), L[k + 1], L[k]))
        m = o._num - 1
        shrink = z3.ToReal(m) < o._load_factor * z3.ToReal(I(o._size))
        C2 = c.ghost('C', lambda i: If(hit, If(shrink, If(i <= m, i, m), If(i <= idx, C[i], C[i] - 1)), C[i]))
        return [('count', n._num == If(hit, m, o._num))] + self.wf_of(n, C2, L2)


# ------------------------------------------------------------ arrays whose live entries are contiguous
# (clients that only append at the end and remove at either end; without removals at the front, first(s) is 0)
def first(s):
    return s._last_pos_filled - s._num + 1


def contig(s):
    a = s._data.arr
    f = first(s)
    return [('size', And(s._size == s._data.len, s._size >= 0)),
            ('count', And(s._num >= 0, f >= 0)),
            ('last-in-range', And(-1 <= s._last_pos_filled, s._last_pos_filled < s._size)),
            ('no-holes', fa('i', lambda i: Implies(And(f <= i, i <= s._last_pos_filled), live(a, i)), lambda i: a[i])),
            ('others-empty', fa('i', lambda i: Implies(And(rng(0, i, s._size), Or(i < f, s._last_pos_filled < i)), isNone(a[i])), lambda i: a[i]))]


class _Contig(_DODA):
    def me(self, x):
        return doda(x)

    def pre(self, c):
        return contig(c.o('self'))

    def kept(self, c, frm, cnt):
        """the new entries first(n) .. are the old ones from position frm on (cnt of them)"""
        o, n = c.o('self'), c.n('self')
        f = first(n)
        return ('contents-kept', fa('i', lambda i: Implies(rng(f, i, f + cnt), n._data.arr[i] == o._data.arr[i - f + frm]), lambda i: n._data.arr[i]))

    def start(self, c, frm):
        return ('start', Or(first(c.n('self')) == 0, first(c.n('self')) == frm))


@register
class DODA_modify_c(_Contig):
    name = DODA + '_modify'
    variants = ('plain', 'force')
    modifies = DODA_modify.modifies

    def setup(self, x):
        return [self.me(x)] + ([True] if x.variant == 'force' else []), {}

    def post(self, c):
        o, n = c.o('self'), c.n('self')
        return [self.kept(c, first(o), o._num), self.start(c, first(o)), ('count-kept', n._num == o._num)] + contig(n)

    COPY = LoopSpec(inv=lambda v: [('position', v.j == If(v.i <= first(v.old.self), 0, v.i - first(v.old.self))),
                                   ('copied', fa('k', lambda k: Implies(rng(0, k, v.j), v.arr_new._data.arr[k] == v.old.self._data.arr[k + first(v.old.self)]), lambda k: v.arr_new._data.arr[k])),
                                   ('rest-empty', fa('k', lambda k: Implies(And(v.j <= k, k < 2 * v.self._num + 1), isNone(v.arr_new._data.arr[k])), lambda k: v.arr_new._data.arr[k]))])
    SCAN = LoopSpec(inv=lambda v: [('range', And(-1 <= v.i, v.i < v.self._size)), ('not-below-last', Or(v.i >= v.old.self._last_pos_filled, v.old.self._num == 0))],
                    variant=lambda v: v.i + 1)

    def loops(self, u):
        return {1: self.SCAN, 2: self.COPY} if u.variant == 'force' else {1: self.COPY}


@register
class DODA_append_c(_Contig):
    name = DODA + 'append'
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'DODA_modify_c')

    def setup(self, x):
        e = z3.Const('el', E)
        x.assume(And(Not(isNone(e)), tyok(e)))
        return [self.me(x), e], {}

    def pre(self, c):
        if not isinstance(c.eng.unit.k, DODA_append_c) and c.eng.unit.elem_class is None:
            c.eng.unit.trust('all elements put into one array are instances of its dtype')
        return contig(c.o('self')) + [('element-not-none', Not(isNone(c.eng.encode(c.old, c.raw('el'), 'elem'))))]

    def post(self, c):
        o, n = c.o('self'), c.n('self')
        e = c.eng.encode(c.old, c.raw('el'), 'elem')
        return [self.kept(c, first(o), o._num), self.start(c, first(o)), ('appended', n._data.arr[n._last_pos_filled] == e), ('one-more', n._num == o._num + 1)] + contig(n)

    loops = {1: GROW}


@register
class DODA_delete_c(_Contig):
    """removal of the first or last element"""
    name = DODA + 'delete'
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'DODA_modify_c')

    def setup(self, x):
        return [self.me(x), x.int('idx')], {}

    def pre(self, c):
        o = c.o('self')
        i = I(c.o('idx'))
        return contig(o) + [('an-end', And(o._num > 0, Or(i == o._last_pos_filled, i == first(o))))]

    def post(self, c):
        o, n = c.o('self'), c.n('self')
        frm = If(I(c.o('idx')) == o._last_pos_filled, first(o), first(o) + 1)
        return [self.kept(c, frm, o._num - 1), self.start(c, frm), ('one-less', n._num == o._num - 1)] + contig(n)


def contig0(s):
    """live entries are exactly positions 0 .. _num-1"""
    a = s._data.arr
    return [('size', And(s._size == s._data.len, s._num >= 0, s._num <= s._size, s._last_pos_filled == s._num - 1)),
            ('no-holes', fa('i', lambda i: Implies(rng(0, i, s._num), live(a, i)), lambda i: a[i])),
            ('others-empty', fa('i', lambda i: Implies(And(s._num <= i, i < s._size), isNone(a[i])), lambda i: a[i]))]


def same0(c, cnt):
    o, n = c.o('self'), c.n('self')
    return ('contents-kept', fa('i', lambda i: Implies(rng(0, i, cnt), n._data.arr[i] == o._data.arr[i]), lambda i: n._data.arr[i]))


@register
class DODA_append_z(DODA_append_c):
    """the same for arrays without a gap at the front"""
    def pre(self, c):
        return contig0(c.o('self')) + DODA_append_c.pre(self, c)[-1:]

    def post(self, c):
        o, n = c.o('self'), c.n('self')
        e = c.eng.encode(c.old, c.raw('el'), 'elem')
        return [same0(c, o._num), ('appended', n._data.arr[o._num] == e), ('one-more', n._num == o._num + 1)] + contig0(n)


@register
class DODA_delete_z(DODA_delete_c):
    def pre(self, c):
        o = c.o('self')
        i = I(c.o('idx'))
        return contig0(o) + [('last', And(o._num > 0, i == o._num - 1))]

    def post(self, c):
        o, n = c.o('self'), c.n('self')
        return [same0(c, o._num - 1), ('one-less', n._num == o._num - 1)] + contig0(n)


# ------------------------------------------------------------ construction
ONE_TYPE = 'all elements put into one array are instances of its dtype'


@register
class ODA_new(Contract):
    """OneDimensionalArray(dtype, n) and OneDimensionalArray(dtype, list)"""
    name = ARR + 'OneDimensionalArray.__new__'
    variants = ('size', 'list', 'size,list', 'list,size')
    cls_name = 'OneDimensionalArray'

    def setup(self, x):
        c = x.eng.prog.find_class(self.cls_name)
        if x.variant == 'size':
            return [c, VOpaque('dtype'), x.int('n')], {}
        return [c, VOpaque('dtype')] + [x.int('n') if w == 'size' else x.list('l', 'elem') for w in x.variant.split(',')], {}

    def args(self, c):
        a = c.raw('args')
        return a if isinstance(a, tuple) else c.eng.concrete_iter(c.old, a)

    def arg(self, c):
        """the list when there is one, else the size"""
        a = self.args(c)
        return [x for x in a if isinstance(x, (VCell, VNest))][0] if len(a) == 2 else a[0]

    def size(self, c):
        return [x for x in self.args(c) if not isinstance(x, (VCell, VNest))]

    def raises(self, c):
        if self.is_list(c) and self.size(c):
            return {'ValueError': I(self.size(c)[0]) != c.P(self.arg(c), c.old).len}
        return {}

    def is_list(self, c):
        return isinstance(self.arg(c), (VCell, VNest))

    def pre(self, c):
        a = self.arg(c)
        if not self.is_list(c):
            return []
        l = c.P(a, c.old)
        if l.kind == 'elem' and not isinstance(c.eng.unit.k, ODA_new):
            c.eng.unit.trust(ONE_TYPE)
        return []

    def stored(self, c, e):
        """what is stored for an element: itself, or (not of the dtype) the converted value"""
        return If(tyok(e), e, conv(e)) if isinstance(c.eng.unit.k, ODA_new) else e

    def opaque_call_hook(self, eng, st, f, args, kw, node):
        if f.name == 'dtype':
            return [(st, conv(eng.encode(st, args[0], 'elem')))]

    def ncls(self, c):
        return c.raw('cls').name

    def extra(self, c, eng, st):
        return {}

    def result(self, c):
        def mk(eng, st):
            a = self.arg(c)
            n = c.P(a, c.old).len if self.is_list(c) else If(I(a) > 0, I(a), 0)
            kind = c.P(a, c.old).kind if self.is_list(c) else 'none'
            data = eng.new_cell(st, ArrRec(n, None if kind == 'none' else fresh_const('init', z3.ArraySort(IntS, sort_of(kind))), kind))
            size = n if self.is_list(c) else a
            f = dict(_size=size, _data=data, _dtype=c.raw('dtype'))
            f.update(self.extra(c, eng, st))
            return eng.new_cell(st, ObjRec(self.ncls(c), f))
        return mk

    def post(self, c):
        r = c.res
        a = self.arg(c)
        same_class = ('class', BoolVal(r.cls.name == self.ncls(c) if hasattr(r.cls, 'name') else r.cls == self.ncls(c)))
        if not self.is_list(c):
            return [same_class, ('length', And(r._size == I(a), r._data.len == If(I(a) > 0, I(a), 0))),
                    ('all-none', BoolVal(True) if r._data.kind == 'none' else fa('i', lambda i: Implies(rng(0, i, I(a)), isNone(r._data.arr[i])), lambda i: r._data.arr[i]))]
        l = c.P(a, c.old)
        return [same_class, ('length', And(r._size == l.len, r._data.len == l.len)),
                ('own-copy', BoolVal(r._data.v != a)),
                ('contents', fa('i', lambda i: Implies(rng(0, i, l.len), r._data.arr[i] == (self.stored(c, l.arr[i]) if l.kind == 'elem' else l.arr[i])), lambda i: r._data.arr[i]))]

    def modifies(self, c):
        if self.is_list(c) and isinstance(c.eng.unit.k, ODA_new):
            return [('list', self.arg(c), 'arr')]
        return []

    def modifies_exc(self, c):
        return self.modifies(c)

    def loops(self, u):
        if u.variant != 'size':
            w = 1 if u.variant == 'size,list' else 0
            def inv(v):
                l, l0 = v.P(v.raw('args')[w]).arr, v.old.P(v.raw('args')[w]).arr
                return [('converted-so-far', fa('k', lambda k: Implies(rng(0, k, v.i), l[k] == If(tyok(l0[k]), l0[k], conv(l0[k]))), lambda k: l[k])),
                        ('rest', fa('k', lambda k: Implies(And(v.i <= k, k < v.P(v.raw('args')[w]).len), l[k] == l0[k]), lambda k: l[k]))]
            return {n: LoopSpec(inv=inv) for n in (1, 2, 3, 4)}
        return {}


@register
class DODA_new(ODA_new):
    name = ARR + 'DynamicOneDimensionalArray.__new__'
    cls_name = 'DynamicOneDimensionalArray'
    uses = ('ODA_new', 'ODA_getitem_in')

    def pre(self, c):
        p = super().pre(c)
        if self.is_list(c):
            l = c.P(self.arg(c), c.old)
            if l.kind == 'elem':
                p = p + [('no-none', fa('i', lambda i: Implies(rng(0, i, l.len), And(live(l.arr, i), live([conv(l.arr[i])], 0) if isinstance(c.eng.unit.k, ODA_new) else True)), lambda i: l.arr[i]))]
        else:
            p = p + [('size', I(self.arg(c)) >= 0)]
        return p

    def extra(self, c, eng, st):
        return dict(_load_factor=z3.RealVal('0.25'), _num=fresh_const('num', IntS), _last_pos_filled=fresh_const('last', IntS))

    def post(self, c):
        r = c.res
        n = c.P(self.arg(c), c.old).len if self.is_list(c) else 0
        return super().post(c) + [('bookkeeping', And(r._num == n, r._last_pos_filled == n - 1))]

    def loops(self, u):
        return {}
