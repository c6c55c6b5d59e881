"""Binary indexed tree.  LB(i) is the lowest set bit of i (i & -i), PS(F, A, n) the sum of the entries of A in front of n
whose flag is set; node j of the tree holds the sum over [j - LB(j), j)."""
from .common import *
from .arrays import ARR
from .lemmas import Lemma, chain
from . import register

BIT = 'trees.binary_trees:BinaryIndexedTree.'
AI, AE = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, E)
LB = z3.Function('LB', IntS, IntS)
PS = z3.Function('PS', AI, AE, IntS, IntS)
LBDEF = fa('k', lambda k: Implies(k >= 1, And(LB(2 * k) == 2 * LB(k), LB(2 * k - 1) == 1)), lambda k: LB(2 * k), lambda k: LB(2 * k - 1))


def val(F, A, n):
    return If(F[n] != 0, ival(A[n]), 0)


def _psdef():
    F, A, n = z3.Const('F', AI), z3.Const('A', AE), z3.Int('n')
    return And(ForAll([F, A], PS(F, A, 0) == 0, patterns=[PS(F, A, 0)]),
               ForAll([F, A, n], Implies(n >= 0, PS(F, A, n + 1) == PS(F, A, n) + val(F, A, n)), patterns=[PS(F, A, n + 1)]))


PSDEF = _psdef()


def _lb_obls():
    p, k, r, s, m = z3.Ints('p k r s m')
    d = lambda k: And(LB(2 * k) == 2 * LB(k), LB(2 * k - 1) == 1)
    par = lambda x, y: Or(x == 2 * y, x == 2 * y - 1)
    return [('range', [p >= 1, k >= 1, par(p, k), d(k), Or(k == p, And(1 <= LB(k), LB(k) <= k))], And(1 <= LB(p), LB(p) <= p)),
            # 0 < r < LB(p): LB(p+r) <= r
            ('inside', [p >= 1, k >= 1, par(p, k), d(k), 0 < r, r < LB(p), s >= 1, par(r, s), d(k + s),
                        Implies(And(0 < s, s < LB(k)), LB(k + s) <= s)], LB(p + r) <= r),
            # LB(p + LB(p)) >= 2 LB(p)
            ('next', [p >= 1, k >= 1, par(p, k), d(k), LB(k) >= 1, Implies(k < p, LB(k + LB(k)) >= 2 * LB(k)), d(k + LB(k)), LB(k) >= 1], LB(p + LB(p)) >= 2 * LB(p))]


def cover(j, i):
    """tree node j counts array position i"""
    return And(j - LB(j) <= i, i < j)


LBFACTS = And(fa('i', lambda i: Implies(i >= 1, And(1 <= LB(i), LB(i) <= i)), lambda i: LB(i)),
              fa('p j', lambda p, j: Implies(And(1 <= p, p < j, j < p + LB(p)), j - LB(j) >= p), lambda p, j: (LB(p), LB(j))),
              fa('p', lambda p: Implies(p >= 1, LB(p + LB(p)) >= 2 * LB(p)), lambda p: LB(p)))


def _stmt(name, stmt, obls):
    l = Lemma(name, lambda: stmt, obls)
    l.stmt = stmt
    return l


lowbit = _stmt('lowest-set-bit', LBFACTS, _lb_obls)


def _upd_obls():
    F, A, G, B_, n, i = z3.Const('F', AI), z3.Const('A', AE), z3.Const('G', AI), z3.Const('B', AE), z3.Int('n'), z3.Int('i')
    P = lambda n: PS(G, B_, n) == PS(F, A, n) + If(i < n, val(G, B_, i) - val(F, A, i), 0)
    return [('base', [PSDEF, i >= 0], P(IntVal(0))),
            ('step', [PSDEF, i >= 0, n >= 0, P(n), Implies(n != i, val(G, B_, n) == val(F, A, n))], P(n + 1))]


def _upd(F, A, G, B_, i, N):
    return Implies(And(i >= 0, fa('k', lambda k: Implies(And(rng(0, k, N), k != i), val(G, B_, k) == val(F, A, k)), lambda k: G[k], lambda k: B_[k])),
                   fa('n', lambda n: Implies(And(0 <= n, n <= N), PS(G, B_, n) == PS(F, A, n) + If(i < n, val(G, B_, i) - val(F, A, i), 0)), lambda n: PS(G, B_, n)))


prefix_update = Lemma('prefix-sum-update', _upd, _upd_obls)


def _zero_obls():
    F, A, n = z3.Const('F', AI), z3.Const('A', AE), z3.Int('n')
    return [('base', [PSDEF], PS(F, A, 0) == 0), ('step', [PSDEF, n >= 0, PS(F, A, n) == 0, F[n] == 0], PS(F, A, n + 1) == 0)]


prefix_zero = Lemma('prefix-sum-of-nothing', lambda F, A, N: Implies(fa('k', lambda k: Implies(rng(0, k, N), F[k] == 0), lambda k: F[k]),
                                                                      fa('n', lambda n: Implies(And(0 <= n, n <= N), PS(F, A, n) == 0), lambda n: PS(F, A, n))), _zero_obls)


def wf(s):
    """node sums; sizes; entries are numbers"""
    F, A, Tr, n = s.flag.arr, s.array._data.arr, s.tree.arr, s.array._size
    return [('sizes', And(n >= 0, s.array._data.len == n, s.flag.len == n, s.tree.len == n + 2)),
            ('numbers', fa('k', lambda k: Implies(rng(0, k, n), Not(isNone(A[k]))), lambda k: A[k])),
            ('node-sums', fa('j', lambda j: Implies(And(1 <= j, j <= n), Tr[j] == PS(F, A, j) - PS(F, A, j - LB(j))), lambda j: Tr[j]))]


class _BIT(Contract):
    int_elems = True
    axioms = (LBDEF, PSDEF)
    lemmas = (lowbit,)
    uses = ('ODA_getitem_in', 'ODA_setitem_t')
    assumes = ('i & -i is the lowest set bit of a positive int i', 'array entries are ints (mathematical integers)')

    def binop_hook(self, eng, st, op, a, b, node):
        if isinstance(op, __import__('ast').BitAnd) and is_z3(a) and is_z3(b):
            for p, q in ((a, b), (b, a)):
                if q.eq(-p):
                    eng.safe('positive', st, p >= 1, node)
                    return LB(p)
        return NotImplemented

    def me(self, x):
        n = z3.Int('n')
        x.assume(n >= 0)
        arr = x.obj('OneDimensionalArray', _size=n, _data=x.list('A', 'elem', n), _dtype=VOpaque('int'))
        return x.obj('BinaryIndexedTree', array=arr, tree=x.list('tree', 'int', n + 2), flag=x.list('flag', 'int', n))

    def setup(self, x):
        return [self.me(x), x.int('index')], {}

    def pre(self, c):
        return wf(c.o('self'))


@register
class BIT_update(_BIT):
    name = BIT + 'update'

    def setup(self, x):
        return [self.me(x), x.int('index'), x.int('value')], {}

    def pre(self, c):
        s = c.o('self')
        return wf(s) + [('index', And(0 <= I(c.o('index')), I(c.o('index')) < s.array._size))]

    def modifies(self, c):
        s = c.o('self')
        return [('list', s.tree.v, 'arr'), ('list', s.flag.v, 'arr'), ('list', s.array._data.v, 'arr')]

    def post(self, c):
        o, n, i = c.o('self'), c.n('self'), I(c.o('index'))
        v = c.eng.encode(c.old, c.raw('value'), 'int')
        return [('entry', ival(n.array._data.arr[i]) == v), ('flag', n.flag.arr[i] != 0),
                ('others', fa('k', lambda k: Implies(And(rng(0, k, n.array._size), k != i), And(n.array._data.arr[k] == o.array._data.arr[k], n.flag.arr[k] == o.flag.arr[k])),
                              lambda k: n.array._data.arr[k], lambda k: n.flag.arr[k]))] + wf(n)

    def lemmas_post(self, c):
        o, n = c.o('self'), c.n('self')
        return [prefix_update.use(o.flag.arr, o.array._data.arr, n.flag.arr, n.array._data.arr, I(c.o('index')), o.array._size)]

    @staticmethod
    def inv(v):
        t, t0, i, p, d = v.self.tree.arr, v.old.self.tree.arr, v.old.index, v.index, v.value
        return [('node', And(p >= 1, cover(p, i))),
                ('covering-nodes-updated', fa('j', lambda j: Implies(And(1 <= j, j <= v.self.array._size), t[j] == t0[j] + If(And(cover(j, i), j < p), I(d), 0)), lambda j: t[j])),
                ('others', And(t[0] == t0[0], t[v.self.array._size + 1] == t0[v.self.array._size + 1]))]
    W = LoopSpec(inv=lambda v: BIT_update.inv(v), variant=lambda v: If(v.index <= v.self.array._size, v.self.array._size + 1 - v.index, 0))
    loops = {1: W, 2: W}


@register
class BIT_prefix(_BIT):
    name = BIT + 'get_prefix_sum'

    def pre(self, c):
        return wf(c.o('self')) + [('index', And(-1 <= I(c.o('index')), I(c.o('index')) < c.o('self').array._size))]

    def result(self, c):
        return 'int'

    def post(self, c):
        s = c.o('self')
        return [('sum-of-the-prefix', c.res == PS(s.flag.arr, s.array._data.arr, I(c.o('index')) + 1))]

    @staticmethod
    def inv(v):
        s = v.self
        p = lambda n: PS(s.flag.arr, s.array._data.arr, n)
        return [('index', And(0 <= v.index, v.index <= s.array._size)), ('sum-so-far', I(v.sum) == p(v.old.index + 1) - p(v.index))]
    loops = {1: LoopSpec(inv=lambda v: BIT_prefix.inv(v), variant=lambda v: v.index)}


@register
class BIT_sum(_BIT):
    name = BIT + 'get_sum'
    uses = ('BIT_prefix',)

    def setup(self, x):
        return [self.me(x), x.int('l'), x.int('r')], {}

    def pre(self, c):
        l, r = I(c.o('left_index')), I(c.o('right_index'))
        return wf(c.o('self')) + [('range', And(0 <= l, l <= r, r < c.o('self').array._size))]

    def result(self, c):
        return 'int'

    def post(self, c):
        s = c.o('self')
        p = lambda n: PS(s.flag.arr, s.array._data.arr, n)
        return [('sum-of-the-range', c.res == p(I(c.o('right_index')) + 1) - p(I(c.o('left_index'))))]


@register
class BIT_new(_BIT):
    name = BIT + '__new__'
    uses = ('ODA_new', 'BIT_update')

    def setup(self, x):
        c = x.eng.prog.find_class('BinaryIndexedTree')
        n = x.int('n')
        return [c, x.list('a', 'elem', n)], {}

    def pre(self, c):
        a = c.o('array')
        return [('numbers', And(a.len >= 1, fa('k', lambda k: Implies(rng(0, k, a.len), Not(isNone(a.arr[k]))), lambda k: a.arr[k])))]

    def post(self, c):
        r, a = c.res, c.o('array')
        return [('entries', And(r.array._size == a.len, fa('k', lambda k: Implies(rng(0, k, a.len), And(ival(r.array._data.arr[k]) == ival(a.arr[k]), r.flag.arr[k] != 0)),
                                                           lambda k: r.array._data.arr[k], lambda k: r.flag.arr[k])))] + wf(r)

    @staticmethod
    def inv(v):
        o, a = v.obj, v.old.array
        return wf(o) + [('entries', fa('k', lambda k: Implies(rng(0, k, a.len), And(ival(o.array._data.arr[k]) == ival(a.arr[k]), (o.flag.arr[k] != 0) == (k < v.index))),
                                       lambda k: o.array._data.arr[k], lambda k: o.flag.arr[k]))]

    loops = {1: LoopSpec(inv=lambda v: BIT_new.inv(v), init_lemmas=lambda v: [prefix_zero.use(v.obj.flag.arr, v.obj.array._data.arr, v.obj.array._size)])}
