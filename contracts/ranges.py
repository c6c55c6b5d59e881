"""Range queries.  OP is the query function on pairs (associative, None neutral: the functions accepted by sparse tables and
segment trees), FO(A, l, r) the left-to-right combination of A[l] .. A[r-1] for l < r."""
from .common import *
from .lemmas import Lemma
from .absq import ABS
from . import register

M = 'miscellaneous_data_structures.'
AE = z3.ArraySort(IntS, E)
OP = z3.Function('OP', E, E, E)
FO = z3.Function('FO', AE, IntS, IntS, E)


def _fodef():
    A, l, r = z3.Const('A', AE), z3.Int('l'), z3.Int('r')
    return And(ForAll([A, l], FO(A, l, l + 1) == A[l], patterns=[FO(A, l, l + 1)]),
               ForAll([A, l, r], Implies(l < r, FO(A, l, r + 1) == OP(FO(A, l, r), A[r])), patterns=[FO(A, l, r + 1)]))


FODEF = _fodef()


def fo_at(A, l, r):
    """the defining equation of FO(A, l, r)"""
    return FO(A, l, r) == If(r == l + 1, A[l], OP(FO(A, l, r - 1), A[r - 1]))


def _neutral():
    x, y = z3.Consts('x y', E)
    return ForAll([x, y], And(Implies(isNone(x), OP(x, y) == y), Implies(isNone(y), OP(x, y) == x),
                              Implies(Not(isNone(OP(x, y))), Or(Not(isNone(x)), Not(isNone(y)))),
                              Implies(Or(Not(isNone(x)), Not(isNone(y))), Not(isNone(OP(x, y))))), patterns=[OP(x, y)])


NEUTRAL = _neutral()


def func():
    def fn(eng, st, args, node):
        t = args[0]
        xs = [eng.encode(st, v, 'elem') for v in t]
        return [(st, xs[0] if len(xs) == 1 else OP(xs[0], xs[1]))]
    return VSym(fn, 'func')


def _split_obls():
    A = z3.Const('A', AE)
    l, m, r = z3.Ints('l m r')
    S = lambda r: FO(A, l, r) == OP(FO(A, l, m), FO(A, m, r))
    x, y, z = FO(A, l, m), FO(A, m, r), A[r]
    return [('base', [l < m, fo_at(A, l, m + 1), fo_at(A, m, m + 1)], S(m + 1)),
            ('step', [l < m, m < r, S(r), fo_at(A, l, r + 1), fo_at(A, m, r + 1), OP(OP(x, y), z) == OP(x, OP(y, z))], S(r + 1))]


def _split():
    A = z3.Const('A', AE)
    l, m, r = z3.Ints('l m r')
    return ForAll([A, l, m, r], Implies(And(l < m, m < r), FO(A, l, r) == OP(FO(A, l, m), FO(A, m, r))), patterns=[MultiPattern(FO(A, l, m), FO(A, m, r))])


split = Lemma('fold-splits', lambda A, l, m, r: Implies(And(l < m, m < r), FO(A, l, r) == OP(FO(A, l, m), FO(A, m, r))), _split_obls)
split.stmt = _split()


def _same_obls():
    A, B_, l, r = z3.Const('A', AE), z3.Const('B', AE), z3.Int('l'), z3.Int('r')
    return [('base', [fo_at(A, l, l + 1), fo_at(B_, l, l + 1), A[l] == B_[l]], FO(A, l, l + 1) == FO(B_, l, l + 1)),
            ('step', [l < r, FO(A, l, r) == FO(B_, l, r), A[r] == B_[r], fo_at(A, l, r + 1), fo_at(B_, l, r + 1)], FO(A, l, r + 1) == FO(B_, l, r + 1))]


# arrays that differ at one position have the same fold over ranges without it
frame1 = Lemma('fold-frame', lambda A, B_, i, n: Implies(fa('k', lambda k: Implies(And(rng(0, k, n), k != i), A[k] == B_[k]), lambda k: B_[k]),
                                                         fa('l r', lambda l, r: Implies(And(0 <= l, l < r, r <= n, Or(i < l, r <= i)), FO(A, l, r) == FO(B_, l, r)),
                                                            lambda l, r: FO(B_, l, r), lambda l, r: FO(A, l, r))), _same_obls)


def nonnone(a, n):
    return fa('k', lambda k: Implies(rng(0, k, n), Not(isNone(a[k]))), lambda k: a[k])


class _R(Contract):
    axioms = (FODEF, NEUTRAL)
    assumes = ('the query function is associative, returns the entry for one entry and (sparse table, segment tree) ignores None; entries are not None',)

    def arr(self, x):
        n = z3.Int('n')
        x.assume(n >= 0)
        return x.list('A', 'elem', n)

    def pre(self, c):
        a = self.A(c)
        return [('entries', And(a.len >= 1, nonnone(a.arr, a.len)))]

    def raises(self, c):
        s, e, n = I(c.o('start')), I(c.o('end')), self.A(c).len
        return {'ValueError': s > e, 'IndexError': And(s <= e, Or(s < 0, e >= n))}

    def result(self, c):
        return 'elem'

    def post(self, c):
        return [('fold-of-the-range', c.res == FO(self.A(c).arr, I(c.o('start')), I(c.o('end')) + 1))]


@register
class RQ_array(_R):
    name = M + 'algorithms:RangeQueryStaticArray.query'

    def setup(self, x):
        return [x.obj('RangeQueryStaticArray', array=self.arr(x), func=func()), x.int('start'), x.int('end')], {}

    def A(self, c):
        return c.o('self').array
    loops = {1: LoopSpec(inv=lambda v: [('fold-so-far', v.query_ans == FO(v.old.self.array.arr, v.old.start, v.i)), ('index', v.i >= v.old.start + 2)])}


@register
class RQ_dynarray(RQ_array):
    name = M + 'algorithms:RangeQueryDynamicArray.query'
    uses = ('RQ_array',)

    def setup(self, x):
        return [x.obj('RangeQueryDynamicArray', range_query_static=x.obj('RangeQueryStaticArray', array=self.arr(x), func=func())), x.int('start'), x.int('end')], {}

    def A(self, c):
        return c.o('self').range_query_static.array
    loops = {}


class _Upd(_R):
    implicit = {'index': 'IndexError'}

    def pre(self, c):
        return super().pre(c) + [('value', Not(isNone(c.eng.encode(c.old, c.raw('value'), 'elem')))), ('index', I(c.o('index')) >= 0)]

    def raises(self, c):
        return {'IndexError': I(c.o('index')) >= self.A(c).len}

    def modifies(self, c):
        return [('list', self.A(c).v, 'arr')]

    def result(self, c):
        return 'none'

    def post(self, c):
        o, n = self.A(c), c.P(self.A(c).v)
        return [('entry', And(n.len == o.len, n.arr == Store(o.arr, I(c.o('index')), c.eng.encode(c.old, c.raw('value'), 'elem'))))]


@register
class RQ_dynarray_update(_Upd):
    name = M + 'algorithms:RangeQueryDynamicArray.update'

    def setup(self, x):
        return [x.obj('RangeQueryDynamicArray', range_query_static=x.obj('RangeQueryStaticArray', array=self.arr(x), func=func())), x.int('index'), z3.Const('value', E)], {}

    def A(self, c):
        return c.o('self').range_query_static.array


# ------------------------------------------------------------------ segment tree
TN = ('ref', 'TreeNode')
KEY = ('tuple', 'int', 'int')
FIELDS = {'key': KEY, 'data': 'elem', 'left': TN, 'right': TN, 'parent': TN, 'height': 'int', 'size': 'int', 'is_root': 'bool'}
SetI = z3.ArraySort(IntS, BoolS)


def klo(kt):
    return dt(KEY)[2](kt)


def khi(kt):
    return dt(KEY)[3](kt)


def tree_shape(T, h, nxt, n):
    """T: nodes of a segment tree over [0, n); h(field) heap arrays"""
    k, l, r = h('key'), h('left'), h('right')
    lo, hi = lambda x: klo(k[x]), lambda x: khi(k[x])
    mid = lambda x: (lo(x) + hi(x)) / 2
    return fa('x', lambda x: Implies(T[x], And(0 < x, x < nxt, 0 <= lo(x), lo(x) <= hi(x), hi(x) < n,
                                               Implies(lo(x) < hi(x), And(T[l[x]], T[r[x]], lo(l[x]) == lo(x), hi(l[x]) == mid(x), lo(r[x]) == mid(x) + 1, hi(r[x]) == hi(x))))),
              lambda x: T[x])


def tree_data(T, h, A, but=None):
    k, d = h('key'), h('data')
    return fa('x', lambda x: Implies(And(T[x], True if but is None else Not(but(x))), d[x] == FO(A, klo(k[x]), khi(k[x]) + 1)), lambda x: T[x])


class _Seg(_R):
    fields = FIELDS
    heap_classes = ('TreeNode',)
    lemmas = (split,)

    def me(self, x):
        return x.obj('OneDimensionalArraySegmentTree', _func=func(), _array=self.arr(x), _root=x.ref('root', 'TreeNode'), _backend=VOpaque('backend'), **{'@T': z3.Const('T', SetI)})

    def A(self, c):
        return c.o('self')._array

    def wf(self, s, h, nxt):
        k = h('key')
        rt = s._root.t
        return [('shape', tree_shape(s.g_T, h, nxt, s._array.len)), ('root', And(s.g_T[rt], klo(k[rt]) == 0, khi(k[rt]) == s._array.len - 1)),
                ('node-values', tree_data(s.g_T, h, s._array.arr))]

    def pre(self, c):
        return super().pre(c) + self.wf(c.o('self'), c.oheap, c.old.nxt)


@register
class Seg_rquery(_Seg):
    name = M + 'segment_tree:OneDimensionalArraySegmentTree._query'
    uses = ('Seg_rquery',)

    def setup(self, x):
        return [self.me(x), x.ref('node', 'TreeNode'), x.int('start'), x.int('end'), x.int('l'), x.int('r')], {}

    def pre(self, c):
        k, t = c.oheap('key'), c.o('node').t
        return super().pre(c) + [('node', And(c.o('self').g_T[t], klo(k[t]) == I(c.o('start')), khi(k[t]) == I(c.o('end')))), ('query', I(c.o('l')) <= I(c.o('r')))]

    def raises(self, c):
        return {}

    def decreases(self, c):
        return I(c.o('end')) - I(c.o('start'))

    def post(self, c):
        s, e, l, r = (I(c.o(n)) for n in ('start', 'end', 'l', 'r'))
        a = If(l > s, l, s)
        b = If(r < e, r, e)
        res = c.eng.encode(c.new, c.res_v, 'elem')
        return [('fold-of-the-common-part', If(Or(r < s, e < l), isNone(res), res == FO(c.o('self')._array.arr, a, b + 1)))]


@register
class Seg_query(_Seg):
    name = M + 'segment_tree:OneDimensionalArraySegmentTree.query'
    uses = ('Seg_rquery',)

    def setup(self, x):
        return [self.me(x), x.int('start'), x.int('end')], {}

    def pre(self, c):
        s, e, n = I(c.o('start')), I(c.o('end')), self.A(c).len
        return super().pre(c) + [('range', And(0 <= s, s <= e, e < n))]

    def raises(self, c):
        return {}


@register
class RQ_seg(Seg_query):
    name = M + 'algorithms:RangeQueryDynamicSegmentTree.query'
    uses = ('Seg_query',)

    def setup(self, x):
        m = self.me(x)
        return [x.obj('RangeQueryDynamicSegmentTree', segment_tree=m, bounds=(0, z3.Int('n'))), x.int('start'), x.int('end')], {}

    def A(self, c):
        return c.o('self').segment_tree._array

    def pre(self, c):
        return _R.pre(self, c) + self.wf(c.o('self').segment_tree, c.oheap, c.old.nxt)

    def raises(self, c):
        return _R.raises(self, c)


# ------------------------------------------------------------------ sparse table
LE = ('list', 'elem')
ODA = 'OneDimensionalArray'


def _p2_obls():
    a, b = z3.Ints('a b')
    return [('base', [a >= 0], pow2(a) <= pow2(a)), ('step', [0 <= a, a <= b, pow2(a) <= pow2(b), pow2(b + 1) == 2 * pow2(b), pow2(b) >= 1], pow2(a) <= pow2(b + 1))]


def pow_mono(a, b):
    return Implies(And(0 <= a, a <= b), pow2(a) <= pow2(b))


pmono = Lemma('pow2-monotone', pow_mono, _p2_obls)


class _Sparse(_R):
    fields = {'_data': LE, '_size': 'int', '_dtype': 'opaque'}
    heap_classes = (ODA,)
    lemmas = (split,)

    def me(self, x):
        n = z3.Int('n')
        x['A'] = x.list('A', 'elem', n)
        x.assume(n >= 1)
        return x.obj('SparseTable', _table=x.list('table', ('ref', ODA), n), func=func())

    def A(self, c):
        return c.P(c.cx['A'])

    def wf(self, c, s, h, nxt):
        """column j of row i is the fold of the 2^j entries from i on, where they exist; lg columns, n < 2^lg"""
        A, T, D = self.A(c), s._table, h('_data')
        n = A.len
        lg = z3.Int('lg')
        dl, da = dt(LE)[2], dt(LE)[3]
        return [('rows', And(T.len == n, lg >= 0, n < pow2(lg), fa('i', lambda i: Implies(rng(0, i, n), And(0 < T.arr[i], T.arr[i] < nxt, dl(D[T.arr[i]]) == lg, h('_size')[T.arr[i]] == lg)), lambda i: T.arr[i]))),
                ('folds', fa('i j', lambda i, j: Implies(And(0 <= i, 0 <= j, i + pow2(j) <= n), da(D[T.arr[i]])[j] == FO(A.arr, i, i + pow2(j))), lambda i, j: da(D[T.arr[i]])[j])),
                ('entries', And(n >= 1, nonnone(A.arr, n)))]


@register
class Sparse_query(_Sparse):
    name = M + 'sparse_table:SparseTable.query'

    def setup(self, x):
        return [self.me(x), x.int('start'), x.int('end')], {}

    def pre(self, c):
        s, e = I(c.o('start')), I(c.o('end'))
        return self.wf(c, c.o('self'), c.oheap, c.old.nxt) + [('range', And(0 <= s, s <= e, e < self.A(c).len))]

    def raises(self, c):
        return {}

    def post(self, c):
        return [('fold-of-the-range', c.eng.encode(c.new, c.res_v, 'elem') == FO(self.A(c).arr, I(c.o('start')), I(c.o('end')) + 1))]

    @staticmethod
    def inv(v):
        A = v.P(v.c['A']).arr
        s, s0, e, j = v.start, v.old.start, v.end, v.j
        ans = v.eng.encode(v.st, v.raw('answer'), 'elem')
        return [('range', And(s0 <= s, s <= e + 1, j >= -1, e + 1 - s < pow2(j + 1))),
                ('fold-so-far', If(s == s0, isNone(ans), ans == FO(A, s0, s)))]

    loops = {1: LoopSpec(inv=lambda v: Sparse_query.inv(v), variant=lambda v: v.j + 1, kinds={'answer': 'elem'},
                         body_assume=lambda v: [pmono.use(z3.Int('lg'), v.j)])}


@register
class RQ_sparse(Sparse_query):
    name = M + 'algorithms:RangeQueryStaticSparseTable.query'
    uses = ('Sparse_query',)
    loops = {}

    def setup(self, x):
        m = self.me(x)
        return [x.obj('RangeQueryStaticSparseTable', sparse_table=m, bounds=(0, z3.Int('n'))), x.int('start'), x.int('end')], {}

    def pre(self, c):
        return self.wf(c, c.o('self').sparse_table, c.oheap, c.old.nxt)

    def raises(self, c):
        return _R.raises(self, c)


@register
class Sparse_new(_Sparse):
    """construction: column by column"""
    name = M + 'sparse_table:SparseTable.__new__'
    fields = dict(_Sparse.fields, _dtype=('const', VBuiltin('int')))
    int_elems = True
    force_loop_comp = True

    def setup(self, x):
        n = z3.Int('n')
        x.assume(n >= 0)
        return [x.eng.prog.find_class('SparseTable'), x.list('A', 'elem', n), func()], {}

    def listhint(self, eng, st, o):
        return ('ref', ODA)

    def pre(self, c):
        a = c.o('array')
        return [('entries', nonnone(a.arr, a.len))]

    def raises(self, c):
        return {'ValueError': c.o('array').len == 0}

    def modifies(self, c):
        return [('heap', '_data'), ('heap', '_size'), ('nxt',)]

    def post(self, c):
        A = c.o('array')
        T, D = c.res._table, c.nheap('_data')
        lg = c.ghost('lg', dt(LE)[2](D[T.arr[0]]))
        s = c.res
        return [(n, z3.substitute(f, (z3.Int('lg'), lg))) for n, f in self.shape(c.P, A, s._table, c.nheap, c.new.nxt)]

    def lemmas_post(self, c):
        lg = c.ghost('lg', None)
        return [('@pow2-monotone', fa('j', lambda j: pow_mono(lg, j), lambda j: pow2(j)), 'lemma')]

    @staticmethod
    def shape(P, A, T, h, nxt, done=None):
        n, D, lg = A.len, h('_data'), z3.Int('lg')
        dl, da = dt(LE)[2], dt(LE)[3]
        ok = done or (lambda i, j: BoolVal(True))
        return [('rows', And(T.len == n, lg >= 0, n < pow2(lg), fa('i', lambda i: Implies(rng(0, i, n), And(0 < T.arr[i], T.arr[i] < nxt, dl(D[T.arr[i]]) == lg, h('_size')[T.arr[i]] == lg)), lambda i: T.arr[i]))),
                ('folds', fa('i j', lambda i, j: Implies(And(0 <= i, 0 <= j, i + pow2(j) <= n, ok(i, j)), da(D[T.arr[i]])[j] == FO(A.arr, i, i + pow2(j))), lambda i, j: da(D[T.arr[i]])[j]))]

    @staticmethod
    def rows(v, T, cnt):
        h = v.heap
        n, D, lg = v.array.len, h('_data'), I(v.log_size)
        dl = dt(LE)[2]
        return [('rows', And(T.len == cnt, fa('i', lambda i: Implies(rng(0, i, cnt), And(0 < T.arr[i], T.arr[i] < v.nxt, dl(D[T.arr[i]]) == lg, h('_size')[T.arr[i]] == lg)), lambda i: T.arr[i]),
                             fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < cnt), T.arr[i] < T.arr[j]), lambda i, j: (T.arr[i], T.arr[j]))))]

    def loops(self, u):
        def folds(v, ok):
            T, D, A = v.obj._table, v.heap('_data'), v.array
            da = dt(LE)[3]
            return [('folds', fa('i j', lambda i, j: Implies(And(0 <= i, 0 <= j, i + pow2(j) <= A.len, ok(i, j)), da(D[T.arr[i]])[j] == FO(A.arr, i, i + pow2(j))), lambda i, j: da(D[T.arr[i]])[j]))]
        full = lambda v: self.rows(v, v.obj._table, v.array.len)
        return {1: LoopSpec(inv=lambda v: self.rows(v, v._lc, v.it)),
                2: LoopSpec(inv=lambda v: full(v) + folds(v, lambda i, j: And(j == 0, i < v.i))),
                3: LoopSpec(inv=lambda v: full(v) + folds(v, lambda i, j: j < v.j), body_assume=lambda v: [pmono.use(I(v.log_size), v.j)]),
                4: LoopSpec(inv=lambda v: full(v) + folds(v, lambda i, j: Or(j < v.j, And(j == v.j, i < v.i))), body_assume=lambda v: [pmono.use(I(v.log_size), v.j)])}
