"""Permutations, matrix products and subsequences of linear_data_structures.algorithms (C04)."""
from .common import *
from .lemmas import Lemma, chain
from .arrays import oda
from .graphs import named
from . import register
from pyvc.values import dt

ALG = 'linear_data_structures.algorithms:'


def strict():
    """comp(u, v): a strict weak order on the (non-None) elements"""
    return comp_lt()


class _Perm(Contract):
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'ODA_new', 'ODA_len')
    up = True       # next permutation

    def lt(self, c, x, y):
        return rk(x) < rk(y) if self.ascending(c) else rk(y) < rk(x)

    def array(self, x):
        n = x['n'] = x.int('n')
        arr = x['array'] = oda(x, 'a', n=n)
        x['a'] = z3.Const('a', z3.ArraySort(IntS, E))
        return arr

    def rangeof(self, c):
        raise NotImplementedError

    def size(self, c):
        lo, hi = self.rangeof(c)
        return I(hi) - I(lo) + 1

    def arr(self, c):
        return c.o('array')._data.arr

    def wf(self, c):
        lo, hi = self.rangeof(c)
        s, a = c.o('array'), self.arr(c)
        return [('wf', And(s._size == s._data.len, 0 <= I(lo), I(hi) < s._size, I(lo) <= I(hi) + 1)),
                ('no-none', fa('k', lambda k: Implies(And(I(lo) <= k, k <= I(hi)), Not(isNone(a[k]))), lambda k: a[k]))]

    def result(self, c):
        def mk(eng, st):
            n = self.size(c)
            data = eng.new_cell(st, ArrRec(n, fresh_const('permuted', z3.ArraySort(IntS, E)), 'elem'))
            return (fresh_const('more', BoolS), eng.new_cell(st, ObjRec('OneDimensionalArray', {'_size': n, '_data': data, '_dtype': VOpaque('dtype')})))
        return mk

    def post(self, c):
        flag, out = c.res_v
        o = c.P(out, c.new)
        return self.adjacent(c, B(flag), o._data.arr, o._size, o._data.len)

    def adjacent(self, c, flag, b, size, length):
        """the neighbouring rearrangement in lexicographic order: the longest possible prefix is kept, the element after it is
        replaced by the next greater one to its right, and the rest is sorted; at the end of the order everything is reversed"""
        a, lo, n = self.arr(c), I(self.rangeof(c)[0]), self.size(c)
        lt = lambda x, y: self.lt(c, x, y)
        x = lambda q: a[lo + q]
        i = self.pivot(c, b, flag)
        tail_down = lambda f: fa('p q', lambda p, q: Implies(And(f <= p, p < q, q < n), Not(lt(a[lo + p], a[lo + q]))), lambda p, q: (b[p], b[q]))
        out = [('size', And(size == n, length == n)),
               ('rearrangement', self.rearranged(c, b)),
               ('last', Implies(Not(flag), And(self.down(c, a, lo, IntVal(0), n), fa('p q', lambda p, q: Implies(And(0 <= p, p < q, q < n), Not(lt(b[q], b[p]))), lambda p, q: (b[p], b[q])))))]
        out += [('prefix', Implies(flag, And(1 <= i, i < n, fa('q', lambda q: Implies(rng(0, q, i - 1), b[q] == a[lo + q]), lambda q: b[q])))),
                ('rest-was-last', Implies(flag, self.down(c, a, lo, i, n))),
                ('greater', Implies(flag, lt(a[lo + i - 1], b[i - 1]))),
                ('least-greater', Implies(flag, fa('q', lambda q: Implies(And(lo + i <= q, q < lo + n, lt(a[lo + i - 1], a[q])), Not(lt(a[q], b[i - 1]))), lambda q: a[q]))),
                ('rest-is-first', Implies(flag, fa('p q', lambda p, q: Implies(And(i <= p, p < q, q < n), Not(lt(b[q], b[p]))), lambda p, q: (b[p], b[q]))))]
        return out

    def down(self, c, a, lo, f, n):
        """positions lo + [f, n) of a are non-increasing"""
        return fa('p q', lambda p, q: Implies(And(lo + f <= p, p < q, q < lo + n), Not(self.lt(c, a[p], a[q]))), lambda p, q: (a[p], a[q]))

    def rearranged(self, c, b):
        """b[0..n) consists of the elements (occurrences) at lo..hi"""
        a, lo, n = self.arr(c), I(self.rangeof(c)[0]), self.size(c)
        return And(fa('q', lambda q: Implies(rng(0, q, n), And(rng(lo, tag(b[q]), lo + n), b[q] == a[tag(b[q])])), lambda q: b[q]),
                   fa('p q', lambda p, q: Implies(And(0 <= p, p < q, q < n), tag(b[p]) != tag(b[q])), lambda p, q: (b[p], b[q])))


@register
class Perm_util(_Perm):
    name = ALG + '_permutation_util'
    variants = ('next', 'prev')

    def ascending(self, c):
        k = c.eng.unit.k
        return c.eng.unit.variant == 'next' if isinstance(k, Perm_util) else k.up

    def setup(self, x):
        arr = self.array(x)

        def pc(eng, st, args, node):
            u, v, _ = args
            return [(st, Not(rk(u) < rk(v)) if x.variant == 'next' else Not(rk(v) < rk(u)))]
        return [arr, x.int('start'), x.int('end'), strict(), VSym(pc, 'perm_comp')], {}

    def rangeof(self, c):
        return c.raw('start'), c.raw('end')

    def pre(self, c):
        lo, hi = self.rangeof(c)
        return self.wf(c) + [('tags', tags_(self.arr(c), I(lo), I(hi) + 1))]

    def pivot(self, c, b, flag):
        i = c.local('i')
        if i is None:
            i = c.eng.pivot = c.choose('i', IntS, lambda g: BoolVal(True))
        return I(i)

    def b(self, v):
        return v.permute._data.arr

    def copied(self, v):
        x, b, lo = v.c, self.b(v), I(v.start)
        return [('copied', fa('q', lambda q: Implies(rng(0, q, v.it), b[q] == x['a'][lo + q]), lambda q: b[q]))]

    def wfp(self, v):
        return [('size', And(v.permute._size == v.size, v.permute._data.len == v.size))]

    def loops(self, u):
        def same(v):
            return fa('q', lambda q: Implies(rng(0, q, v.size), self.b(v)[q] == v.c['a'][I(v.start) + q]), lambda q: self.b(v)[q])
        lt = lambda a, b: rk(a) < rk(b) if u.variant == 'next' else rk(b) < rk(a)

        def climbing(v):
            return [('range', And(v.i <= v.size - 1, Or(v.i >= 0, v.i == v.size - 1))), ('copied', same(v)),
                    ('falling', fa('p q', lambda p, q: Implies(And(v.i <= p, p < q, q < v.size), Not(lt(v.g('P')[p], v.g('P')[q]))), lambda p, q: (v.g('P')[p], v.g('P')[q]))),
                    ('kept', fa('q', lambda q: Implies(rng(0, q, v.size), self.b(v)[q] == v.g('P')[q]), lambda q: self.b(v)[q], lambda q: v.g('P')[q])),
                    ('source', fa('q', lambda q: Implies(rng(I(v.start), q, I(v.start) + v.size), v.c['a'][q] == v.g('P')[q - I(v.start)]), lambda q: v.c['a'][q]))]

        def search(v):
            b, i = self.b(v), v.i
            return [('range', And(i <= v.left, v.left <= v.right + 1, v.right < v.size)),
                    ('greater', fa('q', lambda q: Implies(rng(i, q, v.left), lt(b[i - 1], b[q])), lambda q: b[q])),
                    ('not-greater', fa('q', lambda q: Implies(And(v.right < q, q < v.size), Not(lt(b[i - 1], b[q]))), lambda q: b[q]))]

        def turning(v):
            b, e, i, n = self.b(v), self.b(v.entry), v.i, v.size
            return [('range', And(i <= v.left, v.left - i == n - 1 - v.right, Or(n == 0, v.left <= v.right + 1))),
                    ('turned', fa('q', lambda q: Implies(rng(0, q, n), b[q] == e[If(Or(rng(i, q, v.left), q > v.right), i + n - 1 - q, q)]), lambda q: b[q]))]
        return {1: LoopSpec(inv=lambda v: self.copied(v)), 2: LoopSpec(inv=climbing, ghosts=(), ghost_init=lambda v: {'P': self.b(v)}, variant=lambda v: v.i),
                3: LoopSpec(inv=search, variant=lambda v: v.right - v.left + 1), 4: LoopSpec(inv=turning, variant=lambda v: v.right - v.left + 1)}

    def apply(self, eng, st, args, kw, node):
        # the comparison handed over decides `not strictly ordered`, for all elements
        u, v = fresh_const('u', E), fresh_const('v', E)
        s = st.fork(And(Not(isNone(u)), Not(isNone(v))), True, 'perm_comp')
        for s2, r in eng.call(s, args[4], [u, v, args[3]], {}, node):
            lt = rk(u) < rk(v) if eng.unit.k.up else rk(v) < rk(u)
            eng.safe('comparison', s2, BoolVal(False) if isinstance(r, PyExc) else B(r) == Not(lt), node)
        return super().apply(eng, st, args, kw, node)


class _NextPrev(_Perm):
    uses = ('Perm_util', 'ODA_len')
    variants = ('default', 'explicit')

    def ascending(self, c):
        return self.up

    def setup(self, x):
        arr = self.array(x)
        if x.variant == 'default':
            x['lo'], x['hi'] = IntVal(0), x['n'] - 1
            return [arr], {}
        x['lo'], x['hi'] = x.int('start'), x.int('end')
        return [arr], {'start': x['lo'], 'end': x['hi'], 'comp': strict()}

    def rangeof(self, c):
        return c.cx['lo'], c.cx['hi']

    def pre(self, c):
        lo, hi = self.rangeof(c)
        return self.wf(c) + [('tags', tags_(self.arr(c), I(lo), I(hi) + 1))]

    def pivot(self, c, b, flag):
        return c.eng.pivot


@register
class NextPerm(_NextPrev):
    name = ALG + 'next_permutation'


@register
class PrevPerm(_NextPrev):
    name = ALG + 'prev_permutation'
    up = False


LI = ('list', 'int')
LIS_, li_mk, li_len, li_arr = dt(LI)[:4]
MS = z3.ArraySort(IntS, LIS_)
dot = z3.Function('dot', MS, MS, IntS, IntS, IntS, IntS)


LO = ('list', 'optint')
_, lo_mk, lo_len, lo_arr = dt(LO)[:4]


def at(m, i, j):
    return li_arr(m[i])[j]


def _dots():
    a, b = z3.Const('m1', MS), z3.Const('m2', MS)
    r, c, k = z3.Ints('r c k')
    return And(ForAll([a, b, r, c], dot(a, b, r, c, 0) == 0, patterns=[dot(a, b, r, c, 0)]),
               ForAll([a, b, r, c, k], Implies(k >= 0, dot(a, b, r, c, k + 1) == dot(a, b, r, c, k) + at(a, r, k) * at(b, k, c)), patterns=[dot(a, b, r, c, k + 1)]))


@register
class MatHelper(Contract):
    """the sum of m1[row][i] * m2[i][col] over i"""
    name = ALG + '_matrix_multiply_helper'
    axioms = (_dots(),)

    def setup(self, x):
        x.assume(And(x.int('rows1') >= 0, x.int('rows2') >= 0))
        return [x.list('m1', LI, x.int('rows1')), x.list('m2', LI, x.int('rows2')), x.int('row'), x.int('col')], {}

    def pre(self, c):
        a, b = c.o('m1'), c.o('m2')
        r, k = I(c.raw('row')), I(c.raw('col'))
        return [('row', rng(0, r, a.len)), ('width', li_len(a.arr[r]) == b.len), ('column', fa('i', lambda i: Implies(rng(0, i, b.len), rng(0, k, li_len(b.arr[i]))), lambda i: b.arr[i]))]

    def result(self, c):
        return 'int'

    def post(self, c):
        a, b = c.o('m1'), c.o('m2')
        return [('product', c.res == dot(a.arr, b.arr, I(c.raw('row')), I(c.raw('col')), b.len))]

    loops = {1: LoopSpec(inv=lambda v: [('partial', v.s == dot(v.m1.arr, v.m2.arr, v.row, v.col, v.it))], end_lemmas=lambda v, h: [('next', dot(v.m1.arr, v.m2.arr, v.row, v.col, h.it + 1) == dot(v.m1.arr, v.m2.arr, v.row, v.col, h.it) + at(v.m1.arr, v.row, h.it) * at(v.m2.arr, h.it, v.col))])}


@register
class MatMul(Contract):
    """the product of every pair of compatible matrices; ValueError for others"""
    name = ALG + 'matrix_multiply_parallel'
    uses = ('MatHelper',)
    axioms = (_dots(),)

    def setup(self, x):
        x.assume(And(x.int('rows1') >= 0, x.int('rows2') >= 0))
        return [x.list('m1', LI, x.int('rows1')), x.list('m2', LI, x.int('rows2')), x.int('threads')], {}

    def pre(self, c):
        rect = lambda m: And(m.len >= 1, fa('i', lambda i: Implies(rng(0, i, m.len), li_len(m.arr[i]) == li_len(m.arr[0])), lambda i: m.arr[i]), li_len(m.arr[0]) >= 0)
        return [('rectangular', And(rect(c.o('matrix_1')), rect(c.o('matrix_2'))))]

    def raises(self, c):
        return {'ValueError': li_len(c.o('matrix_1').arr[0]) != c.o('matrix_2').len}

    def comp_kind(self, e):
        return LO

    def result(self, c):
        return ('list', LO)

    def post(self, c):
        a, b = c.o('matrix_1'), c.o('matrix_2')
        m = c.P(c.res_v, c.new)
        return [('rows', m.len == a.len), ('columns', fa('i', lambda i: Implies(rng(0, i, a.len), lo_len(m.arr[i]) == li_len(b.arr[0])), lambda i: m.arr[i])),
                ('product', fa('i j', lambda i, j: Implies(And(rng(0, i, a.len), rng(0, j, li_len(b.arr[0]))), lo_arr(m.arr[i])[j] == OI.oi_some(dot(a.arr, b.arr, i, j, b.len))), lambda i, j: lo_arr(m.arr[i])[j]))]

    def loops(self, u):
        def part(v, inner):
            a, b, m = v.matrix_1, v.matrix_2, v.C
            done = (lambda i, j: Or(i < v.iter(1), And(i == v.iter(1), j < v.iter(2)))) if inner else (lambda i, j: i < v.iter(1))
            return [('rows', And(m.len == a.len, fa('i', lambda i: Implies(rng(0, i, a.len), lo_len(m.arr[i]) == li_len(b.arr[0])), lambda i: m.arr[i]))),
                    ('product', fa('i j', lambda i, j: Implies(And(rng(0, i, a.len), rng(0, j, li_len(b.arr[0])), done(i, j)), lo_arr(m.arr[i])[j] == OI.oi_some(dot(a.arr, b.arr, i, j, b.len))), lambda i, j: lo_arr(m.arr[i])[j]))]
        return {1: LoopSpec(inv=lambda v: part(v, False)), 2: LoopSpec(inv=lambda v: part(v, True))}


LE = ('list', 'elem')
LES, le_mk, le_len, le_arr = dt(LE)[:4]
CELL = ('tuple', 'int', LE)
CS_, cell_mk, cell_n, cell_l = dt(CELL)[:4]
ROW = ('list', CELL)
RS_, row_mk, row_len, row_arr = dt(ROW)[:4]
# "l is a common subsequence of a[0..i) and b[0..j)" and "some common subsequence of them has length n", the least relations closed under the rules
EA = z3.ArraySort(IntS, E)
com = z3.Function('common_subsequence', EA, EA, IntS, IntS, LES, BoolS)
comn = z3.Function('common_length', EA, EA, IntS, IntS, IntS, BoolS)


def com_empty(a, b, i, j, l):
    return ('empty sequence', Implies(And(i >= 0, j >= 0, le_len(l) == 0), com(a, b, i, j, l)), 'def')


def com_extend(a, b, i, j, l, m):
    """m is l with one more element, a[i] == b[j]"""
    n = le_len(l)
    return ('longer sequence', Implies(And(com(a, b, i, j, l), py_eq(a[i], b[j]), n >= 0, le_len(m) == n + 1, le_arr(m)[n] == a[i], fa('q', lambda q: Implies(rng(0, q, n), le_arr(m)[q] == le_arr(l)[q]), lambda q: le_arr(m)[q])), com(a, b, i + 1, j + 1, m)), 'def')


def com_wider(a, b, i, j, l):
    return ('longer inputs', Implies(com(a, b, i, j, l), And(com(a, b, i + 1, j, l), com(a, b, i, j + 1, l))), 'def')


def table(L, a, b, i, j):
    """the recurrence at (i, j) >= 1 and the two facts about neighbours"""
    return L(i, j) == If(py_eq(a[i - 1], b[j - 1]), L(i - 1, j - 1) + 1, If(L(i - 1, j) > L(i, j - 1), L(i - 1, j), L(i, j - 1)))


def _lcs(T, a, b, n, m):
    L = lambda i, j: T[i][j]
    i, j, q = z3.Ints('i j q')
    return Implies(And(n >= 0, m >= 0, table_hyp(T, a, b, n, m)), ForAll([q], Implies(comn(a, b, n, m, q), q <= T[n][m]), patterns=[comn(a, b, n, m, q)]))


TT = z3.ArraySort(IntS, z3.ArraySort(IntS, IntS))


def table_hyp(T, a, b, n, m):
    L = lambda i, j: T[i][j]
    return And(fa('i', lambda i: Implies(And(0 <= i, i <= n), L(i, 0) == 0), lambda i: T[i]), fa('j', lambda j: Implies(And(0 <= j, j <= m), L(0, j) == 0), lambda j: T[0][j]),
               fa('i j', lambda i, j: Implies(And(1 <= i, i <= n, 1 <= j, j <= m), And(table(L, a, b, i, j), L(i - 1, j) <= L(i, j), L(i, j) <= L(i - 1, j) + 1, L(i, j - 1) <= L(i, j), L(i, j) <= L(i, j - 1) + 1)), lambda i, j: T[i][j]))


def _lcs_obls():
    T, a, b = z3.Const('T', TT), z3.Const('a', EA), z3.Const('b', EA)
    n, m, i, j, q = z3.Ints('n m i j q')
    hyp = [n >= 0, m >= 0, table_hyp(T, a, b, n, m), 0 <= i, i <= n, 0 <= j, j <= m]
    C = lambda i, j, q: Implies(And(i <= n, j <= m), q <= T[i][j])
    at = lambda i, j: T[i][j] == T[i][j]
    return [('empty', hyp + [Or(i == 0, T[i][j] >= T[i - 1][j]), T[i - 1][j] >= 0], T[i][j] >= 0), ('empty-first', hyp + [i == 0], T[i][j] >= 0),
            ('extend', hyp + [C(i, j, q), py_eq(a[i], b[j]), i + 1 <= n, j + 1 <= m], q + 1 <= T[i + 1][j + 1]),
            ('wider-1', hyp + [C(i, j, q), i + 1 <= n], Implies(j >= 1, q <= T[i + 1][j])), ('wider-1-0', hyp + [C(i, 0, q), i + 1 <= n], q <= T[i + 1][0]),
            ('wider-2', hyp + [C(i, j, q), j + 1 <= m], Implies(i >= 1, q <= T[i][j + 1])), ('wider-2-0', hyp + [C(0, j, q), j + 1 <= m], q <= T[0][j + 1])]


lcs = Lemma('recurrence-bounds-common-subsequences', _lcs, _lcs_obls)


@register
class LCS(Contract):
    """a common subsequence of maximal length"""
    name = ALG + 'longest_common_subsequence'
    uses = ('ODA_getitem_in', 'ODA_len', 'ODA_new')

    def setup(self, x):
        s = [oda(x, 'a'), oda(x, 'b')]
        return s, {}

    def pre(self, c):
        return [('wf', And(*[And(s._size == s._data.len, s._size >= 0) for s in (c.o('seq1'), c.o('seq2'))]))]

    def dicthint(self, eng, st, o):
        return named(st, o, {'check_mat': ('int', ROW)})

    def comp_kind(self, e):
        return CELL

    def result(self, c):
        return ('ref', 'OneDimensionalArray')

    def post(self, c):
        a, b = c.o('seq1'), c.o('seq2')
        r = c.P(c.res_v, c.new)
        l = le_mk(r._size, r._data.arr)
        q = z3.Int('q')
        n, m = a._size, b._size
        return [('common-subsequence', com(a._data.arr, b._data.arr, n, m, l)), ('longest', ForAll([q], Implies(comn(a._data.arr, b._data.arr, n, m, q), q <= r._size), patterns=[comn(a._data.arr, b._data.arr, n, m, q)]))]

    def loops(self, u):
        def parts(v):
            M = v.check_mat
            cell = lambda i, j: row_arr(M.map[i])[j]
            return v.seq1._data.arr, v.seq2._data.arr, M, cell

        def tab(v, inner):
            a, b, M, cell = parts(v)
            n, m, T = v.row, v.col, v.g('T')
            last = v.i if inner else v.it - 1
            done = (lambda i, j: Or(i < v.i, And(i == v.i, j < v.it))) if inner else (lambda i, j: i < v.it)
            cells = lambda f: fa('i j', lambda i, j: Implies(And(0 <= i, i <= n, 0 <= j, j <= m, done(i, j)), f(i, j)), lambda i, j: T[i][j], lambda i, j: cell(i, j))
            L = lambda i, j: T[i][j]
            out = [('rows', And(n == v.seq1._size, m == v.seq2._size, fa('i', lambda i: And(M.dom[i] == And(0 <= i, i <= last), Implies(M.dom[i], row_len(M.map[i]) == m + 1)), lambda i: M.dom[i], lambda i: M.map[i]))),
                   ('cells', cells(lambda i, j: And(T[i][j] >= 0, cell_n(cell(i, j)) == T[i][j], le_len(cell_l(cell(i, j))) == T[i][j], com(a, b, i, j, cell_l(cell(i, j)))))),
                   ('not-yet', fa('i j', lambda i, j: Implies(Not(done(i, j)), T[i][j] == 0), lambda i, j: T[i][j])),
                   ('borders', And(fa('i', lambda i: Implies(And(0 <= i, i <= n), T[i][0] == 0), lambda i: T[i]), fa('j', lambda j: Implies(And(0 <= j, j <= m), T[0][j] == 0), lambda j: T[0][j]))),
                   ('recurrence', fa('i j', lambda i, j: Implies(And(1 <= i, i <= n, 1 <= j, j <= m, done(i, j)), And(table(L, a, b, i, j), L(i - 1, j) <= L(i, j), L(i, j) <= L(i - 1, j) + 1, L(i, j - 1) <= L(i, j), L(i, j) <= L(i, j - 1) + 1)), lambda i, j: T[i][j]))]
            return out

        def empties(v, i):
            a, b, M, cell = parts(v)
            return [('empty sequence', fa('j', lambda j: Implies(And(j >= 0, le_len(cell_l(cell(i, j))) == 0), com(a, b, I(i), j, cell_l(cell(i, j)))), lambda j: cell(i, j)), 'def')]

        def filled(v, h):
            a, b, M, cell = parts(v)
            old = parts(h)[3]
            i, j = v.i, h.it
            return [com_extend(a, b, i - 1, j - 1, cell_l(old(i - 1, j - 1)), cell_l(cell(i, j))), com_wider(a, b, i - 1, j, cell_l(old(i - 1, j))), com_wider(a, b, i, j - 1, cell_l(old(i, j - 1)))]

        def step(v):
            M = v.check_mat
            return {'T': Store(v.g('T'), v.i, Store(v.g('T')[v.i], v.it - 1, cell_n(row_arr(M.map[v.i])[v.it - 1])))}
        return {1: LoopSpec(inv=lambda v: tab(v, False), ghosts=('T',), ghost_init=lambda v: {'T': z3.K(IntS, z3.K(IntS, IntVal(0)))}, init_lemmas=lambda v: empties(v, 0)),
                2: LoopSpec(inv=lambda v: tab(v, True), ghosts=('T',), ghost_step=step, init_lemmas=lambda v: empties(v, v.i), end_lemmas=filled)}

    def lemmas_post(self, c):
        a, b = c.o('seq1'), c.o('seq2')
        T = c.local('@g_T')
        M = c.local('check_mat')
        if T is None or M is None:
            return []
        A, B_, n, m = a._data.arr, b._data.arr, a._size, b._size
        l = cell_l(row_arr(M.map[n])[m])
        r = c.P(c.res_v, c.new)
        k = le_mk(r._size, r._data.arr)
        same = And(le_len(l) == r._size, fa('q', lambda q: Implies(rng(0, q, r._size), r._data.arr[q] == le_arr(l)[q]), lambda q: r._data.arr[q]))
        return [lcs.use(T, A, B_, n, m), ('the same sequence', Implies(And(com(A, B_, n, m, l), same), com(A, B_, n, m, k)), 'def')]
