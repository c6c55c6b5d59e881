"""Segment tree of intervals (C19).  An interval is (closed at the left?, left end, right end, closed at the right?)."""
from .common import *
from .lemmas import Lemma
from .graphs import named
from . import register
from pyvc.values import dt

ST = 'trees.space_partitioning_trees:OneDimensionalSegmentTree.'
IV = ('tuple', 'bool', 'real', 'real', 'bool')
IVS, mk, lc, lo, hi, rc = dt(IV)[:6]
x_ = z3.Real('x')


def has(k, x):
    """the point x lies in the interval k"""
    return And(Or(lo(k) < x, And(lc(k), lo(k) == x)), Or(x < hi(k), And(rc(k), x == hi(k))))


def closure(k, x):
    return And(lo(k) <= x, x <= hi(k))


def proper(k):
    """an interval with points"""
    return Or(lo(k) < hi(k), And(lo(k) == hi(k), lc(k), rc(k)))


class _Seg(Contract):
    fields = {'parent': 'optint', 'size': 'int', 'height': 'int', 'is_root': 'bool', 'key': IV, 'left': 'optint', 'right': 'optint', 'data': ('opt', ('list', ('ref', 'TreeNode')))}
    heap_classes = ('TreeNode',)
    elem_class = 'TreeNode'
    assumes = ('end points are exact numbers',)
    variants = ('', 'none1', 'none2')

    def setup(self, x):
        a = [x.ref('i1', 'TreeNode'), x.ref('i2', 'TreeNode')]
        if x.variant.startswith('none'):
            a[int(x.variant[-1]) - 1] = None
        return [x.obj('OneDimensionalSegmentTree')] + a, {}

    def iv(self, c, n):
        return c.oheap('key')[c.raw(n).t]

    def nones(self, c):
        return c.raw('i1') is None or c.raw('i2') is None

    def pre(self, c):
        return [] if self.nones(c) else [('nodes', And(c.raw('i1').t > 0, c.raw('i2').t > 0)), ('proper', And(proper(self.iv(c, 'i1')), proper(self.iv(c, 'i2'))))]

    def result(self, c):
        return 'bool'


@register
class Seg_intersect(_Seg):
    """exactly the pairs with a common point, and those that touch where at least one has the point"""
    name = ST + '_intersect'

    def post(self, c):
        r = c.eng.encode(c.new, c.res_v, 'bool')
        if self.nones(c):
            return [('none', Not(r))]
        a, b = self.iv(c, 'i1'), self.iv(c, 'i2')
        return [('common-point', ForAll([x_], Implies(And(has(a, x_), has(b, x_)), r))), ('closures-meet', Implies(r, And(lo(a) <= hi(b), lo(b) <= hi(a))))]


@register
class Seg_contains(_Seg):
    """exactly the pairs where every point of the second lies in the first"""
    name = ST + '_contains'

    def post(self, c):
        r = c.eng.encode(c.new, c.res_v, 'bool')
        if self.nones(c):
            return [('none', Not(r))]
        a, b = self.iv(c, 'i1'), self.iv(c, 'i2')
        mid = lambda u, v: (u + v) / 2
        points = [lo(b), hi(b), lo(a), hi(a), mid(lo(b), hi(b)), mid(lo(b), lo(a)), mid(hi(a), hi(b))]
        out = Or(*[And(has(b, x), Not(has(a, x))) for x in points])
        return [('contained', Implies(r, ForAll([x_], Implies(has(b, x_), has(a, x_))))), ('not-contained', Implies(Not(r), out))]


@register
class Seg_union(_Seg):
    name = ST + '_union'
    variants = ('',)

    def pre(self, c):
        return super().pre(c) + [('adjacent', And(hi(self.iv(c, 'i1')) == lo(self.iv(c, 'i2')), rc(self.iv(c, 'i1')) != lc(self.iv(c, 'i2'))))]

    def result(self, c):
        return ('ref', 'TreeNode')

    def modifies(self, c):
        return [('nxt',)]

    def post(self, c):
        k = c.nheap('key')[c.res_v.t]
        a, b = self.iv(c, 'i1'), self.iv(c, 'i2')
        return [('union', ForAll([x_], has(k, x_) == Or(has(a, x_), has(b, x_))))]


# the tree that build() makes: positions may be negative (counted from the end)
N = z3.Int('N')
A = z3.Const('A', z3.ArraySort(IntS, IntS))
po, sz = z3.Function('seg_number', IntS, IntS), z3.Function('seg_size', IntS, IntS)      # number in pre-order, size of the subtree, of a node
W, WI = z3.Function('seg_where', IntS, IntS), z3.Function('seg_at', IntS, IntS)
LK = ('opt', ('list', ('ref', 'TreeNode')))
_, l_none, l_some, l_isnone, l_val = dt(LK)
_, l_mk, l_len, l_arr = dt(('list', ('ref', 'TreeNode')))
n_, m_, r_, q_ = z3.Int('n'), z3.Int('m'), z3.Int('r'), z3.Real('qx')
NODE = z3.Function('seg_node', IntS, BoolS)        # a node of the tree
SEG = z3.Function('seg_interval', IntS, BoolS)     # an interval that was given
T_ = z3.Function('seg_seen', IntS, IntS, BoolS)    # true everywhere: only a trigger
TRUE = fa('n j', lambda n, j: T_(n, j), lambda n, j: T_(n, j))


def at(i):
    """the node at a position"""
    return A[If(i < 0, i + N, i)]


def valid(i):
    return And(-N <= i, i < N)


def links(h):
    left, right = h('left'), h('right')
    L, R = lambda n: optint_(left[n]), lambda n: optint_(right[n])
    key = h('key')
    root = at(-1)
    return [('tree', And(N >= 1, NODE(root), po(root) == 0, fa('i', lambda i: Implies(rng(0, i, N), NODE(A[i])), lambda i: A[i]),
                         ForAll([n_], Implies(NODE(n_), And(n_ > 0, sz(n_) >= 1, po(n_) >= 0, po(n_) + sz(n_) <= sz(root))), patterns=[NODE(n_)]),
                         ForAll([n_, m_], Implies(And(NODE(n_), NODE(m_), po(n_) == po(m_)), n_ == m_), patterns=[MultiPattern(po(n_), po(m_))]),
                         ForAll([n_], Implies(NODE(n_), And(L(n_)[0] == R(n_)[0], Implies(L(n_)[0], sz(n_) == 1),
                                                            Implies(Not(L(n_)[0]), And(valid(L(n_)[1]), valid(R(n_)[1]), NODE(at(L(n_)[1])), NODE(at(R(n_)[1])), po(at(L(n_)[1])) == po(n_) + 1,
                                                                                        po(at(R(n_)[1])) == po(n_) + 1 + sz(at(L(n_)[1])), sz(n_) == 1 + sz(at(L(n_)[1])) + sz(at(R(n_)[1])))))), patterns=[left[n_]])))]+ [('proper', ForAll([n_], Implies(NODE(n_), proper(key[n_])), patterns=[key[n_]]))]


def tree(h):
    """what build() establishes (bounded): numbering, links, containment, data"""
    key, data, left, right = h('key'), h('data'), h('left'), h('right')
    root = at(-1)
    return links(h) + [
            ('nested', ForAll([n_, m_], Implies(And(NODE(n_), NODE(m_), po(n_) <= po(m_), po(m_) < po(n_) + sz(n_), has(key[m_], q_)), has(key[n_], q_)), patterns=[MultiPattern(NODE(n_), NODE(m_))])),
            ('lengths', ForAll([n_], l_len(l_val(data[n_])) >= 0, patterns=[data[n_]])),
            ('data-covers', fa('n j', lambda n, j: Implies(And(NODE(n), Not(l_isnone(data[n])), rng(0, j, l_len(l_val(data[n])))), And(SEG(l_arr(l_val(data[n]))[j]), Implies(Or(n == root, closure(key[n], q_)), has(key[l_arr(l_val(data[n]))[j]], q_)))), lambda n, j: l_arr(l_val(data[n]))[j])),
            ('data-complete', ForAll([r_], Implies(And(SEG(r_), has(key[r_], q_)), And(NODE(W(r_)), has(key[W(r_)], q_), Not(l_isnone(data[W(r_)])), rng(0, WI(r_), l_len(l_val(data[W(r_)]))), l_arr(l_val(data[W(r_)]))[WI(r_)] == r_, T_(W(r_), WI(r_)))), patterns=[W(r_)])),
            ]


def optint_(t):
    return OI.is_oi_none(t), OI.oi_val(t)


@register
class Seg_iterate(_Seg):
    """appends the right, then the left child, each if it meets the interval"""
    name = ST + '_iterate'
    uses = ('Seg_intersect',)
    variants = ('',)

    def setup(self, x):
        t = x.eng.new_cell(x.st, ArrRec(N, A, ('ref', 'TreeNode')))
        return [x.obj('OneDimensionalSegmentTree', tree=t, root_idx=-1, cache=True), x.list('calls', 'int'), x.ref('I', 'TreeNode'), x.int('idx')], {}

    def pre(self, c):
        k = c.oheap('key')
        i = I(c.params['idx'])
        return links(c.oheap) + [('node', And(valid(i), NODE(at(i)))), ('interval', And(c.raw('I').t > 0, proper(k[c.raw('I').t])))]

    def modifies(self, c):
        return [('list', c.raw('calls'), 'both')]

    def apply(self, eng, st, args, kw, node):
        return [(s, args[1]) for s, v in super().apply(eng, st, args, kw, node)]

    def result(self, c):
        return 'bool'           # not used: the list itself is returned

    def post(self, c):
        h = c.oheap
        n, a, b, key = at(I(c.params['idx'])), c.n('calls'), c.o('calls'), h('key')
        Ln, Lv = optint_(h('left')[n])
        Rn, Rv = optint_(h('right')[n])
        i = key[c.raw('I').t]
        meet = lambda k: And(lo(i) <= hi(k), lo(k) <= hi(i))
        out = [('prefix', And(b.len <= a.len, fa('j', lambda j: Implies(rng(0, j, b.len), a.arr[j] == b.arr[j]), lambda j: a.arr[j], lambda j: b.arr[j]))),
                ('leaf', Implies(Ln, a.len == b.len)), ('children', Implies(Not(Ln), And(a.len <= b.len + 2, Implies(a.len == b.len + 1, Or(And(a.arr[b.len] == Lv, meet(key[at(Lv)])), And(a.arr[b.len] == Rv, meet(key[at(Rv)])))),
                                                                       Implies(a.len == b.len + 2, And(a.arr[b.len] == Rv, a.arr[b.len + 1] == Lv, meet(key[at(Lv)]), meet(key[at(Rv)])))))),
                ('right', ForAll([x_], Implies(And(Not(Ln), has(i, x_), has(key[at(Rv)], x_)), And(a.len > b.len, a.arr[b.len] == Rv)))),
                ('left', ForAll([x_], Implies(And(Not(Ln), has(i, x_), has(key[at(Lv)], x_)), And(a.len > b.len, a.arr[a.len - 1] == Lv))))]
        if c.calling:       # at the point that the search is for
            out = out[:3] + [(n, z3.substitute_vars(f.body(), q_)) for n, f in out[3:]]
        else:
            out += [('same-list', BoolVal(c.res_v == c.raw('calls')))]
        return out


@register
class Seg_query_(_Seg):
    """exactly the intervals that contain the point, for every tree as build() makes it"""
    name = ST + 'query'
    uses = ('Seg_iterate',)
    variants = ('',)
    axioms = (TRUE,)

    def setup(self, x):
        t = x.eng.new_cell(x.st, ArrRec(N, A, ('ref', 'TreeNode')))
        return [x.obj('OneDimensionalSegmentTree', tree=t, root_idx=-1, cache=True), q_], {}

    def pre(self, c):
        return tree(c.oheap) + [('allocated', ForAll([n_], Implies(Or(NODE(n_), SEG(n_)), n_ < c.old.nxt), patterns=[NODE(n_)]))]

    def modifies(self, c):
        return [('nxt',)]

    def post(self, c):
        key = c.oheap('key')
        D = c.P(c.res_v).dom
        return [('exactly', ForAll([r_], D[r_] == And(SEG(r_), has(key[r_], q_)), patterns=[D[r_], W(r_)]))]

    def listhint(self, eng, st, o):
        return named(st, o, {'intervals': ('ref', 'TreeNode'), 'calls': 'int'})

    def loops(self, u):
        def inv(v):
            key, data, S, R, cur = v.heap('key'), v.heap('data'), v.calls, v.intervals, v.g('cur')
            K_ = lambda j: at(S.arr[j])
            where, ri = v.g('where'), v.g('ri')
            return [('stack', fa('j', lambda j: Implies(rng(0, j, S.len), And(valid(S.arr[j]), NODE(K_(j)), po(K_(j)) >= cur, Or(K_(j) == at(-1), closure(key[K_(j)], q_)))), lambda j: S.arr[j])),
                    ('ordered', fa('j k', lambda j, k: Implies(And(0 <= j, j < k, k < S.len), po(K_(k)) + sz(K_(k)) <= po(K_(j))), lambda j, k: (S.arr[j], S.arr[k]))),
                    ('number', And(0 <= cur, cur <= sz(at(-1)))),
                    ('sound', fa('j', lambda j: Implies(rng(0, j, R.len), And(SEG(R.arr[j]), has(key[R.arr[j]], q_))), lambda j: R.arr[j])),
                    ('done', fa('n j', lambda n, j: Implies(And(T_(n, j), NODE(n), has(key[n], q_), po(n) < cur, Not(l_isnone(data[n])), rng(0, j, l_len(l_val(data[n])))),
                                                           And(rng(0, ri[n] + j, R.len), R.arr[ri[n] + j] == l_arr(l_val(data[n]))[j])), lambda n, j: T_(n, j))),
                    ('to-come', ForAll([n_], Implies(And(NODE(n_), has(key[n_], q_), po(n_) >= cur), And(rng(0, where[n_], S.len), po(K_(where[n_])) <= po(n_), po(n_) < po(K_(where[n_])) + sz(K_(where[n_])))), patterns=[where[n_], NODE(n_)]))]

        def step(v, h):
            S, R = h.calls, h.intervals
            n0 = at(S.arr[S.len - 1])
            key, left, right = h.heap('key'), h.heap('left'), h.heap('right')
            l = at(optint_(left[n0])[1])
            # the right child (when it was pushed) comes first
            new = v.calls
            return {'cur': po(n0) + 1, 'ri': v.define('ri1', lambda n: If(n == n0, R.len, h.g('ri')[n]), IntS),
                    'where': v.define('where1', lambda n: If(And(po(n0) < po(n), po(n) < po(n0) + sz(n0)), If(po(n) < po(l) + sz(l), new.len - 1, S.len - 1), h.g('where')[n]), IntS)}
        def lem(v, h):
            n0, cur = at(h.calls.arr[h.calls.len - 1]), h.g('cur')
            key = v.heap('key')
            return [('this-node', And(NODE(n0), po(n0) >= cur)), ('next', ForAll([n_], Implies(And(NODE(n_), has(key[n_], q_), po(n_) <= po(n0)), Or(po(n_) < cur, n_ == n0)), patterns=[NODE(n_)])),
                    ('kept', And(v.intervals.len >= h.intervals.len, fa('j', lambda j: Implies(rng(0, j, h.intervals.len), v.intervals.arr[j] == h.intervals.arr[j]), lambda j: h.intervals.arr[j], lambda j: v.intervals.arr[j]))),
                    ('reported', Implies(Not(l_isnone(v.heap('data')[n0])), And(v.intervals.len == h.intervals.len + l_len(l_val(v.heap('data')[n0])),
                        fa('j', lambda j: Implies(rng(0, j, l_len(l_val(v.heap('data')[n0]))), v.intervals.arr[h.intervals.len + j] == l_arr(l_val(v.heap('data')[n0]))[j]), lambda j: T_(n0, j)))))]
        return {1: LoopSpec(inv=inv, end_lemmas=lem, ghosts=('cur', 'where', 'ri'), ghost_init=lambda v: {'cur': IntVal(0), 'where': z3.K(IntS, IntVal(0)), 'ri': z3.K(IntS, IntVal(0))}, ghost_step=step,
                            variant=lambda v: sz(at(-1)) - v.g('cur'))}
