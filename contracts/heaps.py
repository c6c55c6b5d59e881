"""D-ary heaps.  The heap array holds references to nodes (one node per position); keys and data move between nodes.
Occurrences of keys carry distinct ghost tags; W is the ghost position of every tag (chosen anew after each operation,
which is conservative because the tags are proved distinct)."""
from .common import *
from .doda import doda, contig0
from .lemmas import Lemma
from . import register
from pyvc.spec import SpecError

HP = 'trees.heaps:DHeap.'
RA = z3.ArraySort(IntS, IntS)
par = z3.Function('hpar', IntS, IntS, IntS)      # parent position in a d-ary heap
_d, _j, _i = z3.Ints('pd pj pi')
PAR_DEF = ForAll([_d, _j], Implies(And(_d >= 1, _j >= 1), par(_d, _j) == (_j - 1) / _d), patterns=[par(_d, _j)])


def _range(d, j):
    p = par(d, j)
    return And(d * p + 1 <= j, j <= d * p + d, p >= 0, p < j)


def _par_obls():
    d, j, i = z3.Ints('d j i')
    p = (j - 1) / d
    h = [d >= 1, j >= 1]
    m = (j - 1) % d
    return [('division', h, And(j - 1 == d * p + m, 0 <= m, m < d)),
            ('range', h + [j - 1 == d * p + m, 0 <= m, m < d], And(d * p + 1 <= j, j <= d * p + d)),
            ('nonneg', h + [j - 1 == d * p + m, 0 <= m, m < d, Implies(p <= -1, d * p <= -d)], p >= 0),
            ('below', h + [j - 1 == d * p + m, 0 <= m, p >= 0, Implies(p >= 0, d * p >= p)], p < j),
            ('unique-up', h + [d * p + 1 <= j, j <= d * p + d, d * i + 1 <= j, j <= d * i + d, Implies(i <= p - 1, d * i <= d * (p - 1)), d * (p - 1) == d * p - d], i >= p),
            ('unique-down', h + [d * p + 1 <= j, j <= d * p + d, d * i + 1 <= j, j <= d * i + d, Implies(p <= i - 1, d * p <= d * (i - 1)), d * (i - 1) == d * i - d], i <= p),
            ('mult-monotone', [d >= 1, i <= p - 1], d * i <= d * (p - 1)), ('mult-monotone-2', [d >= 1, p <= i - 1], d * p <= d * (i - 1)),
            ('mult-negative', [d >= 1, p <= -1], d * p <= -d), ('mult-nonneg', [d >= 1, p >= 0], d * p >= p)]


parent_range = Lemma('heap-parent-range', lambda d: fa('j', lambda j: Implies(And(d >= 1, j >= 1), _range(d, j)), lambda j: par(d, j)), _par_obls)
parent_unique = Lemma('heap-parent-unique', lambda d, j, i: Implies(And(d >= 1, j >= 1, d * i + 1 <= j, j <= d * i + d), par(d, j) == i), _par_obls)


parent_at = Lemma('heap-parent-at', lambda d, j: Implies(And(d >= 1, j >= 1), And(_range(d, j), par(d, j) == (j - 1) / d)), _par_obls, axioms=[PAR_DEF])
parent_children = Lemma('heap-children', lambda d, i: fa('j', lambda j: Implies(And(d >= 1, j >= 1, par(d, j) == i), And(d * i + 1 <= j, j <= d * i + d)), lambda j: par(d, j)), _par_obls)


hrk = z3.Function('hrk', E, IntS)       # the order of the heap; a constructor instantiates it (ascending: rk, descending: -rk)


def comp_fits(c, f):
    """the comparator f is between < and <= of the heap's order on keys that are not None"""
    f = getattr(f, 'v', f)
    if isinstance(f, VSym) and getattr(f, 'between', False):
        return BoolVal(True)
    u, v = z3.Const('cu', E), z3.Const('cv', E)
    st = c.old.copy()
    st.assume(And(Not(isNone(u)), Not(isNone(v))))
    n, no = len(st.pc), len(c.eng.obls)
    out = []
    for s, r in c.eng.call(st, f, [u, v], {}, None):
        path = And(*([p[0] for p in s.pc[n:]] or [BoolVal(True)]))
        b = r if isinstance(r, (bool, z3.BoolRef)) else BoolVal(False)
        out.append(Implies(path, And(BoolVal(isinstance(r, (bool, z3.BoolRef))), Implies(hrk(u) < hrk(v), b), Implies(b, hrk(u) <= hrk(v)))))
    return ForAll([u, v], Implies(And(Not(isNone(u)), Not(isNone(v))), And(*out)))


def comp_between():
    """user comparator: true for strictly smaller, false for strictly larger first arguments, free on ties (covers < and <=)"""
    f = z3.Function('hcomp', E, E, BoolS)

    def fn(eng, st, args, node):
        u, v = args
        eng.safe('comp-arg-not-none', st, And(Not(isNone(u)), Not(isNone(v))), node)
        st.assume(And(Implies(hrk(u) < hrk(v), f(u, v)), Implies(f(u, v), hrk(u) <= hrk(v))))
        return [(st, f(u, v))]
    r = VSym(fn, '_comp')
    r.between = True
    return r


def ghost(s, n):
    try:
        return getattr(s, 'g_' + n)
    except SpecError:           # an object under construction: the choice made by its constructor's contract
        return z3.Const(n + '0', RA)


class H:
    """a heap in one state"""
    def __init__(self, c, st, h, s=None):
        s = s if s is not None else c.P(c.params['self'], st)
        self.s, self.a, self.n, self.d = s, s.heap._data.arr, I(s.heap._num), I(s.d)
        self.lpf, self.items = I(s._last_pos_filled), s.heap
        self.K, self.D, self.nxt, self.W, self.P = h('key'), h('data'), st.nxt, ghost(s, 'W'), ghost(s, 'P')

    def node(self, i):
        return refof(self.a[i])

    def key(self, i):
        return self.K[self.node(i)]

    def data(self, i):
        return self.D[self.node(i)]

    def wf(self):
        n = self.n
        return contig0(self.items) + [
            ('starts-at-zero', And(self.lpf == n - 1, self.d >= 1)),
            ('own-nodes', fa('i', lambda i: Implies(rng(0, i, n), And(self.node(i) > 0, self.node(i) < self.nxt, self.P[self.node(i)] == i)), lambda i: self.a[i]))]

    def tags(self):
        return [('tags', fa('i', lambda i: Implies(rng(0, i, self.n), And(self.W[tag(self.key(i))] == i, Not(isNone(self.key(i))))), lambda i: self.a[i]))]

    def distinct(self):
        return fa('i j', lambda i, j: Implies(And(rng(0, i, self.n), rng(0, j, self.n), i != j), tag(self.key(i)) != tag(self.key(j))), lambda i, j: (self.a[i], self.a[j]))

    def le(self, i, j):
        return hrk(self.key(i)) <= hrk(self.key(j))

    def edge(self, j):
        return self.le(par(self.d, j), j)

    def ordered(self, lo=0, skip=None):
        """all edges whose upper end is at or beyond lo (and not `skip`)"""
        def f(j):
            p = par(self.d, j)
            g = [1 <= j, j < self.n, p >= lo] + ([p != skip] if skip is not None else [])
            return Implies(And(*g), self.edge(j))
        return fa('j', f, lambda j: par(self.d, j))


def moved(o, n, lo=0):
    """the same (key, data) occurrences"""
    return [('same-occurrences', fa('i', lambda i: Implies(rng(0, i, n.n), And(n.key(i) == o.key(o.W[tag(n.key(i))]), n.data(i) == o.data(o.W[tag(n.key(i))]), rng(0, o.W[tag(n.key(i))], o.n))),
                                    lambda i: n.a[i])),
            ]


class _Heap(Contract):
    fields = dict(key='elem', data='elem', left='optint', right='optint', parent='optint', height='int', size='int', is_root='bool', _leftmost='int', _rightmost='int')
    heap_classes = ('TreeNode',)
    elem_class = 'TreeNode'
    uses = ('ODA_getitem_in',)
    d = None
    variants = ('any', 'd=2')

    def me(self, x):
        d = z3.Int('arity') if x.variant == 'any' else 2
        return x.obj('DHeap', heap=doda(x), d=d, _comp=comp_between(), _last_pos_filled=x.int('last'), heap_property=VOpaque('hp'), **{'@W': z3.Const('W', RA), '@P': z3.Const('P', RA)})

    def setup(self, x):
        return [self.me(x)], {}

    def o(self, c):
        return H(c, c.old, c.oheap)

    def n(self, c):
        return H(c, c.new, c.nheap)

    @property
    def axioms(self):
        return [PAR_DEF]

    def pre(self, c):
        return self.o(c).wf() + self.o(c).tags() + [('comparator', comp_fits(c, self.o(c).s._comp))]

    def modifies(self, c):
        return [('heap', 'key'), ('heap', 'data')]

    def frame(self, c):
        """nodes outside the heap keep key and data"""
        o, n = self.o(c), self.n(c)
        inside = lambda r: ex('i', lambda i: And(rng(0, i, o.n), o.node(i) == r))
        f = lambda a, b: fa('r', lambda r: Implies(And(0 < r, r < o.nxt, fa('i', lambda i: Implies(rng(0, i, o.n), o.node(i) != r), lambda i: o.a[i])), b[r] == a[r]), lambda r: b[r])
        return [('other-nodes', And(f(o.K, n.K), f(o.D, n.D)))]

    def rechoose(self, c, n):
        def fact(W):
            f = fa('i', lambda i: Implies(rng(0, i, n.n), W[tag(n.key(i))] == i), lambda i: n.a[i])
            return f if c.calling else Implies(n.distinct(), f)       # a call may rely on the postcondition 'each-once'
        W = c.choose('W', RA, fact)
        c.set_ghost(c.raw('self') if 'self' in c.params else c.res_v, '@W', W)


@register
class DHeap_swap(_Heap):
    name = HP + '_swap'
    variants = ('any',)

    def setup(self, x):
        return [self.me(x), x.int('i'), x.int('j')], {}

    def pre(self, c):
        o = self.o(c)
        i, j = I(c.o('idx1')), I(c.o('idx2'))
        return o.wf() + [('positions', And(rng(0, i, o.n), rng(0, j, o.n)))]

    def post(self, c):
        o, n = self.o(c), self.n(c)
        i, j = I(c.o('idx1')), I(c.o('idx2'))
        f = lambda a, b: fa('r', lambda r: b[r] == If(r == o.node(i), a[o.node(j)], If(r == o.node(j), a[o.node(i)], a[r])), lambda r: b[r])
        c.set_ghost(c.raw('self'), '@W', Store(Store(o.W, tag(o.key(j)), i), tag(o.key(i)), j))
        return [('swapped', And(f(o.K, n.K), f(o.D, n.D)))]


@register
class DHeap_heapify(_Heap):
    name = HP + '_heapify'
    uses = ('ODA_getitem_in', 'DHeap_swap')

    def setup(self, x):
        return [self.me(x), x.int('i')], {}

    def pre(self, c):
        o = self.o(c)
        i = I(c.o('i'))
        return super().pre(c) + [('position', i >= 0), ('below-ordered', o.ordered(i, i))]

    def post(self, c):
        o, n = self.o(c), self.n(c)
        i = I(c.o('i'))
        self.rechoose(c, n)
        # positions above i keep their entries
        keep = fa('k', lambda k: Implies(rng(0, k, If(i < o.n, i, o.n)), And(n.key(k) == o.key(k), n.data(k) == o.data(k))), lambda k: n.a[k])
        return [('heap-order-from-i', n.ordered(i)), ('positions-before-i', keep)] + moved(o, n) + [('each-once', n.distinct())] + self.frame(c)

    def loops(self, u):
        def view(v, entry=False):
            c = CV(v)
            return c

        def outer(v):
            h, o = hv(v, v.self), hv(v.old, v.old.self, v.old)
            i0, i = v.old.i, v.i
            up = fa('j', lambda j: Implies(And(1 <= j, j < h.n, par(h.d, j) == i, i > i0), h.le(par(h.d, i), j)), lambda j: par(h.d, j))
            return [('position', And(i >= i0, Implies(i > i0, And(i < h.n, par(h.d, i) >= i0)))), ('ordered-elsewhere', h.ordered(i0, i)), ('children-below-grandparent', up),
                    ('before', fa('k', lambda k: Implies(rng(0, k, If(i0 < o.n, i0, o.n)), And(h.key(k) == o.key(k), h.data(k) == o.data(k))), lambda k: h.a[k]))] + moved(o, h) + H.tags(h) + [
                ('others', others(o, h))]

        def inner(v):
            h = hv(v, v.self)
            i, t = v.i, v.target
            return [('range', And(v.l == h.d * i + 1, v.r == h.d * i + h.d, Implies(v.it > v.l, v.it - 1 <= h.lpf))),
                    ('best', And(Or(t == i, And(v.l <= t, t < v.it)), Implies(v.it > v.l, t <= h.lpf), Implies(t != i, h.le(t, i)),
                                 fa('k', lambda k: Implies(And(v.l <= k, k < v.it), h.le(t, k)), lambda k: h.a[k])))]
        lem = lambda v, h: [parent_range.use(I(v.self.d))]
        uniq = lambda v: ('@' + parent_unique.name, fa('j i', lambda j, i: parent_unique.inst(I(v.self.d), j, i), lambda j, i: (par(I(v.self.d), j), I(v.self.d) * i)), 'lemma')
        return {1: LoopSpec(inv=outer, variant=lambda v: If(v.i < I(v.self.heap._num), I(v.self.heap._num) - v.i, 0), init_lemmas=lambda v: [parent_range.use(I(v.self.d))],
                            end_lemmas=lambda v, h: [parent_unique.use(I(v.self.d), v.target, h.i)]),
                2: LoopSpec(inv=inner, init_lemmas=lambda v: [parent_children.use(I(v.self.d), v.i)])}


class hv:
    """heap view from a loop/entry view"""
    def __init__(self, v, s, hs=None):
        self.s, self.a, self.n, self.d = s, s.heap._data.arr, I(s.heap._num), I(s.d)
        self.lpf, self.items = I(s._last_pos_filled), s.heap
        self.K, self.D, self.nxt, self.W, self.P = v.heap('key'), v.heap('data'), v.nxt, s.g_W, s.g_P
    node, key, data, le, edge, ordered, distinct = H.node, H.key, H.data, H.le, H.edge, H.ordered, H.distinct


def others(o, n):
    f = lambda a, b: fa('r', lambda r: Implies(And(0 < r, r < o.nxt, fa('i', lambda i: Implies(rng(0, i, o.n), o.node(i) != r), lambda i: o.a[i])), b[r] == a[r]), lambda r: b[r])
    return And(f(o.K, n.K), f(o.D, n.D))


last_parent = Lemma('heap-last-parent', lambda d, n: fa('j', lambda j: Implies(And(d >= 1, n >= 0, 1 <= j, j < n), par(d, j) <= n / d), lambda j: par(d, j)),
                    lambda: [('monotone', [d_ >= 1, n_ >= 0, 1 <= j_, j_ < n_, n_ == d_ * (n_ / d_) + n_ % d_, n_ % d_ < d_, j_ - 1 == d_ * ((j_ - 1) / d_) + (j_ - 1) % d_, (j_ - 1) % d_ >= 0,
                                           Implies((j_ - 1) / d_ >= n_ / d_ + 1, d_ * ((j_ - 1) / d_) >= d_ * (n_ / d_ + 1)), d_ * (n_ / d_ + 1) == d_ * (n_ / d_) + d_], (j_ - 1) / d_ <= n_ / d_),
                             ('mult', [d_ >= 1, (j_ - 1) / d_ >= n_ / d_ + 1], d_ * ((j_ - 1) / d_) >= d_ * (n_ / d_ + 1)),
                             ('division', [d_ >= 1], And(n_ == d_ * (n_ / d_) + n_ % d_, n_ % d_ < d_, n_ % d_ >= 0))])
d_, n_, j_ = z3.Ints('d n j')


def _root_obls():
    r, n, d, j = z3.Const('r', RA), z3.Int('n'), z3.Int('d'), z3.Int('j')
    h = [d >= 1, fa('q', lambda q: Implies(And(1 <= q, q < n), r[par(d, q)] <= r[q]), lambda q: r[q])]
    return [('step', h + [0 <= j, j < n, Implies(j >= 1, _range(d, j)), fa('q', lambda q: Implies(And(0 <= q, q < j), r[0] <= r[q]), lambda q: r[q])], r[0] <= r[j])]


root_best = Lemma('heap-root-is-extreme', lambda r, n, d: Implies(And(d >= 1, fa('q', lambda q: Implies(And(1 <= q, q < n), r(par(d, q)) <= r(q)), lambda q: par(d, q))),
                                                                 fa('q', lambda q: Implies(rng(0, q, n), r(0) <= r(q)), lambda q: r(q))), _root_obls)


@register
class DHeap_build(_Heap):
    name = HP + '_build'
    uses = ('ODA_getitem_in', 'DHeap_heapify')

    def modifies(self, c):
        return super().modifies(c) + [('heap', '_leftmost'), ('heap', '_rightmost')]

    def post(self, c):
        o, n = self.o(c), self.n(c)
        self.rechoose(c, n)
        return [('heap-order', n.ordered(0))] + moved(o, n) + [('each-once', n.distinct())] + self.frame(c)

    def loops(self, u):
        def inv(v):
            h, o = hv(v, v.self), hv(v.old, v.old.self)
            return [('ordered-below', h.ordered(v.it + 1))] + H.tags(h) + moved(o, h) + [('others', others(o, h))]
        return {1: LoopSpec(), 2: LoopSpec(inv=inv, init_lemmas=lambda v: [last_parent.use(I(v.self.d), I(v.self.heap._num)), parent_range.use(I(v.self.d))])}


def grow_mods(k, c, me=None):
    me = me if me is not None else c.raw('self')
    s = wrap(c.eng, c.old, me).heap
    return _Heap.modifies(k, c) + [('heap', f) for f in ('_leftmost', '_rightmost', 'left', 'right', 'parent', 'height', 'size', 'is_root')] + [
        ('list', s._data.v, 'arr'), ('fld', s.v, '_data', ('list', 'elem')), ('fld', s.v, '_size'), ('fld', s.v, '_last_pos_filled'), ('fld', s.v, '_num'),
        ('fld', me, '_last_pos_filled'), ('nxt',)]


@register
class DHeap_insert(_Heap):
    name = HP + 'insert'
    uses = ('ODA_getitem_in', 'DHeap_swap', 'DODA_append_z')

    def setup(self, x):
        return [self.me(x), z3.Const('key', E), z3.Const('data', E)], {}

    def kd(self, c):
        e = lambda v: c.eng.encode(c.old, c.raw(v), 'elem')
        return e('key'), e('data')

    def pre(self, c):
        o = self.o(c)
        k = self.kd(c)[0]
        return super().pre(c) + [('ordered', o.ordered(0)), ('new-key', Not(isNone(k))), ('new-occurrence', fa('i', lambda i: Implies(rng(0, i, o.n), tag(o.key(i)) != tag(k)), lambda i: o.a[i]))]

    def modifies(self, c):
        return grow_mods(self, c)

    def gained(self, o, n, key, data):
        """the old occurrences and the new one"""
        w = lambda i: If(tag(n.key(i)) == tag(key), o.n, o.W[tag(n.key(i))])
        pick = lambda i, a, b: If(i == o.n, a, b)
        return [('one-more', n.n == o.n + 1),
                ('old-or-new', fa('i', lambda i: Implies(rng(0, i, n.n), And(n.key(i) == If(w(i) == o.n, key, o.key(w(i))), n.data(i) == If(w(i) == o.n, data, o.data(w(i))), rng(0, w(i), o.n + 1))), lambda i: n.a[i]))]

    def post(self, c):
        o, n = self.o(c), self.n(c)
        k, d = self.kd(c)
        c.set_ghost(c.raw('self'), '@P', c.ghost('P', Store(o.P, o.nxt, o.n)))
        n.P = c.gdefs['P'][0]
        self.rechoose(c, n)
        return [('heap-order', n.ordered(0))] + self.gained(o, n, k, d) + [('each-once', n.distinct())] + n.wf() + self.frame(c)

    def loops(self, u):
        def inv(v):
            h, o = hv(v, v.self), hv(v.old, v.old.self)
            i = v.i
            e = lambda x: v.eng.encode(v.st, v.raw(x), 'elem')
            d = h.d
            return [('position', rng(0, i, h.n)),
                    ('ordered-but-here', fa('j', lambda j: Implies(And(1 <= j, j < h.n, j != i), h.edge(j)), lambda j: par(d, j))),
                    ('children-above-parent', fa('j', lambda j: Implies(And(1 <= j, j < h.n, par(d, j) == i, i > 0), h.le(par(d, i), j)), lambda j: par(d, j)))] + H.tags(h) + self.gained(o, h, e('key'), e('data')) + H.wf(h) + [
                ('others', others(o, h))]
        gi = lambda v: {'@W': (v.self.v, '@W', Store(v.self.g_W, tag(v.eng.encode(v.st, v.raw('key'), 'elem')), v.i)), '@P': (v.self.v, '@P', Store(v.self.g_P, v.raw('new_node').t, v.i))}
        return {1: LoopSpec(inv=inv, ghost_init=gi, variant=lambda v: v.i, init_lemmas=lambda v: [parent_range.use(I(v.self.d))],
                            end_lemmas=lambda v, h: [parent_at.use(I(v.self.d), h.i)])}


@register
class DHeap_extract(_Heap):
    name = HP + 'extract'
    uses = ('ODA_getitem_in', 'DHeap_swap', 'DODA_delete_z', 'DHeap_heapify')

    def pre(self, c):
        return super().pre(c) + [('ordered', self.o(c).ordered(0))]

    def raises(self, c):
        return {'IndexError': self.o(c).n == 0}

    def modifies(self, c):
        return grow_mods(self, c)

    def result(self, c):
        return ('ref', 'TreeNode')

    def post(self, c):
        o, n = self.o(c), self.n(c)
        self.rechoose(c, n)
        w = lambda i: o.W[tag(n.key(i))]
        r = c.res.t
        return [('root-occurrence', And(n.K[r] == o.key(0), n.D[r] == o.data(0), r >= o.nxt)),
                ('extreme', fa('i', lambda i: Implies(rng(0, i, o.n), hrk(o.key(0)) <= hrk(o.key(i))), lambda i: o.a[i])),
                ('heap-order', n.ordered(0)), ('one-less', n.n == o.n - 1),
                ('the-others', fa('i', lambda i: Implies(rng(0, i, n.n), And(n.key(i) == o.key(w(i)), n.data(i) == o.data(w(i)), w(i) != 0, rng(0, w(i), o.n))), lambda i: n.a[i])),
                ('each-once', n.distinct())] + n.wf() + self.frame(c)

    def lemmas_post(self, c):
        o = self.o(c)
        return [root_best.use(lambda q: hrk(o.key(q)), o.n, o.d)]


@register
class DHeap_empty(_Heap):
    name = HP + 'is_empty'

    def modifies(self, c):
        return []

    def result(self, c):
        return 'bool'

    def post(self, c):
        return [('empty', c.res == (self.o(c).n == 0))]


@register
class DHeap_new(_Heap):
    """from nothing or from a list of distinct nodes"""
    name = HP + '__new__'
    variants = ('empty,min', 'empty,max', 'list,min', 'list,max', 'empty,middle')
    uses = ('DODA_new', 'DHeap_build')
    cls = 'DHeap'
    arity = None

    def setup(self, x):
        d = [z3.Int('arity')] if self.arity is None else []
        c = x.eng.prog.find_class(self.cls)
        src, prop = x.variant.split(',')
        return [c, x.list('l', 'elem') if src == 'list' else None, prop] + d, {}

    def lst(self, c):
        v = c.raw('elements')
        return None if v is None else c.o('elements')

    def keys(self, c):
        l = self.lst(c).arr
        return lambda i: c.oheap('key')[refof(l[i])]

    def pre(self, c):
        l = self.lst(c)
        out = [('arity', I(c.o('d')) >= 1)] if self.arity is None else []
        if isinstance(c.eng.unit.k, DHeap_new):
            e = z3.Const('oe', E)
            out.append(('order-instance', ForAll([e], hrk(e) == (rk(e) if c.raw('heap_property') == 'min' else -rk(e)), patterns=[hrk(e)])))
        if l is None:
            return out
        k = self.keys(c)
        out += [('nodes', fa('i', lambda i: Implies(rng(0, i, l.len), And(l.arr[i] == eref(refof(l.arr[i])), refof(l.arr[i]) > 0, refof(l.arr[i]) < c.old.nxt)), lambda i: l.arr[i])),
                ('distinct', fa('i j', lambda i, j: Implies(And(rng(0, i, l.len), rng(0, j, l.len), i != j), And(refof(l.arr[i]) != refof(l.arr[j]), tag(k(i)) != tag(k(j)))), lambda i, j: (l.arr[i], l.arr[j]))),
                ('keys', fa('i', lambda i: Implies(rng(0, i, l.len), Not(isNone(k(i)))), lambda i: l.arr[i]))]
        if isinstance(c.eng.unit.k, DHeap_new):
            W, Pn = z3.Const('W0', RA), z3.Const('P0', RA)
            out.append(('choice', fa('i', lambda i: Implies(rng(0, i, l.len), And(W[tag(k(i))] == i, Pn[refof(l.arr[i])] == i)), lambda i: l.arr[i])))
        return out

    def raises(self, c):
        return {'ValueError': BoolVal(c.raw('heap_property') not in ('min', 'max'))}

    def modifies(self, c):
        return [('heap', f) for f in ('_leftmost', '_rightmost') + (('key', 'data') if self.lst(c) is not None else ())]

    def result(self, c):
        raise Unsupported('call of DHeap.__new__ through its contract')

    def post(self, c):
        n = H(c, c.new, c.nheap, s=c.res)
        l = self.lst(c)
        self.rechoose(c, n)
        out = [('heap-order', n.ordered(0)), ('size', n.n == (0 if l is None else l.len)), ('each-once', n.distinct())] + n.wf()
        if self.arity is not None:
            out.append(('arity', n.d == self.arity))
        if l is not None:
            k, W = self.keys(c), z3.Const('W0', RA)
            dat = lambda i: c.oheap('data')[refof(l.arr[i])]
            w = lambda i: W[tag(n.key(i))]
            out.append(('same-entries', fa('i', lambda i: Implies(rng(0, i, n.n), And(rng(0, w(i), n.n), n.key(i) == k(w(i)), n.data(i) == dat(w(i)), n.a[i] == l.arr[i])), lambda i: n.a[i])))
        return out


@register
class BinaryHeap_new(DHeap_new):
    name = 'trees.heaps:BinaryHeap.__new__'
    cls, arity = 'BinaryHeap', 2


@register
class TernaryHeap_new(DHeap_new):
    name = 'trees.heaps:TernaryHeap.__new__'
    cls, arity = 'TernaryHeap', 3


HEAP_KEYS = ['DHeap_swap', 'DHeap_heapify', 'DHeap_build', 'DHeap_insert', 'DHeap_extract', 'DHeap_empty', 'DHeap_new', 'BinaryHeap_new', 'TernaryHeap_new']
