"""Priority queues over the heap and linked-list contracts."""
from .common import *
from .heaps import _Heap, H, hrk, comp_between, grow_mods, root_best
from .linkedsq import _Box
from .linked import REF
from . import register

PQ = 'miscellaneous_data_structures.queue:'
PQ_KEYS = []


class _HPQ(_Heap):
    """binary heap implementation: items is a heap with d = 2"""
    variants = ('binary',)

    def me(self, x):
        h = _Heap.me(self, x)
        rec = x.st.store[h.id]
        x.st.store[h.id] = ObjRec('BinaryHeap', dict(rec.f, d=2))
        return x.obj('BinaryHeapPriorityQueue', items=h)

    def o(self, c):
        return H(c, c.old, c.oheap, s=c.o('self').items)

    def n(self, c):
        return H(c, c.new, c.nheap, s=c.n('self').items)

    def hv(self, c):
        return c.o('self').items.v


class PQH_push(_HPQ):
    name = PQ + 'BinaryHeapPriorityQueue.push'
    uses = ('DHeap_insert',)

    def setup(self, x):
        return [self.me(x), z3.Const('value', E), z3.Const('priority', E)], {}

    def pre(self, c):
        o = self.o(c)
        k = c.eng.encode(c.old, c.raw('priority'), 'elem')
        return o.wf() + o.tags() + [('ordered', o.ordered(0)), ('new-key', Not(isNone(k))), ('new-occurrence', fa('i', lambda i: Implies(rng(0, i, o.n), tag(o.key(i)) != tag(k)), lambda i: o.a[i]))]

    def modifies(self, c):
        return grow_mods(self, c, self.hv(c))

    def post(self, c):
        from .heaps import DHeap_insert
        o, n = self.o(c), self.n(c)
        e = lambda v: c.eng.encode(c.old, c.raw(v), 'elem')
        return [('heap-order', n.ordered(0))] + DHeap_insert.gained(self, o, n, e('priority'), e('value')) + [('each-once', n.distinct())] + n.wf()


class PQH_pop(_HPQ):
    name = PQ + 'BinaryHeapPriorityQueue.pop'
    uses = ('DHeap_extract',)

    def pre(self, c):
        o = self.o(c)
        return o.wf() + o.tags() + [('ordered', o.ordered(0))]

    def raises(self, c):
        return {'IndexError': self.o(c).n == 0}

    def modifies(self, c):
        return grow_mods(self, c, self.hv(c))

    def result(self, c):
        return 'elem'

    def post(self, c):
        o, n = self.o(c), self.n(c)
        w = lambda i: o.W[tag(n.key(i))]
        return [('value-of-the-root', c.res == o.data(0)),
                ('extreme', fa('i', lambda i: Implies(rng(0, i, o.n), hrk(o.key(0)) <= hrk(o.key(i))), lambda i: o.a[i])),
                ('heap-order', n.ordered(0)), ('one-less', n.n == o.n - 1),
                ('the-others', fa('i', lambda i: Implies(rng(0, i, n.n), And(n.key(i) == o.key(w(i)), n.data(i) == o.data(w(i)), w(i) != 0, rng(0, w(i), o.n))), lambda i: n.a[i])),
                ('each-once', n.distinct())] + n.wf()


class PQH_peek(_HPQ):
    name = PQ + 'BinaryHeapPriorityQueue.peek'
    uses = ('ODA_getitem_in', 'DHeap_empty')

    def raises(self, c):
        return {'IndexError': self.o(c).n == 0}

    def pre(self, c):
        o = self.o(c)
        return o.wf() + o.tags() + [('ordered', o.ordered(0))]

    def modifies(self, c):
        return []

    def result(self, c):
        return ('ref', 'TreeNode')

    def post(self, c):
        o = self.o(c)
        return [('root-node', (c.res.t if hasattr(c.res, 't') else refof(c.res)) == o.node(0)), ('extreme', fa('i', lambda i: Implies(rng(0, i, o.n), hrk(o.key(0)) <= hrk(o.key(i))), lambda i: o.a[i]))]

    def lemmas_post(self, c):
        o = self.o(c)
        return [root_best.use(lambda q: hrk(o.key(q)), o.n, o.d)]


class PQH_empty(_HPQ):
    name = PQ + 'BinaryHeapPriorityQueue.is_empty'
    uses = ('DHeap_empty',)

    def modifies(self, c):
        return []

    def result(self, c):
        return 'bool'

    def post(self, c):
        return [('empty', c.res == (self.o(c).n == 0))]


class _LPQ(_Box):
    fld, cls = 'items', 'LinkedListPriorityQueue'

    def pre(self, c):
        o = self.lo(c)
        return o.closed(False) + [('keys', fa('k', lambda k: Implies(rng(0, k, o.size), Not(isNone(o.key[o.S[k]]))), lambda k: o.S[k]))]

    def extra(self, x):
        return dict(comp=comp_between())

    def best(self, o, m):
        """position m holds an extreme priority"""
        return And(rng(0, m, o.size), fa('k', lambda k: Implies(rng(0, k, o.size), hrk(o.key[o.S[m]]) <= hrk(o.key[o.S[k]])), lambda k: o.S[k]))


class PQL_push(_LPQ):
    name = PQ + 'LinkedListPriorityQueue.push'
    uses = ('SLL_append',)

    def setup(self, x):
        return [self.me(x), z3.Const('value', E), z3.Const('priority', E)], {}

    def post(self, c):
        o, n = self.lo(c), self.ln(c)
        e = lambda v: c.eng.encode(c.old, c.raw(v), 'elem')
        return [('sequence', And(n.size == o.size + 1,
                                 fa('k', lambda k: Implies(rng(0, k, n.size), And(n.key[n.S[k]] == If(k == o.size, e('priority'), o.key[o.S[k]]), n.data[n.S[k]] == If(k == o.size, e('value'), o.data[o.S[k]]))),
                                    lambda k: n.S[k])))] + n.closed(False)


class PQL_find(_LPQ):
    name = PQ + 'LinkedListPriorityQueue._find_peek'
    variants = ('node', 'both')

    def setup(self, x):
        return [self.me(x), x.variant == 'both'], {}

    def both(self, c):
        v = c.raw('return_index')
        return v if isinstance(v, bool) else z3.is_true(z3.simplify(v))

    def raises(self, c):
        return {'IndexError': self.empty(c)}

    def modifies(self, c):
        return []

    def result(self, c):
        return ('tuple', REF, 'int') if self.both(c) else REF

    def post(self, c):
        o = self.lo(c)
        if self.both(c):
            r, m = c.res[0].t, I(c.res[1])
            return [('extreme', And(self.best(o, m), r == o.S[m]))]
        r = c.res.t
        return [('extreme', And(self.best(o, o.Q[r]), r == o.S[o.Q[r]]))]

    def loops(self, u):
        def inv(v):
            s = v.self.items
            S, key, i, m = s.g_S, v.heap('key'), v.i, v.max_i
            return [('walked', And(rng(0, i, s.size + 1), v.walk.t == If(i < s.size, S[i], 0), rng(0, m, s.size), v.max_p.t == S[m], Or(m < i, m == 0),
                                   fa('k', lambda k: Implies(rng(0, k, i), hrk(key[S[m]]) <= hrk(key[S[k]])), lambda k: S[k])))]
        return {1: LoopSpec(inv=inv, variant=lambda v: v.self.items.size - v.i)}


class PQL_pop(_LPQ):
    name = PQ + 'LinkedListPriorityQueue.pop'
    uses = ('PQL_find', 'SLL_extract')

    def raises(self, c):
        return {'IndexError': self.empty(c)}

    def result(self, c):
        return 'elem'

    def post(self, c):
        o, n = self.lo(c), self.ln(c)
        return [('one-less', n.size == o.size - 1),
                ('extreme-entry-removed', ex('m', lambda m: And(self.best(o, m), c.res == o.data[o.S[m]],
                                                                fa('k', lambda k: Implies(rng(0, k, n.size), And(n.key[n.S[k]] == o.key[o.S[If(k < m, k, k + 1)]], n.data[n.S[k]] == o.data[o.S[If(k < m, k, k + 1)]])),
                                                                   lambda k: n.S[k]))))] + n.closed(False)


class PQL_peek(_LPQ):
    name = PQ + 'LinkedListPriorityQueue.peek'
    uses = ('PQL_find',)

    def raises(self, c):
        return {'IndexError': self.empty(c)}

    def modifies(self, c):
        return []

    def result(self, c):
        return REF

    def post(self, c):
        o, r = self.lo(c), c.res.t
        return [('extreme', And(self.best(o, o.Q[r]), r == o.S[o.Q[r]]))]


class PQL_empty(_LPQ):
    name = PQ + 'LinkedListPriorityQueue.is_empty'

    def modifies(self, c):
        return []

    def result(self, c):
        return 'bool'

    def post(self, c):
        return [('empty', c.res == self.empty(c))]


for k in list(globals().values()):
    if isinstance(k, type) and k.__name__.startswith(('PQH_', 'PQL_')):
        k.key = k.__name__
        register(k)
        PQ_KEYS.append(k.__name__)
