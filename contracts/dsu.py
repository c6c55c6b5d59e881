"""Disjoint-set forest.  Ghost state: rep (representative of every node), depth (acyclicity of the parent links) and
the cardinality of the classes; each operation gives the witnesses of the new ghost state explicitly."""
from .common import *
from . import register

DSU = 'miscellaneous_data_structures.disjoint_set:DisjointSetForest.'
RA = z3.ArraySort(IntS, IntS)
SetS = z3.ArraySort(IntS, BoolS)
card = z3.Function('card', SetS, IntS)
FIELDS = dict(parent=('ref', 'Set'), size='optint', key='key', data='elem')


CARD = 'cardinality of finite sets: a one-element set has 1 element; for disjoint sets |A| + |B| = |A u B|'


def card_one(A, r):
    return (CARD, Implies(fa('q', lambda q: A[q] == (q == r)), card(A) == 1), 'trusted')


def card_union(A, B_, U):
    return (CARD, Implies(And(fa('q', lambda q: Not(And(A[q], B_[q])), lambda q: A[q], lambda q: B_[q]),
                              fa('q', lambda q: U[q] == Or(A[q], B_[q]), lambda q: U[q])), card(U) == card(A) + card(B_)), 'trusted')


def far(n, f, *pats):
    return fa(n, f, *pats)


class G:
    """forest in one state: dict dom/map, heaps, ghosts rep/depth/cls"""
    def __init__(self, dom, mp, parent, size, key, nxt, rep, depth, cls):
        self.dom, self.map, self.parent, self.size, self.key, self.nxt, self.rep, self.depth, self.cls = dom, mp, parent, size, key, nxt, rep, depth, cls

    def node(self, r):
        return And(r > 0, r < self.nxt, self.dom[self.key[r]], self.map[self.key[r]] == r)

    def wf(self):
        k = z3.Const(fresh_name('k'), K)
        d = self
        return [('keys', ForAll([k], Implies(d.dom[k], And(d.map[k] > 0, d.map[k] < d.nxt, d.key[d.map[k]] == k)), patterns=[d.map[k]])),
                ('parents', far('r', lambda r: Implies(d.node(r), And(d.node(d.parent[r]), d.rep[d.parent[r]] == d.rep[r])), lambda r: d.parent[r])),
                ('representatives', far('r', lambda r: Implies(d.node(r), And(d.node(d.rep[r]), d.rep[d.rep[r]] == d.rep[r],
                                                                            (d.parent[r] == r) == (d.rep[r] == r))), lambda r: d.rep[r])),
                ('acyclic', far('r', lambda r: Implies(d.node(r), And(d.depth[r] >= 0, Implies(d.parent[r] != r, d.depth[d.parent[r]] < d.depth[r]))),
                                lambda r: d.depth[r])),
                ('classes', far('r q', lambda r, q: Implies(And(d.node(r), d.rep[r] == r), z3.Select(d.cls[r], q) == And(d.node(q), d.rep[q] == r)),
                                lambda r, q: z3.Select(d.cls[r], q))),
                ('sizes-are-numbers', far('r', lambda r: Implies(d.node(r), OI.is_oi_some(d.size[r])), lambda r: d.size[r])),
                ('sizes', far('r', lambda r: Implies(And(d.node(r), d.rep[r] == r), d.size[r] == OI.oi_some(card(d.cls[r]))), lambda r: d.size[r]))]


class _DSU(Contract):
    fields = FIELDS
    heap_classes = ('Set',)

    def fresh_forest(self, x):
        d = x.eng.new_cell(x.st, DictRec(z3.Const('dom0', z3.ArraySort(K, BoolS)), z3.Const('map0', z3.ArraySort(K, IntS)), 'key', ('ref', 'Set')))
        x['self'] = x.obj('DisjointSetForest', tree=d)
        x['rep'], x['depth'] = z3.Const('rep0', RA), z3.Const('depth0', RA)
        x['cls'] = z3.Const('cls0', z3.ArraySort(IntS, SetS))
        return x['self']

    def setup(self, x):
        return [self.fresh_forest(x), z3.Const('key', K)], {}

    def ghosts(self, c):
        x = c.cx
        return x['rep'], x['depth'], x['cls']

    def go(self, c):
        t = c.o('self').tree
        return G(t.dom, t.map, c.oheap('parent'), c.oheap('size'), c.oheap('key'), c.old.nxt, *self.ghosts(c))

    def gn(self, c, g):
        t = c.n('self').tree
        return G(t.dom, t.map, c.nheap('parent'), c.nheap('size'), c.nheap('key'), c.new.nxt, *g)

    def pre(self, c):
        return self.go(c).wf()


@register
class DSU_find_root(_DSU):
    name = DSU + 'find_root'

    def raises(self, c):
        return {'KeyError': Not(c.o('self').tree.dom[c.o('key')])}

    def result(self, c):
        return ('ref', 'Set')

    def modifies(self, c):
        return [('heap', 'parent')]

    def post(self, c):
        o = self.go(c)
        n = self.gn(c, self.ghosts(c))
        return [('root', c.res.t == o.rep[o.map[c.o('key')]])] + n.wf()

    @staticmethod
    def inv(v):
        k = v.eng.unit.k
        x = v.c
        t = v.self.tree
        g = G(t.dom, t.map, v.heap('parent'), v.heap('size'), v.heap('key'), v.nxt, x['rep'], x['depth'], x['cls'])
        s = v._set.t
        return g.wf() + [('node', And(g.node(s), g.rep[s] == g.rep[g.map[v.key]]))]
    loops = {1: LoopSpec(inv=lambda v: DSU_find_root.inv(v), variant=lambda v: v.c['depth'][v._set.t])}


@register
class DSU_union(_DSU):
    name = DSU + 'union'
    uses = ('DSU_find_root',)

    def setup(self, x):
        return [self.fresh_forest(x), z3.Const('key1', K), z3.Const('key2', K)], {}

    def raises(self, c):
        t = c.o('self').tree
        return {'KeyError': Or(Not(t.dom[c.o('key1')]), Not(t.dom[c.o('key2')]))}

    def modifies(self, c):
        return [('heap', 'parent'), ('heap', 'size')]

    def modifies_exc(self, c):
        return [('heap', 'parent')]         # the path of the known key is compressed before the unknown key is noticed

    def post_exc(self, c, exc):
        return self.gn(c, self.ghosts(c)).wf()          # the same representatives and sizes

    def post(self, c):
        o = self.go(c)
        x, y = o.rep[o.map[c.o('key1')]], o.rep[o.map[c.o('key2')]]
        np = c.nheap('parent')
        win = If(And(x != y, np[x] == y), y, x)           # the surviving representative
        lose = If(win == x, y, x)
        rep = c.ghost('rep', lambda r: If(o.rep[r] == lose, win, o.rep[r]))
        dep = c.ghost('depth', lambda r: If(And(o.rep[r] == lose, lose != win), o.depth[r] + o.depth[win] + 1, o.depth[r]))
        both = c.ghost('both', lambda q: Or(o.cls[win][q], o.cls[lose][q]))
        cls = c.ghost('cls', Store(o.cls, win, If(x == y, o.cls[x], both)))
        c.card = card_union(o.cls[win], o.cls[lose], both)
        n = self.gn(c, (rep, dep, cls))
        # same root afterwards iff same root before, or one in each of the two classes
        a, b = o.rep, lambda q: z3.Select(rep, q)
        joined = far('p q', lambda p, q: Implies(And(o.node(p), o.node(q)),
                                                 (b(p) == b(q)) == Or(a[p] == a[q], And(a[p] == x, a[q] == y), And(a[p] == y, a[q] == x))),
                     lambda p, q: (o.rep[p], o.rep[q]))
        return [('exactly-these-classes-joined', joined)] + n.wf()

    def lemmas_post(self, c):
        return [c.card]


@register
class DSU_find_size(_DSU):
    name = DSU + 'find_size'
    uses = ('DSU_find_root',)

    def raises(self, c):
        return {'KeyError': Not(c.o('self').tree.dom[c.o('key')])}

    def result(self, c):
        return 'optint'

    def modifies(self, c):
        return [('heap', 'parent')]

    def post(self, c):
        o = self.go(c)
        v = c.res
        return [('size-of-class', And(Not(v.isnone), v.val == card(o.cls[o.rep[o.map[c.o('key')]]])))] + self.gn(c, self.ghosts(c)).wf()


@register
class DSU_make_set(_DSU):
    name = DSU + 'make_set'

    def modifies(self, c):
        return [('heap', 'parent'), ('heap', 'size'), ('heap', 'key'), ('heap', 'data'), ('nxt',), ('dict', c.o('self').tree.v)]

    def post(self, c):
        o = self.go(c)
        k = c.o('key')
        t = c.n('self').tree
        new = t.map[k]
        has = o.dom[k]
        rep = c.ghost('rep', If(has, o.rep, Store(o.rep, new, new)))
        dep = c.ghost('depth', If(has, o.depth, Store(o.depth, new, 0)))
        one = c.ghost('one', lambda q: q == new)
        cls = c.ghost('cls', If(has, o.cls, Store(o.cls, new, one)))
        c.card = card_one(one, new)
        q = z3.Const(fresh_name('k'), K)
        return [('only-this-key-added', ForAll([q], And(t.dom[q] == Or(o.dom[q], q == k), Implies(o.dom[q], t.map[q] == o.map[q])),
                                               patterns=[t.dom[q]])),
                ('others-keep-their-class', far('r', lambda r: Implies(o.node(r), And(Implies(Not(has), new != r), z3.Select(rep, r) == o.rep[r])),
                                                lambda r: o.rep[r]))] + self.gn(c, (rep, dep, cls)).wf()

    def lemmas_post(self, c):
        return [c.card]


@register
class DSU_make_root(_DSU):
    name = DSU + 'make_root'

    def raises(self, c):
        return {'KeyError': Not(c.o('self').tree.dom[c.o('key')])}

    def modifies(self, c):
        return [('heap', 'parent'), ('heap', 'size')]

    def post(self, c):
        o = self.go(c)
        s = o.map[c.o('key')]
        old = o.rep[s]
        rep = c.ghost('rep', lambda r: If(o.rep[r] == old, s, o.rep[r]))
        dep = c.ghost('depth', lambda r: If(And(o.rep[r] == old, old != s), If(r == s, 0, o.depth[r] + 1), o.depth[r]))
        cls = c.ghost('cls', Store(o.cls, s, o.cls[old]))
        n = self.gn(c, (rep, dep, cls))
        same = far('p q', lambda p, q: Implies(And(o.node(p), o.node(q)),
                                               (z3.Select(rep, p) == z3.Select(rep, q)) == (o.rep[p] == o.rep[q])), lambda p, q: (o.rep[p], o.rep[q]))
        return [('key-is-representative', z3.Select(rep, s) == s), ('no-class-changes', same)] + n.wf()

    @staticmethod
    def inv(v):
        x, e = v.c, v.entry
        t = v.self.tree
        o = G(t.dom, t.map, e.heap('parent'), e.heap('size'), v.heap('key'), v.nxt, x['rep'], x['depth'], x['cls'])
        cp = v.current_parent.t
        return [('node', And(o.node(cp), o.rep[cp] == o.rep[v.key_set.t])),
                ('sizes-are-numbers', far('r', lambda r: Implies(o.node(r), OI.is_oi_some(v.heap('size')[r])), lambda r: v.heap('size')[r])),
                ('only-inner-sizes-change', far('r', lambda r: Implies(And(o.node(r), o.rep[r] == r), v.heap('size')[r] == o.size[r]),
                                                lambda r: v.heap('size')[r]))]
    loops = {1: LoopSpec(inv=lambda v: DSU_make_root.inv(v), variant=lambda v: v.c['depth'][v.current_parent.t])}
